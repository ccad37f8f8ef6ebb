//! C07: point against simple polygon.
use super::p04::{gen_simple, poly, poly_frame_for, show};
use super::prelude::*;
use rcgal::algorithm::location::location_enum::Point2Polygon2Location as L;
use rcgal::algorithm::location::point_2_polygon_2::*;

pub fn want(p: P, v: &[P]) -> L {
    match point_in_polygon(p, v) {
        0 => L::Outside,
        1 => L::On,
        _ => L::Inside,
    }
}

fn run(c: &mut Ctx, max_n: usize) -> R {
    let s = &mut c.src;
    let f = poly_frame_for(s, max_n);
    let v = gen_simple(s, &f, max_n);
    let n = v.len();
    let rot = s.idx(n);
    let m = 1 + s.idx(8);
    c.note(|| format!("polygon {}", show(&f, &v)));
    let convex = convex_by_turns(&v);
    c.label(if convex { "convex" } else { "concave" });
    let mut w = v.clone();
    w.rotate_left(rot);
    w.reverse();
    let lists = [poly(&f, &v), poly(&f, &w)];
    let (mut lo, mut hi) = (v[0], v[0]);
    for p in &v {
        lo = (lo.0.min(p.0), lo.1.min(p.1));
        hi = (hi.0.max(p.0), hi.1.max(p.1));
    }
    for _ in 0..m {
        let s = &mut c.src;
        let i = s.idx(n);
        let (a, b, d) = (v[i], v[(i + 1) % n], v[(i + 2) % n]);
        let inner = |s: &mut Src| (s.int(lo.0 - 1, hi.0 + 1), s.int(lo.1 - 1, hi.1 + 1));
        let p = match s.upto(6) {
            0 => inner(s),
            1 => a,
            2 => midpoint_on(s, a, b).unwrap_or(a),
            3 => (inner(s).0, a.1), // level with a vertex
            4 => (a.0, inner(s).1),
            5 => {
                let e = sub(b, a);
                let k = s.pick(&[2, -1, 3]);
                (a.0 + e.0 * k, a.1 + e.1 * k)
            }
            _ => ((a.0 + b.0 + d.0).div_euclid(3), (a.1 + b.1 + d.1).div_euclid(3)),
        };
        let wl = want(p, &v);
        c.note(|| format!("point {:?}", f.fp(p)));
        c.label(match wl {
            L::On => "on",
            L::Inside => "inside",
            L::Outside => "outside",
        });
        c.nontrivial |= !convex && v.iter().any(|q| q.1 == p.1);
        let q = f.p(p);
        for (name, pl) in ["given", "reversed"].iter().zip(&lists) {
            let got = locate_point_2_polygon_2(&q, pl);
            ensure!(got == wl, "{:?} against the {name} polygon {}: {got:?}, expected {wl:?}", f.fp(p), show(&f, &v));
            let q3 = (is_point_2_on_polygon_2(&q, pl), is_point_2_inside_polygon_2(&q, pl), is_point_2_outside_polygon_2(&q, pl));
            ensure!(q3 == (wl == L::On, wl == L::Inside, wl == L::Outside), "{:?}: on/inside/outside queries {q3:?}, located {wl:?}", f.fp(p));
        }
    }
    Ok(())
}
fn small(c: &mut Ctx) -> R {
    run(c, 10)
}
fn huge(c: &mut Ctx) -> R {
    run(c, 300)
}
fn large(c: &mut Ctx) -> R {
    run(c, 60)
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "simple polygons of 3-60 (huge: up to 300) vertices (hulls, random insertion, stars, chains, histograms, spirals, combs), both directions, 1-8 related points each; non-trivial: a concave polygon with a point level with one of its vertices; further stages: real: real coordinates of any sizes and places in general position, against plain formulas; signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; beside: real coordinates, points on a boundary to rounding or 3e-9..1e-6 beside it; small-scale/far-away: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("small", 40_000, 3_000_000, small), sub_check("large", 10_000, 800_000, large), sub_check("huge", 3000, 200_000, huge),
            sub_check("real", 20000, 1000000, crate::real::in_polygon),
            sub_check("near-miss", 20_000, 1_200_000, |c| crate::nearmiss::check(c, &[6], 20)),
            sub_check("unequal", 40000, 2400000, |c| crate::unequal::check(c, &[6], 12)),
            sub_check("rotated", 20000, 1200000, |c| crate::rotated::check(c, &[6], 20)),
            sub_check("signed-zero", 10000, 600000, |c| crate::signs::check(c, &[6], 20)),
            sub_check("rotated-hundreds", 6666, 400000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[6], 20))),
            sub_check("rotated-large", 8000, 480000, |c| crate::rotated::check(c, &[6], 50)),
            sub_check("beside", 300_000, 20_000_000, crate::probe::polygon),
            sub_check("beside-hundreds", 100000, 6666666, |c| crate::curve::large(c, crate::probe::polygon)),
            sub_check("small-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[6], 14, crate::nearmiss::Scale::Small)),
            sub_check("minute-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[6], 14, crate::nearmiss::Scale::Minute)),
            sub_check("far-away", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[6], 14, crate::nearmiss::Scale::Far)),
        ],
    }
}
