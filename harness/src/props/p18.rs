//! C18: simplicity.
use super::p04::{gen_simple, poly, poly_frame_for, show};
use super::prelude::*;

fn judge(c: &mut Ctx, f: &Frame, v: &[P]) -> R {
    let n = v.len();
    let want = is_simple(v);
    c.note(|| format!("polygon {}", show(f, v)));
    c.label(if want { "simple" } else { "not simple" });
    let rot = c.src.idx(n);
    let mut w = v.to_vec();
    w.rotate_left(rot);
    let mut r = v.to_vec();
    r.reverse();
    for (name, list) in [("given", v), ("rotated", &w), ("reversed", &r)] {
        let got = poly(f, list).is_simple();
        ensure!(got == want, "is_simple of the {name} list is {got}, expected {want}: {}", show(f, list));
    }
    Ok(())
}

fn why(v: &[P]) -> &'static str {
    let n = v.len();
    for i in 0..n {
        if v[i] == v[(i + 1) % n] {
            return "zero-length edge";
        }
    }
    for i in 0..n {
        for j in i + 1..n {
            if v[i] == v[j] {
                return "repeated vertex";
            }
        }
    }
    for i in 0..n {
        for j in 0..n {
            if j != i && (j + 1) % n != i && on_seg(v[i], v[j], v[(j + 1) % n]) {
                return "vertex on an edge";
            }
        }
    }
    "crossing edges"
}

fn random(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let mut f = frame(s, 500);
    f.k = f.k.min(3);
    let n = s.pick(&[4usize, 5, 7, 10, 20]);
    let v = vertex_list(s, &f, n);
    c.nontrivial = v.len() >= 4;
    if !is_simple(&v) {
        c.label(why(&v));
    }
    judge(c, &f, &v)
}

fn mutated(c: &mut Ctx, max: usize) -> R {
    let s = &mut c.src;
    let f = poly_frame_for(s, max);
    let base = gen_simple(s, &f, max);
    let v = mutate_polygon(s, &base);
    if v.len() < 3 {
        return discard("fewer than three vertices");
    }
    if v.len() >= 75 {
        c.label("75+ vertices");
    }
    c.nontrivial = true;
    if !is_simple(&v) {
        c.label(why(&v));
    }
    judge(c, &f, &v)
}
fn small(c: &mut Ctx) -> R {
    mutated(c, 10)
}
fn huge(c: &mut Ctx) -> R {
    mutated(c, 150)
}
fn large(c: &mut Ctx) -> R {
    mutated(c, 40)
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "random related vertex lists (mostly not simple) and simple polygons of 3-40 (huge: up to 150) vertices with at most one spoiled spot (vertex on an edge, repeated vertex, swap, spike, fold-back, nudge), each also rotated and reversed, against exact pairwise edge tests; non-trivial: a mutated polygon, or 4+ random vertices; further stages: real: real coordinates of any sizes and places in general position, against plain formulas; signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; small-scale: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("random", 30_000, 2_500_000, random),
            sub_check("spoiled-small", 25_000, 2_000_000, small),
            sub_check("spoiled-large", 5_000, 400_000, large),
            sub_check("huge", 1000, 60_000, huge),
            sub_check("real", 10000, 500000, crate::real::simple),
            sub_check("near-miss", 12_000, 720_000, |c| crate::nearmiss::check(c, &[3], 12)),
            sub_check("unequal", 10000, 600000, |c| crate::unequal::check(c, &[3], 10)),
            sub_check("rotated", 12000, 720000, |c| crate::rotated::check(c, &[3], 12)),
            sub_check("signed-zero", 6000, 360000, |c| crate::signs::check(c, &[3], 12)),
            sub_check("rotated-hundreds", 4000, 240000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[3], 12))),
            sub_check("rotated-large", 2000, 120000, |c| crate::rotated::check(c, &[3], 30)),
            sub_check("small-scale", 6000, 360000, |c| crate::nearmiss::scaled(c, &[3], 12, crate::nearmiss::Scale::Small)),
            sub_check("minute-scale", 6000, 360000, |c| crate::nearmiss::scaled(c, &[3], 12, crate::nearmiss::Scale::Minute)),
        ],
    }
}
