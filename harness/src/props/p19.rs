//! C19: convex hull.
use super::p04::show;
use super::prelude::*;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;

fn hull_of(f: &Frame, v: &[P]) -> Vec<F2> {
    xys(&ConvexHull2::new(f.pts(v)).convex_hull())
}

fn cloud(s: &mut Src, f: &Frame, max: usize) -> (Vec<P>, &'static str) {
    let n = s.idx(max + 1);
    match s.upto(6) {
        0 => ((0..n).map(|_| pt(s, f)).collect(), "any"),
        1 => {
            let mut v: Vec<P> = Vec::new();
            for _ in 0..n {
                let p = pt_rel(s, f, &v);
                v.push(p);
            }
            (v, "related")
        }
        2 => {
            let a = pt(s, f);
            let d = (s.zig(3), s.zig(3));
            (
                (0..n)
                    .map(|_| {
                        let k = s.zig((f.r / 3).max(1));
                        (a.0 + d.0 * k, a.1 + d.1 * k)
                    })
                    .collect(),
                "collinear",
            )
        }
        3 => {
            let w = 1 + s.upto(4) as i64;
            ((0..n).map(|_| (f.o.0 + s.zig(w), f.o.1 + s.zig(w))).collect(), "grid")
        }
        4 => {
            // on a parabola or a circle: everything is a corner
            let mut v: Vec<P> = (0..n as i64).map(|i| (f.o.0 + i - n as i64 / 2, f.o.1 + (i - n as i64 / 2).pow(2) / 4)).collect();
            if s.chance(1, 2) {
                v = v.iter().map(|p| symmetry(s.upto(7), *p)).collect();
            }
            (v, "curve")
        }
        5 => {
            // box with points on its sides
            let (w, h) = (1 + s.upto(f.r as u64) as i64, 1 + s.upto(f.r as u64) as i64);
            let v = (0..n)
                .map(|_| match s.upto(4) {
                    0 => (s.int(-w, w), -h),
                    1 => (s.int(-w, w), h),
                    2 => (-w, s.int(-h, h)),
                    3 => (w, s.int(-h, h)),
                    _ => (s.int(-w, w), s.int(-h, h)),
                })
                .map(|p| add(p, f.o))
                .collect();
            (v, "box")
        }
        _ => {
            let a = pt(s, f);
            (vec![a; n], "coinciding")
        }
    }
}

fn run(c: &mut Ctx, max: usize) -> R {
    let s = &mut c.src;
    let mut f = frame(s, 500);
    f.k = f.k.min(3);
    let (v, kind) = cloud(s, &f, max);
    c.note(|| format!("points {}", show(&f, &v)));
    c.label(kind);
    let want: Vec<F2> = hull(&v).iter().map(|p| f.fp(*p)).collect();
    c.nontrivial = want.len() >= 3 && want.len() < v.len();
    let got = hull_of(&f, &v);
    ensure!(got == want, "hull {got:?}, expected {want:?}");
    // order and repetition of the input
    let s = &mut c.src;
    let p = s.perm(v.len());
    let mut w: Vec<P> = p.iter().map(|i| v[*i]).collect();
    if !w.is_empty() {
        for _ in 0..s.upto(4) {
            let (i, j) = (s.idx(w.len()), s.idx(w.len()));
            let q = w[i];
            w.insert(j, q);
        }
    }
    let g2 = hull_of(&f, &w);
    ensure!(g2 == want, "hull of the rearranged points {} is {g2:?}, expected {want:?}", show(&f, &w));
    // hull of the hull, and asking again
    let mut h = ConvexHull2::new(f.pts(&v));
    let a = h.convex_hull();
    let b = h.convex_hull();
    ensure!(xys(&a) == want && xys(&b) == want, "asking twice gives {a:?} then {b:?}, expected {want:?}");
    let hh = xys(&ConvexHull2::new(a).convex_hull());
    ensure!(hh == want, "hull of the hull {hh:?}, expected {want:?}");
    Ok(())
}
fn small(c: &mut Ctx) -> R {
    run(c, 12)
}
fn huge(c: &mut Ctx) -> R {
    run(c, 3000)
}
fn large(c: &mut Ctx) -> R {
    run(c, 200)
}

/// Points added to, or replaced in, the same object between calls.
fn reuse(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let mut f = frame(s, 500);
    f.k = f.k.min(3);
    let (mut v, _) = cloud(s, &f, 20);
    let mut h = ConvexHull2::new(f.pts(&v));
    c.note(|| format!("points {}", show(&f, &v)));
    for _ in 0..2 + c.src.idx(4) {
        let s = &mut c.src;
        // the hull may have rearranged the points it holds, never changed which they are
        match s.upto(3) {
            0 | 1 => {
                let p = pt_rel(s, &f, &v);
                v.push(p);
                h.points.push(f.p(p));
            }
            2 => {
                if let Some(q) = h.points.pop() {
                    if let Some(i) = v.iter().position(|p| f.fp(*p) == xy(&q)) {
                        v.remove(i);
                    } else {
                        return fail(format!("the held points contain {q:?}, which was never given"));
                    }
                }
            }
            _ => {}
        }
        c.note(|| format!("now {}", show(&f, &v)));
        let want: Vec<F2> = hull(&v).iter().map(|p| f.fp(*p)).collect();
        c.nontrivial |= want.len() >= 3;
        let got = xys(&h.convex_hull());
        ensure!(got == want, "hull {got:?}, expected {want:?}");
        if h.points.len() != v.len() {
            return discard("the object does not keep its points");
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "0-200 (huge: up to 3000) lattice points: any, related, collinear, gridded, on a curve, on box sides, coinciding; rearranged and repeated, asked twice, hull of the hull, and reused objects; against gift wrapping in exact integers; non-trivial: 3+ corners and at least one point that is not a corner (or 3+ corners for reuse); further stages: real: real coordinates of any sizes and places in general position, against plain formulas; signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; small-scale/tiny-scale/far-away: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("small", 40_000, 3_000_000, small),
            sub_check("large", 6_000, 500_000, large),
            sub_check("huge", 800, 60_000, huge),
            sub_check("reuse", 15_000, 1_000_000, reuse),
            sub_check("real", 8000, 400000, crate::real::hulls),
            sub_check("near-miss", 20_000, 1_200_000, |c| crate::nearmiss::check(c, &[18], 14)),
            sub_check("unequal", 40000, 2400000, |c| crate::unequal::check(c, &[18], 12)),
            sub_check("rotated", 20000, 1200000, |c| crate::rotated::check(c, &[18], 14)),
            sub_check("signed-zero", 10000, 600000, |c| crate::signs::check(c, &[18], 14)),
            sub_check("rotated-hundreds", 6666, 400000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[18], 14))),
            sub_check("small-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[18], 14, crate::nearmiss::Scale::Small)),
            sub_check("tiny-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[18], 14, crate::nearmiss::Scale::Tiny)),
            sub_check("rotated-large", 3000, 180000, |c| crate::rotated::check(c, &[18], 80)),
            sub_check("far-away", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[18], 14, crate::nearmiss::Scale::Far)),
        ],
    }
}
