//! C13: two line segments.
use super::prelude::*;
use rcgal::algorithm::intersection::segment_2_segment_2::*;

fn check(c: &mut Ctx, f: &Frame, a: P, b: P, x: P, y: P) -> R {
    c.note(|| format!("segments {:?} {:?} and {:?} {:?}", f.fp(a), f.fp(b), f.fp(x), f.fp(y)));
    let want: Vec<F2> = seg_seg(a, b, x, y).iter().map(|r| r.f(f.unit())).collect();
    let par = cross(sub(b, a), sub(y, x)) == 0;
    c.label(match (want.len(), par) {
        (0, true) => if orient(a, b, x) == 0 { "collinear apart" } else { "parallel" },
        (0, false) => "disjoint",
        (1, true) => "collinear touching",
        (1, false) => {
            if [a, b].iter().any(|p| on_seg(*p, x, y)) || [x, y].iter().any(|p| on_seg(*p, a, b)) { "touching" } else { "crossing" }
        }
        _ => "overlapping",
    });
    c.nontrivial = !want.is_empty() || par;
    let tol = 1e-9 * (1.0 + want.iter().fold(0.0f64, |m, p| m.max(p.0.abs()).max(p.1.abs())));
    for (p, q, u, v) in [(a, b, x, y), (b, a, x, y), (a, b, y, x), (b, a, y, x), (x, y, a, b), (y, x, a, b), (x, y, b, a), (y, x, b, a)] {
        let (s1, s2) = (Shape::Seg(p, q), Shape::Seg(u, v));
        let got = inter(f, &s1, &s2);
        ensure!(same_set(&got, &want, tol), "{} and {}: {got:?}, expected {want:?}", s1.show(f), s2.show(f));
        ensure!(pred(f, &s1, &s2) == !want.is_empty(), "{} and {}: intersected is {}, points {want:?}", s1.show(f), s2.show(f), pred(f, &s1, &s2));
    }
    Ok(())
}

fn lattice(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 1000);
    let a = pt(s, &f);
    let mut b = pt_rel(s, &f, &[a]);
    if a == b {
        b = (a.0 + 1, a.1 + s.zig(2));
    }
    let x = pt_rel(s, &f, &[a, b]);
    let mut y = pt_rel(s, &f, &[a, b, x]);
    if x == y {
        y = (x.0 + s.zig(2), x.1 + 1);
    }
    check(c, &f, a, b, x, y)
}

/// Segments of about a thousandth of a unit.
fn tiny(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = Frame { r: s.pick(&[1i64, 2, 5, 20]), k: 10, o: (s.zig(1024 * 20), s.zig(1024 * 20)) };
    let a = pt(s, &f);
    let mut b = pt_rel(s, &f, &[a]);
    if a == b {
        b = (a.0 + 1, a.1);
    }
    let x = pt_rel(s, &f, &[a, b]);
    let mut y = pt_rel(s, &f, &[a, b, x]);
    if x == y {
        y = (x.0, x.1 + 1);
    }
    check(c, &f, a, b, x, y)
}

/// On one line: all orders of four positions.
fn collinear(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let k = [0u32, 3, 10][s.weighted(&[6, 2, 1])];
    let f = Frame { r: 100, k, o: (0, 0) };
    let o = (s.zig(50), s.zig(50));
    let d = match s.upto(2) {
        0 => symmetry(s.upto(7), (1, 0)),
        1 => (s.zig(3), s.zig(3)),
        _ => (s.zig(12), s.zig(12)),
    };
    let d = if d == (0, 0) { (1, 1) } else { d };
    let mut t = [s.zig(6), s.zig(6), s.zig(6), s.zig(6)];
    if t[0] == t[1] {
        t[1] += 1;
    }
    if t[2] == t[3] {
        t[3] += 1;
    }
    let at = |k: i64| (o.0 + d.0 * k, o.1 + d.1 * k);
    check(c, &f, at(t[0]), at(t[1]), at(t[2]), at(t[3]))
}

/// Arbitrary doubles, clearly crossing or clearly apart.
fn general(c: &mut Ctx) -> R {
    use rcgal::kernel::line_segment_2::LineSegment2;
    let s = &mut c.src;
    let m = s.pick(&[1.0, 100.0, 1000.0, 0.01]);
    let mut p = || ((s.f01() * 2.0 - 1.0) * m, (s.f01() * 2.0 - 1.0) * m);
    let (a, b, x, y) = (p(), p(), p(), p());
    c.note(|| format!("segments {a:?} {b:?} and {x:?} {y:?}"));
    let cr = |u: F2, v: F2, w: F2| (v.0 - u.0) * (w.1 - u.1) - (v.1 - u.1) * (w.0 - u.0);
    let o = [cr(a, b, x), cr(a, b, y), cr(x, y, a), cr(x, y, b)];
    if o.iter().any(|v| v.abs() < 1e-8 || v.abs() < 1e-7 * m * m) {
        return discard("nearly touching");
    }
    let want = o[0] * o[1] < 0.0 && o[2] * o[3] < 0.0;
    c.label(if want { "crossing" } else { "disjoint" });
    c.nontrivial = want;
    let q = |v: F2| Point2::new(v.0, v.1);
    let (l1, l2) = (LineSegment2::new(q(a), q(b)), LineSegment2::new(q(x), q(y)));
    for (u, v) in [(&l1, &l2), (&l2, &l1)] {
        ensure!(is_segment_2_segment_2_intersected(u, v) == want, "{u:?} {v:?}: expected {want}");
        let got = xys(&segment_2_segment_2_intersection(u, v));
        if want {
            let t = o[2] / (o[2] - o[3]);
            let w = (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t);
            ensure!(same_set(&got, &[w], 1e-7 * m.max(1.0)), "{u:?} {v:?}: {got:?}, expected {w:?}");
        } else {
            ensure!(got.is_empty(), "{u:?} {v:?}: {got:?}, expected none");
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "lattice pairs with related end points (lengths 1e-3 to 1e3), all eight orders of arguments and ends; collinear quadruples; general doubles; non-trivial: the segments meet or are parallel; real: two of any sizes at real coordinates in general position; further stages: signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; beside: real coordinates, points on a boundary to rounding or 3e-9..1e-6 beside it; one-line: four points on one line up to rounding; small-scale: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("lattice", 50_000, 4_000_000, lattice),
            sub_check("tiny", 20_000, 1_500_000, tiny),
            sub_check("collinear", 25_000, 1_500_000, collinear),
            sub_check("general", 30_000, 2_000_000, general),
            sub_check("real", 300_000, 15_000_000, |c| super::p17::real_pair(c, &[0], &[0])),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[100], 4)),
            sub_check("unequal", 40000, 2400000, |c| crate::unequal::check(c, &[100], 4)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[100], 4)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[100], 4)),
            sub_check("rotated-hundreds", 66666, 4000000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[100], 4))),
            sub_check("beside", 300_000, 20_000_000, crate::probe::segments),
            sub_check("beside-hundreds", 100000, 6666666, |c| crate::curve::large(c, crate::probe::segments)),
            sub_check("one-line", 400_000, 24_000_000, crate::probe::one_line),
            sub_check("one-line-hundreds", 133333, 8000000, |c| crate::curve::large(c, crate::probe::one_line)),
            sub_check("small-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[100], 4, crate::nearmiss::Scale::Small)),
            sub_check("minute-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[100], 4, crate::nearmiss::Scale::Minute)),
        ],
    }
}
