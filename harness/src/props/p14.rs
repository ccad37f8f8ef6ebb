//! C14: line segment against circle or arc.
use super::prelude::*;

pub fn tol_of(want: &[F2]) -> f64 {
    1e-8 * (1.0 + want.iter().fold(0.0f64, |m, p| m.max(p.0.abs()).max(p.1.abs())) / 100.0)
}

/// Both orders, both directions of segments, query and points.
pub fn check_pair(f: &Frame, a: &Shape, b: &Shape, want: &[F2]) -> R {
    let tol = tol_of(want);
    for (x, y) in [(*a, *b), (*b, *a), (a.reversed_seg(), b.reversed_seg()), (b.reversed_seg(), a.reversed_seg())] {
        let got = inter(f, &x, &y);
        ensure!(same_set(&got, want, tol), "{} and {}: {got:?}, expected {want:?}", x.show(f), y.show(f));
        let p = pred(f, &x, &y);
        ensure!(p == !want.is_empty(), "{} and {}: intersected is {p}, points {want:?}", x.show(f), y.show(f));
    }
    Ok(())
}

fn circle(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let (x, y) = pair(s, &f, 1, 0);
    c.note(|| format!("{} and {}", x.show(&f), y.show(&f)));
    let want = common(&f, &x, &y)?;
    let (Shape::Seg(a, b), Some((ctr, r))) = (y, x.circle()) else { unreachable!() };
    let side = |p: P| {
        let g = sub(p, ctr);
        (dot(g, g) - r as i128 * r as i128).signum()
    };
    c.label(match (want.len(), side(a), side(b)) {
        (0, -1, -1) => "inside",
        (0, _, _) => "outside",
        (1, 0, _) | (1, _, 0) => "one end on the circle",
        (1, x, y) if x != y => "crossing once",
        (1, _, _) => "tangent",
        (_, 0, 0) => "chord",
        _ => "secant",
    });
    c.nontrivial = !want.is_empty();
    check_pair(&f, &x, &y, &want)?;
    Ok(())
}

fn arc_case(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let (mut x, y) = pair(s, &f, 2, 0);
    if s.chance(1, 3) {
        // let the arc start or end where the segment's line through a lattice point is
        if let Shape::Arc(ctr, r, a, b) = x {
            let t = lattice_on_circle(s, ctr, r);
            let d = sub(t, ctr);
            let phi = (d.1 as f64).atan2(d.0 as f64);
            x = if s.chance(1, 2) { Shape::Arc(ctr, r, phi, b) } else { Shape::Arc(ctr, r, a, phi) };
            x = full_turns(x);
        }
    }
    c.note(|| format!("{} and {}", x.show(&f), y.show(&f)));
    let want = common(&f, &x, &y)?;
    let (ctr, r) = x.circle().unwrap();
    let whole = common(&f, &Shape::Circle(ctr, r), &y)?;
    c.label(match (whole.len(), want.len()) {
        (0, _) => "circle missed",
        (_, 0) => "circle met, arc missed",
        (2, 1) => "one of two points on the arc",
        (2, 2) => "two points",
        _ => "one point",
    });
    c.nontrivial = !whole.is_empty();
    check_pair(&f, &x, &y, &want)?;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "lattice circles and arcs with segments inside, outside, secant, tangent (axis-parallel and 3-4-5), ending on the circle, through the centre; case analysis in exact integers; non-trivial: the segment meets the full circle; real: two of any sizes at real coordinates in general position; further stages: signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; beside: real coordinates, points on a boundary to rounding or 3e-9..1e-6 beside it; arc-end: crossings placed on or just beside an arc's end; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("circle", 60_000, 5_000_000, circle), sub_check("arc", 60_000, 5_000_000, arc_case),
            sub_check("circle-large", 30_000, 2_000_000, |c| crate::curve::large(c, circle)), sub_check("arc-large", 30_000, 2_000_000, |c| large(c, arc_case)),
            sub_check("real", 300_000, 15_000_000, |c| super::p17::real_pair(c, &[0], &[1, 2])),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[101, 102, 103, 106], 4)),
            sub_check("unequal", 40000, 2400000, |c| crate::unequal::check(c, &[101, 102, 103, 106], 4)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[101, 102, 103, 106], 4)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[101, 102, 103, 106], 4)),
            sub_check("rotated-hundreds", 66666, 4000000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[101, 102, 103, 106], 4))),
            sub_check("beside", 300_000, 20_000_000, crate::probe::segment_circle),
            sub_check("beside-hundreds", 100000, 6666666, |c| crate::curve::large(c, crate::probe::segment_circle)),
            sub_check("arc-end", 300_000, 20_000_000, |c| crate::probe::arc_end(c, false)),
            sub_check("arc-end-hundreds", 100000, 6666666, |c| crate::curve::large(c, |c| crate::probe::arc_end(c, false))),
        ],
    }
}
