//! C08: circles and arcs.
use super::prelude::*;
use rcgal::algorithm::location::location_enum::{Point2ArcSegment2Location as A, Point2Circle2Location as C};
use rcgal::algorithm::location::point_2_arc_segment_2::*;
use rcgal::algorithm::location::point_2_circle_segment_2::*;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::util_enum::Segment2Type;

fn circle_exact(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 500);
    let ctr = pt(s, &f);
    let r = match s.upto(3) {
        0 => radius(s, &f),
        1 => s.int(1, 500 << f.k.min(8)),
        _ => s.int(1, 40),
    };
    let m = 1 + s.idx(4);
    c.note(|| format!("circle {:?} r {}", f.fp(ctr), r as f64 * f.unit()));
    let circle = CircleSegment2::new(f.p(ctr), r as f64 * f.unit());
    ensure!(circle.segment_type() == Segment2Type::CircleSegment2, "segment type of a circle");
    ensure!(xy(&circle.center()) == f.fp(ctr) && circle.radius() == r as f64 * f.unit(), "centre/radius of {circle:?}");
    for _ in 0..m {
        let s = &mut c.src;
        let p = match s.upto(3) {
            0 => lattice_on_circle(s, ctr, r),
            1 => {
                let q = lattice_on_circle(s, ctr, r);
                (q.0 + s.zig(1), q.1 + s.zig(1))
            }
            2 => (ctr.0 + s.zig(2 * r), ctr.1 + s.zig(2 * r)),
            _ => ctr,
        };
        let g = sub(p, ctr);
        let q = dot(g, g) - r as i128 * r as i128;
        // distance to the circle in real units, far above the tolerance unless zero
        let gap = q.unsigned_abs() as f64 / (2.0 * r as f64 + 1.0) * f.unit();
        if q != 0 && gap < 1e-8 {
            return discard("near the circle");
        }
        let want = match q.signum() {
            0 => C::On,
            1 => C::Outside,
            _ => C::Inside,
        };
        c.note(|| format!("point {:?}", f.fp(p)));
        c.label(match want {
            C::On => "on",
            C::Inside => "inside",
            C::Outside => "outside",
        });
        c.nontrivial |= want == C::On || gap < 2.0 * f.unit();
        let got = locate_point_2_circle_segment_2(&f.p(p), &circle);
        ensure!(got == want, "{:?} against {circle:?}: {got:?}, expected {want:?}", f.fp(p));
        ensure!(is_point_2_on_circle_segment_2(&f.p(p), &circle) == (want == C::On), "{:?} on {circle:?}", f.fp(p));
    }
    Ok(())
}

/// Any doubles, the point built at a chosen distance.
fn circle_float(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let ctr = ((s.f01() * 2.0 - 1.0) * 500.0, (s.f01() * 2.0 - 1.0) * 500.0);
    let r = s.pick(&[0.125, 1.0, 10.0, 100.0, 500.0]) * (1.0 + s.f01());
    let phi = angle(s, false);
    let (d, want) = match s.upto(2) {
        0 => (0.0, C::On),
        1 => (s.pick(&[1e-8, 1e-6, 1e-3, 0.05]), C::Outside),
        _ => (-s.pick(&[1e-8, 1e-6, 1e-3, 0.05]), C::Inside),
    };
    let p = (ctr.0 + (r + d) * phi.cos(), ctr.1 + (r + d) * phi.sin());
    c.note(|| format!("circle {ctr:?} r {r}; point {p:?}, off by {d}"));
    c.nontrivial = true;
    let circle = CircleSegment2::new(Point2::new(ctr.0, ctr.1), r);
    let q = Point2::new(p.0, p.1);
    let got = locate_point_2_circle_segment_2(&q, &circle);
    ensure!(got == want, "{p:?} against circle {ctr:?} r {r}: {got:?}, expected {want:?}");
    ensure!(is_point_2_on_circle_segment_2(&q, &circle) == (want == C::On), "{p:?} on circle {ctr:?} r {r}");
    Ok(())
}

fn arc_case(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let (ctr, r) = if s.chance(1, 3) {
        // general doubles
        (((s.f01() * 2.0 - 1.0) * 500.0, (s.f01() * 2.0 - 1.0) * 500.0), s.pick(&[0.125, 1.0, 10.0, 100.0, 500.0]) * (1.0 + s.f01()))
    } else {
        let p = pt(s, &f);
        (f.fp(p), radius(s, &f) as f64 * f.unit())
    };
    let a = angle(s, true);
    let mut b = angle(s, true);
    match s.upto(7) {
        0 => b = a,
        1 => b = a + TAU,
        2 => b = a + std::f64::consts::PI,
        3 => b = a + s.pick(&[1e-3, 1e-2, 0.1]),
        4 => b = a - s.pick(&[1e-3, 1e-2, 0.1]),
        _ => {}
    }
    b = clear(a, b);
    let sp = span(a, b);
    let m = 1 + s.idx(6);
    c.note(|| format!("arc {ctr:?} r {r} from {a} to {b}"));
    let arc = ArcSegment2::new(CircleSegment2::new(Point2::new(ctr.0, ctr.1), r), a, b);
    ensure!(arc.segment_type() == Segment2Type::ArcSegment2, "segment type of an arc");
    ensure!(xy(&arc.center()) == ctr && arc.radius() == r, "centre/radius of {arc:?}");
    let at = |phi: f64, rr: f64| (ctr.0 + rr * phi.cos(), ctr.1 + rr * phi.sin());
    let size = ctr.0.abs() + ctr.1.abs() + r;
    let m4 = (b - a) / (2.0 * TAU);
    if (m4 - m4.round()).abs() > 1e-6 {
        // equal angles are re-anchored at the zero angle
        ensure!(near(xy(&arc.source()), at(a, r), 1e-12 * size), "source {:?}, expected {:?}", arc.source(), at(a, r));
        ensure!(near(xy(&arc.target()), at(b, r), 1e-12 * size), "target {:?}, expected {:?}", arc.target(), at(b, r));
        let turn = |x: f64| { let d = wrap(x); d.min(TAU - d) };
        ensure!(turn(arc.source_radian() - a) < 1e-12 && turn(arc.target_radian() - b) < 1e-12, "angles {} {} of {a} {b}", arc.source_radian(), arc.target_radian());
    } else {
        c.label("equal angles");
    }
    if TAU - sp < 1e-9 {
        c.label("full turn");
    }
    if wrap(a) + sp > TAU + 1e-9 {
        c.label("crosses the zero angle");
    }
    c.nontrivial = true;
    for _ in 0..m {
        let s = &mut c.src;
        let (phi, rr) = match s.upto(6) {
            0 => (a, r),
            1 => (b, r),
            2 => (a + sp * s.f01(), r),
            3 => (b + (TAU - sp) * s.f01(), r),
            4 => (angle(s, true), r),
            5 => (a + sp / 2.0, r),
            _ => (a + sp * s.f01(), r + s.pick(&[1e-8, -1e-8, 1e-3, -1e-3, 0.05, -0.05])),
        };
        let want = if rr != r {
            A::NotOn
        } else {
            match covers(a, b, phi, 1e-12) {
                Cover::Inside | Cover::End => A::On,
                Cover::Outside => A::NotOn,
                Cover::Unsure => continue,
            }
        };
        // rounding of the point moves its angle; stay clear of the ends unless exactly there
        if size / r > 1e4 {
            continue;
        }
        let p = at(phi, rr);
        c.note(|| format!("point {p:?} at angle {phi} expected {want:?}"));
        c.label(match want {
            A::On => "on",
            A::NotOn => if rr == r { "on the circle, beyond the arc" } else { "off the circle" },
        });
        let q = Point2::new(p.0, p.1);
        let got = locate_point_2_arc_segment_2(&q, &arc);
        ensure!(got == want, "point {p:?} (angle {phi}) against arc {ctr:?} r {r} from {a} to {b}: {got:?}, expected {want:?}");
        ensure!(is_point_2_on_arc_segment_2(&q, &arc) == (want == A::On), "is on arc: {p:?}");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "lattice and general circles with points on, inside and outside; arcs with end angles at multiples of pi/12, lattice directions or anywhere, shifted by -1..5 turns, with points at the ends, within, beyond and off the circle; non-trivial: a point on or within two units of the circle; all arcs; further stages: real: real coordinates of any sizes and places in general position, against plain formulas; signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; beside: real coordinates, points on a boundary to rounding or 3e-9..1e-6 beside it; small-scale/far-away: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("circle-exact", 40_000, 3_000_000, circle_exact),
            sub_check("circle-float", 30_000, 2_000_000, circle_float),
            sub_check("arc", 80_000, 6_000_000, arc_case),
            sub_check("arc-large", 30_000, 2_000_000, |c| crate::curve::large(c, arc_case)),
            sub_check("real", 100000, 5000000, crate::real::round),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[7, 8], 4)),
            sub_check("unequal", 20000, 1200000, |c| crate::unequal::check(c, &[7], 4)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[7, 8], 4)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[7, 8], 4)),
            sub_check("rotated-hundreds", 66666, 4000000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[7, 8], 4))),
            sub_check("beside", 300_000, 20_000_000, crate::probe::on_circle),
            sub_check("beside-hundreds", 100000, 6666666, |c| crate::curve::large(c, crate::probe::on_circle)),
            sub_check("small-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[7], 4, crate::nearmiss::Scale::Small)),
            sub_check("minute-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[7], 4, crate::nearmiss::Scale::Minute)),
            sub_check("far-away", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[7], 4, crate::nearmiss::Scale::Far)),
        ],
    }
}
