//! C03: turns and triangles.
use super::prelude::*;
use rcgal::kernel::triangle_2::Triangle2;
use rcgal::kernel::util_enum::{Orientation, TurnDirection};

pub fn turn_of(o: i128) -> TurnDirection {
    match o.signum() {
        1 => TurnDirection::Left,
        -1 => TurnDirection::Right,
        _ => TurnDirection::Collinear,
    }
}

fn same(a: &[Point2<f64>], b: &[Point2<f64>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(p, q)| xy(p) == xy(q))
}

fn triangle(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 1000);
    let a = pt_rel(s, &f, &[]);
    let b = pt_rel(s, &f, &[a]);
    let d = pt_rel(s, &f, &[a, b]);
    let flips = s.upto(4);
    let t3 = [a, b, d];
    let o = orient(a, b, d);
    c.note(|| format!("triangle {:?} {:?} {:?}", f.fp(a), f.fp(b), f.fp(d)));
    c.nontrivial = a != b && b != d && a != d;
    c.label(if o == 0 { "collinear" } else if o > 0 { "left" } else { "right" });
    let u = f.unit();
    let area = o as f64 * u * u / 2.0;
    for (k, sign) in [([0, 1, 2], 1), ([1, 2, 0], 1), ([2, 0, 1], 1), ([1, 0, 2], -1), ([0, 2, 1], -1), ([2, 1, 0], -1)] {
        let p: Vec<Point2<f64>> = k.iter().map(|i| f.p(t3[*i])).collect();
        let got = Point2::turn(&p[0], &p[1], &p[2]);
        let want = turn_of(o * sign);
        ensure!(got == want, "turn {p:?} is {got:?}, expected {want:?}");
        let mut tri = Triangle2::new(p[0], p[1], p[2]);
        for round in 0..=flips {
            let flip = if round % 2 == 1 { -1.0 } else { 1.0 };
            if o != 0 {
                let want = if (o * sign > 0) == (flip > 0.0) { Orientation::CounterClockwise } else { Orientation::Clockwise };
                ensure!(tri.orientation() == want, "orientation of {p:?} after {round} reversals is {:?}", tri.orientation());
            }
            let want = area * sign as f64 * flip;
            ensure!(tri.area() == want, "area of {p:?} after {round} reversals is {}, expected {want}", tri.area());
            ensure!(same(&tri.vertices(), &p) && same(&[tri.a(), tri.b(), tri.c()], &p), "vertices of {p:?}: {:?}", tri.vertices());
            let e = tri.edges();
            ensure!(e.len() == 3, "edges of {p:?}");
            for i in 0..3 {
                ensure!(same(&[e[i].source(), e[i].target()], &[p[i], p[(i + 1) % 3]]), "edge {i} of {p:?} is {:?}", e[i]);
            }
            if round < flips {
                tri.reverse_orientation();
            }
        }
        if flips % 2 == 0 {
            ensure!(tri == Triangle2::new(p[0], p[1], p[2]), "{p:?} reversed {flips} times is another triangle");
        }
    }
    Ok(())
}

/// Clearly turning triples of arbitrary doubles.
fn turn_float(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let m = s.pick(&[1.0, 100.0, 1000.0, 1e-2]);
    let mut p = || ((s.f01() * 2.0 - 1.0) * m, (s.f01() * 2.0 - 1.0) * m);
    let (a, b, d) = (p(), p(), p());
    let cr = (b.0 - a.0) * (d.1 - a.1) - (b.1 - a.1) * (d.0 - a.0);
    c.note(|| format!("{a:?} {b:?} {d:?}"));
    if cr.abs() < 1e-8 || cr.abs() < 1e-9 * m * m {
        return discard("nearly collinear");
    }
    c.nontrivial = true;
    let q = |v: F2| Point2::new(v.0, v.1);
    let got = Point2::turn(&q(a), &q(b), &q(d));
    let want = if cr > 0.0 { TurnDirection::Left } else { TurnDirection::Right };
    ensure!(got == want, "turn {a:?} {b:?} {d:?} is {got:?}, expected {want:?}");
    let t = Triangle2::new(q(a), q(b), q(d));
    ensure!((t.area() - cr / 2.0).abs() <= 1e-12 * m * m * 4.0, "area {} expected {}", t.area(), cr / 2.0);
    ensure!((t.orientation() == Orientation::CounterClockwise) == (cr > 0.0), "orientation {:?} for cross {cr}", t.orientation());
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "lattice triples (repeated, collinear, sharing coordinates) in all six orders with 0-4 reversals, and clearly turning triples of doubles; non-trivial: three different points; further stages: real: real coordinates of any sizes and places in general position, against plain formulas; signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; beside: real coordinates, points on a boundary to rounding or 3e-9..1e-6 beside it; small-scale/tiny-scale/far-away: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("triangle", 60_000, 5_000_000, triangle),
            sub_check("turn-float", 30_000, 2_000_000, turn_float),
            sub_check("real", 150000, 7500000, crate::real::triangles),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[0, 1], 4)),
            sub_check("unequal", 40000, 2400000, |c| crate::unequal::check(c, &[0, 1], 4)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[0, 1], 4)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[0, 1], 4)),
            sub_check("rotated-hundreds", 66666, 4000000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[1], 4))),
            sub_check("beside", 300_000, 20_000_000, crate::probe::turn),
            sub_check("small-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[0, 1], 4, crate::nearmiss::Scale::Small)),
            sub_check("minute-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[0, 1], 4, crate::nearmiss::Scale::Minute)),
            sub_check("tiny-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[1], 4, crate::nearmiss::Scale::Tiny)),
            sub_check("far-away", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[0, 1], 4, crate::nearmiss::Scale::Far)),
        ],
    }
}
