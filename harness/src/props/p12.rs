//! C12: projections.
use super::prelude::*;
use rcgal::algorithm::projection::point_2_line_2::*;
use rcgal::algorithm::projection::point_2_line_segment_2::*;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;

fn on_line(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 500);
    let r = s.pick(&[1i64, 3, 10, 100]);
    let (mut a, mut b) = (s.zig(r), s.zig(r));
    match s.upto(4) {
        0 => a = 0,
        1 => b = 0,
        _ => {}
    }
    if a == 0 && b == 0 {
        b = 1;
    }
    let p = pt(s, &f);
    let q = pt_rel(s, &f, &[p]);
    let u = f.unit();
    // a x + b y + c = 0 through q, scaled
    let k = s.pick(&[1.0, 2.0, -1.0, 0.25, 8.0]);
    let cc = -(a as f64 * q.0 as f64 * u + b as f64 * q.1 as f64 * u);
    let from_pts = s.chance(1, 4) && f.k <= 3;
    let line = if from_pts { Line2::from_points(&f.p(q), &f.p((q.0 - b, q.1 + a))) } else { Line2::new(a as f64 * k, b as f64 * k, cc * k) };
    c.note(|| format!("line {line:?} point {:?}", f.fp(p)));
    let v = a as i128 * (p.0 - q.0) as i128 + b as i128 * (p.1 - q.1) as i128;
    let n2 = (a * a + b * b) as f64;
    let w = (p.0 as f64 * u - a as f64 * (v as f64) * u / n2, p.1 as f64 * u - b as f64 * (v as f64) * u / n2);
    c.label(if v == 0 { "on the line" } else if a == 0 || b == 0 { "axis-parallel line" } else { "beside a sloped line" });
    c.nontrivial = v != 0 && a != 0 && b != 0;
    let tol = 1e-9 * (1.0 + w.0.abs() + w.1.abs() + f.fp(p).0.abs() + f.fp(p).1.abs());
    let g = point_2_project_line_2(&f.p(p), &line);
    ensure!(near(xy(&g), w, tol), "projection of {:?} on {line:?} is {g:?}, expected {w:?}", f.fp(p));
    let g2 = point_2_project_line_2(&g, &line);
    ensure!(near(xy(&g2), w, tol * 2.0), "projection of the foot {g:?} is {g2:?}");
    Ok(())
}

fn on_segment(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 500);
    let a = pt(s, &f);
    let b = pt_rel(s, &f, &[a]);
    if a == b {
        return discard("zero length");
    }
    let d = sub(b, a);
    let p = match s.upto(3) {
        0 => pt_rel(s, &f, &[a, b]),
        1 => {
            // exactly above an end point
            let e = if s.chance(1, 2) { a } else { b };
            let g = gcd(d.0, d.1);
            let k = s.zig(3);
            (e.0 - d.1 / g * k, e.1 + d.0 / g * k)
        }
        2 => {
            let e = if s.chance(1, 2) { a } else { b };
            let g = gcd(d.0, d.1);
            let k = s.zig(3);
            (e.0 - d.1 / g * k + s.zig(1), e.1 + d.0 / g * k + s.zig(1))
        }
        _ => pt(s, &f),
    };
    c.note(|| format!("segment {:?} {:?} point {:?}", f.fp(a), f.fp(b), f.fp(p)));
    let c1 = dot(sub(p, a), d);
    let c2 = dot(d, d);
    let u = f.unit();
    let want = if c1 < 0 || c1 > c2 {
        None
    } else {
        let t = c1 as f64 / c2 as f64;
        Some(((a.0 as f64 + d.0 as f64 * t) * u, (a.1 as f64 + d.1 as f64 * t) * u))
    };
    c.label(if c1 == 0 || c1 == c2 { "above an end" } else if want.is_some() { "within" } else { "outside" });
    c.nontrivial = orient(a, b, p) != 0;
    for (x, y) in [(a, b), (b, a)] {
        let seg = f.seg(x, y);
        let got = point_2_project_line_segment_2(&f.p(p), &seg).map(|q| xy(&q));
        match (got, want) {
            (None, None) => {}
            (Some(g), Some(w)) => {
                ensure!(near(g, w, 1e-9), "projection of {:?} on {seg:?} is {g:?}, expected {w:?}", f.fp(p));
                // project the foot again, away from the ends (rounding may put it just outside there)
                let again = point_2_project_line_segment_2(&Point2::new(g.0, g.1), &seg).map(|q| xy(&q));
                match again {
                    Some(g2) => ensure!(near(g2, w, 1e-9), "projection of the foot {g:?} is {g2:?}"),
                    None => ensure!(c1 == 0 || c1 == c2, "the foot {g:?} has no projection on {seg:?}"),
                }
            }
            _ => return fail(format!("projection of {:?} on {seg:?} is {got:?}, expected {want:?}", f.fp(p))),
        }
    }
    Ok(())
}

/// Doubles of moderate size: the foot is at a chosen parameter, also exactly at an end
/// up to rounding.
fn rounded(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let m = s.pick(&[10.0, 1.0, 100.0]);
    let v = |s: &mut Src| if s.chance(1, 2) { s.zig(100) as f64 / 100.0 * m } else { (s.f01() * 2.0 - 1.0) * m };
    let (a, b) = ((v(s), v(s)), (v(s), v(s)));
    let d = (b.0 - a.0, b.1 - a.1);
    let l2 = d.0 * d.0 + d.1 * d.1;
    if l2.sqrt() < 0.1 * m {
        return discard("short segment");
    }
    let t = match s.upto(4) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.05 + 0.9 * s.f01(),
        3 => -0.05 - s.f01(),
        _ => 1.05 + s.f01(),
    };
    let k = s.zig(20) as f64 / 20.0;
    let foot = (a.0 + d.0 * t, a.1 + d.1 * t);
    let p = (foot.0 - d.1 * k, foot.1 + d.0 * k);
    c.note(|| format!("segment {a:?} {b:?} point {p:?} above parameter {t}"));
    c.label(if t == 0.0 || t == 1.0 { "above an end" } else if (0.0..1.0).contains(&t) { "within" } else { "outside" });
    c.nontrivial = k != 0.0;
    let q = |v: F2| Point2::new(v.0, v.1);
    for (x, y) in [(a, b), (b, a)] {
        let got = point_2_project_line_segment_2(&q(p), &LineSegment2::new(q(x), q(y))).map(|g| xy(&g));
        match got {
            None => ensure!(!(0.0..=1.0).contains(&t), "{p:?} has no projection on {x:?} {y:?}, expected {foot:?}"),
            Some(g) => ensure!((0.0..=1.0).contains(&t) && near(g, foot, 1e-9 * m.max(1.0)), "projection of {p:?} on {x:?} {y:?} is {g:?}, parameter {t}, foot {foot:?}"),
        }
    }
    let f = point_2_project_line_2(&q(p), &Line2::from_points(&q(a), &q(b)));
    let slope = (d.1 / d.0).abs();
    if slope.is_finite() && slope < 50.0 && (slope > 0.02 || d.1 == 0.0) {
        ensure!(near(xy(&f), foot, 1e-8 * m.max(1.0)), "projection of {p:?} on the line of {a:?} {b:?} is {f:?}, expected {foot:?}");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "lines with integer normals (any scale, axis-parallel included) and lattice segments, points on, beside, beyond and exactly above an end; non-trivial: beside a sloped line / off the segment's line; further stages: real: real coordinates of any sizes and places in general position, against plain formulas; signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; beside: real coordinates, points on a boundary to rounding or 3e-9..1e-6 beside it; small-scale: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("line", 50_000, 4_000_000, on_line), sub_check("segment", 50_000, 4_000_000, on_segment),
            sub_check("rounded", 40_000, 3_000_000, rounded),
            sub_check("real", 150000, 7500000, crate::real::feet),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[14, 15], 4)),
            sub_check("unequal", 40000, 2400000, |c| crate::unequal::check(c, &[15], 4)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[14, 15], 4)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[14, 15], 4)),
            sub_check("beside", 300_000, 20_000_000, crate::probe::projection),
            sub_check("beside-hundreds", 100000, 6666666, |c| crate::curve::large(c, crate::probe::projection)),
            sub_check("small-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[14, 15], 4, crate::nearmiss::Scale::Small)),
            sub_check("minute-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[14, 15], 4, crate::nearmiss::Scale::Minute)),
        ],
    }
}
