//! C10: lines.
use super::prelude::*;
use rcgal::algorithm::intersection::line_2_line_2::*;
use rcgal::algorithm::location::location_enum::Point2Line2Location as L;
use rcgal::algorithm::location::point_2_line_2::*;
use rcgal::kernel::line_2::Line2;

/// In slope form the rounding of steep lines exceeds the library's absolute tolerance.
fn steep(f: &Frame, a: P, b: P) -> bool {
    let d = sub(b, a);
    if d.0 == 0 || d.1 == 0 {
        return false;
    }
    let m = (d.1 as f64 / d.0 as f64).abs();
    let c = f.fp(a).1.abs() + m * f.fp(a).0.abs();
    m * 200.0 > 3e4 || (1.0 + m) * c > 5e4
}

fn from_points(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 100);
    let a = pt(s, &f);
    let b = pt_rel(s, &f, &[a]);
    if a == b {
        return discard("equal points");
    }
    c.note(|| format!("line through {:?} {:?}", f.fp(a), f.fp(b)));
    let d = sub(b, a);
    c.label(if d.0 == 0 { "vertical" } else if d.1 == 0 { "horizontal" } else { "sloped" });
    c.nontrivial = d.0 != 0 && d.1 != 0;
    if steep(&f, a, b) {
        return discard("too steep for the tolerance");
    }
    let lines = [Line2::from_points(&f.p(a), &f.p(b)), Line2::from_points(&f.p(b), &f.p(a))];
    ensure!(lines[0] == lines[1] && lines[1] == lines[0], "the line depends on the order of the points: {lines:?}");
    let m = 1 + c.src.idx(4);
    for i in 0..m + 2 {
        let s = &mut c.src;
        let p = match i {
            0 => a,
            1 => b,
            _ => match s.upto(2) {
                0 => pt(s, &f),
                1 => pt_rel(s, &f, &[a, b]),
                _ => {
                    let g = gcd(d.0, d.1);
                    let k = s.zig(4);
                    let q = (a.0 + d.0 / g * k, a.1 + d.1 / g * k);
                    if q.0.abs() > 200 << f.k || q.1.abs() > 200 << f.k { a } else { q }
                }
            },
        };
        let want = orient(a, b, p) == 0;
        // the equation's value is the cross product over a side of the line's direction
        let res = orient(a, b, p).unsigned_abs() as f64 / (d.0.abs().max(1) as f64) * f.unit();
        if !want && res < 1e-8 {
            continue;
        }
        if want && i > 1 {
            c.label("third point on the line");
        }
        for l in &lines {
            let got = locate_point_2_line_2(&f.p(p), l);
            ensure!((got == L::On) == want, "{:?} against {l:?}: {got:?}, expected on: {want}", f.fp(p));
            ensure!(is_point_2_on_line_2(&f.p(p), l) == want, "{:?} on {l:?}: expected {want}", f.fp(p));
        }
    }
    Ok(())
}

type C3 = (i64, i64, i64);
fn coef(s: &mut Src, r: i64) -> C3 {
    let mut v = (s.zig(r), s.zig(r), s.zig(r));
    match s.upto(5) {
        0 => v.0 = 0,
        1 => v.1 = 0,
        2 => v.2 = 0,
        _ => {}
    }
    if v.0 == 0 && v.1 == 0 {
        v.0 = 1;
    }
    v
}
fn line(v: C3, u: f64) -> Line2<f64> {
    Line2::new(v.0 as f64 * u, v.1 as f64 * u, v.2 as f64 * u)
}

fn two_lines(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let r = s.pick(&[3i64, 10, 100, 1000]);
    let u = [1.0, 0.5, 0.125, 1.0 / 1024.0][s.weighted(&[6, 2, 1, 1])];
    // the coefficients of one line may be of another size altogether
    let w = [u, 1.0, 1.0 / 1024.0][s.weighted(&[6, 1, 1])];
    let a = coef(s, r);
    let b = match s.upto(4) {
        0 => {
            // proportional
            let k = s.pick(&[1i64, 2, -1, 3, -5]);
            (a.0 * k, a.1 * k, a.2 * k)
        }
        1 => {
            let k = s.pick(&[1i64, 2, -1, -3]);
            (a.0 * k, a.1 * k, a.2 * k + s.zig(3)) // parallel, mostly
        }
        2 => (-a.1, a.0, s.zig(r)), // perpendicular
        _ => coef(s, r),
    };
    let det = a.0 as i128 * b.1 as i128 - b.0 as i128 * a.1 as i128;
    let e2 = a.2 as i128 * b.1 as i128 - a.1 as i128 * b.2 as i128;
    let e3 = a.0 as i128 * b.2 as i128 - a.2 as i128 * b.0 as i128;
    let (la, lb) = (line(a, u), line(b, w));
    c.note(|| format!("{la:?} {lb:?}"));
    let same = det == 0 && e2 == 0 && e3 == 0;
    c.label(if same { "same line" } else if det == 0 { "parallel" } else { "crossing" });
    c.nontrivial = a.0 != 0 && a.1 != 0;
    ensure!((la.a(), la.b(), la.c()) == (a.0 as f64 * u, a.1 as f64 * u, a.2 as f64 * u), "coefficients of {la:?}");
    ensure!((la == lb) == same && (lb == la) == same, "{la:?} == {lb:?} is {}, expected {same}", la == lb);
    let want = if det == 0 { None } else { Some(((a.1 as i128 * b.2 as i128 - b.1 as i128 * a.2 as i128) as f64 / det as f64, (b.0 as i128 * a.2 as i128 - a.0 as i128 * b.2 as i128) as f64 / det as f64)) };
    for (x, y) in [(&la, &lb), (&lb, &la)] {
        let got = line_2_line_2_intersection(x, y).map(|p| xy(&p));
        ensure!(is_line_2_line_2_intersected(x, y) == want.is_some(), "{x:?} and {y:?} meet: expected {}", want.is_some());
        match (got, want) {
            (None, None) => {}
            (Some(g), Some(w)) => {
                let tol = 1e-11 * (1.0 + w.0.abs() + w.1.abs());
                ensure!(near(g, w, tol), "{x:?} and {y:?} meet in {g:?}, expected {w:?}");
            }
            _ => return fail(format!("{x:?} and {y:?} meet in {got:?}, expected {want:?}")),
        }
    }
    Ok(())
}

/// Points on and beside lines given by their coefficients.
fn coefficients(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let r = s.pick(&[3i64, 10, 100, 1000]);
    let f = frame(s, s_radius(r));
    let u = (2f64).powi(s.int(-16, 8) as i32 / 2 * 2);
    let mut v = coef(s, r);
    let through = pt(s, &f);
    // in fine units: a x + b y + c = 0 there
    let at = |v: C3, p: P| (v.0 as i128) * p.0 as i128 + (v.1 as i128) * p.1 as i128 + v.2 as i128;
    if s.chance(3, 4) {
        v.2 = 0;
        v.2 = -at(v, through) as i64;
    } else {
        v.2 <<= f.k;
    }
    // coordinates are multiples of 2^-k, so the constant term is, too
    let l = Line2::new(v.0 as f64 * u, v.1 as f64 * u, v.2 as f64 * f.unit() * u);
    c.note(|| format!("{l:?}, through {:?}", f.fp(through)));
    let g = gcd(v.0, v.1).max(1);
    let mut off = 0;
    for i in 0..3 {
        let s = &mut c.src;
        let p = match i {
            0 => through,
            1 => {
                let k = s.zig(4);
                (through.0 + v.1 / g * k, through.1 - v.0 / g * k)
            }
            _ => pt_rel(s, &f, &[through]),
        };
        let x = f.fp(p);
        if x.0.abs() > 4000.0 || x.1.abs() > 4000.0 {
            continue;
        }
        let e = at(v, p);
        if e != 0 && (e.unsigned_abs() as f64) * f.unit() * u < 1e-8 {
            continue;
        }
        off += (e != 0) as u32;
        let got = locate_point_2_line_2(&f.p(p), &l);
        ensure!((got == L::On) == (e == 0), "{x:?} against {l:?}: {got:?}, expected on: {}", e == 0);
        ensure!(is_point_2_on_line_2(&f.p(p), &l) == (e == 0), "{x:?} on {l:?}: expected {}", e == 0);
    }
    c.label(if off == 0 { "all on" } else { "some beside" });
    c.nontrivial = v.0 != 0 && v.1 != 0;
    Ok(())
}
fn s_radius(r: i64) -> i64 {
    if r > 100 { 100 } else { 500 }
}

/// Lines through given points: they meet in the common one, equal iff collinear.
fn through(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 50);
    let p = pt(s, &f);
    let a = pt_rel(s, &f, &[p]);
    let b = pt_rel(s, &f, &[p, a]);
    if p == a || p == b {
        return discard("equal points");
    }
    if f.k > 3 || steep(&f, p, a) || steep(&f, p, b) {
        return discard("too steep for the tolerance");
    }
    let (la, lb) = (Line2::from_points(&f.p(p), &f.p(a)), Line2::from_points(&f.p(b), &f.p(p)));
    let par = orient(p, a, b) == 0;
    c.note(|| format!("lines through {:?} and {:?} / {:?}", f.fp(p), f.fp(a), f.fp(b)));
    c.nontrivial = !par;
    ensure!((la == lb) == par && (lb == la) == par, "{la:?} == {lb:?} is {}, expected {par}", la == lb);
    for (x, y) in [(&la, &lb), (&lb, &la)] {
        let got = line_2_line_2_intersection(x, y);
        ensure!(got.is_some() != par && is_line_2_line_2_intersected(x, y) != par, "{x:?} and {y:?} meet in {got:?}; parallel: {par}");
        if let Some(g) = got {
            ensure!(near(xy(&g), f.fp(p), 1e-8), "{x:?} and {y:?} meet in {g:?}, expected {:?}", f.fp(p));
        }
    }
    Ok(())
}

/// Through points that lie close together in x or in y only: very steep and very flat
/// lines near the origin, down to steps of 2^-28 across and 2^-22 up.
fn squeezed(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let steep = s.chance(2, 3);
    let k = if steep { s.int(1, 28) } else { s.int(1, 22) };
    let u = 1.0 / (1u64 << k) as f64;
    let v = s.pick(&[1.0, 0.5, 3.0, 10.0]);
    let f = Frame { r: 10, k: 0, o: (0, 0) };
    let a = pt(s, &f);
    let b = pt_rel(s, &f, &[a]);
    let d = pt_rel(s, &f, &[a, b]);
    let e = pt_rel(s, &f, &[a, b, d]);
    if a == b || d == e {
        return discard("equal points");
    }
    let at = |p: P| if steep { (p.0 as f64 * u, p.1 as f64 * v) } else { (p.0 as f64 * v, p.1 as f64 * u) };
    let q = |p: P| Point2::new(at(p).0, at(p).1);
    c.label(if steep { "steep" } else { "flat" });
    c.note(|| format!("lines through {:?} {:?} and {:?} {:?}", at(a), at(b), at(d), at(e)));
    c.nontrivial = b.0 != a.0 && b.1 != a.1;
    let (l, m) = (Line2::from_points(&q(a), &q(b)), Line2::from_points(&q(d), &q(e)));
    for p in [a, b, d, e] {
        let on = orient(a, b, p) == 0;
        ensure!(is_point_2_on_line_2(&q(p), &l) == on, "{:?} on the line through {:?} and {:?} is not {on}: {l:?}", at(p), at(a), at(b));
    }
    let (x, y) = (sub(b, a), sub(e, d));
    let den = cross(x, y);
    let got = line_2_line_2_intersection(&l, &m);
    ensure!(got.is_some() == is_line_2_line_2_intersected(&l, &m), "intersected, and {got:?}");
    if den != 0 && !steep && (u / 400.0) < 1e-9 {
        // slopes too close for the tolerance
        return Ok(());
    }
    ensure!(got.is_some() == (den != 0), "lines through {:?} {:?} and {:?} {:?} meet in {got:?}", at(a), at(b), at(d), at(e));
    if let Some(g) = got {
        let t = cross(sub(d, a), y) as f64 / den as f64;
        let w = (a.0 as f64 + x.0 as f64 * t, a.1 as f64 + x.1 as f64 * t);
        let g = if steep { (g.x() / u, g.y() / v) } else { (g.x() / v, g.y() / u) };
        let tol = 1e-8 * (1.0 + w.0.abs() + w.1.abs());
        ensure!(near(g, w, tol), "lines through {:?} {:?} and {:?} {:?} meet in {g:?}, expected {w:?}, in lattice steps", at(a), at(b), at(d), at(e));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "lines through lattice points (vertical and horizontal included) with points on and off them; coefficient triples up to 1000 incl. proportional, parallel and perpendicular pairs, and points on and beside such lines; lines through a common point; non-trivial: sloped line / not parallel; further stages: real: real coordinates of any sizes and places in general position, against plain formulas; signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; beside: real coordinates, points on a boundary to rounding or 3e-9..1e-6 beside it; squeezed: steep and flat lines; small-scale: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("from-points", 40_000, 3_000_000, from_points),
            sub_check("two-lines", 50_000, 4_000_000, two_lines),
            sub_check("coefficients", 100_000, 6_000_000, coefficients),
            sub_check("through", 30_000, 2_000_000, through),
            sub_check("squeezed", 100_000, 6_000_000, squeezed),
            sub_check("real", 150000, 7500000, crate::real::lines),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[9, 10], 4)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[9, 10], 4)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[9, 10], 4)),
            sub_check("beside", 300_000, 20_000_000, crate::probe::line),
            sub_check("beside-hundreds", 100000, 6666666, |c| crate::curve::large(c, crate::probe::line)),
            sub_check("small-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[9, 10], 4, crate::nearmiss::Scale::Small)),
        ],
    }
}
