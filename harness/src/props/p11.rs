//! C11: rays.
use super::prelude::*;
use rcgal::algorithm::intersection::line_2_ray_2::*;
use rcgal::algorithm::intersection::line_segment_2_ray_2::*;
use rcgal::algorithm::location::location_enum::Point2Ray2Location as L;
use rcgal::algorithm::location::point_2_ray_2::*;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::ray_2::Ray2;

pub fn want(p: P, o: P, d: P) -> L {
    let v = sub(p, o);
    match cross(d, v).signum() {
        1 => L::Left,
        -1 => L::Right,
        _ => if dot(d, v) >= 0 { L::On } else { L::Collinear },
    }
}
pub fn on_ray(p: P, o: P, d: P) -> bool {
    want(p, o, d) == L::On
}

fn ray_frame(s: &mut Src) -> Frame {
    let mut f = frame(s, 100);
    f.k = f.k.min(3);
    f.r = f.r.min(100 << f.k);
    let m = (100i64 << f.k) - f.r;
    f.o = (f.o.0.clamp(-m, m), f.o.1.clamp(-m, m));
    f
}
fn direction(s: &mut Src, o: P, f: &Frame) -> P {
    let d = match s.upto(3) {
        0 => (s.zig(3), s.zig(3)),
        1 => symmetry(s.upto(7), (1, 0)),
        2 => (s.zig(20), s.zig(20)),
        _ => sub(pt(s, f), o),
    };
    if d == (0, 0) { (1, 0) } else { d }
}
fn make(s: &mut Src, f: &Frame, o: P, d: P) -> (Ray2<f64>, f64) {
    let len = s.pick(&[1.0, 0.125, 1024.0, 1.0 / 1024.0]);
    (Ray2::new(f.p(o), Vector2::new(d.0 as f64 * len, d.1 as f64 * len)), len)
}

fn locate(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = ray_frame(s);
    let o = pt(s, &f);
    let d = direction(s, o, &f);
    let (ray, len) = make(s, &f, o, d);
    c.note(|| format!("ray {:?} direction {d:?} * {len}", f.fp(o)));
    ensure!(xy(&ray.origin()) == f.fp(o), "origin of the ray");
    let l = (d.0 as f64).hypot(d.1 as f64);
    ensure!(near((ray.direction().x(), ray.direction().y()), (d.0 as f64 / l, d.1 as f64 / l), 1e-13), "direction {:?} of {d:?}", ray.direction());
    let m = 1 + c.src.idx(5);
    for _ in 0..m {
        let s = &mut c.src;
        let g = gcd(d.0, d.1);
        let p = match s.upto(3) {
            0 => pt_rel(s, &f, &[o, add(o, d)]),
            1 => {
                let k = s.zig(6);
                let q = (o.0 + d.0 / g * k, o.1 + d.1 / g * k);
                (q.0 + s.zig(1), q.1 + s.zig(1))
            }
            _ => {
                let k = s.zig(6);
                (o.0 + d.0 / g * k, o.1 + d.1 / g * k)
            }
        };
        let w = want(p, o, d);
        c.note(|| format!("point {:?}", f.fp(p)));
        c.label(match w {
            L::On => if p == o { "origin" } else { "ahead" },
            L::Left => "left",
            L::Right => "right",
            L::Collinear => "behind",
        });
        c.nontrivial |= w != L::On || p != o;
        let got = locate_point_2_ray_2(&f.p(p), &ray);
        ensure!(got == w, "{:?} against ray {:?} {d:?}: {got:?}, expected {w:?}", f.fp(p), f.fp(o));
        ensure!(is_point_2_on_ray_2(&f.p(p), &ray) == (w == L::On), "{:?} on ray {:?} {d:?}: expected {}", f.fp(p), f.fp(o), w == L::On);
    }
    Ok(())
}

fn line_ray(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = ray_frame(s);
    let o = pt(s, &f);
    let d = direction(s, o, &f);
    let (ray, len) = make(s, &f, o, d);
    // the line passes p with direction e (lattice units)
    let p = pt_rel(s, &f, &[o, add(o, d)]);
    let e = match s.upto(4) {
        0 => (1, 0),
        1 => (0, 1),
        2 => d,
        3 => (-d.1, d.0),
        _ => (s.zig(20), s.zig(20)),
    };
    let e = if e == (0, 0) { (1, 1) } else { e };
    let u = f.unit();
    let from_pts = s.chance(1, 3);
    let line = if from_pts {
        Line2::from_points(&f.p(p), &f.p(add(p, e)))
    } else {
        // e.y x - e.x y = const
        // the same line whatever its coefficients are multiplied with
        let w = s.pick(&[1.0, -1.0, 100.0, 1.0 / 1024.0, 7.0, -300.0]);
        Line2::new(w * e.1 as f64, -w * e.0 as f64, -(e.1 as f64 * p.0 as f64 * u - e.0 as f64 * p.1 as f64 * u) * w)
    };
    c.note(|| format!("ray {:?} direction {d:?} * {len}; line through {:?} along {e:?}", f.fp(o), f.fp(p)));
    let den = cross(d, e);
    let num = cross(sub(p, o), e);
    let got = line_2_ray_2_intersection(&line, &ray).map(|q| xy(&q));
    let yes = is_line_2_ray_2_intersected(&line, &ray);
    ensure!(yes == got.is_some(), "query {yes}, point {got:?}");
    if den == 0 {
        // parallel or the same line: no single crossing point
        c.label(if num == 0 { "same line" } else { "parallel" });
        if num != 0 {
            ensure!(got.is_none(), "a ray parallel to the line meets it in {got:?}");
        }
        return Ok(());
    }
    c.nontrivial = true;
    let t = num as f64 / den as f64;
    let want = if (num >= 0) == (den > 0) || num == 0 {
        Some(((o.0 as f64 + d.0 as f64 * t) * u, (o.1 as f64 + d.1 as f64 * t) * u))
    } else {
        None
    };
    c.label(if num == 0 { "origin on the line" } else if want.is_some() { "ahead" } else { "behind" });
    match (got, want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => {
            let tol = 1e-9 * (1.0 + w.0.abs() + w.1.abs());
            ensure!(near(g, w, tol), "line and ray meet in {g:?}, expected {w:?}");
            Ok(())
        }
        _ => fail(format!("line and ray meet in {got:?}, expected {want:?}")),
    }
}

fn seg_ray(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = ray_frame(s);
    let o = pt(s, &f);
    let d = direction(s, o, &f);
    let (ray, len) = make(s, &f, o, d);
    let g = gcd(d.0, d.1);
    let on_line = |s: &mut Src| {
        let k = s.zig(6);
        (o.0 + d.0 / g * k, o.1 + d.1 / g * k)
    };
    let a = if s.chance(1, 3) { on_line(s) } else { pt_rel(s, &f, &[o, add(o, d)]) };
    let b = match s.upto(4) {
        0 => on_line(s),
        1 => {
            // so that the segment passes a point of the ray's line
            let q = on_line(s);
            (2 * q.0 - a.0, 2 * q.1 - a.1)
        }
        _ => pt_rel(s, &f, &[o, add(o, d), a]),
    };
    let b = if a == b { (a.0 + 1, a.1) } else { b };
    c.note(|| format!("ray {:?} direction {d:?} * {len}; segment {:?} {:?}", f.fp(o), f.fp(a), f.fp(b)));
    let u = f.unit();
    let e = sub(b, a);
    let (sa, sb) = (cross(d, sub(a, o)).signum(), cross(d, sub(b, o)).signum());
    let mut want: Vec<F2> = Vec::new();
    if sa == 0 && sb == 0 {
        c.label("collinear");
        for p in [a, b] {
            if on_ray(p, o, d) {
                want.push(f.fp(p));
            }
        }
    } else if sa * sb <= 0 {
        let den = cross(d, e);
        let num = cross(sub(a, o), e);
        let t = num as f64 / den as f64;
        if num == 0 || (num > 0) == (den > 0) {
            want.push(((o.0 as f64 + d.0 as f64 * t) * u, (o.1 as f64 + d.1 as f64 * t) * u));
            c.label(if sa * sb == 0 { "touching with an end" } else if num == 0 { "through the origin" } else { "crossing" });
        } else {
            c.label("behind");
        }
    } else {
        c.label("missing");
    }
    c.nontrivial = !want.is_empty() || sa * sb <= 0;
    for (x, y) in [(a, b), (b, a)] {
        let seg = LineSegment2::new(f.p(x), f.p(y));
        let got = xys(&line_segment_2_ray_2_intersection(&seg, &ray));
        ensure!(same_set(&got, &want, 1e-8), "segment {:?} {:?} meets the ray in {got:?}, expected {want:?}", f.fp(x), f.fp(y));
        ensure!(is_line_segment_2_ray_2_intersected(&seg, &ray) == !want.is_empty(), "segment {:?} {:?} meets the ray: expected {}", f.fp(x), f.fp(y), !want.is_empty());
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "lattice rays with directions of any length, with related points, lines (axis-parallel, perpendicular, parallel, through the origin) and segments (crossing, touching, collinear, behind); non-trivial: a point other than the origin / not parallel / the segment reaches the ray's line; further stages: real: real coordinates of any sizes and places in general position, against plain formulas; signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; beside: real coordinates, points on a boundary to rounding or 3e-9..1e-6 beside it; small-scale/far-away: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("locate", 40_000, 3_000_000, locate),
            sub_check("line-ray", 40_000, 3_000_000, line_ray),
            sub_check("segment-ray", 50_000, 4_000_000, seg_ray),
            sub_check("real", 150000, 7500000, crate::real::rays),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[11, 12, 13], 4)),
            sub_check("unequal", 40000, 2400000, |c| crate::unequal::check(c, &[11, 12, 13], 4)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[11, 12, 13], 4)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[11, 12, 13], 4)),
            sub_check("beside", 300_000, 20_000_000, crate::probe::ray),
            sub_check("beside-hundreds", 100000, 6666666, |c| crate::curve::large(c, crate::probe::ray)),
            sub_check("small-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[11, 12, 13], 4, crate::nearmiss::Scale::Small)),
            sub_check("minute-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[11, 12, 13], 4, crate::nearmiss::Scale::Minute)),
            sub_check("far-away", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[11], 4, crate::nearmiss::Scale::Far)),
        ],
    }
}
