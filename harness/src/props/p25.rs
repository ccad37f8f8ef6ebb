//! C25: the same question over different number types.
use super::prelude::*;
use crate::battery::*;
use crate::fuel::{self, Num};

fn agree(a: &[Val], b: &[Val]) -> bool {
    let f = |x: f64, y: f64| x == y || rel(x, y, 1e-12);
    let fs = |x: &[F2], y: &[F2]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| f(p.0, q.0) && f(p.1, q.1));
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Val::Pts(x), Val::Pts(y)) | (Val::Path(x), Val::Path(y)) => fs(x, y),
            (Val::Area(x), Val::Area(y)) | (Val::Num(x), Val::Num(y)) => f(*x, *y),
            (x, y) => x == y,
        })
}

/// Size of the question, including the answer's for collections.
fn size(q: &Q, ans: &[Val]) -> u64 {
    let out = |a: &[Val]| a.iter().map(|v| if let Val::Pts(p) = v { p.len() } else { 0 }).sum::<usize>();
    (match q {
        Q::Polygon(v, _) | Q::Simple(v) | Q::PolyLoc(_, v) | Q::Hull(v) | Q::Earcut(v) => v.len(),
        Q::Sweep(m) => m.len() + out(ans),
        _ => 2,
    }) as u64
}
/// Operations allowed: a generous cubic.
pub fn budget(n: u64) -> u64 {
    20_000 + 600 * (n + 2).pow(3)
}

fn all(c: &mut Ctx, max_n: usize) -> R {
    let (f, q) = question(&mut c.src, Which::All, max_n);
    c.note(|| show(&f, &q));
    c.label(label(&q));
    let want = run::<f64>(&f, &q);
    c.nontrivial = weighty(&want);
    let b = budget(size(&q, &want));
    fuel::reset(b);
    let got = match refused(|| run::<Num>(&f, &q)) {
        Ok(g) => g,
        Err(e) if e.contains(fuel::EXHAUSTED) => return fail(format!("{}: more than {b} arithmetic operations", show(&f, &q))),
        Err(e) => return fail(format!("{}: 64-bit floats give {want:?}, the counting type fails: {e}", show(&f, &q))),
    };
    let used = b - fuel::left();
    fuel::reset(u64::MAX);
    if std::env::var_os("RCGAL_FUEL").is_some() {
        eprintln!("fuel {} {} {}", label(&q), size(&q, &want), used);
    }
    ensure!(agree(&want, &got), "{}: 64-bit floats give {want:?}, a type computing the same values gives {got:?}", show(&f, &q));
    Ok(())
}
fn counted(c: &mut Ctx) -> R {
    all(c, 14)
}
fn counted_large(c: &mut Ctx) -> R {
    all(c, 40)
}

fn single(c: &mut Ctx) -> R {
    let (f, q) = question(&mut c.src, Which::Exact, 12);
    c.note(|| show(&f, &q));
    c.label(label(&q));
    decided(&f, &q)?;
    let want = run::<f64>(&f, &q);
    let got = run::<f32>(&f, &q);
    c.nontrivial = weighty(&want);
    ensure!(want == got, "{}: 64-bit floats give {want:?}, 32-bit floats {got:?}", show(&f, &q));
    Ok(())
}

/// Rounded single-precision arithmetic, at the scale of 1: answers that hold by a clear
/// margin, and points that are on something up to single-precision rounding.
fn single_rounded(c: &mut Ctx) -> R {
    use rcgal::algorithm::intersection::line_2_line_2::*;
    use rcgal::algorithm::intersection::line_segment_2_ray_2::*;
    use rcgal::algorithm::location::location_enum::*;
    use rcgal::algorithm::location::point_2_circle_segment_2::*;
    use rcgal::algorithm::location::point_2_line_2::*;
    use rcgal::algorithm::location::point_2_line_segment_2::*;
    use rcgal::algorithm::location::point_2_ray_2::*;
    use rcgal::algorithm::projection::point_2_line_2::*;
    use rcgal::algorithm::projection::point_2_line_segment_2::*;
    use rcgal::kernel::circle_segment_2::CircleSegment2;
    use rcgal::kernel::line_2::Line2;
    use rcgal::kernel::line_segment_2::LineSegment2;
    use rcgal::kernel::point_2::Point2;
    use rcgal::kernel::ray_2::Ray2;
    use rcgal::kernel::vector_2::Vector2;
    const M: f64 = 1e-2;
    let s = &mut c.src;
    let kind = s.upto(8);
    let v = |s: &mut Src| (s.int(-1000, 1000) as f64 / 1000.0) as f32 as f64;
    let (a, b, d) = ((v(s), v(s)), (v(s), v(s)), (v(s), v(s)));
    let (t, k) = (s.int(0, 1000) as f64 / 1000.0, s.zig(100) as f64 / 100.0);
    let ab = (b.0 - a.0, b.1 - a.1);
    let len = ab.0.hypot(ab.1);
    if len < 0.2 {
        return discard("short");
    }
    let n = (-ab.1 / len, ab.0 / len);
    // at parameter t along a b, k to the left
    let at = |t: f64, k: f64| ((a.0 + ab.0 * t + n.0 * k) as f32 as f64, (a.1 + ab.1 * t + n.1 * k) as f32 as f64);
    let p4 = |v: F2| Point2::<f32>::new(v.0 as f32, v.1 as f32);
    let x4 = |p: &Point2<f32>| (p.x() as f64, p.y() as f64);
    let is_on = kind >= 6 || k.abs() < 0.2;
    let k = if is_on { 0.0 } else { k };
    let p = at(t, k);
    c.nontrivial = true;
    c.note(|| format!("kind {kind}, {a:?} {b:?} {d:?}, point {p:?} at {t} and {k} beside"));
    let (a4, b4) = (p4(a), p4(b));
    let side = if k > 0.0 { 1 } else { -1 };
    match kind {
        0 => {
            c.label("circle location");
            let (cc, r) = (a, 0.25 + 0.5 * t);
            let phi = k * 3.0;
            let e = c.src.pick(&[0.0, 0.0, 0.05, -0.05]);
            let q = (cc.0 + (r + e) * phi.cos(), cc.1 + (r + e) * phi.sin());
            let want = if e == 0.0 { Point2Circle2Location::On } else if e < 0.0 { Point2Circle2Location::Inside } else { Point2Circle2Location::Outside };
            let circle = CircleSegment2::new(p4(cc), r as f32);
            let got = locate_point_2_circle_segment_2(&p4(q), &circle);
            ensure!(got == want && is_point_2_on_circle_segment_2(&p4(q), &circle) == (e == 0.0), "32-bit: {q:?} against the circle {cc:?} {r} is {got:?}, expected {want:?}");
        }
        1 => {
            c.label("segment location");
            let t = if c.src.chance(1, 3) { t * 3.0 - 1.0 } else { t };
            if t.abs() < 0.05 || (t - 1.0).abs() < 0.05 {
                return discard("near an end");
            }
            let q = at(t, k);
            let want = match (is_on, side) {
                (true, _) if (0.0..=1.0).contains(&t) => Point2Segment2Location::On,
                (true, _) => Point2Segment2Location::Collinear,
                (_, 1) => Point2Segment2Location::Left,
                _ => Point2Segment2Location::Right,
            };
            let got = locate_point_2_line_segment_2(&p4(q), &LineSegment2::new(a4, b4));
            ensure!(got == want, "32-bit: {q:?} against the segment {a:?} {b:?} is {got:?}, expected {want:?}");
        }
        2 | 3 => {
            c.label("line location and projection");
            let slope = (ab.1 / ab.0).abs();
            if slope > 4.0 || slope < 0.25 {
                return discard("steep or flat");
            }
            let line = Line2::from_points(&a4, &b4);
            let got = locate_point_2_line_2(&p4(p), &line) == Point2Line2Location::On;
            ensure!(got == is_on && is_point_2_on_line_2(&p4(p), &line) == is_on, "32-bit: {p:?} against the line {a:?} {b:?}: on {got}, expected {is_on}");
            let foot = at(t, 0.0);
            let g = x4(&point_2_project_line_2(&p4(p), &line));
            ensure!(near(g, foot, 1e-4), "32-bit: projection of {p:?} on the line {a:?} {b:?} is {g:?}, expected {foot:?}");
        }
        4 => {
            c.label("ray location");
            let t = if c.src.chance(1, 2) { -t } else { t };
            if t.abs() < 0.05 {
                return discard("near the origin");
            }
            let q = at(t, k);
            let want = match (is_on, side) {
                (true, _) if t > 0.0 => Point2Ray2Location::On,
                (true, _) => Point2Ray2Location::Collinear,
                (_, 1) => Point2Ray2Location::Left,
                _ => Point2Ray2Location::Right,
            };
            let ray = Ray2::new(a4, Vector2::new(ab.0 as f32, ab.1 as f32));
            let got = locate_point_2_ray_2(&p4(q), &ray);
            ensure!(got == want, "32-bit: {q:?} against the ray from {a:?} to {b:?} is {got:?}, expected {want:?}");
        }
        5 => {
            c.label("segment projection");
            let t = t * 2.0 - 0.5;
            if t.abs() < 0.05 || (t - 1.0).abs() < 0.05 {
                return discard("near an end");
            }
            let q = at(t, k);
            let got = point_2_project_line_segment_2(&p4(q), &LineSegment2::new(a4, b4)).map(|g| x4(&g));
            let foot = at(t, 0.0);
            let ok = match got {
                Some(g) => (0.0..=1.0).contains(&t) && near(g, foot, 1e-4),
                None => !(0.0..=1.0).contains(&t),
            };
            ensure!(ok, "32-bit: projection of {q:?} on the segment {a:?} {b:?} is {got:?}, parameter {t}, foot {foot:?}");
        }
        _ => {
            // a crossing through a point of a b
            let (e, g) = (d, (2.0 * p.0 - d.0, 2.0 * p.1 - d.1));
            let eg = (g.0 - e.0, g.1 - e.1);
            let sine = (ab.0 * eg.1 - ab.1 * eg.0) / (len * eg.0.hypot(eg.1));
            if !(sine.abs() > 0.3) || eg.0.hypot(eg.1) < 0.2 || !(0.05..=0.95).contains(&t) || !is_on {
                return discard("not a clear crossing");
            }
            let (e4, g4) = (p4(e), p4(g));
            let one = |v: Vec<F2>| v.len() == 1 && near(v[0], p, 1e-4);
            match kind {
                6 => {
                    c.label("segments");
                    let v: Vec<F2> = lib_inter(&Lib::S(LineSegment2::new(a4, b4)), &Lib::S(LineSegment2::new(e4, g4))).iter().map(x4).collect();
                    ensure!(one(v.clone()), "32-bit: segments {a:?} {b:?} and {e:?} {g:?} meet at {v:?}, expected {p:?}");
                }
                7 => {
                    c.label("segment and ray");
                    let ray = Ray2::new(e4, Vector2::new(eg.0 as f32, eg.1 as f32));
                    let v: Vec<F2> = line_segment_2_ray_2_intersection(&LineSegment2::new(a4, b4), &ray).iter().map(x4).collect();
                    ensure!(one(v.clone()) && is_line_segment_2_ray_2_intersected(&LineSegment2::new(a4, b4), &ray), "32-bit: segment {a:?} {b:?} and the ray from {e:?} to {g:?} meet at {v:?}, expected {p:?}");
                }
                _ => {
                    c.label("segment and circle");
                    // the circle through p and the opposite point has p on it
                    let r = eg.0.hypot(eg.1) / 2.0;
                    let centre = e;
                    let cosine = ((p.0 - centre.0) * ab.0 + (p.1 - centre.1) * ab.1) / (r * len);
                    if cosine.abs() < 0.3 {
                        return discard("near tangent");
                    }
                    let end = |q: F2| (dist(q, centre) - r).abs() < M;
                    if end(a) || end(b) {
                        return discard("an end near the circle");
                    }
                    let v: Vec<F2> = lib_inter(&Lib::S(LineSegment2::new(a4, b4)), &Lib::C(CircleSegment2::new(p4(centre), r as f32))).iter().map(x4).collect();
                    let w = xys(&lib_inter(&Lib::S(LineSegment2::new(Point2::new(a.0, a.1), Point2::new(b.0, b.1))), &Lib::C(CircleSegment2::new(Point2::new(centre.0, centre.1), r))));
                    ensure!(same_set(&v, &w, 1e-3) && v.iter().any(|x| near(*x, p, 1e-3)), "32-bit: segment {a:?} {b:?} and circle {centre:?} {r} meet at {v:?}, 64-bit at {w:?}");
                }
            }
            let (l, m) = (Line2::from_points(&a4, &b4), Line2::from_points(&e4, &g4));
            let steep = |d: F2| !(0.25..=4.0).contains(&(d.1 / d.0).abs());
            if !steep(ab) && !steep(eg) {
                let v = line_2_line_2_intersection(&l, &m).map(|x| x4(&x));
                ensure!(v.map_or(false, |v| near(v, p, 1e-4)) && is_line_2_line_2_intersected(&l, &m), "32-bit: lines {a:?} {b:?} and {e:?} {g:?} meet at {v:?}, expected {p:?}");
            }
        }
    }
    Ok(())
}

/// Equations of lines, the coefficients up to 1: multiples name the same line up to the
/// rounding of either type, and a coefficient moved clear of it names another.
fn equations(c: &mut Ctx) -> R {
    use rcgal::kernel::line_2::Line2;
    let s = &mut c.src;
    let v = |s: &mut Src| s.int(-1000, 1000) as f64 / 1000.0;
    let w = [v(s), v(s), v(s)];
    let m = s.int(300, 1000) as f64 / 1000.0 * s.pick(&[1.0, -1.0]);
    let other = s.weighted(&[2, 1]) == 1;
    let mut u = w.map(|x| x * m);
    if other {
        let i = s.idx(3);
        u[i] += s.pick(&[1.0, -1.0]) * s.int(20, 400) as f64 / 1000.0;
    }
    let det = |i: usize, j: usize| w[i] * u[j] - w[j] * u[i];
    let apart = det(0, 1).abs().max(det(1, 2).abs()).max(det(0, 2).abs());
    if other && apart < 1e-3 {
        return discard("moved along itself");
    }
    c.label(if other { "different lines" } else { "the same line" });
    c.nontrivial = true;
    c.note(|| format!("{w:?} and {u:?}"));
    let (f, g) = (Line2::new(w[0], w[1], w[2]), Line2::new(u[0], u[1], u[2]));
    let s32 = |v: [f64; 3]| Line2::new(v[0] as f32, v[1] as f32, v[2] as f32);
    let (a, b) = (s32(w), s32(u));
    ensure!((f == g) != other && (g == f) != other && (f != g) == other, "64-bit lines {f:?} and {g:?}: == is {}", f == g);
    ensure!((a == b) != other && (b == a) != other && (a != b) == other, "32-bit lines {a:?} and {b:?}: == is {}", a == b);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "one question of any of 23 kinds (turns, areas, convexity, simplicity, all locations, lines, rays, projections, pairs, sweeps, hulls, triangulations, pieces, order) asked in f64 and in a counting number type with an operation budget cubic in its size, or in f64 and f32 for the exact kinds; non-trivial: the answer is not empty/negative/zero",
        subs: vec![
            sub_check("counted", 30_000, 2_000_000, counted),
            sub_check("counted-large", 6_000, 400_000, counted_large),
            sub_check("single", 60_000, 4_000_000, single),
            sub_check("equations", 30_000, 2_000_000, equations),
            sub_check("single-rounded", 60_000, 4_000_000, single_rounded),
        ],
    }
}
