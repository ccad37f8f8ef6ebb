//! Figures with real coordinates in general position, of any sizes and places, against plain
//! 64-bit formulas.  Points are clear of every boundary by 1e-7 and more, so rounding decides
//! nothing; what shows is a fault tied to a size, a place, a proportion or a count.
use crate::props::prelude::*;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::line_2_line_2::*;
use rcgal::algorithm::intersection::line_2_ray_2::*;
use rcgal::algorithm::intersection::line_segment_2_ray_2::*;
use rcgal::algorithm::location::location_enum::*;
use rcgal::algorithm::location::point_2_arc_segment_2::*;
use rcgal::algorithm::location::point_2_circle_segment_2::*;
use rcgal::algorithm::location::point_2_line_segment_2::*;
use rcgal::algorithm::location::point_2_polygon_2::*;
use rcgal::algorithm::location::point_2_ray_2::*;
use rcgal::algorithm::location::point_2_triangle_2::*;
use rcgal::algorithm::projection::point_2_line_2::*;
use rcgal::algorithm::projection::point_2_line_segment_2::*;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::triangle_2::Triangle2;
use rcgal::kernel::util_enum::{Orientation, TurnDirection};
use std::f64::consts::TAU;

fn np(p: F2) -> Point2<f64> {
    Point2::new(p.0, p.1)
}
fn sub2(a: F2, b: F2) -> F2 {
    (a.0 - b.0, a.1 - b.1)
}
fn cr(a: F2, b: F2) -> f64 {
    a.0 * b.1 - a.1 * b.0
}
fn dt(a: F2, b: F2) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
fn turn(a: F2, b: F2, c: F2) -> f64 {
    cr(sub2(b, a), sub2(c, a))
}
/// A place: centre and size.
fn place(s: &mut Src) -> (F2, f64) {
    let size = s.pick(&[1.0, 10.0, 0.2, 100.0, 400.0]);
    let at = s.pick(&[(0.0, 0.0), (0.0, 0.0), (300.0, -500.0), (-7.5, 222.0)]);
    (at, size)
}
fn any(s: &mut Src, (at, size): (F2, f64)) -> F2 {
    (at.0 + (s.f01() * 2.0 - 1.0) * size, at.1 + (s.f01() * 2.0 - 1.0) * size)
}
/// A distance of any magnitude: 1e-6 of the size and more.
fn step(s: &mut Src, size: f64) -> f64 {
    let k = 10f64.powf(-6.0 * s.f01()) * size;
    k.max(2e-7) * if s.chance(1, 2) { 1.0 } else { -1.0 }
}
/// The point at `t` along a-b, `d` to its left.
fn beside(a: F2, b: F2, t: f64, d: f64) -> F2 {
    let v = sub2(b, a);
    let l = dist(a, b);
    (a.0 + v.0 * t - v.1 / l * d, a.1 + v.1 * t + v.0 / l * d)
}
fn off_seg(p: F2, a: F2, b: F2) -> f64 {
    let v = sub2(b, a);
    let t = (dt(sub2(p, a), v) / dt(v, v)).clamp(0.0, 1.0);
    dist(p, (a.0 + v.0 * t, a.1 + v.1 * t))
}
fn two(s: &mut Src, w: (F2, f64)) -> Result<(F2, F2), Stop> {
    let a = any(s, w);
    let b = if s.chance(1, 3) {
        let (t, r) = (s.f01() * TAU, step(s, w.1).abs() * 10.0);
        (a.0 + r * t.cos(), a.1 + r * t.sin())
    } else {
        any(s, w)
    };
    if dist(a, b) < 1e-3 * w.1.min(1.0) {
        return Err(Stop::Discard("too short"));
    }
    Ok((a, b))
}

/// C03: turns and triangles.
pub fn triangles(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let w = place(s);
    let (a, b) = two(s, w)?;
    let k = if s.chance(1, 2) { any(s, w) } else { let t = s.f01() * 3.0 - 1.0; beside(a, b, t, step(s, w.1)) };
    let x = turn(a, b, k);
    c.note(|| format!("{a:?} {b:?} {k:?}"));
    c.nontrivial = true;
    let err = 1e-15 * (1.0 + [a, b, k].iter().fold(0.0f64, |m, p| m.max(p.0.abs()).max(p.1.abs()))) * (dist(a, b) + dist(a, k)) * 8.0;
    if x.abs() < (1e3 * err).max(1e-9) {
        return discard("nearly collinear");
    }
    let d = Point2::turn(&np(a), &np(b), &np(k));
    ensure!(d == if x > 0.0 { TurnDirection::Left } else { TurnDirection::Right }, "turn {d:?}, cross product {x}");
    let t = Triangle2::new(np(a), np(b), np(k));
    ensure!(t.orientation() == if x > 0.0 { Orientation::CounterClockwise } else { Orientation::Clockwise }, "orientation {:?}, cross product {x}", t.orientation());
    ensure!(close(t.area(), x / 2.0, 10.0 * err), "area {}, expected {}", t.area(), x / 2.0);
    Ok(())
}

/// C05
pub fn segments(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let w = place(s);
    let (a, b) = two(s, w)?;
    let l = LineSegment2::new(np(a), np(b));
    for _ in 0..3 {
        let s = &mut c.src;
        let d = step(s, w.1);
        let t = s.f01() * 3.0 - 1.0;
        let p = beside(a, b, t, d);
        c.note(|| format!("{p:?} by {a:?} {b:?}"));
        c.nontrivial = true;
        let want = if d > 0.0 { Point2Segment2Location::Left } else { Point2Segment2Location::Right };
        let got = locate_point_2_line_segment_2(&np(p), &l);
        ensure!(got == want, "{p:?} is {got:?} {l:?}, made {d} to its left");
        ensure!(!is_point_2_on_line_segment_2(&np(p), &l), "{p:?} is on {l:?}, made {d} to its left");
    }
    Ok(())
}

/// C06
pub fn in_triangle(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let w = place(s);
    let (a, b) = two(s, w)?;
    let k = if s.chance(1, 2) { any(s, w) } else { let t = s.f01() * 3.0 - 1.0; beside(a, b, t, step(s, w.1) * 10.0) };
    let v = [a, b, k];
    let high = turn(a, b, k).abs() / dist(a, b).max(dist(b, k)).max(dist(k, a));
    if high < 1e-5 || dist(a, k).min(dist(b, k)) < 1e-3 * w.1.min(1.0) {
        return discard("too flat");
    }
    let t = Triangle2::new(np(a), np(b), np(k));
    for _ in 0..3 {
        let s = &mut c.src;
        let i = s.idx(3);
        let along = s.f01() * 1.6 - 0.3;
        let p = if s.chance(1, 2) { beside(v[i], v[(i + 1) % 3], along, step(s, w.1)) } else { any(s, w) };
        if (0..3).any(|i| off_seg(p, v[i], v[(i + 1) % 3]) < 1e-7) {
            continue;
        }
        let sides = (0..3).filter(|i| turn(v[*i], v[(i + 1) % 3], p) > 0.0).count();
        let want = if sides == 0 || sides == 3 { Point2Triangle2Location::Inside } else { Point2Triangle2Location::Outside };
        c.note(|| format!("{p:?} in {v:?}"));
        c.nontrivial = true;
        c.label(if sides % 3 == 0 { "inside" } else { "outside" });
        let got = locate_point_2_triangle_2(&np(p), &t);
        ensure!(got == want, "{p:?} is {got:?} {v:?}, expected {want:?}");
    }
    Ok(())
}

/// A star-shaped polygon round the place's centre, or a convex one, either way round.
fn star(s: &mut Src, (at, size): (F2, f64), most: usize) -> Vec<F2> {
    let n = 3 + s.idx(most - 2);
    let flat = s.chance(1, 3);
    let squeeze = s.pick(&[1.0, 1.0, 0.3, 0.05]);
    let jag = s.pick(&[0.9, 0.3, 0.02]);
    let lean = s.f01() * TAU;
    let mut v: Vec<F2> = (0..n)
        .map(|i| {
            let t = (i as f64 + 0.1 + 0.8 * s.f01()) * TAU / n as f64;
            let r = if flat { 1.0 } else { 1.0 - jag * s.f01() };
            let (x, y) = (r * t.cos() * size, r * t.sin() * size * squeeze);
            (at.0 + x * lean.cos() - y * lean.sin(), at.1 + x * lean.sin() + y * lean.cos())
        })
        .collect();
    let k = s.idx(n);
    v.rotate_left(k);
    if s.chance(1, 2) {
        v.reverse();
    }
    v
}
fn area2f(v: &[F2]) -> f64 {
    let n = v.len();
    (0..n).map(|i| cr(sub2(v[i], v[0]), sub2(v[(i + 1) % n], v[0]))).sum()
}
fn pgon(v: &[F2]) -> Polygon2<f64> {
    Polygon2::new(v.iter().map(|p| np(*p)).collect())
}
/// Corners clear of each other and of the edges they do not end.
fn clear(v: &[F2], margin: f64) -> bool {
    let n = v.len();
    (0..n).all(|i| (0..n).all(|j| j == i || (j + 1) % n == i || off_seg(v[i], v[j], v[(j + 1) % n]) > margin) && dist(v[i], v[(i + 1) % n]) > margin)
}
/// Whether some two edges without a common corner cross; none closely.
fn crosses(v: &[F2]) -> bool {
    let n = v.len();
    let meet = |a: F2, b: F2, c: F2, d: F2| turn(a, b, c) * turn(a, b, d) < 0.0 && turn(c, d, a) * turn(c, d, b) < 0.0;
    (0..n).any(|i| (i + 2..n).any(|j| (j + 1) % n != i && meet(v[i], v[i + 1], v[j], v[(j + 1) % n])))
}

/// C04
pub fn polygons(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let w = place(s);
    let v = star(s, w, 60);
    c.note(|| format!("polygon {v:?}"));
    let a = area2f(&v) / 2.0;
    let g = pgon(&v);
    let mag = (w.0 .0.abs() + w.0 .1.abs() + w.1) * w.1;
    ensure!(close(g.area(), a, 1e-12 * mag * v.len() as f64), "area {}, expected {a}", g.area());
    if !clear(&v, 1e-6) || crosses(&v) {
        return discard("not clearly simple");
    }
    let n = v.len();
    let turns: Vec<f64> = (0..n).map(|i| turn(v[i], v[(i + 1) % n], v[(i + 2) % n])).collect();
    if turns.iter().any(|t| t.abs() < 1e-8) {
        return discard("nearly straight corner");
    }
    let want = turns.iter().all(|t| *t > 0.0) || turns.iter().all(|t| *t < 0.0);
    c.nontrivial = true;
    c.label(if want { "convex" } else { "concave" });
    ensure!(g.is_convex() == want, "convex: {}, expected {want}: {v:?}", g.is_convex());
    Ok(())
}

/// C07
pub fn in_polygon(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let w = place(s);
    let v = star(s, w, 60);
    let n = v.len();
    if !clear(&v, 1e-6) || crosses(&v) {
        return discard("not clearly simple");
    }
    c.note(|| format!("polygon {v:?}"));
    let g = pgon(&v);
    for _ in 0..4 {
        let s = &mut c.src;
        let i = s.idx(n);
        let along = s.f01() * 1.4 - 0.2;
        let mut p = match s.upto(2) {
            0 => any(s, w),
            1 => beside(v[i], v[(i + 1) % n], along, step(s, w.1)),
            _ => any(s, w),
        };
        if s.chance(1, 3) {
            // level with a corner
            p.1 = v[i].1;
        }
        if (0..n).any(|i| off_seg(p, v[i], v[(i + 1) % n]) < 1e-7) {
            continue;
        }
        let inside = (0..n).fold(false, |x, i| {
            let (a, b) = (v[i], v[(i + 1) % n]);
            if (a.1 > p.1) != (b.1 > p.1) && (turn(a, b, p) > 0.0) == (b.1 > a.1) { !x } else { x }
        });
        let want = if inside { Point2Polygon2Location::Inside } else { Point2Polygon2Location::Outside };
        c.note(|| format!("point {p:?}"));
        c.nontrivial = true;
        c.label(if inside { "inside" } else { "outside" });
        let got = locate_point_2_polygon_2(&np(p), &g);
        ensure!(got == want, "{p:?} is {got:?} {v:?}, expected {want:?}");
        ensure!(is_point_2_inside_polygon_2(&np(p), &g) == inside && is_point_2_outside_polygon_2(&np(p), &g) != inside && !is_point_2_on_polygon_2(&np(p), &g), "the questions about {p:?} and {v:?} disagree with {want:?}");
    }
    Ok(())
}

/// C08
pub fn round(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let w = place(s);
    let k = any(s, w);
    let r = (0.01 + s.f01()) * w.1;
    let a = s.f01() * TAU;
    let span = 0.05 + s.f01() * 6.1;
    let b = a + span;
    // the same arc by other angles
    let (ta, tb) = match s.upto(3) {
        0 => (a, b),
        1 if b > TAU => (a, b - TAU),
        2 => (a - TAU, b - TAU),
        _ => (a, b),
    };
    let circle = CircleSegment2::new(np(k), r);
    let arc = ArcSegment2::new(circle, ta, tb);
    c.note(|| format!("centre {k:?} radius {r} from {ta} to {tb}"));
    for (e, t) in [(arc.source(), a), (arc.target(), b)] {
        ensure!(near(xy(&e), (k.0 + r * t.cos(), k.1 + r * t.sin()), 1e-11 * (1.0 + r)), "end {e} of {arc:?}");
    }
    for _ in 0..3 {
        let s = &mut c.src;
        let t = s.f01() * TAU;
        let d = if s.chance(1, 2) { 0.0 } else { step(s, r.min(1.0)) };
        if r + d < 1e-7 {
            continue;
        }
        let p = (k.0 + (r + d) * t.cos(), k.1 + (r + d) * t.sin());
        c.note(|| format!("point {p:?}"));
        c.nontrivial = true;
        let got = locate_point_2_circle_segment_2(&np(p), &circle);
        let want = if d == 0.0 { Point2Circle2Location::On } else if d < 0.0 { Point2Circle2Location::Inside } else { Point2Circle2Location::Outside };
        ensure!(got == want, "{p:?} is {got:?} the circle {k:?} {r}, expected {want:?}");
        let u = (t - a).rem_euclid(TAU);
        if [0.0, span, TAU].iter().any(|e| (u - e).abs() * r.min(1.0) < 1e-7) {
            continue;
        }
        let on = d == 0.0 && u < span;
        c.label(if on { "on the arc" } else if d == 0.0 { "on the rest of the circle" } else { "off the circle" });
        ensure!(is_point_2_on_arc_segment_2(&np(p), &arc) == on, "{p:?} on {arc:?}: {}, expected {on}", !on);
        ensure!((locate_point_2_arc_segment_2(&np(p), &arc) == Point2ArcSegment2Location::On) == on, "{p:?} located {:?} on {arc:?}, on it: {on}", locate_point_2_arc_segment_2(&np(p), &arc));
    }
    Ok(())
}

/// C10, C11, C12: lines, rays, projections.
fn line_of(s: &mut Src, a: F2, b: F2) -> Line2<f64> {
    if s.chance(1, 2) && (a.0 - b.0).abs() > 0.1 * (a.1 - b.1).abs() {
        return Line2::from_points(&np(a), &np(b));
    }
    let k = s.pick(&[1.0, -1.0, 0.01, 30.0]);
    let (x, y) = (a.1 - b.1, b.0 - a.0);
    Line2::new(x * k, y * k, -(x * a.0 + y * a.1) * k)
}
fn crossing(a: F2, u: F2, b: F2, v: F2) -> Option<(f64, f64)> {
    let det = cr(u, v);
    if det.abs() < 0.02 * dt(u, u).sqrt() * dt(v, v).sqrt() {
        return None;
    }
    let w = sub2(b, a);
    Some((cr(w, v) / det, cr(w, u) / det))
}
fn around(p: F2, w: (F2, f64)) -> f64 {
    1e-9 * (1.0 + p.0.abs() + p.1.abs() + w.1 + w.0 .0.abs() + w.0 .1.abs())
}
pub fn lines(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let w = place(s);
    let w = (w.0, w.1.max(1.0));
    let (a, b, k, d) = (any(s, w), any(s, w), any(s, w), any(s, w));
    if dist(a, b).min(dist(k, d)) < 0.01 * w.1 {
        return discard("too short");
    }
    let (x, y) = (line_of(s, a, b), line_of(s, k, d));
    c.note(|| format!("lines {a:?} {b:?} and {k:?} {d:?}: {x:?} {y:?}"));
    let Some((t, _)) = crossing(a, sub2(b, a), k, sub2(d, k)) else { return discard("nearly parallel") };
    let p = (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t);
    c.nontrivial = true;
    for (x, y) in [(&x, &y), (&y, &x)] {
        ensure!(is_line_2_line_2_intersected(x, y), "said not to meet");
        match line_2_line_2_intersection(x, y) {
            Some(g) => ensure!(near(xy(&g), p, around(p, w)), "meet in {g}, expected {p:?}"),
            None => return fail(format!("meet nowhere, expected {p:?}")),
        }
    }
    Ok(())
}
pub fn rays(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let w = place(s);
    let w = (w.0, w.1.max(1.0));
    let (o, e, a, b) = (any(s, w), any(s, w), any(s, w), any(s, w));
    if dist(a, b).min(dist(o, e)) < 0.01 * w.1 {
        return discard("too short");
    }
    let k = s.pick(&[1.0, 0.03, 5.0]);
    let u = sub2(e, o);
    let ray = Ray2::new(np(o), Vector2::new(u.0 * k, u.1 * k));
    let line = line_of(s, a, b);
    c.note(|| format!("ray from {o:?} to {e:?}; {a:?} {b:?}"));
    for _ in 0..2 {
        let s = &mut c.src;
        let (t, d) = (s.f01() * 4.0 - 2.0, step(s, w.1));
        let p = beside(o, e, t, d);
        let want = if d > 0.0 { Point2Ray2Location::Left } else { Point2Ray2Location::Right };
        let got = locate_point_2_ray_2(&np(p), &ray);
        ensure!(got == want && !is_point_2_on_ray_2(&np(p), &ray), "{p:?} is {got:?} the ray, made {d} to its left");
    }
    let Some((t, m)) = crossing(o, u, a, sub2(b, a)) else { return discard("nearly parallel") };
    if t.abs() < 1e-5 || m.abs() < 1e-5 || (m - 1.0).abs() < 1e-5 {
        return discard("close to an end");
    }
    let p = (o.0 + u.0 * t, o.1 + u.1 * t);
    c.nontrivial = true;
    c.label(if t < 0.0 { "behind" } else if (0.0..=1.0).contains(&m) { "segment ahead" } else { "line ahead" });
    let got = line_2_ray_2_intersection(&line, &ray).map(|g| xy(&g));
    let fits = match got {
        Some(g) => t > 0.0 && near(g, p, around(p, w)),
        None => t < 0.0,
    };
    ensure!(fits && is_line_2_ray_2_intersected(&line, &ray) == (t > 0.0), "line and ray meet in {got:?}, expected {p:?}, ahead: {}", t > 0.0);
    let yes = t > 0.0 && m > 0.0 && m < 1.0;
    for (a, b) in [(a, b), (b, a)] {
        let l = LineSegment2::new(np(a), np(b));
        let got: Vec<F2> = line_segment_2_ray_2_intersection(&l, &ray).into_iter().map(|g| xy(&g)).collect();
        let fits = if yes { got.len() == 1 && near(got[0], p, around(p, w)) } else { got.is_empty() };
        ensure!(fits && is_line_segment_2_ray_2_intersected(&l, &ray) == yes, "segment and ray meet in {got:?}, expected {p:?}: {yes}");
    }
    Ok(())
}
pub fn feet(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let w = place(s);
    let w = (w.0, w.1.max(1.0));
    let (a, b) = (any(s, w), any(s, w));
    if dist(a, b) < 0.01 * w.1 {
        return discard("too short");
    }
    let t = s.f01() * 2.0 - 0.5;
    let d = if s.chance(1, 2) { step(s, w.1) } else { (s.f01() - 0.5) * w.1 };
    let (p, foot) = (beside(a, b, t, d), beside(a, b, t, 0.0));
    let line = line_of(s, a, b);
    c.note(|| format!("{p:?} on {a:?} {b:?}"));
    c.nontrivial = true;
    let g = xy(&point_2_project_line_2(&np(p), &line));
    ensure!(near(g, foot, around(p, w)), "foot {g:?} on {line:?}, expected {foot:?}");
    if t.abs() < 1e-6 || (t - 1.0).abs() < 1e-6 {
        return Ok(());
    }
    let l = LineSegment2::new(np(a), np(b));
    let got = point_2_project_line_segment_2(&np(p), &l).map(|g| xy(&g));
    let fits = match got {
        Some(g) => (0.0..=1.0).contains(&t) && near(g, foot, around(p, w)),
        None => !(0.0..=1.0).contains(&t),
    };
    c.label(if (0.0..=1.0).contains(&t) { "on the segment" } else { "beyond it" });
    ensure!(fits, "foot {got:?} on {l:?}, expected {foot:?} at {t}");
    Ok(())
}

/// C18: stars, and stars with corners moved about.
pub fn simple(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let w = place(s);
    let mut v = star(s, w, 40);
    let n = v.len();
    for _ in 0..s.idx(3) {
        let (i, j) = (s.idx(n), s.idx(n));
        match s.upto(2) {
            0 => v[i] = any(s, w),
            1 => v.swap(i, j),
            _ => {
                // a corner pushed across another edge by any amount
                let along = 0.1 + 0.8 * s.f01();
                v[i] = beside(v[j], v[(j + 1) % n], along, step(s, w.1));
            }
        }
    }
    c.note(|| format!("polygon {v:?}"));
    // twice a triangle's height or the whole polygon's area says nothing: corners clear of edges do
    if !clear(&v, 1e-6) {
        return discard("a corner close to an edge");
    }
    let want = !crosses(&v);
    c.nontrivial = true;
    c.label(if want { "simple" } else { "crossing" });
    ensure!(pgon(&v).is_simple() == want, "simple: {}, expected {want}: {v:?}", !want);
    Ok(())
}

/// C19
pub fn hulls(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let w = place(s);
    let n = match s.upto(2) {
        0 => 3 + s.idx(8),
        1 => 10 + s.idx(50),
        _ => 50 + s.idx(300),
    };
    let round = s.pick(&[0.0, 0.3, 0.95]);
    let mut v: Vec<F2> = (0..n)
        .map(|_| {
            if s.f01() < round {
                let t = s.f01() * TAU;
                (w.0 .0 + w.1 * t.cos(), w.0 .1 + w.1 * t.sin())
            } else {
                any(s, w)
            }
        })
        .collect();
    for _ in 0..s.idx(4) {
        // repeated, or just outside the line through two others
        let (i, j, k) = (s.idx(n), s.idx(n), s.idx(n));
        if s.chance(1, 2) {
            v.push(v[i]);
        } else if dist(v[j], v[k]) > 1e-3 {
            let along = 0.1 + 0.8 * s.f01();
            v[i] = beside(v[j], v[k], along, step(s, w.1));
        }
    }
    c.note(|| format!("points {v:?}"));
    let got = xys(&ConvexHull2::new(v.iter().map(|p| np(*p)).collect()).convex_hull());
    let mut p = v.clone();
    p.sort_by(|a, b| a.partial_cmp(b).unwrap());
    p.dedup();
    if p.windows(2).any(|x| x[1].0 - x[0].0 < 1e-9) {
        return discard("abscissas nearly equal");
    }
    let mut want: Vec<F2> = Vec::new();
    for round in 0..2 {
        let from = want.len().saturating_sub(0);
        let it: Vec<F2> = if round == 0 { p.clone() } else { p.iter().rev().copied().collect() };
        for q in it {
            while want.len() >= from + 2 {
                let (a, b) = (want[want.len() - 2], want[want.len() - 1]);
                let x = turn(a, b, q);
                // how far b is from being straight
                if x.abs() / dist(a, q) < 1e-8 || x.abs() < 1e-8 {
                    return discard("nearly collinear");
                }
                if x > 0.0 {
                    break;
                }
                want.pop();
            }
            want.push(q);
        }
        want.pop();
    }
    c.nontrivial = want.len() >= 3;
    c.label(if want.len() > 20 { "21+ corners" } else { "up to 20 corners" });
    ensure!(got == want, "hull {got:?}, expected {want:?}");
    Ok(())
}

/// C20
pub fn ears(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let w = place(s);
    let v = star(s, w, 50);
    let n = v.len();
    c.note(|| format!("polygon {v:?}"));
    if !clear(&v, 1e-5) || crosses(&v) {
        return discard("not clearly simple");
    }
    let all = area2f(&v) / 2.0;
    let t = match refused(|| earcut_2(pgon(&v))) {
        Ok(t) => t,
        Err(e) => return fail(format!("refused: {e}: {v:?}")),
    };
    ensure!(t.len() == n - 2, "{} triangles of {n} vertices", t.len());
    let mut edges: Vec<(usize, usize)> = Vec::new();
    let mut sum = 0.0;
    let mut thin = f64::MAX;
    for x in &t {
        ensure!(x.len() == 3 && x.iter().all(|i| *i < n), "triangle {x:?}");
        let mut x = [x[0], x[1], x[2]];
        let a = turn(v[x[0]], v[x[1]], v[x[2]]) / 2.0;
        thin = thin.min(a.abs());
        if a * all < 0.0 {
            x.swap(1, 2);
        }
        sum += a.abs();
        edges.extend([(x[0], x[1]), (x[1], x[2]), (x[2], x[0])]);
    }
    if thin < 1e-9 * w.1 {
        return discard("too thin a triangle to judge");
    }
    c.nontrivial = n > 3;
    ensure!(close(sum, all.abs(), 1e-9 * w.1 * w.1 * n as f64), "triangles of area {sum}, polygon of {all}: {t:?}");
    // turned like the polygon, each edge of it once, each diagonal once in each direction
    for e in &edges {
        let same = edges.iter().filter(|x| *x == e).count();
        let back = edges.iter().filter(|x| (x.1, x.0) == *e).count();
        let side = e.1 == (e.0 + 1) % n;
        ensure!(same == 1 && back == if side { 0 } else { 1 }, "edge {e:?} of {t:?} occurs {same} times, and {back} in the other direction: {v:?}");
    }
    Ok(())
}
