//! Beside the boundary: objects with arbitrary real coordinates, and points placed by
//! construction on a boundary (to rounding) or beside it by a known distance far below
//! any feature's size but clearly above the library's tolerance.
use crate::engine::*;
use crate::ensure;
use crate::util::*;
use rcgal::algorithm::intersection::line_2_ray_2::*;
use rcgal::algorithm::intersection::line_segment_2_ray_2::*;
use rcgal::algorithm::intersection::segment_2_segment_2::*;
use rcgal::algorithm::location::location_enum::*;
use rcgal::algorithm::location::point_2_arc_segment_2::*;
use rcgal::algorithm::location::point_2_circle_segment_2::*;
use rcgal::algorithm::location::point_2_line_2::*;
use rcgal::algorithm::location::point_2_line_segment_2::*;
use rcgal::algorithm::location::point_2_polygon_2::*;
use rcgal::algorithm::location::point_2_ray_2::*;
use rcgal::algorithm::location::point_2_triangle_2::*;
use rcgal::algorithm::projection::point_2_line_segment_2::*;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::point_2::Point2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::triangle_2::Triangle2;
use rcgal::kernel::util_enum::*;
use rcgal::kernel::vector_2::Vector2;
use std::f64::consts::PI;

const TAU: f64 = 2.0 * PI;

fn p(a: F2) -> Point2<f64> {
    Point2::new(a.0, a.1)
}
fn at(a: F2, d: F2, t: f64) -> F2 {
    (a.0 + d.0 * t, a.1 + d.1 * t)
}
fn cross(a: F2, b: F2) -> f64 {
    a.0 * b.1 - a.1 * b.0
}
fn left(d: F2) -> F2 {
    (-d.1, d.0)
}
fn unit(angle: f64) -> F2 {
    (angle.cos(), angle.sin())
}

/// A coordinate: short decimal, integer or any, up to 50.
fn coord(s: &mut Src) -> f64 {
    let k = grown(s);
    k * match s.upto(2) {
        0 => s.int(-20, 20) as f64,
        1 => s.int(-500, 500) as f64 / 10.0,
        _ => (s.f01() - 0.5) * 100.0,
    }
}
/// ten times larger where asked
fn grown(s: &Src) -> f64 {
    if s.large { 10.0 } else { 1.0 }
}
fn point(s: &mut Src) -> F2 {
    (coord(s), coord(s))
}
/// A direction of length one.
fn heading(s: &mut Src) -> F2 {
    match s.upto(3) {
        0 => s.pick(&[(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)]),
        1 => s.pick(&[(0.6, 0.8), (-0.8, 0.6), (0.8, -0.6), (-0.6, -0.8)]),
        _ => unit(s.f01() * TAU),
    }
}
fn length(s: &mut Src, lo: f64) -> f64 {
    let k = grown(s);
    k * match s.upto(2) {
        0 => s.int(2, 40) as f64,
        1 => lo + s.f01() * 5.0,
        _ => lo + s.f01() * 60.0,
    }
}
/// An offset: nothing, rounding, or 3e-9..1e-6 to either side.
fn offset(s: &mut Src) -> f64 {
    let sign = if s.chance(1, 2) { -1.0 } else { 1.0 };
    match s.upto(5) {
        0 => 0.0,
        1 => sign * 1e-12,
        2 => sign * s.pick(&[3e-9, 5e-9, 1e-8]),
        _ => sign * 3e-9 * (300f64).powf(s.f01()),
    }
}
fn within(d: f64) -> bool {
    d.abs() <= 1e-12
}
/// A parameter well inside (0, 1).
fn inner(s: &mut Src) -> f64 {
    match s.upto(1) {
        0 => s.int(1, 9) as f64 / 10.0,
        _ => 0.05 + 0.9 * s.f01(),
    }
}
fn seg(a: F2, b: F2) -> LineSegment2<f64> {
    LineSegment2::new(p(a), p(b))
}
fn either(flip: bool, a: F2, b: F2) -> LineSegment2<f64> {
    if flip { seg(b, a) } else { seg(a, b) }
}

fn label(c: &mut Ctx, d: f64) {
    c.label(if d == 0.0 {
        "on"
    } else if within(d) {
        "on to rounding"
    } else {
        "beside"
    });
    c.nontrivial = true;
}

pub fn equality(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let (a, h, d) = (point(s), heading(s), offset(s));
    let b = at(a, h, d);
    label(c, d);
    let want = within(d);
    ensure!((p(a) == p(b)) == want && p(a).equals(&p(b)) == want, "{a:?} and {b:?}, {d} apart, are equal: {}", p(a) == p(b));
    Ok(())
}

pub fn turn(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let (a, h, l, t, d) = (point(s), heading(s), length(s, 1.0), inner(s), offset(s));
    // the third point is on the line, to either side of the second or between
    let k = match s.upto(2) {
        0 => t,
        1 => 1.0 + t,
        _ => -t,
    };
    let b = at(a, h, l);
    let q = at(at(a, h, l * k), left(h), d);
    label(c, d);
    let want = if within(d) {
        TurnDirection::Collinear
    } else if d > 0.0 {
        TurnDirection::Left
    } else {
        TurnDirection::Right
    };
    let got = Point2::turn(&p(a), &p(b), &p(q));
    ensure!(got == want, "turn of {a:?} {b:?} {q:?}, {d} beside the line: {got:?}");
    Ok(())
}

pub fn segment(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let (a, h, l, d) = (point(s), heading(s), length(s, 0.5), offset(s));
    let b = at(a, h, l);
    use Point2Segment2Location::*;
    let (q, want) = if s.chance(1, 3) {
        // beyond an end
        let q = if s.chance(1, 2) { at(b, h, d) } else { at(a, h, -d) };
        (q, if d > 1e-12 { Collinear } else { On })
    } else {
        let t = inner(s);
        let q = at(at(a, h, l * t), left(h), d);
        (q, if within(d) { On } else if d > 0.0 { Left } else { Right })
    };
    label(c, d);
    let g = seg(a, b);
    let got = locate_point_2_line_segment_2(&p(q), &g);
    ensure!(got == want, "{q:?} against segment {a:?}-{b:?} (offset {d}): {got:?}");
    ensure!(is_point_2_on_line_segment_2(&p(q), &g) == (want == On), "{q:?} on segment {a:?}-{b:?} (offset {d})");
    Ok(())
}

/// A star-shaped polygon around a point, counter-clockwise, with sides and corners of
/// moderate size.
fn star(s: &mut Src, n: usize) -> Vec<F2> {
    let o = point(s);
    let start = s.f01() * TAU;
    let v: Vec<F2> = (0..n)
        .map(|i| {
            let a = start + (i as f64 + 0.3 * s.f01()) * TAU / n as f64;
            at(o, unit(a), (2.0 + 10.0 * s.f01()) * grown(s))
        })
        .collect();
    v
}

pub fn triangle(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let v = star(s, 3);
    let (i, t, d) = (s.idx(3), inner(s), offset(s));
    let (a, b, o) = (v[i], v[(i + 1) % 3], v[(i + 2) % 3]);
    let e = dist(a, b);
    let h = ((b.0 - a.0) / e, (b.1 - a.1) / e);
    // far enough from the other sides for the offset to decide
    if cross(h, (o.0 - a.0, o.1 - a.1)) < 0.5 {
        return discard("a flat triangle");
    }
    let q = at(at(a, h, e * t), left(h), d);
    let w = s.perm(3);
    let g = Triangle2::new(p(v[w[0]]), p(v[w[1]]), p(v[w[2]]));
    label(c, d);
    use Point2Triangle2Location::*;
    let want = if within(d) { On } else if d > 0.0 { Inside } else { Outside };
    let got = locate_point_2_triangle_2(&p(q), &g);
    ensure!(got == want, "{q:?} against triangle {v:?} (offset {d}): {got:?}");
    Ok(())
}

pub fn polygon(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let n = 3 + s.idx(10);
    let mut v = star(s, n);
    let (i, t, d) = (s.idx(n), inner(s), offset(s));
    let (a, b) = (v[i], v[(i + 1) % n]);
    let e = dist(a, b);
    let h = ((b.0 - a.0) / e, (b.1 - a.1) / e);
    // convex corners are at least this wide, reflex ones do not matter
    for (x, y, z) in [(v[(i + n - 1) % n], a, b), (a, b, v[(i + 2) % n])] {
        let (k, m) = ((y.0 - x.0, y.1 - x.1), (z.0 - y.0, z.1 - y.1));
        if cross(k, m).abs() < 1e-2 * dist(x, y) * dist(y, z) {
            return discard("a narrow corner");
        }
    }
    let q = at(at(a, h, e * t), left(h), d);
    if s.chance(1, 2) {
        v.reverse();
    }
    let k = s.idx(n);
    v.rotate_left(k);
    label(c, d);
    let g = Polygon2::new(v.iter().map(|x| p(*x)).collect());
    use Point2Polygon2Location::*;
    let want = if within(d) { On } else if d > 0.0 { Inside } else { Outside };
    let got = locate_point_2_polygon_2(&p(q), &g);
    ensure!(got == want, "{q:?} against polygon {v:?} (offset {d}): {got:?}");
    Ok(())
}

fn circle(s: &mut Src) -> (F2, f64) {
    (point(s), length(s, 0.5).min(40.0 * grown(s)))
}
/// An arc, its start and its span (0.3 to 2 pi - 0.3), counter-clockwise.
fn arc(s: &mut Src) -> (F2, f64, f64, f64) {
    let (c, r) = circle(s);
    let a = match s.upto(2) {
        0 => s.int(0, 7) as f64 * (PI / 4.0),
        1 => -s.f01() * TAU,
        _ => s.f01() * TAU,
    };
    let w = match s.upto(2) {
        0 => s.int(1, 7) as f64 * (PI / 4.0),
        _ => 0.3 + s.f01() * (TAU - 0.6),
    };
    (c, r, a, w)
}
fn lib_arc(x: (F2, f64, f64, f64)) -> ArcSegment2<f64> {
    let (c, r, a, w) = x;
    let t = a + w;
    ArcSegment2::new(CircleSegment2::new(p(c), r), a, if t > TAU { t - TAU } else { t })
}

pub fn on_circle(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let d = offset(s);
    label(c, d);
    let s = &mut c.src;
    if s.chance(1, 2) {
        let (o, r) = circle(s);
        let q = at(o, heading(s), r + d);
        let k = CircleSegment2::new(p(o), r);
        use Point2Circle2Location::*;
        let want = if within(d) { On } else if d > 0.0 { Outside } else { Inside };
        let got = locate_point_2_circle_segment_2(&p(q), &k);
        ensure!(got == want, "{q:?} against circle {o:?} r {r} (offset {d}): {got:?}");
        ensure!(is_point_2_on_circle_segment_2(&p(q), &k) == (want == On), "{q:?} on circle {o:?} r {r} (offset {d})");
        return Ok(());
    }
    let x = arc(s);
    let (o, r, a, w) = x;
    let k = lib_arc(x);
    let (q, want) = if s.chance(1, 2) {
        // beside the arc
        (at(o, unit(a + w * inner(s)), r + d), within(d))
    } else {
        // beside an end: the offset is an angle, positive inside
        let e = if s.chance(1, 2) { a + d } else { a + w - d };
        (at(o, unit(e), r), d >= -1e-12)
    };
    let got = locate_point_2_arc_segment_2(&p(q), &k) == Point2ArcSegment2Location::On;
    ensure!(got == want, "{q:?} on arc {o:?} r {r} from {a} over {w} (offset {d}): {got}");
    ensure!(is_point_2_on_arc_segment_2(&p(q), &k) == want, "is_point_2_on_arc_segment_2 for {q:?} on arc {o:?} r {r} from {a} over {w} (offset {d})");
    Ok(())
}

/// A line with moderate slope: two points on it.
fn moderate(s: &mut Src) -> (F2, F2, f64) {
    let a = point(s);
    let h = loop {
        let h = heading(s);
        if h.0 == 0.0 || h.0.abs() > 0.2 {
            break h;
        }
    };
    (a, h, length(s, 2.0))
}

pub fn line(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let ((a, h, l), d) = (moderate(s), offset(s));
    let b = at(a, h, l);
    let k = coord(s);
    let q = at(at(a, h, k), left(h), d);
    label(c, d);
    let g = Line2::from_points(&p(a), &p(b));
    let got = is_point_2_on_line_2(&p(q), &g);
    ensure!(got == within(d), "{q:?} on the line through {a:?} and {b:?} (offset {d}): {got}");
    // a parallel line at that distance is another one
    let m = Line2::from_points(&p(q), &p(at(q, h, -l)));
    ensure!((g == m) == within(d), "the line through {a:?} and {b:?} equals its parallel at distance {d}: {}", g == m);
    Ok(())
}

pub fn ray(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let d = offset(s);
    label(c, d);
    let s = &mut c.src;
    let flip = s.chance(1, 2);
    let (o, h) = (point(s), heading(s));
    let m = s.pick(&[1.0, 1.5, 5.0]);
    let r = Ray2::new(p(o), Vector2::new(h.0 * m, h.1 * m));
    let far = s.pick(&[1.0, 10.0, 100.0]) * (0.2 + s.f01());
    match s.upto(3) {
        0 => {
            use Point2Ray2Location::*;
            let (q, want) = if s.chance(1, 3) {
                (at(o, h, d), if d >= -1e-12 { On } else { Collinear })
            } else {
                let d = if within(d) { d * 1e-1 } else { d };
                (at(at(o, h, far), left(h), d), if within(d) { On } else if d > 0.0 { Left } else { Right })
            };
            let got = locate_point_2_ray_2(&p(q), &r);
            // rounding beside the origin may put it to either side
            ensure!(got == want, "{q:?} against the ray from {o:?} along {h:?} (offset {d}): {got:?}");
            ensure!(is_point_2_on_ray_2(&p(q), &r) == (want == On), "is_point_2_on_ray_2: {q:?}, ray from {o:?} along {h:?} (offset {d})");
        }
        1 => {
            // a segment that stops short of the ray, or reaches past it
            let z = if s.chance(1, 2) { 1.0 } else { -1.0 };
            let w = unit(h.1.atan2(h.0) + z * (0.4 + 2.2 * s.f01()));
            let q = at(at(o, h, far), w, d);
            let g = either(flip, q, at(q, w, length(s, 1.0)));
            let got = line_segment_2_ray_2_intersection(&g, &r);
            let want = d <= 1e-12;
            ensure!(got.len() == want as usize, "segment {g:?} {d} from the ray from {o:?} along {h:?}: {got:?}");
            ensure!(got.iter().all(|x| near(xy(x), at(o, h, far), 1e-5)), "segment {g:?} meets the ray from {o:?} along {h:?} at {got:?}");
            ensure!(is_line_segment_2_ray_2_intersected(&g, &r) == want, "is_line_segment_2_ray_2_intersected: segment {g:?} {d} from the ray from {o:?} along {h:?}");
        }
        2 => {
            // the ray starts beside the segment and leaves it
            let w = unit(h.1.atan2(h.0) + 0.4 + 2.2 * s.f01());
            let q = at(o, h, -d);
            let (x, y) = (length(s, 1.0), length(s, 1.0));
            let g = either(flip, at(q, w, -x), at(q, w, y));
            let got = line_segment_2_ray_2_intersection(&g, &r);
            let want = d <= 1e-12;
            ensure!(got.len() == want as usize, "segment {g:?} {d} behind the ray from {o:?} along {h:?}: {got:?}");
        }
        _ => {
            // the same with a line
            let (a, e, l) = moderate(s);
            let n = left(e);
            let k = n.0 * h.0 + n.1 * h.1;
            if k.abs() < 0.2 {
                return discard("nearly parallel");
            }
            let q = at(at(a, e, far), h, d);
            let r = Ray2::new(p(q), Vector2::new(h.0 * m, h.1 * m));
            let g = Line2::from_points(&p(a), &p(at(a, e, l)));
            let got = line_2_ray_2_intersection(&g, &r);
            let want = d <= 1e-12;
            ensure!(got.is_some() == want, "ray from {q:?} along {h:?}, {d} past the line through {a:?} along {e:?}: {got:?}");
            ensure!(is_line_2_ray_2_intersected(&g, &r) == want, "is_line_2_ray_2_intersected: ray from {q:?} along {h:?}, {d} past the line through {a:?} along {e:?}");
        }
    }
    Ok(())
}

pub fn projection(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let (a, h, l, d, up) = (point(s), heading(s), length(s, 1.0), offset(s), coord(s));
    let (a, b) = (a, at(a, h, l));
    // beyond an end by d
    let foot = if s.chance(1, 2) { at(b, h, d) } else { at(a, h, -d) };
    let q = at(foot, left(h), up);
    label(c, d);
    let g = seg(a, b);
    let got = point_2_project_line_segment_2(&p(q), &g);
    let want = d <= 1e-12;
    ensure!(got.is_some() == want, "{q:?} onto {g:?} (foot {d} beyond the end): {got:?}");
    ensure!(got.map_or(true, |x| near(xy(&x), foot, 1e-9)), "{q:?} onto {g:?}: {got:?}, the foot is {foot:?}");
    Ok(())
}

fn both(want: usize, got: Vec<Point2<f64>>, yes: bool, on: &[F2], tol: f64, tell: impl Fn() -> String) -> R {
    ensure!(yes == (want > 0), "{}: intersected: {yes}", tell());
    ensure!(got.len() == want, "{}: {got:?}", tell());
    for g in &got {
        ensure!(on.iter().any(|q| near(xy(g), *q, tol)), "{}: {got:?}, expected near {on:?}", tell());
    }
    Ok(())
}

pub fn segments(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let d = offset(s);
    label(c, d);
    let s = &mut c.src;
    let flip = s.chance(1, 2);
    let (a, h, l) = (point(s), heading(s), length(s, 1.0));
    let b = at(a, h, l);
    let x = either(flip, a, b);
    let z = if s.chance(1, 2) { 1.0 } else { -1.0 };
    let w = unit(h.1.atan2(h.0) + z * (0.4 + 2.2 * s.f01()));
    let (y, q, want) = match s.upto(2) {
        0 => {
            // one stops short of the other by d
            let q = at(a, h, l * inner(s));
            let e = at(q, w, d / w.1.atan2(w.0).mul_add(-1.0, h.1.atan2(h.0)).sin().abs());
            (either(flip, e, at(e, w, length(s, 1.0))), q, (d <= 1e-12) as usize)
        }
        1 => {
            // it passes just beyond an end
            let q = at(b, h, d);
            (either(flip, at(q, w, -length(s, 1.0)), at(q, w, length(s, 1.0))), b, (d <= 1e-12) as usize)
        }
        _ => {
            // on one line with a gap or an overlap
            let q = at(b, h, d);
            (either(flip, q, at(q, h, length(s, 1.0))), b, if within(d) { 1 } else if d > 0.0 { 0 } else { 2 })
        }
    };
    both(want, segment_2_segment_2_intersection(&x, &y), is_segment_2_segment_2_intersected(&x, &y), &[q], 1e-5, || format!("{x:?} and {y:?} (offset {d})"))?;
    both(want, segment_2_segment_2_intersection(&y, &x), is_segment_2_segment_2_intersected(&y, &x), &[q], 1e-5, || format!("{y:?} and {x:?} (offset {d})"))
}

pub fn segment_circle(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let d = offset(s);
    label(c, d);
    let s = &mut c.src;
    let flip = s.chance(1, 2);
    let (o, r) = circle(s);
    let h = heading(s);
    let touch = at(o, h, r);
    let t = left(h);
    let k = CircleSegment2::new(p(o), r);
    if s.chance(1, 2) {
        // along a tangent, d outside
        let q = at(o, h, r + d);
        let g = either(flip, at(q, t, -length(s, 1.0)), at(q, t, length(s, 1.0)));
        let want = if within(d) { 1 } else if d > 0.0 { 0 } else { 2 };
        let off = if want == 2 { (2.0 * r * -d - d * d).sqrt() } else { 0.0 };
        let on = [at(q, t, off), at(q, t, -off)];
        // the points of a shallow chord hang on the square root of what is rounded
        let tol = if want == 2 { 1e-12 * r / off * 10.0 + 1e-9 } else { 1e-5 };
        return both(want, segment_2_segment_2_intersection(&g, &k), is_segment_2_segment_2_intersected(&g, &k), &on, tol, || format!("{g:?} and circle {o:?} r {r} (offset {d})"));
    }
    // an end at distance r + d, the rest outside
    let e = at(o, h, r + d);
    let w = unit(h.1.atan2(h.0) + (s.f01() - 0.5) * 2.0);
    let g = either(flip, e, at(e, w, length(s, 1.0)));
    let want = (d <= 1e-12) as usize;
    both(want, segment_2_segment_2_intersection(&g, &k), is_segment_2_segment_2_intersected(&g, &k), &[touch], 1e-5, || format!("{g:?} and circle {o:?} r {r} (end offset {d})"))
}

pub fn circles(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let d = offset(s);
    label(c, d);
    let s = &mut c.src;
    let ((o, r), q) = (circle(s), length(s, 0.5).min(40.0 * grown(s)));
    let h = heading(s);
    let inside = s.chance(1, 2);
    let (far, want) = if inside {
        if (r - q).abs() < 0.5 {
            return discard("nearly the same radius");
        }
        ((r - q).abs() - d, if within(d) { 1 } else if d > 0.0 { 0 } else { 2 })
    } else {
        (r + q + d, if within(d) { 1 } else if d > 0.0 { 0 } else { 2 })
    };
    let o2 = at(o, h, far);
    let touch = at(o, h, if inside && q > r { -r } else { r });
    let (x, y) = (CircleSegment2::new(p(o), r), CircleSegment2::new(p(o2), q));
    let t = || format!("circles {o:?} r {r} and {o2:?} r {q} (offset {d})");
    // half the length of the common chord
    let a = (r * r + far * far - q * q) / (2.0 * far);
    let half = if want == 2 { (r * r - a * a).max(0.0).sqrt() } else { 0.0 };
    let tol = if want == 2 { half * 1.5 + 1e-6 } else { 1e-5 };
    both(want, segment_2_segment_2_intersection(&x, &y), is_segment_2_segment_2_intersected(&x, &y), &[touch], tol, t)?;
    both(want, segment_2_segment_2_intersection(&y, &x), is_segment_2_segment_2_intersected(&y, &x), &[touch], tol, t)
}

/// A segment or circle crossing an arc's circle d (an angle, positive inside) from its end.
pub fn arc_end(c: &mut Ctx, with_circle: bool) -> R {
    let s = &mut c.src;
    let d = offset(s);
    label(c, d);
    let s = &mut c.src;
    let flip = s.chance(1, 2);
    let x = arc(s);
    let (o, r, a, w) = x;
    let e = if s.chance(1, 2) { a + d } else { a + w - d };
    let q = at(o, unit(e), r);
    let k = lib_arc(x);
    let want = (d >= -1e-12) as usize;
    let tell = || format!("arc {o:?} r {r} from {a} over {w}, crossed {d} inside its end");
    // crossing at a good angle, from inside to outside, and nowhere else
    let g = unit(e + (s.f01() - 0.5) * 2.0);
    if with_circle {
        // a small circle through the point: its other crossing lies on the other side
        let rr = r * (0.05 + 0.1 * s.f01());
        let n = unit(e + PI / 2.0 * if s.chance(1, 2) { 1.0 } else { -1.0 } + (s.f01() - 0.5) * 0.6);
        let o2 = at(q, n, rr);
        let y = CircleSegment2::new(p(o2), rr);
        let got = segment_2_segment_2_intersection(&k, &y);
        let here = got.iter().filter(|g| near(xy(g), q, 1e-6 * r)).count();
        ensure!(here == want, "{}, by circle {o2:?} r {rr}: {got:?}", tell());
        let got = segment_2_segment_2_intersection(&y, &k);
        let here = got.iter().filter(|g| near(xy(g), q, 1e-6 * r)).count();
        ensure!(here == want, "{}, by circle {o2:?} r {rr}: {got:?}", tell());
        return Ok(());
    }
    let y = either(flip, at(q, g, -0.3 * r), at(q, g, 0.5 + 0.5 * r));
    both(want, segment_2_segment_2_intersection(&k, &y), is_segment_2_segment_2_intersected(&k, &y), &[q], 1e-8, || format!("{}, by {y:?}", tell()))?;
    both(want, segment_2_segment_2_intersection(&y, &k), is_segment_2_segment_2_intersected(&y, &k), &[q], 1e-8, || format!("{}, by {y:?}", tell()))
}

/// Two segments on one line up to rounding: apart by any gap, end to end, or overlapping.
pub fn one_line(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let flip = (s.chance(1, 2), s.chance(1, 2));
    let (a, h, l, m) = (point(s), heading(s), length(s, 0.5), length(s, 0.5));
    let gap = match s.upto(3) {
        0 => 0.0,
        1 => -0.9 * l.min(m) * inner(s),
        2 => 1e-8 * (1e8f64).powf(s.f01()),
        _ => 0.1 + 20.0 * s.f01(),
    };
    let (p1, p2, p3, p4) = (a, at(a, h, l), at(a, h, l + gap), at(a, h, l + gap + m));
    let (x, y) = (either(flip.0, p1, p2), either(flip.1, p3, p4));
    let want: &[F2] = if gap > 0.0 {
        c.label("apart");
        &[]
    } else if gap < 0.0 {
        c.label("overlapping");
        &[p2, p3]
    } else {
        c.label("end to end");
        &[p2]
    };
    c.nontrivial = true;
    both(want.len(), segment_2_segment_2_intersection(&x, &y), is_segment_2_segment_2_intersected(&x, &y), want, 1e-9, || format!("{x:?} and {y:?} (gap {gap})"))?;
    both(want.len(), segment_2_segment_2_intersection(&y, &x), is_segment_2_segment_2_intersected(&y, &x), want, 1e-9, || format!("{y:?} and {x:?} (gap {gap})"))
}
