//! Line segments, circles and arcs on the lattice, with an oracle for their
//! common points: exact integer case analysis, f64 only for the coordinates.
//! Cases closer to a decision boundary than the library's tolerance are
//! reported as ambiguous, never judged.
use crate::engine::{Src, Stop};
use crate::exact::*;
use crate::gen::*;
use crate::util::*;
use rcgal::algorithm::intersection::segment_2_segment_2::*;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::number_type::NumberType;
use rcgal::kernel::point_2::Point2;
use std::f64::consts::PI;

pub const TAU: f64 = 2.0 * PI;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Seg(P, P),
    Circle(P, i64),
    /// centre, radius, source angle, target angle as handed to the library
    Arc(P, i64, f64, f64),
}
use Shape::*;

pub enum Lib<T: NumberType> {
    S(LineSegment2<T>),
    C(CircleSegment2<T>),
    A(ArcSegment2<T>),
}

impl Shape {
    pub fn lib<T: NumberType>(&self, f: &impl Place) -> Lib<T> {
        let circle = |c: P, r: i64| CircleSegment2::new(f.point::<T>(c), f.length(r));
        match *self {
            Seg(a, b) => Lib::S(LineSegment2::new(f.point(a), f.point(b))),
            Circle(c, r) => Lib::C(circle(c, r)),
            Arc(c, r, s, t) => Lib::A(ArcSegment2::new(circle(c, r), T::from_f64(f.angle(s)), T::from_f64(f.angle(t)))),
        }
    }
    pub fn kind(&self) -> u8 {
        match self {
            Seg(..) => 0,
            Circle(..) => 1,
            Arc(..) => 2,
        }
    }
    pub fn circle(&self) -> Option<(P, i64)> {
        match *self {
            Seg(..) => None,
            Circle(c, r) | Arc(c, r, ..) => Some((c, r)),
        }
    }
    pub fn reversed_seg(&self) -> Shape {
        match *self {
            Seg(a, b) => Seg(b, a),
            o => o,
        }
    }
    pub fn show(&self, f: &Frame) -> String {
        match *self {
            Seg(a, b) => format!("segment {:?}-{:?}", f.fp(a), f.fp(b)),
            Circle(c, r) => format!("circle {:?} r {}", f.fp(c), r as f64 * f.unit()),
            Arc(c, r, s, t) => format!("arc {:?} r {} from {s} to {t}", f.fp(c), r as f64 * f.unit()),
        }
    }
}

#[macro_export]
macro_rules! with_lib2 {
    ($a:expr, $b:expr, $f:path) => {
        match ($a, $b) {
            (Lib::S(a), Lib::S(b)) => $f(a, b),
            (Lib::S(a), Lib::C(b)) => $f(a, b),
            (Lib::S(a), Lib::A(b)) => $f(a, b),
            (Lib::C(a), Lib::S(b)) => $f(a, b),
            (Lib::C(a), Lib::C(b)) => $f(a, b),
            (Lib::C(a), Lib::A(b)) => $f(a, b),
            (Lib::A(a), Lib::S(b)) => $f(a, b),
            (Lib::A(a), Lib::C(b)) => $f(a, b),
            (Lib::A(a), Lib::A(b)) => $f(a, b),
        }
    };
}

pub fn lib_inter<T: NumberType>(a: &Lib<T>, b: &Lib<T>) -> Vec<Point2<T>> {
    with_lib2!(a, b, segment_2_segment_2_intersection)
}
pub fn lib_pred<T: NumberType>(a: &Lib<T>, b: &Lib<T>) -> bool {
    with_lib2!(a, b, is_segment_2_segment_2_intersected)
}
pub fn inter(f: &Frame, a: &Shape, b: &Shape) -> Vec<F2> {
    xys(&lib_inter::<f64>(&a.lib(f), &b.lib(f)))
}
pub fn pred(f: &Frame, a: &Shape, b: &Shape) -> bool {
    lib_pred::<f64>(&a.lib(f), &b.lib(f))
}

// ---------------------------------------------------------------- angles

pub fn wrap(a: f64) -> f64 {
    let mut x = a.rem_euclid(TAU);
    if x >= TAU {
        x = 0.0;
    }
    x
}
/// Counter-clockwise span of an arc, in (0, 2 pi].
pub fn span(s: f64, t: f64) -> f64 {
    let d = wrap(t - s);
    if d < 1e-9 || TAU - d < 1e-9 { TAU } else { d }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cover {
    Inside,
    /// within rounding of an end of the arc
    End,
    Outside,
    /// too close to an end to say
    Unsure,
}
/// Does the arc cover the angle? `exactish`: radians within which an angle counts as an end.
pub fn covers(s: f64, t: f64, phi: f64, exactish: f64) -> Cover {
    covers_within(s, t, phi, exactish, 1.0)
}
/// The same for an arc of the given radius: ends closer than 1e-9 in the plane are not told apart either.
pub fn covers_within(s: f64, t: f64, phi: f64, exactish: f64, r: f64) -> Cover {
    let clear = (1e-9 / r).max(1e-7);
    let sp = span(s, t);
    let d = wrap(phi - s);
    let to_end = [d, TAU - d, (d - sp).abs(), (d - sp + TAU).abs(), (d - sp - TAU).abs()]
        .iter()
        .fold(f64::MAX, |m, x| m.min(*x));
    if to_end <= exactish {
        Cover::End
    } else if to_end < clear {
        Cover::Unsure
    } else if d < sp {
        Cover::Inside
    } else {
        Cover::Outside
    }
}

// ---------------------------------------------------------------- oracle

/// A common point: coordinates, and how well conditioned they are (sine of the
/// crossing angle; 1 when the point is known exactly).
#[derive(Clone, Copy, Debug)]
struct Cp {
    p: F2,
    sin: f64,
}

fn seg_circle(f: &Frame, a: P, b: P, c: P, r: i64) -> Result<Vec<Cp>, Stop> {
    let u = f.unit();
    let d = sub(b, a);
    let g = sub(a, c);
    let aa = dot(d, d);
    let bb = dot(g, d);
    let cc = dot(g, g) - (r as i128) * (r as i128);
    let end = aa + 2 * bb + cc;
    for e in [cc, end] {
        if e != 0 && (e.unsigned_abs() as f64) / (2.0 * r as f64) * u < 1e-8 {
            return Err(Stop::Discard("an end too close to the circle"));
        }
    }
    if aa == 0 {
        return Ok(if cc == 0 { vec![Cp { p: f.fp(a), sin: 1.0 }] } else { vec![] });
    }
    let disc = bb * bb - aa * cc;
    // | distance of the line - radius |
    let gap = disc.unsigned_abs() as f64 / aa as f64 / (2.0 * r as f64) * u;
    if disc != 0 && gap < 1e-7 {
        return Err(Stop::Discard("near tangent"));
    }
    if disc < 0 {
        return Ok(vec![]);
    }
    let at = |t: f64| ((a.0 as f64 + d.0 as f64 * t) * u, (a.1 as f64 + d.1 as f64 * t) * u);
    if disc == 0 {
        if -bb < 0 || -bb > aa {
            return Ok(vec![]);
        }
        return Ok(vec![Cp { p: at(-bb as f64 / aa as f64), sin: 1.0 }]);
    }
    let sq = (disc as f64).sqrt();
    let sin = (disc as f64 / aa as f64).sqrt() / r as f64;
    let mut out = Vec::new();
    // first root
    if bb <= 0 && cc >= 0 && (aa + bb >= 0 || end <= 0) {
        out.push(Cp { p: at((-bb as f64 - sq) / aa as f64), sin });
    }
    // second root
    if (bb <= 0 || cc <= 0) && (aa + bb >= 0 && end >= 0) {
        out.push(Cp { p: at((-bb as f64 + sq) / aa as f64), sin });
    }
    Ok(out)
}

/// None: same centre
fn circle_circle(f: &Frame, c1: P, r1: i64, c2: P, r2: i64) -> Result<Option<Vec<Cp>>, Stop> {
    let u = f.unit();
    let d = sub(c2, c1);
    let dd = dot(d, d);
    if dd == 0 {
        return Ok(None);
    }
    let (r1, r2) = (r1 as i128, r2 as i128);
    let (sum, dif) = ((r1 + r2) * (r1 + r2), (r1 - r2) * (r1 - r2));
    for e in [dd - sum, dd - dif] {
        if e != 0 && e.unsigned_abs() as f64 / (2.0 * (dd as f64).sqrt()) * u < 1e-7 {
            return Err(Stop::Discard("near tangent"));
        }
    }
    if dd > sum || dd < dif {
        return Ok(Some(vec![]));
    }
    let num = r1 * r1 - r2 * r2 + dd;
    let t = num as f64 / (2 * dd) as f64;
    let mid = (c1.0 as f64 + t * d.0 as f64, c1.1 as f64 + t * d.1 as f64);
    if dd == sum || dd == dif {
        return Ok(Some(vec![Cp { p: (mid.0 * u, mid.1 * u), sin: 1.0 }]));
    }
    let h2 = 4 * dd * r1 * r1 - num * num;
    let s = (h2 as f64).sqrt() / (2 * dd) as f64;
    // sine of the crossing angle = 2 area / (r1 r2)
    let sin = (h2 as f64).sqrt() / 2.0 / (r1 as f64 * r2 as f64);
    let off = (-(d.1 as f64) * s, d.0 as f64 * s);
    Ok(Some(vec![
        Cp { p: ((mid.0 + off.0) * u, (mid.1 + off.1) * u), sin },
        Cp { p: ((mid.0 - off.0) * u, (mid.1 - off.1) * u), sin },
    ]))
}

fn filter(f: &Frame, pts: Vec<Cp>, sh: &Shape) -> Result<Vec<Cp>, Stop> {
    if let Arc(c, r, s, t) = *sh {
        let c = f.fp(c);
        let r = r as f64 * f.unit();
        let mut out = Vec::new();
        for q in pts {
            let phi = (q.p.1 - c.1).atan2(q.p.0 - c.0);
            match covers_within(s, t, phi, 2e-13 / q.sin.min(1.0), r) {
                Cover::Inside => out.push(q),
                Cover::End => {
                    // the library's own rounding must stay well below its tolerance
                    let size = (c.0.abs() + c.1.abs() + r) / r;
                    if q.sin < 1e-2 || size > 2e3 {
                        return Err(Stop::Discard("ill-conditioned at an arc end"));
                    }
                    out.push(q)
                }
                Cover::Outside => {}
                Cover::Unsure => return Err(Stop::Discard("too close to an arc end")),
            }
        }
        Ok(out)
    } else {
        Ok(pts)
    }
}

pub fn end_points(f: &Frame, s: &Shape) -> Vec<F2> {
    match *s {
        Seg(a, b) => vec![f.fp(a), f.fp(b)],
        Circle(..) => vec![],
        Arc(c, r, s, t) => {
            let c = f.fp(c);
            let r = r as f64 * f.unit();
            [s, t].iter().map(|a| (c.0 + r * a.cos(), c.1 + r * a.sin())).collect()
        }
    }
}

/// Exactly the common points the library is expected to return for the pair.
pub fn common(f: &Frame, a: &Shape, b: &Shape) -> Result<Vec<F2>, Stop> {
    if let (Seg(p, q), Seg(x, y)) = (a, b) {
        return Ok(seg_seg(*p, *q, *x, *y).iter().map(|r| r.f(f.unit())).collect());
    }
    if let Seg(..) = b {
        return common(f, b, a);
    }
    let (c2, r2) = b.circle().unwrap();
    let pts = match *a {
        Seg(p, q) => seg_circle(f, p, q, c2, r2)?,
        _ => {
            let (c1, r1) = a.circle().unwrap();
            match circle_circle(f, c1, r1, c2, r2)? {
                Some(v) => v,
                None => {
                    if r1 != r2 {
                        return Ok(vec![]);
                    }
                    if let (Arc(_, _, s1, t1), Arc(_, _, s2, t2)) = (*a, *b) {
                        return same_circle_arcs(f, (s1, t1), (s2, t2), c1, r1);
                    }
                    return Ok(vec![]);
                }
            }
        }
    };
    let pts = filter(f, pts, a)?;
    let pts = filter(f, pts, b)?;
    Ok(pts.iter().map(|q| q.p).collect())
}

fn same_circle_arcs(f: &Frame, a: (f64, f64), b: (f64, f64), c: P, r: i64) -> Result<Vec<F2>, Stop> {
    let mut out = Vec::new();
    for (ends, other) in [(a, b), (b, a)] {
        for e in [ends.0, ends.1] {
            // a full turn given by equal angles starts at the zero angle
            match covers_within(other.0, other.1, e, 2e-13, r as f64 * f.unit()) {
                Cover::Inside | Cover::End => {
                    let cf = f.fp(c);
                    let rf = r as f64 * f.unit();
                    out.push((cf.0 + rf * e.cos(), cf.1 + rf * e.sin()));
                }
                Cover::Outside => {}
                Cover::Unsure => return Err(Stop::Discard("too close to an arc end")),
            }
        }
    }
    Ok(dedup_near(&out, 1e-9))
}

/// Distance from the point to the shape (0 on it), computed in f64.
pub fn off(f: &Frame, s: &Shape, p: F2) -> f64 {
    match *s {
        Seg(a, b) => {
            let (a, b) = (f.fp(a), f.fp(b));
            let d = (b.0 - a.0, b.1 - a.1);
            let w = (p.0 - a.0, p.1 - a.1);
            let dd = d.0 * d.0 + d.1 * d.1;
            let t = if dd == 0.0 { 0.0 } else { ((w.0 * d.0 + w.1 * d.1) / dd).clamp(0.0, 1.0) };
            dist(p, (a.0 + t * d.0, a.1 + t * d.1))
        }
        Circle(c, r) => (dist(f.fp(c), p) - r as f64 * f.unit()).abs(),
        Arc(c, r, a, b) => {
            let cf = f.fp(c);
            let rf = r as f64 * f.unit();
            let radial = (dist(cf, p) - rf).abs();
            let phi = (p.1 - cf.1).atan2(p.0 - cf.0);
            let d = wrap(phi - a);
            let sp = span(a, b);
            let beyond = if d <= sp { 0.0 } else { (d - sp).min(TAU - d) };
            radial.max(beyond * rf)
        }
    }
}

// ---------------------------------------------------------------- generators

/// Runs a check with coordinates and radii in the hundreds.
pub fn large(c: &mut crate::engine::Ctx, f: fn(&mut crate::engine::Ctx) -> crate::engine::R) -> crate::engine::R {
    c.src.large = true;
    f(c)
}

pub fn curve_frame(s: &mut Src) -> Frame {
    if s.large {
        return Frame { r: s.pick(&[100i64, 200, 400, 600]), k: 0, o: (0, 0) };
    }
    let k = [0u32, 1, 3][s.weighted(&[10, 2, 2])];
    let r = [5i64, 3, 10, 20, 50][s.weighted(&[6, 2, 5, 3, 2])];
    let o = if s.chance(1, 4) { (s.zig(40), s.zig(40)) } else { (0, 0) };
    Frame { r, k, o }
}

pub fn radius(s: &mut Src, f: &Frame) -> i64 {
    if f.r >= 100 && s.chance(3, 4) {
        let r = s.int(f.r / 5, f.r);
        return if s.chance(1, 2) { r / 5 * 5 } else { r };
    }
    match s.upto(3) {
        0 => 5,
        1 => s.pick(&[10i64, 13, 25, 1, 2]),
        _ => s.int(1, f.r.max(2)),
    }
}

/// A lattice point exactly on the circle.
pub fn lattice_on_circle(s: &mut Src, c: P, r: i64) -> P {
    let mut dirs = vec![(r, 0)];
    if r % 5 == 0 {
        dirs.push((3 * r / 5, 4 * r / 5));
    }
    if r % 13 == 0 {
        dirs.push((5 * r / 13, 12 * r / 13));
    }
    let d = s.pick(&dirs);
    let d = symmetry(s.upto(7), d);
    add(c, d)
}

/// An angle: multiple of a twelfth of pi, of a lattice direction, or any; then shifted by full turns.
pub fn angle(s: &mut Src, turns: bool) -> f64 {
    let base = match s.weighted(&[6, 3, 2, 2]) {
        0 => s.int(0, 24) as f64 * (PI / 12.0),
        1 => {
            let d = s.pick(&[(3.0f64, 4.0f64), (5.0, 12.0), (1.0, 2.0), (2.0, 1.0)]);
            let q = s.upto(7);
            let (x, y) = match q {
                0 => d,
                1 => (-d.1, d.0),
                2 => (-d.0, -d.1),
                3 => (d.1, -d.0),
                4 => (-d.0, d.1),
                5 => (d.0, -d.1),
                6 => (d.1, d.0),
                _ => (-d.1, -d.0),
            };
            y.atan2(x)
        }
        2 => s.int(0, 4) as f64 * (PI / 2.0),
        _ => {
            // clear of the extreme points of the circle, or at one
            let a = s.f01() * TAU;
            let q = (a / (PI / 2.0)).round() * (PI / 2.0);
            if (a - q).abs() < 1e-4 { q } else { a }
        }
    };
    // just beside a special angle
    let base = if s.chance(1, 10) { base + s.pick(&[1e-3, -1e-3, 4e-3, -4e-3, 2e-2, -2e-2]) } else { base };
    if turns {
        match s.weighted(&[8, 1, 1, 1]) {
            0 => base,
            1 => base - TAU,
            2 => base + TAU,
            _ => base + TAU * s.int(2, 5) as f64,
        }
    } else {
        base
    }
}

pub fn arc(s: &mut Src, c: P, r: i64) -> Shape {
    let a = angle(s, true);
    let mut b = angle(s, true);
    match s.upto(5) {
        0 => b = a + PI,
        1 => b = a + TAU,
        _ => {}
    }
    full_turns(Arc(c, r, a, b))
}

/// Equal angles (up to two turns, the library's own reduction) are re-anchored at the
/// zero angle by the library; write full circles as one turn instead.
pub fn full_turns(x: Shape) -> Shape {
    match x {
        Arc(c, r, a, b) => {
            let m = (b - a) / (2.0 * TAU);
            if (m - m.round()).abs() < 1e-6 { Arc(c, r, a, a + TAU) } else { Arc(c, r, a, clear(a, b)) }
        }
        o => o,
    }
}

/// Ends either equal (mod a full turn, to rounding) or clearly apart.
pub fn clear(a: f64, b: f64) -> f64 {
    let d = wrap(b - a);
    let d = d.min(TAU - d);
    if d > 1e-12 && d < 9e-4 { a + TAU } else { b }
}

pub fn shape(s: &mut Src, f: &Frame, kind: u64) -> Shape {
    match kind {
        0 => {
            let a = pt(s, f);
            let mut b = pt_rel(s, f, &[a]);
            if b == a {
                b = (a.0 + 1, a.1 + s.zig(1));
            }
            Seg(a, b)
        }
        1 => {
            let c = pt(s, f);
            Circle(c, radius(s, f))
        }
        _ => {
            let c = pt(s, f);
            let r = radius(s, f);
            arc(s, c, r)
        }
    }
}

/// A segment of positive length in an interesting position to the circle.
pub fn seg_near(s: &mut Src, f: &Frame, c: P, r: i64) -> Shape {
    let some = |s: &mut Src| -> P {
        match s.upto(5) {
            0 => (c.0 + s.zig(2 * r), c.1 + s.zig(2 * r)),
            1 => lattice_on_circle(s, c, r),
            2 => (c.0 + s.zig((r / 2).max(1)), c.1 + s.zig((r / 2).max(1))),
            3 => c,
            4 => pt(s, f),
            _ => {
                let e = s.zig(2 * r);
                if s.chance(1, 2) { (c.0 + e, c.1 + s.pick(&[r, -r])) } else { (c.0 + s.pick(&[r, -r]), c.1 + e) }
            }
        }
    };
    let (a, b) = match s.upto(5) {
        0 | 1 => (some(s), some(s)),
        2 => {
            // on a tangent at a lattice point
            let t = lattice_on_circle(s, c, r);
            let n = sub(t, c);
            let g = gcd(n.0, n.1).max(1);
            let d = (-n.1 / g, n.0 / g);
            let (i, j) = (s.zig(8), s.zig(8));
            ((t.0 + d.0 * i, t.1 + d.1 * i), (t.0 + d.0 * j, t.1 + d.1 * j))
        }
        3 => {
            // through a lattice point of the circle, to both sides
            let t = lattice_on_circle(s, c, r);
            let d = (s.zig(4), s.zig(4));
            let (i, j) = (s.int(0, 3), s.int(0, 3));
            ((t.0 - d.0 * i, t.1 - d.1 * i), (t.0 + d.0 * j, t.1 + d.1 * j))
        }
        4 => {
            // through the centre
            let d = (s.zig(5), s.zig(5));
            let (i, j) = (s.int(0, 6), s.int(0, 6));
            ((c.0 - d.0 * i, c.1 - d.1 * i), (c.0 + d.0 * j, c.1 + d.1 * j))
        }
        _ => (some(s), pt(s, f)),
    };
    if a == b { Seg(a, (a.0 + 1, a.1)) } else { Seg(a, b) }
}

/// A circle in an interesting position to another one.
pub fn circle_near(s: &mut Src, f: &Frame, c: P, r: i64) -> (P, i64) {
    match s.upto(6) {
        0 => (pt(s, f), radius(s, f)),
        1 => {
            // tangent along an axis or a 3-4-5 direction
            let r2 = radius(s, f);
            let outer = s.chance(1, 2);
            let d = if outer { r + r2 } else { (r - r2).abs() };
            let v = if d % 5 == 0 && s.chance(1, 2) { (3 * d / 5, 4 * d / 5) } else { (d, 0) };
            (add(c, symmetry(s.upto(7), v)), r2)
        }
        2 => (c, radius(s, f)),
        3 => (c, r),
        4 => {
            // through a lattice point of the first one
            let t = lattice_on_circle(s, c, r);
            let r2 = s.pick(&[5i64, 10, 13, 25]);
            let q = lattice_on_circle(s, (0, 0), r2);
            (sub(t, q), r2)
        }
        _ => ((c.0 + s.zig(2 * r), c.1 + s.zig(2 * r)), radius(s, f)),
    }
}

/// A pair of shapes of the given kinds in an interesting relative position.
pub fn pair(s: &mut Src, f: &Frame, ka: u64, kb: u64) -> (Shape, Shape) {
    if ka == 0 && kb == 0 {
        let a = pt(s, f);
        let mut b = pt_rel(s, f, &[a]);
        if a == b {
            b = (a.0 + 1, a.1);
        }
        let c = pt_rel(s, f, &[a, b]);
        let mut d = pt_rel(s, f, &[a, b, c]);
        if c == d {
            d = (c.0, c.1 + 1);
        }
        return (Seg(a, b), Seg(c, d));
    }
    if ka == 0 {
        let (y, x) = pair(s, f, kb, 0);
        return (x, y);
    }
    let c = pt(s, f);
    let r = radius(s, f);
    let x = if ka == 1 { Circle(c, r) } else { arc(s, c, r) };
    let y = if kb == 0 {
        seg_near(s, f, c, r)
    } else {
        let (c2, r2) = circle_near(s, f, c, r);
        if kb == 1 {
            Circle(c2, r2)
        } else {
            let mut y = arc(s, c2, r2);
            // arcs starting or ending where the other one does
            if let (Arc(_, _, a, b), Arc(_, _, a2, b2)) = (x, y) {
                y = match s.upto(5) {
                    0 => Arc(c2, r2, b, b2),
                    1 => Arc(c2, r2, a2, a),
                    2 => Arc(c2, r2, a, b),
                    3 => Arc(c2, r2, b, a),
                    _ => y,
                };
                y = full_turns(y);
            }
            y
        }
    };
    (x, y)
}

/// The direction of a shape at a point of it.
pub fn direction(f: &Frame, x: &Shape, p: F2) -> (f64, f64) {
    let d = match *x {
        Shape::Seg(a, b) => (f.fp(b).0 - f.fp(a).0, f.fp(b).1 - f.fp(a).1),
        _ => {
            let c = f.fp(x.circle().unwrap().0);
            (p.1 - c.1, c.0 - p.0)
        }
    };
    let l = (d.0 * d.0 + d.1 * d.1).sqrt();
    (d.0 / l, d.1 / l)
}

/// No two of the shapes cross at an angle below a fiftieth (touching is fine): the
/// coordinates of such a point, in the hundreds, are worth less than the library's tolerance.
pub fn clear_crossings(f: &Frame, m: &[Shape]) -> Result<(), Stop> {
    for i in 0..m.len() {
        for j in 0..i {
            for p in common(f, &m[i], &m[j])? {
                let (a, b) = (direction(f, &m[i], p), direction(f, &m[j], p));
                let sin = (a.0 * b.1 - a.1 * b.0).abs();
                if sin > 1e-9 && sin < 0.02 {
                    return Err(Stop::Discard("shallow crossing"));
                }
            }
        }
    }
    Ok(())
}
