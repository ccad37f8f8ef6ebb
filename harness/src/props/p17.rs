//! C17: the sweep over a collection.
use super::prelude::*;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;

pub fn push<T: NumberType>(sw: &mut SweepSegment2Intersection<T>, f: &impl Place, x: &Shape) {
    match x.lib::<T>(f) {
        Lib::S(a) => sw.push_segment(&a),
        Lib::C(a) => sw.push_segment(&a),
        Lib::A(a) => sw.push_segment(&a),
    }
}
pub fn sweep_of(f: &Frame, m: &[Shape]) -> Vec<F2> {
    let mut sw = SweepSegment2Intersection::<f64>::new();
    for x in m {
        push(&mut sw, f, x);
    }
    xys(&sw.intersection())
}

/// A member, often related to earlier ones.  kinds: bit 0 segments, 1 circles, 2 arcs.
pub fn member(s: &mut Src, f: &Frame, prev: &[Shape], kinds: &[u64]) -> Shape {
    let kind = kinds[s.idx(kinds.len())];
    if prev.is_empty() || s.chance(1, 3) {
        return shape(s, f, kind);
    }
    let base = prev[s.idx(prev.len())];
    if s.chance(1, 12) && kinds.contains(&(base.kind() as u64)) {
        return base;
    }
    match (base, kind) {
        (Shape::Seg(a, b), 0) => {
            let mut known = vec![a, b];
            if let Shape::Seg(p, q) = prev[s.idx(prev.len())] {
                known.extend([p, q]);
            }
            let c = pt_rel(s, f, &known);
            let mut d = pt_rel(s, f, &known);
            if c == d {
                d = (c.0 + 1, c.1 + s.zig(1));
            }
            Shape::Seg(c, d)
        }
        (_, 0) => {
            let (c, r) = base.circle().unwrap();
            seg_near(s, f, c, r)
        }
        (Shape::Seg(a, b), _) => {
            // a circle through one of the segment's lattice points, or touching it
            let r = s.pick(&[5i64, 10, 13, 1, 2, 3]);
            let t = pt_rel(s, f, &[a, b]);
            let q = lattice_on_circle(s, (0, 0), r);
            let c = sub(t, q);
            if kind == 1 { Shape::Circle(c, r) } else { arc(s, c, r) }
        }
        (_, k) => {
            let (c, r) = base.circle().unwrap();
            let (c2, r2) = circle_near(s, f, c, r);
            if k == 1 {
                Shape::Circle(c2, r2)
            } else {
                match base {
                    Shape::Arc(_, _, a, b) if s.chance(1, 2) => {
                        let e = angle(s, true);
                        full_turns(match s.upto(3) {
                            0 => Shape::Arc(c2, r2, b, e),
                            1 => Shape::Arc(c2, r2, e, a),
                            2 => Shape::Arc(c2, r2, a, b),
                            _ => Shape::Arc(c2, r2, b, a),
                        })
                    }
                    _ => arc(s, c2, r2),
                }
            }
        }
    }
}

pub fn members(s: &mut Src, f: &Frame, n: usize, kinds: &[u64]) -> Vec<Shape> {
    let mut m: Vec<Shape> = Vec::new();
    // sometimes many members through one point
    let bundle = if s.chance(1, 5) { Some(pt(s, f)) } else { None };
    for _ in 0..n {
        let x = match bundle {
            Some(p) if kinds.contains(&0) && s.chance(1, 2) => {
                let d = (s.zig(4), s.zig(4));
                let d = if d == (0, 0) { (1, 0) } else { d };
                let (i, j) = (s.int(0, 3), s.int(1, 3));
                Shape::Seg((p.0 - d.0 * i, p.1 - d.1 * i), (p.0 + d.0 * j, p.1 + d.1 * j))
            }
            _ => member(s, f, &m, kinds),
        };
        m.push(x);
    }
    m
}

pub fn show_members(f: &Frame, m: &[Shape]) -> String {
    m.iter().map(|x| x.show(f)).collect::<Vec<_>>().join(", ")
}

/// The points the sweep must report: pairwise common points (isolated points and
/// overlap ends), and arc ends on a coinciding circle.
pub fn expected(f: &Frame, m: &[Shape]) -> Result<Vec<F2>, Stop> {
    let all = common_points(f, m)?;
    let flat: Vec<Flat> = m.iter().map(|x| Flat::of(f, x)).collect();
    sweepable(&all, &flat)?;
    distinct(all)
}
/// All of them, repeated where several pairs meet.
pub fn common_points(f: &Frame, m: &[Shape]) -> Result<Vec<F2>, Stop> {
    let mut all: Vec<F2> = Vec::new();
    for i in 0..m.len() {
        for j in i + 1..m.len() {
            all.extend(common(f, &m[i], &m[j])?);
            let (ci, cj) = (m[i].circle(), m[j].circle());
            if ci.is_some() && ci == cj {
                for (x, y) in [(&m[i], &m[j]), (&m[j], &m[i])] {
                    if let (Shape::Arc(..), Shape::Circle(..)) = (x, y) {
                        all.extend(end_points(f, x));
                    }
                }
            }
        }
    }
    Ok(all)
}

/// A member in real coordinates.
#[derive(Clone, Copy, Debug)]
pub enum Flat {
    Seg(F2, F2),
    /// centre, radius, ends of an arc
    Round(F2, f64, Option<(F2, F2)>),
}
impl Flat {
    pub fn of(f: &Frame, x: &Shape) -> Flat {
        let e = end_points(f, x);
        match *x {
            Shape::Seg(..) => Flat::Seg(e[0], e[1]),
            Shape::Circle(c, r) => Flat::Round(f.fp(c), r as f64 * f.unit(), None),
            Shape::Arc(c, r, ..) => Flat::Round(f.fp(c), r as f64 * f.unit(), Some((e[0], e[1]))),
        }
    }
    fn off(&self, p: F2) -> f64 {
        match *self {
            Flat::Seg(a, b) => {
                let (d, w) = ((b.0 - a.0, b.1 - a.1), (p.0 - a.0, p.1 - a.1));
                let dd = d.0 * d.0 + d.1 * d.1;
                let t = if dd == 0.0 { 0.0 } else { ((w.0 * d.0 + w.1 * d.1) / dd).clamp(0.0, 1.0) };
                dist(p, (a.0 + t * d.0, a.1 + t * d.1))
            }
            Flat::Round(c, r, _) => (dist(c, p) - r).abs(),
        }
    }
}

/// Stops where the sweep's order of points hangs on rounding.
pub fn sweepable(all: &[F2], m: &[Flat]) -> R {
    let mut xs: Vec<f64> = all.iter().map(|p| p.0).collect();
    for x in m {
        match *x {
            // circles are halved at their leftmost and rightmost points
            Flat::Round(c, r, ends) => {
                for e in [(c.0 - r, c.1), (c.0 + r, c.1)] {
                    if all.iter().any(|p| (p.0 - e.0).abs() < 1e-9 && dist(*p, e) > 1e-11 && dist(*p, e) < 1e-2) {
                        return discard("too close to an extreme point");
                    }
                }
                xs.extend([c.0 - r, c.0 + r]);
                if let Some((p, q)) = ends {
                    xs.extend([p.0, q.0]);
                }
            }
            // points of a steep segment the sweep takes for one above the other
            Flat::Seg(p, q) => {
                xs.extend([p.0, q.0]);
                if (p.0 - q.0).abs() > 1e-12 && (q.0 - p.0).abs() < 1e-2 * (q.1 - p.1).abs() {
                    let mut on: Vec<F2> = all.iter().filter(|w| x.off(**w) < 1e-9).copied().collect();
                    on.extend([p, q]);
                    for (i, v) in on.iter().enumerate() {
                        if on[i + 1..].iter().any(|w| (v.0 - w.0).abs() < 1e-9 && (v.1 - w.1).abs() > 1e-11) {
                            return discard("too steep a segment");
                        }
                    }
                }
            }
        }
    }
    // the sweep visits points by x, equal within tolerance, then y: which it is must be clear
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let scale = 1.0 + xs.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    if xs.windows(2).any(|w| w[1] - w[0] > 1e-14 * scale && w[1] - w[0] < 1e-9) {
        return discard("coordinates neither equal nor apart");
    }
    Ok(())
}
pub fn distinct(mut all: Vec<F2>) -> Result<Vec<F2>, Stop> {
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut out: Vec<F2> = Vec::new();
    for p in all {
        let mut dup = false;
        for q in out.iter().rev() {
            if p.0 - q.0 > 1e-6 {
                break;
            }
            let d = dist(p, *q);
            if d < 1e-11 {
                dup = true;
            } else if d < 1e-6 {
                return Err(Stop::Discard("different points too close together"));
            }
        }
        if !dup {
            out.push(p);
        }
    }
    Ok(out)
}

/// Largest x first, among equal x largest y first.
pub fn in_sweep_order(v: &[F2]) -> bool {
    v.windows(2).all(|w| w[0].0 > w[1].0 - 1e-9 && ((w[0].0 - w[1].0).abs() > 1e-11 || w[0].1 > w[1].1 - 1e-9))
}

pub fn check_sweep(f: &Frame, m: &[Shape], want: &[F2], got: &[F2]) -> R {
    check_members(f, m, want, got)?;
    ensure!(in_sweep_order(got), "not in sweep order: {got:?}");
    Ok(())
}
/// All expected points reported, once, and nothing that is not on two members.
pub fn check_members(f: &Frame, m: &[Shape], want: &[F2], got: &[F2]) -> R {
    let tol = 1e-8;
    ensure!(finite(got), "not finite: {got:?}");
    for p in want {
        ensure!(got.iter().any(|q| near(*p, *q, tol)), "intersection {p:?} of {} is not reported: {got:?}", show_members(f, m));
    }
    for (i, q) in got.iter().enumerate() {
        let on = m.iter().filter(|x| off(f, x, *q) < 1e-7).count();
        ensure!(on >= 2, "reported point {q:?} lies on {on} members of {}", show_members(f, m));
        for r in &got[i + 1..] {
            ensure!(!near(*q, *r, 1e-9), "{q:?} is reported twice: {got:?}");
        }
    }
    Ok(())
}

fn run(c: &mut Ctx, f: Frame, m: Vec<Shape>) -> R {
    c.note(|| show_members(&f, &m));
    let want = expected(&f, &m)?;
    if c.src.large {
        clear_crossings(&f, &m)?;
    }
    c.nontrivial = want.len() >= 2 && m.len() >= 3;
    c.label(match want.len() {
        0 => "no points",
        1..=3 => "1-3 points",
        4..=15 => "4-15 points",
        _ => "16+ points",
    });
    let many = want.iter().any(|p| m.iter().filter(|x| off(&f, x, *p) < 1e-9).count() >= 3);
    if many {
        c.label("three or more members through one point");
    }
    let got = sweep_of(&f, &m);
    check_sweep(&f, &m, &want, &got)?;
    // isolated points only, so the reported list is the expected one unless members overlap
    let perm = c.src.perm(m.len());
    let shuffled: Vec<Shape> = perm.iter().map(|i| m[*i]).collect();
    let again = sweep_of(&f, &shuffled);
    ensure!(same_set(&got, &again, 1e-8), "added in the order {perm:?}: {again:?}, as listed: {got:?}; members {}", show_members(&f, &m));
    ensure!(in_sweep_order(&again), "not in sweep order: {again:?}");
    Ok(())
}

fn size(s: &mut Src) -> usize {
    match s.weighted(&[4, 6, 2, 1]) {
        0 => 2 + s.idx(2),
        1 => 4 + s.idx(5),
        2 => 9 + s.idx(8),
        _ => 17 + s.idx(14),
    }
}

fn segments(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let mut f = frame(s, 500);
    f.k = f.k.min(3);
    let n = size(s);
    let mut m = members(s, &f, n, &[0]);
    if s.chance(1, 20) {
        let p = pt(s, &f);
        m.push(Shape::Seg(p, p));
    }
    run(c, f, m)
}
fn huge(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let mut f = frame(s, 500);
    f.k = f.k.min(3);
    f.r = s.pick(&[500i64, 100, 30]);
    let n = 40 + s.idx(80);
    let m = members(s, &f, n, &[0]);
    run(c, f, m)
}
fn mixed(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let n = size(s);
    let kinds = s.pick(&[vec![0u64, 1, 2], vec![1], vec![2], vec![1, 2], vec![0, 2], vec![0, 1]]);
    let m = members(s, &f, n, &kinds);
    run(c, f, m)
}

/// A member with real coordinates: points, or centre and radius and the angles of an arc.
#[derive(Clone, Copy, Debug)]
pub enum Loose {
    Seg(F2, F2),
    Round(F2, f64, Option<(f64, f64)>),
}
impl Loose {
    fn flat(&self) -> Flat {
        match *self {
            Loose::Seg(a, b) => Flat::Seg(a, b),
            Loose::Round(c, r, None) => Flat::Round(c, r, None),
            Loose::Round(c, r, Some((a, b))) => {
                let at = |t: f64| (c.0 + r * t.cos(), c.1 + r * t.sin());
                Flat::Round(c, r, Some((at(a), at(b))))
            }
        }
    }
    pub fn lib(&self) -> Lib<f64> {
        use rcgal::kernel::arc_segment_2::ArcSegment2;
        use rcgal::kernel::circle_segment_2::CircleSegment2;
        use rcgal::kernel::line_segment_2::LineSegment2;
        let pt = |p: F2| Point2::new(p.0, p.1);
        match *self {
            Loose::Seg(a, b) => Lib::S(LineSegment2::new(pt(a), pt(b))),
            Loose::Round(k, r, None) => Lib::C(CircleSegment2::new(pt(k), r)),
            Loose::Round(k, r, Some((a, b))) => Lib::A(ArcSegment2::new(CircleSegment2::new(pt(k), r), a, b)),
        }
    }
    /// Whether a point of the supporting line or circle is on the member; nothing within 1e-6 of an end.
    fn holds(&self, p: F2) -> Result<bool, Stop> {
        match *self {
            Loose::Seg(a, b) => {
                let (d, w) = ((b.0 - a.0, b.1 - a.1), (p.0 - a.0, p.1 - a.1));
                if dist(p, a) < 1e-6 || dist(p, b) < 1e-6 {
                    return Err(Stop::Discard("close to an end"));
                }
                let t = (d.0 * w.0 + d.1 * w.1) / (d.0 * d.0 + d.1 * d.1);
                Ok((0.0..=1.0).contains(&t))
            }
            Loose::Round(_, _, None) => Ok(true),
            Loose::Round(c, r, Some((a, b))) => {
                let turn = std::f64::consts::TAU;
                let w = ((p.1 - c.1).atan2(p.0 - c.0) - a).rem_euclid(turn);
                let span = b - a;
                if [0.0, span, turn].iter().any(|e| (w - e).abs() * r.min(1.0) < 1e-6) {
                    return Err(Stop::Discard("close to an end"));
                }
                Ok(w < span)
            }
        }
    }
    fn meet(&self, o: &Loose) -> Result<Vec<F2>, Stop> {
        let cand: Vec<F2> = match (*self, *o) {
            (Loose::Seg(a, b), Loose::Seg(c, d)) => {
                let (u, v, w) = ((b.0 - a.0, b.1 - a.1), (d.0 - c.0, d.1 - c.1), (c.0 - a.0, c.1 - a.1));
                let det = u.0 * v.1 - u.1 * v.0;
                if det.abs() < 0.01 * dist(a, b) * dist(c, d) {
                    let x = |p: F2| (u.0 * (p.1 - a.1) - u.1 * (p.0 - a.0)) / dist(a, b);
                    // nearly parallel: fine when all of it is on one side
                    if x(c) * x(d) > 0.0 && x(c).abs().min(x(d).abs()) > 1e-3 {
                        return Ok(vec![]);
                    }
                    return Err(Stop::Discard("nearly parallel"));
                }
                if let Some(p) = [a, b].into_iter().find(|p| *p == c || *p == d) {
                    return Ok(vec![p]);
                }
                let t = (w.0 * v.1 - w.1 * v.0) / det;
                vec![(a.0 + t * u.0, a.1 + t * u.1)]
            }
            (Loose::Seg(a, b), Loose::Round(c, r, _)) | (Loose::Round(c, r, _), Loose::Seg(a, b)) => {
                let l = dist(a, b);
                let u = ((b.0 - a.0) / l, (b.1 - a.1) / l);
                let m = (c.0 - a.0) * u.0 + (c.1 - a.1) * u.1;
                let h = ((c.0 - a.0) * u.1 - (c.1 - a.1) * u.0).abs();
                if (h - r).abs() < (1e-5 * r).max(2e-9) {
                    return Err(Stop::Discard("nearly tangent"));
                }
                if h > r {
                    return Ok(vec![]);
                }
                let k = (r * r - h * h).sqrt();
                vec![(a.0 + u.0 * (m - k), a.1 + u.1 * (m - k)), (a.0 + u.0 * (m + k), a.1 + u.1 * (m + k))]
            }
            (Loose::Round(c, r, _), Loose::Round(d, q, _)) => {
                let l = dist(c, d);
                if (l - r - q).abs() < (1e-5 * r.min(q)).max(2e-9) || (l - (r - q).abs()).abs() < (1e-5 * r.min(q)).max(2e-9) {
                    return Err(Stop::Discard("nearly tangent"));
                }
                if l > r + q || l < (r - q).abs() {
                    return Ok(vec![]);
                }
                let u = ((d.0 - c.0) / l, (d.1 - c.1) / l);
                let a = (r * r - q * q + l * l) / (2.0 * l);
                let h = (r * r - a * a).sqrt();
                let m = (c.0 + a * u.0, c.1 + a * u.1);
                vec![(m.0 - h * u.1, m.1 + h * u.0), (m.0 + h * u.1, m.1 - h * u.0)]
            }
        };
        let mut out = Vec::new();
        for p in cand {
            // where both are in doubt or either misses by far it does not matter
            match (self.holds(p), o.holds(p)) {
                (Ok(true), Ok(true)) => out.push(p),
                (Ok(false), _) | (_, Ok(false)) => {}
                (Err(e), _) | (_, Err(e)) => return Err(e),
            }
        }
        Ok(out)
    }
}

/// Real coordinates and generic position: chains sharing their corners, circles, arcs.
fn real(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let n = match s.upto(3) {
        0 => 2 + s.idx(4),
        1 => 4 + s.idx(12),
        2 => 10 + s.idx(20),
        _ => 25 + s.idx(40),
    };
    real_in(c, n)
}
/// Two members of the given kinds (0 segment, 1 circle, 2 arc), of any sizes, in general position.
pub fn real_pair(c: &mut Ctx, ka: &[u64], kb: &[u64]) -> R {
    let s = &mut c.src;
    let (ka, kb) = { let (a, b) = (s.pick(ka), s.pick(kb)); if s.chance(1, 2) { (a, b) } else { (b, a) } };
    let size = s.pick(&[0.1, 1.0, 20.0, 400.0]);
    let at = s.pick(&[(0.0, 0.0), (0.0, 0.0), (300.0, -400.0), (1.0, 555.0)]);
    let mut one = |s: &mut Src, kind: u64, size: f64, near: F2| {
        let mut real = |k: f64| (s.f01() * 2.0 - 1.0) * k;
        let p = (near.0 + real(size), near.1 + real(size));
        match kind {
            0 => {
                let d = (real(size), real(size));
                Loose::Seg((p.0 - d.0, p.1 - d.1), (p.0 + d.0, p.1 + d.1))
            }
            k => {
                let r = (0.02 + s.f01()) * size;
                let a = s.f01() * 6.28;
                Loose::Round(p, r, if k == 1 { None } else { Some((a, a + 0.1 + s.f01() * 6.0)) })
            }
        }
    };
    let x = one(s, ka, size, at);
    // the other one as large, or small and on the first one's outline
    let share = s.pick(&[1.0, 0.2, 0.03]);
    let place = if share == 1.0 {
        at
    } else {
        match x {
            Loose::Seg(a, b) => {
                let t = s.f01();
                (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t)
            }
            Loose::Round(k, r, _) => {
                let t = s.f01() * 6.28;
                (k.0 + r * t.cos(), k.1 + r * t.sin())
            }
        }
    };
    let y = one(s, kb, size * share, place);
    for m in [x, y] {
        if let Loose::Seg(a, b) = m {
            if dist(a, b) < 1e-3 * size {
                return discard("too short a segment");
            }
        }
    }
    c.note(|| format!("{x:?} and {y:?}"));
    let want = x.meet(&y)?;
    c.nontrivial = !want.is_empty();
    c.label(match want.len() {
        0 => "apart",
        1 => "one point",
        _ => "two points",
    });
    let (a, b) = (x.lib(), y.lib());
    for (a, b) in [(&a, &b), (&b, &a)] {
        let got = xys(&lib_inter(a, b));
        ensure!(same_set(&got, &want, 1e-8), "{x:?} and {y:?} meet in {got:?}, expected {want:?}");
        ensure!(lib_pred(a, b) == !want.is_empty(), "{x:?} and {y:?} asked whether they meet: {}, expected {want:?}", want.is_empty());
    }
    Ok(())
}
fn real_huge(c: &mut Ctx) -> R {
    let n = 80 + c.src.idx(120);
    real_in(c, n)
}
fn real_in(c: &mut Ctx, n: usize) -> R {
    let s = &mut c.src;
    let size = s.pick(&[5.0, 50.0, 400.0]);
    let at = s.pick(&[(0.0, 0.0), (0.0, 0.0), (200.0, -300.0)]);
    let share = s.pick(&[1.0, 0.3, 0.1]);
    let kinds = s.pick(&[vec![0u64], vec![0, 0, 1], vec![0, 1, 2], vec![2], vec![0, 2]]);
    let mut m: Vec<Loose> = Vec::new();
    let mut end: Option<F2> = None;
    for _ in 0..n {
        let mut real = |k: f64| (s.f01() * 2.0 - 1.0) * k;
        let p = (at.0 + real(size), at.1 + real(size));
        let d = (real(size * share), real(size * share));
        let kind = s.pick(&kinds);
        if kind == 0 {
            let a = match end {
                Some(e) if s.chance(1, 3) => e,
                _ => p,
            };
            let b = (a.0 + d.0, a.1 + d.1);
            if dist(a, b) < 1e-3 {
                continue;
            }
            end = Some(b);
            m.push(if s.chance(1, 2) { Loose::Seg(a, b) } else { Loose::Seg(b, a) });
        } else {
            let r = (0.02 + s.f01()) * size * share;
            let a = s.f01() * 6.28;
            m.push(Loose::Round(p, r, if kind == 1 { None } else { Some((a, a + 0.1 + s.f01() * 6.0)) }));
        }
    }
    c.note(|| format!("members {m:?}"));
    let mut all = Vec::new();
    for i in 0..m.len() {
        for j in i + 1..m.len() {
            all.extend(m[i].meet(&m[j])?);
        }
    }
    let flat: Vec<Flat> = m.iter().map(|x| x.flat()).collect();
    let ends: Vec<F2> = flat.iter().flat_map(|x| match *x {
        Flat::Seg(a, b) => vec![a, b],
        Flat::Round(_, _, e) => e.map_or(vec![], |(a, b)| vec![a, b]),
    }).collect();
    // an end of one beside another
    for (i, x) in m.iter().enumerate() {
        for e in &ends {
            let o = flat[i].off(*e);
            let own = match *x {
                Loose::Seg(a, b) => *e == a || *e == b,
                Loose::Round(.., Some(_)) => matches!(flat[i], Flat::Round(_, _, Some((a, b))) if *e == a || *e == b),
                _ => false,
            };
            if !own && o < 1e-6 {
                return discard("an end close to another member");
            }
        }
    }
    sweepable(&all, &flat)?;
    let want = distinct(all)?;
    c.nontrivial = want.len() >= 2 && m.len() >= 3;
    c.label(match want.len() {
        0 => "no points",
        1..=15 => "1-15 points",
        16..=99 => "16-99 points",
        _ => "100+ points",
    });
    let ask = |order: &[usize]| {
        let mut w = SweepSegment2Intersection::<f64>::new();
        for i in order {
            match m[*i].lib() {
                Lib::S(x) => w.push_segment(&x),
                Lib::C(x) => w.push_segment(&x),
                Lib::A(x) => w.push_segment(&x),
            }
        }
        xys(&w.intersection())
    };
    let straight: Vec<usize> = (0..m.len()).collect();
    let got = ask(&straight);
    ensure!(in_sweep_order(&got), "not in sweep order: {got:?}");
    ensure!(same_set(&got, &want, 1e-7), "reported {got:?}, expected {want:?}");
    let perm = c.src.perm(m.len());
    let again = ask(&perm);
    ensure!(same_set(&again, &want, 1e-7), "added in the order {perm:?}: reported {again:?}, expected {want:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "collections of 2-30 (huge: segments only, 40-119) lattice segments, circles and arcs, about two thirds of the members placed in relation to earlier ones (sharing ends, touching, tangent, overlapping, equal, many through one point); expected points are the union of the pairwise exact ones; members added in two orders; real: 2-64 (huge: 80-199) members with real coordinates in general position, chains sharing corners, any sizes; non-trivial: 3+ members and 2+ expected points; further stages: signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; small-scale: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("segments", 12_000, 900_000, segments), sub_check("mixed", 14_000, 1_000_000, mixed),
            sub_check("huge", 300, 20_000, huge),
            sub_check("real", 6_000, 400_000, real),
            sub_check("real-huge", 100, 8_000, real_huge),
            sub_check("mixed-large", 6_000, 400_000, |c| crate::curve::large(c, mixed)),
            sub_check("near-miss", 15_000, 900_000, |c| crate::nearmiss::check(c, &[17], 9)),
            sub_check("unequal", 10000, 600000, |c| crate::unequal::check(c, &[17], 4)),
            sub_check("rotated", 15000, 900000, |c| crate::rotated::check(c, &[17], 9)),
            sub_check("signed-zero", 7500, 450000, |c| crate::signs::check(c, &[17], 9)),
            sub_check("rotated-large", 1500, 90000, |c| crate::rotated::check(c, &[17], 22)),
            sub_check("small-scale", 4000, 240000, |c| crate::nearmiss::scaled(c, &[17], 6, crate::nearmiss::Scale::Small)),
            sub_check("minute-scale", 4000, 240000, |c| crate::nearmiss::scaled(c, &[17], 6, crate::nearmiss::Scale::Minute)),
        ],
    }
}
