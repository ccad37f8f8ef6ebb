//! Near misses: a generated question on the coarse lattice is lifted to a fine one and
//! some of its points are moved by a few fine units, so that points lie just beside
//! edges, segments just miss or just touch, lines meet just behind a ray.  The answer
//! is computed exactly from the moved integers.
use crate::battery::*;
use crate::curve::*;
use crate::engine::*;
use crate::ensure;
use crate::exact::*;
use crate::gen::*;
use crate::props::{p17, p20};
use crate::util::*;

/// Distances from a decision boundary below this are not judged.
fn margin(f: &Frame) -> f64 {
    if f.k > 16 { 1e-9 } else { 1e-8 }
}

fn points_mut(q: &mut Q) -> Vec<&mut P> {
    fn of(x: &mut Shape) -> Vec<&mut P> {
        match x {
            Shape::Seg(a, b) => vec![a, b],
            Shape::Circle(c, _) | Shape::Arc(c, ..) => vec![c],
        }
    }
    match q {
        Q::Turn(a, b, c) | Q::Triangle(a, b, c) | Q::SegLoc(a, b, c) | Q::LineLoc(a, b, c) | Q::ProjLine(a, b, c) | Q::ProjSeg(a, b, c) | Q::RayLoc(a, b, c) => vec![a, b, c],
        Q::TriLoc(a, b, c, d) | Q::LineLine(a, b, c, d) | Q::LineRay(a, b, c, d) | Q::SegRay(a, b, c, d) => vec![a, b, c, d],
        Q::Polygon(v, _) | Q::Simple(v) | Q::Hull(v) | Q::Earcut(v) => v.iter_mut().collect(),
        Q::PolyLoc(p, v) => std::iter::once(p).chain(v.iter_mut()).collect(),
        Q::CircleLoc(a, c, _) => vec![a, c],
        Q::ArcLoc(a, x) => std::iter::once(a).chain(of(x)).collect(),
        Q::Pair(x, y) => of(x).into_iter().chain(of(y)).collect(),
        Q::Sweep(m) => m.iter_mut().flat_map(of).collect(),
        Q::Vectors(a, b) | Q::Order(a, b) => vec![a, b],
        Q::Pieces(x) => of(x),
    }
}
fn radii_mut(q: &mut Q) -> Vec<&mut i64> {
    fn of(x: &mut Shape) -> Vec<&mut i64> {
        match x {
            Shape::Seg(..) => vec![],
            Shape::Circle(_, r) | Shape::Arc(_, r, ..) => vec![r],
        }
    }
    match q {
        Q::CircleLoc(_, _, r) => vec![r],
        Q::ArcLoc(_, x) | Q::Pieces(x) => of(x),
        Q::Pair(x, y) => of(x).into_iter().chain(of(y)).collect(),
        Q::Sweep(m) => m.iter_mut().flat_map(of).collect(),
        _ => vec![],
    }
}

/// Lifts to a lattice of 2^-k and moves one to three points (or radii).
fn lift(s: &mut Src, f: &Frame, q: &mut Q) -> Frame {
    let k = 16u32;
    let up = k - f.k;
    for p in points_mut(q) {
        *p = (p.0 << up, p.1 << up);
    }
    for r in radii_mut(q) {
        *r <<= up;
    }
    let n = 1 + s.idx(3);
    for _ in 0..n {
        let mut d = || s.pick(&[0i64, 1, -1, 2, -2, 7, -7, 64, -64, 500, -500]);
        let by = (d(), d());
        let mut radii = radii_mut(q);
        if !radii.is_empty() && s.chance(1, 3) {
            let i = s.idx(radii.len());
            *radii[i] = (*radii[i] + by.0).max(1 << (up - 1));
        } else {
            let mut ps = points_mut(q);
            if ps.is_empty() {
                continue;
            }
            let i = s.idx(ps.len());
            *ps[i] = add(*ps[i], by);
        }
    }
    Frame { r: f.r, k, o: (f.o.0 << up, f.o.1 << up) }
}

fn len(a: P, b: P) -> f64 {
    let d = sub(b, a);
    (dot(d, d) as f64).sqrt()
}
/// Stops if p is off the line of a and b, but by less than the margin.
fn clear_of_line(f: &Frame, p: P, a: P, b: P) -> R {
    let o = orient(a, b, p);
    if o != 0 && o.unsigned_abs() as f64 / len(a, b).max(1.0) * f.unit() < margin(f) {
        return discard("too close to a line");
    }
    Ok(())
}
pub fn clear_polygon(f: &Frame, v: &[P]) -> R {
    let n = v.len();
    for i in 0..n {
        for j in 0..n {
            clear_of_line(f, v[i], v[j], v[(j + 1) % n])?;
        }
    }
    Ok(())
}
pub fn clear_pair(f: &Frame, x: &Shape, y: &Shape) -> R {
    if let (Shape::Seg(a, b), Shape::Seg(c, d)) = (*x, *y) {
        for (p, a, b) in [(a, c, d), (b, c, d), (c, a, b), (d, a, b)] {
            clear_of_line(f, p, a, b)?;
        }
    }
    Ok(())
}
/// Slope and intercept of a line that is neither vertical nor horizontal.
fn slope(f: &Frame, a: P, b: P) -> Option<(f64, f64)> {
    let d = sub(b, a);
    if d.0 == 0 || d.1 == 0 {
        return None;
    }
    let m = d.1 as f64 / d.0 as f64;
    Some((m, f.fp(a).1 - m * f.fp(a).0))
}
fn moderate(f: &Frame, a: P, b: P) -> R {
    match slope(f, a, b) {
        Some((m, c)) if m.abs() > 100.0 || c.abs() > 2e3 => discard("too steep for the tolerance"),
        _ => Ok(()),
    }
}
fn side(o: i128) -> i32 {
    o.signum() as i32
}

/// Lines a b and c d, exactly: the meeting point of non-parallel lines.
fn meet(f: &Frame, a: P, b: P, c: P, d: P) -> Option<F2> {
    let (r, s) = (sub(b, a), sub(d, c));
    let den = cross(r, s);
    if den == 0 {
        return None;
    }
    let t = cross(sub(c, a), s) as f64 / den as f64;
    Some(((a.0 as f64 + r.0 as f64 * t) * f.unit(), (a.1 as f64 + r.1 as f64 * t) * f.unit()))
}

/// The answer, where the question is clear of its decision boundaries.
pub fn expect(f: &Frame, q: &Q) -> Result<Vec<Val>, Stop> {
    use Val::*;
    let u = f.unit();
    let u2 = u * u;
    let near_parallel = |d: P, e: P, below: f64| {
        let c = cross(d, e);
        c != 0 && c.unsigned_abs() as f64 / (len((0, 0), d) * len((0, 0), e)) < below
    };
    Ok(match q {
        Q::Turn(a, b, c) => vec![match side(orient(*a, *b, *c)) {
            0 => Code(0),
            x => Side(x),
        }],
        Q::Triangle(a, b, c) => {
            let o = orient(*a, *b, *c);
            if o == 0 {
                return discard("degenerate triangle");
            }
            let v = vec![f.fp(*a), f.fp(*b), f.fp(*c)];
            let area = o as f64 / 2.0 * u2;
            vec![Orient(side(o)), Area(area), Path(v), Orient(-side(o)), Area(-area)]
        }
        Q::Polygon(v, convex) => {
            let mut out = vec![Area(if v.len() < 3 { 0.0 } else { area2(v) as f64 / 2.0 * u2 })];
            if *convex {
                if !is_simple(v) {
                    return discard("not simple");
                }
                out.push(Yes(convex_by_turns(v)));
            }
            out
        }
        Q::Simple(v) => {
            clear_polygon(f, v)?;
            // the sweep does not tell apart some points that nearly share an x
            let edges: Vec<Shape> = (0..v.len()).map(|i| Shape::Seg(v[i], v[(i + 1) % v.len()])).collect();
            p17::expected(f, &edges)?;
            vec![Yes(is_simple(v))]
        }
        Q::SegLoc(p, a, b) => {
            if a == b {
                return discard("zero length");
            }
            clear_of_line(f, *p, *a, *b)?;
            let on = on_seg(*p, *a, *b);
            vec![
                match side(orient(*a, *b, *p)) {
                    0 => Code(if on { 1 } else { 2 }),
                    x => Side(x),
                },
                Yes(on),
            ]
        }
        Q::TriLoc(p, a, b, c) => {
            if orient(*a, *b, *c) == 0 {
                return discard("degenerate triangle");
            }
            clear_polygon(f, &[*a, *b, *c])?;
            for (x, y) in [(a, b), (b, c), (c, a)] {
                clear_of_line(f, *p, *x, *y)?;
            }
            vec![Code(point_in_triangle(*p, [*a, *b, *c]) as i32)]
        }
        Q::PolyLoc(p, v) => {
            if !is_simple(v) {
                return discard("not simple");
            }
            for i in 0..v.len() {
                clear_of_line(f, *p, v[i], v[(i + 1) % v.len()])?;
            }
            let w = point_in_polygon(*p, v);
            vec![Code(w as i32), Yes(w == 1), Yes(w == 2), Yes(w == 0)]
        }
        Q::CircleLoc(p, c, r) => {
            let g = sub(*p, *c);
            let v = dot(g, g) - (*r as i128) * (*r as i128);
            if v != 0 && v.unsigned_abs() as f64 / (2.0 * *r as f64) * u < margin(f) {
                return discard("too close to the circle");
            }
            vec![Code(if v == 0 { 1 } else if v < 0 { 2 } else { 0 }), Yes(v == 0)]
        }
        Q::ArcLoc(p, x) => {
            let Shape::Arc(c, r, s, t) = *x else { unreachable!() };
            let g = sub(*p, c);
            let v = dot(g, g) - (r as i128) * (r as i128);
            if v != 0 && v.unsigned_abs() as f64 / (2.0 * r as f64) * u < margin(f) {
                return discard("too close to the circle");
            }
            let on = v == 0
                && match covers_within(s, t, (g.1 as f64).atan2(g.0 as f64), 2e-13, r as f64 * u) {
                    Cover::Inside | Cover::End => true,
                    Cover::Outside => false,
                    Cover::Unsure => return discard("too close to an arc end"),
                };
            vec![Code(on as i32), Yes(on)]
        }
        Q::LineLoc(p, a, b) => {
            if a == b {
                return discard("equal points");
            }
            moderate(f, *a, *b)?;
            clear_of_line(f, *p, *a, *b)?;
            let on = orient(*a, *b, *p) == 0;
            vec![Code(on as i32), Yes(on)]
        }
        Q::LineLine(a, b, c, d) => {
            if a == b || c == d {
                return discard("equal points");
            }
            moderate(f, *a, *b)?;
            moderate(f, *c, *d)?;
            let (x, y) = (sub(*b, *a), sub(*d, *c));
            if near_parallel(x, y, 1e-6) {
                return discard("nearly parallel");
            }
            let w = meet(f, *a, *b, *c, *d);
            let same = w.is_none() && orient(*a, *b, *c) == 0;
            if w.is_none() && !same {
                clear_of_line(f, *c, *a, *b)?;
            }
            if w.map_or(false, |w| w.0.abs() > 1e4 || w.1.abs() > 1e4) {
                return discard("meeting far away");
            }
            vec![Pts(w.into_iter().collect()), Yes(w.is_some()), Yes(same)]
        }
        Q::RayLoc(p, o, d) => {
            clear_of_line(f, *p, *o, add(*o, *d))?;
            let v = sub(*p, *o);
            let on = cross(*d, v) == 0 && dot(*d, v) >= 0;
            vec![
                match side(cross(*d, v)) {
                    0 => Code(if on { 1 } else { 2 }),
                    x => Side(x),
                },
                Yes(on),
            ]
        }
        Q::LineRay(a, b, o, d) => {
            if a == b {
                return discard("equal points");
            }
            moderate(f, *a, *b)?;
            let e = sub(*b, *a);
            let den = cross(*d, e);
            let num = cross(sub(*a, *o), e);
            if den == 0 && num == 0 {
                return discard("the ray lies on the line");
            }
            if near_parallel(*d, e, 1e-3) {
                return discard("nearly parallel");
            }
            let hit = den != 0 && (num == 0 || (num > 0) == (den > 0));
            clear_of_line(f, *o, *a, *b)?;
            let w = meet(f, *o, add(*o, *d), *a, *b).filter(|_| hit);
            if w.map_or(false, |w| w.0.abs() > 1e4 || w.1.abs() > 1e4) {
                return discard("meeting far away");
            }
            vec![Pts(w.into_iter().collect()), Yes(hit)]
        }
        Q::SegRay(a, b, o, d) => {
            if a == b {
                return discard("zero length");
            }
            let t = add(*o, *d);
            clear_of_line(f, *a, *o, t)?;
            clear_of_line(f, *b, *o, t)?;
            clear_of_line(f, *o, *a, *b)?;
            let e = sub(*b, *a);
            if near_parallel(*d, e, 1e-6) {
                return discard("nearly parallel");
            }
            let (sa, sb) = (side(cross(*d, sub(*a, *o))), side(cross(*d, sub(*b, *o))));
            let mut w: Vec<F2> = Vec::new();
            if sa == 0 && sb == 0 {
                for p in [a, b] {
                    if dot(*d, sub(*p, *o)) >= 0 {
                        w.push(f.fp(*p));
                    }
                }
            } else if sa * sb <= 0 {
                let den = cross(*d, e);
                let num = cross(sub(*a, *o), e);
                if num == 0 || (num > 0) == (den > 0) {
                    w.extend(meet(f, *o, t, *a, *b));
                }
            }
            let yes = !w.is_empty();
            vec![Pts(w), Yes(yes)]
        }
        Q::ProjLine(p, a, b) => {
            if a == b {
                return discard("equal points");
            }
            moderate(f, *a, *b)?;
            vec![Pts(vec![foot(f, *p, *a, *b)])]
        }
        Q::ProjSeg(p, a, b) => {
            if a == b {
                return discard("zero length");
            }
            let d = sub(*b, *a);
            let (c1, c2) = (dot(sub(*p, *a), d), dot(d, d));
            for e in [c1, c1 - c2] {
                if e != 0 && e.unsigned_abs() as f64 / (c2 as f64).sqrt() * u < 1e-9 {
                    return discard("too close to an end");
                }
            }
            vec![Pts(if c1 < 0 || c1 > c2 { vec![] } else { vec![foot(f, *p, *a, *b)] })]
        }
        Q::Pair(x, y) => {
            clear_pair(f, x, y)?;
            let w = common(f, x, y)?;
            let yes = !w.is_empty();
            vec![Pts(w), Yes(yes)]
        }
        Q::Sweep(m) => {
            for i in 0..m.len() {
                for j in 0..i {
                    clear_pair(f, &m[i], &m[j])?;
                }
            }
            vec![Pts(p17::expected(f, m)?)]
        }
        Q::Hull(v) => vec![Path(hull(v).iter().map(|p| f.fp(*p)).collect())],
        Q::Earcut(v) => {
            if !is_simple(v) {
                return discard("not simple");
            }
            clear_polygon(f, v)?;
            vec![]
        }
        Q::Order(a, b) => {
            let o = match (a.0.cmp(&b.0), a.1.cmp(&b.1)) {
                (std::cmp::Ordering::Equal, y) => y.reverse(),
                (x, _) => x.reverse(),
            };
            vec![Code(o as i32), Yes(a == b), Num(len(*a, *b) * u)]
        }
        Q::Vectors(..) | Q::Pieces(..) => return discard("not a near miss"),
    })
}
fn foot(f: &Frame, p: P, a: P, b: P) -> F2 {
    let d = sub(b, a);
    let t = dot(sub(p, a), d) as f64 / dot(d, d) as f64;
    ((a.0 as f64 + d.0 as f64 * t) * f.unit(), (a.1 as f64 + d.1 as f64 * t) * f.unit())
}

fn same(f: &Frame, q: &Q, tol: f64, want: &[Val], got: &[Val]) -> bool {
    let tol = match q {
        _ if tol < 1.0 => tol,
        _ if f.k > 16 => 5e-10,
        Q::Hull(_) | Q::Triangle(..) => 0.0,
        Q::LineLine(..) | Q::LineRay(..) | Q::ProjLine(..) => 1e-6,
        _ => 1e-7,
    };
    want.len() == got.len()
        && want.iter().zip(got).all(|(w, g)| match (w, g) {
            (Val::Pts(x), Val::Pts(y)) => finite(y) && same_set(x, y, tol),
            (Val::Path(x), Val::Path(y)) => x == y,
            // integers below 2^53 in the unit's square
            (Val::Area(x), Val::Area(y)) => x == y,
            (Val::Num(x), Val::Num(y)) => (x - y).abs() <= 1e-10 * x.abs().max(1.0),
            (x, y) => x == y,
        })
}

/// The largest coordinate, in real units.
pub fn extent(f: &Frame, q: &Q) -> f64 {
    let mut q = q.clone();
    let r = radii_mut(&mut q).iter().fold(0, |m, r| m.max(**r));
    let p = positions_mut(&mut q).iter().fold(0, |m, p| m.max(p.0.abs()).max(p.1.abs()));
    (p + r) as f64 * f.unit()
}

/// The positions among the question's points (not the directions).
pub fn positions_mut(q: &mut Q) -> Vec<&mut P> {
    let directed = matches!(q, Q::RayLoc(..) | Q::LineRay(..) | Q::SegRay(..));
    let mut v = points_mut(q);
    if directed {
        v.pop();
    }
    v
}

/// The same kinds of question at an unusual scale: everything within a few hundred units
/// of 2^-16 (`Small`), of 2^-17 to 2^-22 (`Minute`) or 2^-30 (`Tiny`), or up to 2^20 away from the origin (`Far`).
#[derive(Clone, Copy, PartialEq)]
pub enum Scale {
    Small,
    Tiny,
    Minute,
    Far,
}
pub fn scaled(c: &mut Ctx, kinds: &[u64], max_n: usize, scale: Scale) -> R {
    let s = &mut c.src;
    let kind = s.pick(kinds);
    let (f, mut q) = match kind {
        k if k >= 100 => {
            let f = curve_frame(s);
            let (x, y) = pair(s, &f, (k - 100) / 3, (k - 100) % 3);
            (f, Q::Pair(x, y))
        }
        k => question_of(s, k, Which::All, max_n),
    };
    let (k, shift) = match scale {
        Scale::Small => {
            let o = if s.chance(1, 2) { (s.zig(3), s.zig(3)) } else { (0, 0) };
            (16, (o.0 << 16, o.1 << 16))
        }
        Scale::Tiny => (17 + s.upto(13) as u32, (0, 0)),
        Scale::Minute => {
            let k = 17 + s.upto(5) as u32;
            let o = if s.chance(1, 2) { (s.zig(3), s.zig(3)) } else { (0, 0) };
            (k, (o.0 << k, o.1 << k))
        }
        Scale::Far => {
            let m = s.pick(&[1i64 << 10, 1 << 14, 1 << 20]);
            let o = (s.zig(m), s.zig(m));
            (f.k.min(4), (o.0 << f.k.min(4), o.1 << f.k.min(4)))
        }
    };
    for p in positions_mut(&mut q) {
        *p = add(*p, shift);
    }
    let f = Frame { r: f.r, k, o: add(f.o, shift) };
    judge(c, f, q, 1.0)
}

/// One near miss of one of the given kinds (battery numbering).
pub fn check(c: &mut Ctx, kinds: &[u64], max_n: usize) -> R {
    let s = &mut c.src;
    let kind = s.pick(kinds);
    let (f, mut q) = match kind {
        // pairs by kind: 100 + 3 a + b
        k if k >= 100 => {
            let f = curve_frame(s);
            let (x, y) = pair(s, &f, (k - 100) / 3, (k - 100) % 3);
            (f, Q::Pair(x, y))
        }
        k => question_of(s, k, Which::All, max_n),
    };
    let f = if f.k > 10 { return discard("fine frame") } else { f };
    let f = lift(s, &f, &mut q);
    judge(c, f, q, 1.0)
}
/// `tol` bounds the error of points (at most; finer lattices and other answers have their own).
pub fn judge(c: &mut Ctx, f: Frame, q: Q, tol: f64) -> R {
    c.note(|| show(&f, &q));
    let want = expect(&f, &q)?;
    c.label(label(&q));
    c.nontrivial = true;
    let got = run::<f64>(&f, &q);
    if let (Q::Earcut(v), [Val::Tris(t)]) = (&q, &got[..]) {
        if let Err(e) = p20::valid(v, t) {
            return fail(format!("{}: {t:?}: {e}", show(&f, &q)));
        }
        return Ok(());
    }
    if let (Q::Sweep(m), [Val::Pts(w)], [Val::Pts(g)]) = (&q, &want[..], &got[..]) {
        return p17::check_sweep(&f, m, w, g);
    }
    ensure!(same(&f, &q, tol, &want, &got), "{}: answered {got:?}, expected {want:?}", show(&f, &q));
    Ok(())
}
