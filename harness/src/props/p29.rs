//! C29: inputs that are finite but as degenerate or as close together as one likes.
use super::p25::budget;
use super::prelude::*;
use crate::battery::*;
use crate::fuel::{self, Num};

/// Units from 2.3e-10 down to 1.5e-11: one to six of them are the library's tolerance.
fn fine(s: &mut Src) -> Frame {
    Frame { r: s.pick(&[1i64, 2, 4, 12]), k: s.pick(&[33u32, 34, 36, 32]), o: (0, 0) }
}

/// Figures up to about 1e13 or down to 1e-6 across, in units of one or a few last places of their coordinates or of
/// about the tolerance.
fn wide(s: &mut Src) -> (Frame, u32) {
    let e = s.int(-18, 40);
    let coarsest = 50 - e.max(0);
    let k = (s.pick(&[20i64, 33, 34, 36]).max(8 - e)).min(coarsest) as u32;
    (Frame { r: s.pick(&[1i64, 2, 4, 12]), k, o: (0, 0) }, (k as i64 + e) as u32)
}

/// A direction of rational length.
fn slope(s: &mut Src) -> (P, i64) {
    let (u, n) = s.pick(&[((1i64, 0i64), 1i64), ((3, 4), 5), ((5, 12), 13), ((20, 21), 29)]);
    (symmetry(s.upto(7), u), n)
}
fn along(o: P, u: P, n: i64, d: i128) -> P {
    let at = |o: i64, u: i64| o + (d * u as i128 / n as i128) as i64;
    (at(o.0, u.0), at(o.1, u.1))
}

struct Rough {
    f: Frame,
    /// size of a cell, as a power of two of the units
    cell: u32,
    free: bool,
    touching: bool,
    /// far apart, in cells
    cells: i64,
}
impl Rough {
    fn coord(&self, s: &mut Src, seen: &[P], y: bool) -> i64 {
        if !seen.is_empty() && s.chance(1, 2) {
            let p = seen[s.idx(seen.len())];
            return if y { p.1 } else { p.0 } + if s.chance(1, 3) { s.zig(self.f.r) } else { 0 };
        }
        (s.zig(self.cells) << self.cell) + self.fuzz(s)
    }
    /// Mostly near the corner of a cell; in figures of all sizes also anywhere in it.
    fn fuzz(&self, s: &mut Src) -> i64 {
        let r = if self.free && s.chance(1, 2) { 1 << self.cell } else { self.f.r };
        s.zig(r)
    }
    fn pt(&self, s: &mut Src, seen: &[P]) -> P {
        if !seen.is_empty() && s.chance(1, 3) {
            let p = seen[s.idx(seen.len())];
            return (p.0 + s.zig(self.f.r), p.1 + s.zig(self.f.r));
        }
        (self.coord(s, seen, false), self.coord(s, seen, true))
    }
    fn pts(&self, s: &mut Src, n: usize) -> Vec<P> {
        let mut v = Vec::new();
        for _ in 0..n {
            let p = self.pt(s, &v);
            v.push(p);
        }
        v
    }
    fn radius(&self, s: &mut Src) -> i64 {
        let r = (s.int(0, 2 * self.cells) << self.cell) + self.fuzz(s);
        if r < 1 { (1 << self.cell) + s.zig(self.f.r) } else { r }
    }
    fn angle(&self, s: &mut Src, seen: &[f64]) -> f64 {
        let a = if !seen.is_empty() && s.chance(1, 2) { seen[s.idx(seen.len())] } else { angle(s, true) };
        a + if s.chance(1, 2) { s.zig(9) as f64 * s.pick(&[1e-12, 3e-11, 1e-10, 1e-9, 1e-7]) } else { 0.0 }
    }
    /// Somewhere, or so that the circle just touches or misses one seen before from outside or inside.
    fn centre(&self, s: &mut Src, pts: &[P], seen: &[Shape], r: i64) -> P {
        let circles: Vec<(P, i64)> = seen.iter().filter_map(|x| x.circle()).collect();
        if circles.is_empty() || !self.touching && s.chance(1, 2) {
            return self.pt(s, pts);
        }
        let (o, q) = circles[s.idx(circles.len())];
        let d = if s.chance(1, 2) { q + r } else { q - r } as i128;
        let (u, n) = slope(s);
        let p = along(o, u, n, d);
        (p.0 + s.zig(self.f.r), p.1 + s.zig(self.f.r))
    }
    fn shape(&self, s: &mut Src, kind: u64, seen: &[Shape]) -> Shape {
        let mut pts: Vec<P> = Vec::new();
        let mut angles = Vec::new();
        let mut radii = Vec::new();
        for x in seen {
            match *x {
                Shape::Seg(a, b) => pts.extend([a, b]),
                Shape::Circle(c, r) => {
                    radii.push(r);
                    pts.extend([c, (c.0 + r, c.1), (c.0, c.1 - r)]);
                }
                Shape::Arc(c, r, a, b) => {
                    radii.push(r);
                    pts.extend([c, (c.0 + r, c.1), (c.0 - r, c.1)]);
                    angles.extend([a, b]);
                }
            }
        }
        let near_r = |s: &mut Src, o: &Rough| {
            if !radii.is_empty() && s.chance(1, 2) { (radii[s.idx(radii.len())] + s.zig(o.f.r)).max(1) } else { o.radius(s) }
        };
        match kind {
            0 if seen.iter().any(|x| x.circle().is_some()) && (self.touching || s.chance(1, 3)) => {
                // touches or just misses a circle, there or further on
                let circles: Vec<(P, i64)> = seen.iter().filter_map(|x| x.circle()).collect();
                let (o, r) = circles[s.idx(circles.len())];
                let (u, n) = slope(s);
                let a = along(o, u, n, r as i128);
                let back = if s.chance(1, 2) { 0 } else { self.radius(s) };
                let w = (-u.1, u.0);
                let b = along(a, w, n, self.radius(s) as i128);
                let a = along(a, w, n, -back as i128);
                let mut near = |p: P| (p.0 + s.zig(self.f.r), p.1 + s.zig(self.f.r));
                Shape::Seg(near(a), near(b))
            }
            0 => {
                let a = self.pt(s, &pts);
                pts.push(a);
                Shape::Seg(a, self.pt(s, &pts))
            }
            1 => {
                let r = near_r(s, self);
                Shape::Circle(self.centre(s, &pts, seen, r), r)
            }
            _ => {
                let r = near_r(s, self);
                let c = self.centre(s, &pts, seen, r);
                let a = self.angle(s, &angles);
                angles.push(a);
                let mut b = self.angle(s, &angles);
                // at most one turn between the ends
                if (b - a).abs() > TAU {
                    b = a + wrap(b - a);
                }
                Shape::Arc(c, r, a, b)
            }
        }
    }
    fn shapes(&self, s: &mut Src, n: usize, kinds: &[u64]) -> Vec<Shape> {
        let mut v: Vec<Shape> = Vec::new();
        for _ in 0..n {
            let k = s.pick(kinds);
            let x = if !v.is_empty() && s.chance(1, 8) { v[s.idx(v.len())] } else { self.shape(s, k, &v) };
            v.push(x);
        }
        v
    }
}

fn rough(s: &mut Src, max_n: usize, all_sizes: bool) -> (Frame, Q) {
    let kind = s.pick(&[0u64, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16, 16, 17, 17, 17, 17, 18, 18, 19, 19, 19, 20, 21, 22]);
    let (f, cell) = if all_sizes {
        wide(s)
    } else {
        let f = fine(s);
        (f, f.k)
    };
    let g = Rough { f, cell, free: all_sizes, touching: false, cells: s.pick(&[1i64, 2, 5]) };
    // a direction as plain integers; mostly along or nearly along something
    let dir = |s: &mut Src| {
        let d = match s.upto(2) {
            0 => (s.zig(3), s.zig(3)),
            1 => symmetry(s.upto(7), (1, 0)),
            _ => symmetry(s.upto(7), (1 << s.pick(&[10u32, 30, 34, 40]), s.zig(2))),
        };
        if d == (0, 0) { (0, 1) } else { d }
    };
    let v = match kind {
        2 | 3 | 6 | 18 | 19 => {
            let n = s.idx(max_n + 1);
            // a clean polygon with the odd vertex displaced or repeated, or any list
            if kind != 18 && s.chance(2, 3) {
                let mut base: Vec<P> = simple_polygon(s, 4, max_n.max(4)).iter().map(|p| (p.0 << g.cell, p.1 << g.cell)).collect();
                let hits = s.idx(3);
                for _ in 0..hits {
                    let i = s.idx(base.len());
                    match s.upto(3) {
                        0 => base[i] = (base[i].0 + s.zig(f.r), base[i].1 + s.zig(f.r)),
                        1 => {
                            let p = base[i];
                            base.insert(i, (p.0 + s.zig(f.r), p.1 + s.zig(f.r)));
                        }
                        2 => {
                            // on an edge, or nearly
                            let (p, q) = (base[i], base[(i + 1) % base.len()]);
                            base.insert(i + 1, ((p.0 + q.0) / 2 + s.zig(f.r), (p.1 + q.1) / 2 + s.zig(f.r)));
                        }
                        _ => {
                            let j = s.idx(base.len());
                            base[i] = (base[j].0 + s.zig(f.r), base[j].1 + s.zig(f.r));
                        }
                    }
                }
                base
            } else {
                g.pts(s, n)
            }
        }
        7 | 8 | 16 | 17 | 21 => vec![],
        _ => g.pts(s, 4),
    };
    let p = |i: usize| v[i];
    let q = match kind {
        0 => Q::Turn(p(0), p(1), p(2)),
        1 => Q::Triangle(p(0), p(1), p(2)),
        2 => Q::Polygon(v, s.chance(1, 2)),
        3 => Q::Simple(v),
        4 => Q::SegLoc(p(0), p(1), p(2)),
        5 => Q::TriLoc(p(0), p(1), p(2), p(3)),
        6 => Q::PolyLoc(g.pt(s, &v), v),
        7 => {
            let c = g.pt(s, &[]);
            let r = g.radius(s);
            Q::CircleLoc(g.pt(s, &[c, (c.0 + r, c.1), (c.0, c.1 + r)]), c, r)
        }
        8 => {
            let x = g.shape(s, 2, &[]);
            let (c, r) = x.circle().unwrap();
            Q::ArcLoc(g.pt(s, &[c, (c.0 + r, c.1), (c.0, c.1 - r)]), x)
        }
        9 => Q::LineLoc(p(0), p(1), p(2)),
        10 => Q::LineLine(p(0), p(1), p(2), p(3)),
        11 => Q::RayLoc(p(0), p(1), dir(s)),
        12 => Q::LineRay(p(0), p(1), p(2), dir(s)),
        13 => Q::SegRay(p(0), p(1), p(2), dir(s)),
        14 => Q::ProjLine(p(0), p(1), p(2)),
        15 => Q::ProjSeg(p(0), p(1), p(2)),
        16 => {
            let kinds = s.pick(&[vec![0u64], vec![0, 1], vec![0, 2], vec![1, 2], vec![2], vec![1]]);
            let m = g.shapes(s, 2, &kinds);
            Q::Pair(m[0], m[1])
        }
        17 => {
            let kinds = s.pick(&[vec![0u64], vec![0, 1, 2], vec![1, 2], vec![0, 2], vec![2]]);
            let n = s.idx(max_n + 1);
            Q::Sweep(g.shapes(s, n, &kinds))
        }
        18 => Q::Hull(v),
        19 => Q::Earcut(v),
        20 => Q::Vectors(p(0), p(1)),
        21 => {
            let k = s.int(1, 2) as u64;
            Q::Pieces(g.shape(s, k, &[]))
        }
        _ => Q::Order(p(0), p(1)),
    };
    (f, q)
}

fn finite_answer(v: &[Val]) -> bool {
    v.iter().all(|x| match x {
        Val::Pts(p) | Val::Path(p) => finite(p),
        Val::Area(a) | Val::Num(a) => a.is_finite(),
        _ => true,
    })
}

/// A curve and a segment or curve that touches or just misses it, of any size.
fn tangent(s: &mut Src) -> (Frame, Q) {
    let (f, cell) = wide(s);
    let g = Rough { f, cell, free: true, cells: s.pick(&[1i64, 2, 5]), touching: true };
    let kind = s.int(1, 2) as u64;
    let x = g.shape(s, kind, &[]);
    let kind = s.pick(&[0u64, 0, 1, 2]);
    let y = g.shape(s, kind, &[x]);
    (f, if s.chance(1, 2) { Q::Pair(x, y) } else { Q::Pair(y, x) })
}

fn answered(c: &mut Ctx, max_n: usize, all_sizes: bool) -> R {
    let (f, q) = rough(&mut c.src, max_n, all_sizes);
    ask(c, f, q)
}

fn ask(c: &mut Ctx, f: Frame, q: Q) -> R {
    c.note(|| show(&f, &q));
    c.label(label(&q));
    let n = match &q {
        Q::Polygon(v, _) | Q::Simple(v) | Q::PolyLoc(_, v) | Q::Hull(v) | Q::Earcut(v) => v.len(),
        // every pair may cross twice
        Q::Sweep(m) => 2 * m.len() * m.len(),
        _ => 2,
    } as u64;
    let b = match &q {
        // events x members, with a filter over all members
        Q::Sweep(m) => 20_000 + 4_000 * (m.len() as u64 + 2).pow(3),
        Q::Simple(_) | Q::Earcut(_) => 20_000 + 4_000 * (n + 2).pow(3),
        _ => budget(n),
    };
    fuel::reset(b);
    let got = refused(|| run::<Num>(&f, &q));
    let used = b - fuel::left().min(b);
    fuel::reset(u64::MAX);
    if std::env::var_os("RCGAL_FUEL").is_some() {
        eprintln!("fuel {} {} {} {}", label(&q), n, used, b);
    }
    match got {
        Err(e) if e.contains(fuel::EXHAUSTED) => fail(format!("{}: more than {b} arithmetic operations", show(&f, &q))),
        Err(e) => {
            if let (Q::Earcut(v), true) = (&q, e.contains("not simple")) {
                // refused, and so is the question
                let simple = run::<f64>(&f, &Q::Simple(v.clone()));
                ensure!(simple == vec![Val::Yes(false)], "{}: refused, yet reported simple", show(&f, &q));
                c.label("refused");
                return Ok(());
            }
            fail(format!("{}: {e}", show(&f, &q)))
        }
        Ok(v) => {
            c.nontrivial = weighty(&v);
            // both forms of the question agree however close the call
            if let (Q::Pair(..) | Q::SegRay(..) | Q::LineLine(..) | Q::LineRay(..), [Val::Pts(p), Val::Yes(y), ..]) = (&q, &v[..]) {
                ensure!(p.is_empty() != *y, "{}: points {p:?}, yet intersected is {y}", show(&f, &q));
            }
            if let (Q::PolyLoc(..), [Val::Code(w), Val::Yes(on), Val::Yes(inside), Val::Yes(outside)]) = (&q, &v[..]) {
                ensure!((*on, *inside, *outside) == (*w == 1, *w == 2, *w == 0), "{}: {v:?}", show(&f, &q));
            }
            let undefined = matches!(&q, Q::Vectors(..)) && !finite_answer(&v);
            ensure!(undefined || finite_answer(&v), "{}: answered with {v:?}", show(&f, &q));
            Ok(())
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        rule: "one question of any of 23 kinds about points, shapes and polygons clustered 0 to 12 units of 1.5e-11..2.3e-10 around far apart sites (shared, repeated, nearly shared coordinates, ends, centres, radii and angles; zero-length segments; polygons with displaced and repeated vertices), or of sizes 2^-18..2^40 beside each other, or circles, arcs and segments constructed to touch or just miss, asked with the operation-counting number type; non-trivial: the answer is not empty/negative/zero",
        subs: vec![sub_check("close", 60_000, 4_000_000, |c| answered(c, 12, false)), sub_check("close-large", 12_000, 800_000, |c| answered(c, 45, false)), sub_check("sizes", 40_000, 2_000_000, |c| answered(c, 12, true)), sub_check("touching", 40_000, 2_000_000, |c| {
            let (f, q) = tangent(&mut c.src);
            ask(c, f, q)
        })],
    }
}
