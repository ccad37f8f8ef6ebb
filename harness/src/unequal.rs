//! Unequal sizes: a figure of ordinary size and a tiny one of 1e-6 to 1e-2 beside it,
//! on it or across its boundary, both on one fine lattice, so that the answer is exact.
use crate::battery::*;
use crate::curve::*;
use crate::engine::*;
use crate::exact::*;
use crate::gen::*;
use crate::nearmiss;
use crate::props::{p04, p17};

/// A fine lattice above a coarse frame, and the step of the tiny figure.
#[derive(Clone, Copy)]
struct Fine {
    f: Frame,
    up: u32,
    m: i64,
}
fn fine(s: &mut Src, f: &Frame) -> Fine {
    let k = s.int(12, 19) as u32;
    let up = k - f.k.min(k);
    Fine { f: Frame { r: f.r, k, o: (f.o.0 << up, f.o.1 << up) }, up, m: 1 << s.upto(8) }
}
impl Fine {
    fn pt(&self, p: P) -> P {
        (p.0 << self.up, p.1 << self.up)
    }
    fn pts(&self, v: &[P]) -> Vec<P> {
        v.iter().map(|p| self.pt(*p)).collect()
    }
    fn shape(&self, x: &Shape) -> Shape {
        match *x {
            Shape::Seg(a, b) => Shape::Seg(self.pt(a), self.pt(b)),
            Shape::Circle(c, r) => Shape::Circle(self.pt(c), r << self.up),
            Shape::Arc(c, r, a, b) => Shape::Arc(self.pt(c), r << self.up, a, b),
        }
    }
    /// A little way from p.
    fn by(&self, s: &mut Src, p: P, n: i64) -> P {
        let (x, y) = (s.zig(n), s.zig(n));
        add(p, (x * self.m, y * self.m))
    }
    /// One to eight tiny steps along the direction of a b (exactly).
    fn along(&self, s: &mut Src, p: P, a: P, b: P) -> P {
        let d = sub(b, a);
        let g = gcd(d.0, d.1).max(1);
        let n = s.zig(8) * self.m;
        add(p, (d.0 / g * n, d.1 / g * n))
    }
}

/// A lattice point of the segment (not in its outermost sixteenths) or an end.
fn on_segment(s: &mut Src, a: P, b: P) -> P {
    let d = sub(b, a);
    match s.upto(7) {
        0 => a,
        1 => b,
        _ => {
            let t = s.int(1, 15);
            (a.0 + d.0 * t / 16, a.1 + d.1 * t / 16)
        }
    }
}
/// A lattice point on the shape or within a unit of it.
fn anchor(s: &mut Src, x: &Shape) -> P {
    let around = |c: P, r: i64, t: f64| add(c, ((r as f64 * t.cos()).round() as i64, (r as f64 * t.sin()).round() as i64));
    match *x {
        Shape::Seg(a, b) => on_segment(s, a, b),
        Shape::Circle(c, r) => {
            if s.chance(1, 3) {
                lattice_on_circle(s, c, r)
            } else {
                let t = angle(s, false);
                around(c, r, t)
            }
        }
        Shape::Arc(c, r, a, b) => {
            let t = match s.upto(5) {
                0 => a,
                1 => b,
                _ => a + span(a, b) * s.f01(),
            };
            around(c, r, t)
        }
    }
}
/// A tiny shape at the anchor on x.
fn little(s: &mut Src, g: &Fine, x: &Shape, kind: u64) -> Shape {
    let o = anchor(s, x);
    match kind {
        0 => {
            let a = match s.upto(2) {
                0 => o,
                _ => g.by(s, o, 3),
            };
            let b = match *x {
                Shape::Seg(p, q) if s.chance(1, 3) => g.along(s, a, p, q),
                _ => g.by(s, o, 3),
            };
            Shape::Seg(a, if a == b { add(a, (g.m, g.m)) } else { b })
        }
        k => {
            let (off, r) = match s.upto(3) {
                // through the anchor
                0 => (symmetry(s.upto(7), (3, 4)), 5),
                1 => (symmetry(s.upto(7), (1, 0)), 1),
                _ => ((s.zig(4), s.zig(4)), s.int(1, 6)),
            };
            let c = add(o, (off.0 * g.m, off.1 * g.m));
            if k == 1 { Shape::Circle(c, r * g.m) } else { arc(s, c, r * g.m) }
        }
    }
}

/// Two shapes of the given kinds (100 + 3 a + b), one tiny; either order.
fn pair_of(s: &mut Src, kind: u64) -> (Frame, Q) {
    let f = curve_frame(s);
    let g = fine(s, &f);
    let (ka, kb) = ((kind - 100) / 3, (kind - 100) % 3);
    if s.chance(1, 2) {
        let x = g.shape(&shape(s, &f, ka));
        let y = little(s, &g, &x, kb);
        (g.f, Q::Pair(x, y))
    } else {
        let y = g.shape(&shape(s, &f, kb));
        let x = little(s, &g, &y, ka);
        (g.f, Q::Pair(x, y))
    }
}
fn sweep_of(s: &mut Src, max_n: usize) -> (Frame, Q) {
    let f = curve_frame(s);
    let g = fine(s, &f);
    let kinds = s.pick(&[vec![0u64], vec![0], vec![0, 1, 2], vec![0, 2]]);
    let n = 1 + s.idx(3);
    let mut m: Vec<Shape> = p17::members(s, &f, n, &kinds).iter().map(|x| g.shape(x)).collect();
    let more = 1 + s.idx(max_n);
    for _ in 0..more {
        let x = m[s.idx(m.len())];
        let k = s.pick(&kinds);
        let y = little(s, &g, &x, k);
        let at = s.idx(m.len() + 1);
        m.insert(at, y);
    }
    (g.f, Q::Sweep(m))
}
/// A simple polygon with a few tiny features, and a point near one of them.
fn polygon_of(s: &mut Src, max_n: usize) -> (Fine, Vec<P>, P) {
    let f = p04::poly_frame(s);
    let g = fine(s, &f);
    let mut v = g.pts(&p04::gen_simple(s, &f, max_n));
    let mut o = v[0];
    for _ in 0..1 + s.idx(2) {
        let i = s.idx(v.len());
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        o = on_segment(s, a, b);
        match s.upto(4) {
            // a corner cut short
            0 => {
                v[i] = g.by(s, a, 3);
                o = a;
            }
            // a straight vertex or a slight bend
            1 => v.insert(i + 1, o),
            2 => {
                let w = g.by(s, o, 1);
                v.insert(i + 1, w);
            }
            // a notch or a spike
            _ => {
                let t = g.along(s, o, a, b);
                let w = g.by(s, o, 4);
                v.splice(i + 1..i + 1, [o, w, t]);
            }
        }
    }
    let p = g.by(s, o, 4);
    (g, v, p)
}
fn three(s: &mut Src) -> (Fine, P, P, P) {
    let mut f = frame(s, 100);
    f.k = f.k.min(3);
    f.r = f.r.min(100);
    f.o = (0, 0);
    let g = fine(s, &f);
    let (a, b) = (g.pt(pt(s, &f)), g.pt(pt(s, &f)));
    let c = g.pt(pt_rel(s, &f, &[]));
    (g, a, if a == b { add(b, (1 << g.up, 0)) } else { b }, c)
}

pub fn check(c: &mut Ctx, kinds: &[u64], max_n: usize) -> R {
    let s = &mut c.src;
    let kind = s.pick(kinds);
    let (f, q) = match kind {
        k if k >= 100 => pair_of(s, k),
        17 => sweep_of(s, max_n),
        2 | 3 | 6 | 19 => {
            let (g, v, p) = polygon_of(s, max_n);
            if kind == 2 {
                // turns clear of the tolerance
                for i in 0..v.len() {
                    let n = v.len();
                    nearmiss::clear_polygon(&g.f, &[v[i], v[(i + 1) % n], v[(i + 2) % n]])?;
                }
            }
            let q = match kind {
                2 => Q::Polygon(v, true),
                3 => Q::Simple(if s.chance(1, 4) { mutate_polygon(s, &v) } else { v }),
                6 => Q::PolyLoc(p, v),
                _ => Q::Earcut(v),
            };
            (g.f, q)
        }
        18 => {
            let (g, a, b, d) = three(s);
            let mut v = vec![a, b, d];
            for _ in 0..s.idx(max_n) {
                let (x, y) = (v[s.idx(3)], v[s.idx(3)]);
                let o = on_segment(s, x, y);
                let w = if s.chance(1, 4) { g.along(s, o, x, y) } else { g.by(s, o, 3) };
                v.push(w);
            }
            (g.f, Q::Hull(v))
        }
        _ => {
            let (g, a, b, d) = three(s);
            let o = on_segment(s, a, b);
            let near = |s: &mut Src, o: P| if s.chance(1, 3) { g.along(s, o, a, b) } else { g.by(s, o, 4) };
            let (p, t) = (near(s, o), near(s, o));
            let dir = sub(b, a);
            let q = match kind {
                // a short side and a long one
                0 => match s.upto(2) {
                    0 => Q::Turn(o, p, d),
                    1 => Q::Turn(d, o, p),
                    _ => Q::Turn(a, p, b),
                },
                1 => Q::Triangle(o, p, d),
                4 => match s.upto(1) {
                    0 => Q::SegLoc(p, a, b),
                    _ => Q::SegLoc(if s.chance(1, 2) { a } else { t }, o, p),
                },
                5 => {
                    let w = near(s, o);
                    match s.upto(2) {
                        0 => Q::TriLoc(t, a, b, d),
                        1 => Q::TriLoc(t, o, p, d),
                        _ => Q::TriLoc(t, o, p, w),
                    }
                }
                7 => {
                    let r = s.int(1, 20) << g.up;
                    let e = anchor(s, &Shape::Circle(a, r));
                    match s.upto(1) {
                        0 => Q::CircleLoc(g.by(s, e, 4), a, r),
                        _ => Q::CircleLoc(g.by(s, a, 5), a, g.m * s.int(1, 5)),
                    }
                }
                // a ray past or into a tiny segment, or from a tiny step off a long one
                11 => Q::RayLoc(p, a, dir),
                12 => Q::LineRay(a, b, p, if s.chance(1, 2) { sub(d, p) } else { sub(t, p) }),
                13 => match s.upto(1) {
                    0 => Q::SegRay(p, if p == t { d } else { t }, a, dir),
                    _ => Q::SegRay(a, b, p, if p == d { dir } else { sub(d, p) }),
                },
                _ => match s.upto(1) {
                    0 => Q::ProjSeg(p, a, b),
                    _ => Q::ProjSeg(if s.chance(1, 2) { d } else { t }, o, p),
                },
            };
            if let Q::Turn(x, y, z) = q {
                nearmiss::clear_polygon(&g.f, &[x, y, z])?;
            }
            (g.f, q)
        }
    };
    if matches!(&q, Q::RayLoc(_, _, d) | Q::LineRay(_, _, _, d) | Q::SegRay(_, _, _, d) if *d == (0, 0)) {
        return discard("no direction");
    }
    nearmiss::judge(c, f, q, 1e-8)
}
