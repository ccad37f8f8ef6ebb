//! C27: the same question in another coordinate frame.
use super::p20::valid;
use super::prelude::*;
use crate::battery::*;

/// x -> sym(x) + shift on the lattice, then a power of two by changing the unit or the integers.
#[derive(Clone, Copy, Debug)]
struct Move {
    sym: u64,
    shift: P,
    /// coordinates are multiplied by 2^up
    up: i32,
}
const DOWN: u32 = 3;

impl Move {
    fn mirrored(&self) -> bool {
        self.sym >= 4
    }
    fn scale(&self) -> f64 {
        (self.up as f64).exp2()
    }
    /// lattice factor: the new frame has a unit 2^DOWN times finer
    fn m(&self) -> i64 {
        1 << (DOWN as i32 + self.up)
    }
    fn dir(&self, d: P) -> P {
        symmetry(self.sym, d)
    }
    fn p(&self, p: P) -> P {
        let q = add(symmetry(self.sym, p), self.shift);
        (q.0 * self.m(), q.1 * self.m())
    }
    fn ps(&self, v: &[P]) -> Vec<P> {
        v.iter().map(|p| self.p(*p)).collect()
    }
    fn angle(&self, a: f64) -> f64 {
        match self.sym {
            0..=3 => a + self.sym as f64 * (TAU / 4.0),
            4 => TAU / 2.0 - a,
            5 => -a,
            6 => TAU / 4.0 - a,
            _ => -TAU / 4.0 - a,
        }
    }
    fn shape(&self, x: &Shape) -> Shape {
        match *x {
            Shape::Seg(a, b) => Shape::Seg(self.p(a), self.p(b)),
            Shape::Circle(c, r) => Shape::Circle(self.p(c), r * self.m()),
            Shape::Arc(c, r, s, t) => {
                let (s, t) = (self.angle(s), self.angle(t));
                let (s, t) = if self.mirrored() { (t, s) } else { (s, t) };
                full_turns(Shape::Arc(self.p(c), r * self.m(), s, t))
            }
        }
    }
    fn frame(&self, f: &Frame) -> Frame {
        Frame { r: f.r, k: f.k + DOWN, o: f.o }
    }
    fn q(&self, q: &Q) -> Q {
        let p = |a: &P| self.p(*a);
        let d = |a: &P| self.dir(*a);
        match q {
            Q::Turn(a, b, c) => Q::Turn(p(a), p(b), p(c)),
            Q::Triangle(a, b, c) => Q::Triangle(p(a), p(b), p(c)),
            Q::Polygon(v, x) => Q::Polygon(self.ps(v), *x),
            Q::Simple(v) => Q::Simple(self.ps(v)),
            Q::SegLoc(a, b, c) => Q::SegLoc(p(a), p(b), p(c)),
            Q::TriLoc(a, b, c, e) => Q::TriLoc(p(a), p(b), p(c), p(e)),
            Q::PolyLoc(a, v) => Q::PolyLoc(p(a), self.ps(v)),
            Q::CircleLoc(a, c, r) => Q::CircleLoc(p(a), p(c), r * self.m()),
            Q::ArcLoc(a, x) => Q::ArcLoc(p(a), self.shape(x)),
            Q::LineLoc(a, b, c) => Q::LineLoc(p(a), p(b), p(c)),
            Q::LineLine(a, b, c, e) => Q::LineLine(p(a), p(b), p(c), p(e)),
            Q::RayLoc(a, o, e) => Q::RayLoc(p(a), p(o), d(e)),
            Q::LineRay(a, b, o, e) => Q::LineRay(p(a), p(b), p(o), d(e)),
            Q::SegRay(a, b, o, e) => Q::SegRay(p(a), p(b), p(o), d(e)),
            Q::ProjLine(a, b, c) => Q::ProjLine(p(a), p(b), p(c)),
            Q::ProjSeg(a, b, c) => Q::ProjSeg(p(a), p(b), p(c)),
            Q::Pair(x, y) => Q::Pair(self.shape(x), self.shape(y)),
            Q::Sweep(m) => Q::Sweep(m.iter().map(|x| self.shape(x)).collect()),
            Q::Hull(v) => Q::Hull(self.ps(v)),
            Q::Earcut(v) => Q::Earcut(self.ps(v)),
            Q::Vectors(..) | Q::Pieces(_) | Q::Order(..) => unreachable!(),
        }
    }
    /// the point in real coordinates
    fn real(&self, f: &Frame, p: F2) -> F2 {
        let (x, y) = match self.sym {
            0 => p,
            1 => (-p.1, p.0),
            2 => (-p.0, -p.1),
            3 => (p.1, -p.0),
            4 => (-p.0, p.1),
            5 => (p.0, -p.1),
            6 => (p.1, p.0),
            _ => (-p.1, -p.0),
        };
        let t = f.fp(self.shift);
        ((x + t.0) * self.scale(), (y + t.1) * self.scale())
    }
    fn val(&self, f: &Frame, v: &Val) -> Val {
        let k = if self.mirrored() { -1 } else { 1 };
        match v {
            Val::Side(s) => Val::Side(s * k),
            Val::Orient(s) => Val::Orient(s * k),
            Val::Area(a) => Val::Area(a * k as f64 * self.scale() * self.scale()),
            Val::Pts(p) => Val::Pts(p.iter().map(|x| self.real(f, *x)).collect()),
            Val::Path(p) => Val::Path(p.iter().map(|x| self.real(f, *x)).collect()),
            o => o.clone(),
        }
    }
}

fn cyclic(a: &[F2], b: &[F2], tol: f64) -> bool {
    let n = a.len();
    n == b.len() && (n == 0 || (0..n).any(|k| (0..n).all(|i| near(a[i], b[(i + k) % n], tol))))
}

fn run_one(c: &mut Ctx, max_n: usize, far: bool) -> R {
    run_with(c, max_n, far, 0)
}
/// `fine`: the figure is 2^-1 to 2^-fine as large, and moved by up to 900 units of before.
fn run_with(c: &mut Ctx, max_n: usize, far: bool, fine: u32) -> R {
    let s = &mut c.src;
    let fine = if fine > 0 { 1 + s.upto(fine as u64 - 1) as u32 } else { 0 };
    let mut mv = Move {
        sym: s.upto(7),
        shift: if far {
            let m = s.pick(&[1i64 << 20, 1 << 16, 1 << 12]);
            (s.zig(m), s.zig(m))
        } else if s.chance(1, 2) {
            (s.zig(60), s.zig(60))
        } else {
            (0, 0)
        },
        up: if s.chance(1, 3) { s.zig(3) as i32 } else { 0 },
    };
    let (f, q) = if far {
        // far away only what is computed from differences, exactly
        let kind = s.pick(&[0, 1, 2, 4, 5, 6, 7, 11, 18]);
        question_of(s, kind, Which::Exact, max_n)
    } else {
        question(s, Which::Framed, max_n)
    };
    let f = Frame { k: f.k + fine, ..f };
    if fine > 0 {
        mv.up = 0;
        let m = 900i64 << f.k;
        mv.shift = (c.src.zig(m), c.src.zig(m));
        if far_end(&q).iter().any(|x| x.abs() as f64 * f.unit() > 100.0) {
            return discard("already far out");
        }
    }
    let (g, r) = (mv.frame(&f), mv.q(&q));
    c.note(|| format!("{mv:?}; {}", show(&f, &q)));
    c.label(label(&q));
    decided(&f, &q)?;
    decided(&g, &r)?;
    let a = run::<f64>(&f, &q);
    let b = run::<f64>(&g, &r);
    c.nontrivial = weighty(&a) && (mv.sym != 0 || mv.shift != (0, 0) || mv.up != 0);
    let tell = || format!("{}: {a:?}; after {mv:?} ({}): {b:?}", show(&f, &q), show(&g, &r));
    ensure!(a.len() == b.len(), "{}", tell());
    // members lying on one circle overlap in curves, of which any point may be listed
    let overlap = match &q {
        Q::Sweep(m) => m.iter().enumerate().any(|(i, x)| x.circle().is_some() && m[..i].iter().any(|y| y.circle() == x.circle())),
        _ => false,
    };
    for (x, y) in a.iter().zip(&b) {
        let w = mv.val(&f, x);
        let size = |v: &[F2]| v.iter().fold(1.0f64, |m, p| m.max(p.0.abs()).max(p.1.abs()));
        let ok = match (&w, y) {
            (Val::Pts(_), Val::Pts(_)) if overlap => true,
            (Val::Pts(u), Val::Pts(v)) => {
                let tol = 1e-9 * size(u).max(100.0 * (matches!(q, Q::Sweep(_) | Q::Pair(..)) as i32 as f64));
                same_set(u, v, tol)
            }
            (Val::Path(u), Val::Path(v)) => {
                let mut u = u.clone();
                // a triangle lists its corners as given, a hull counter-clockwise
                if mv.mirrored() && matches!(q, Q::Hull(_)) {
                    u.reverse();
                }
                cyclic(&u, v, 0.0)
            }
            (Val::Area(u), Val::Area(v)) => u == v,
            (Val::Tris(u), Val::Tris(v)) => {
                let (Q::Earcut(pa), Q::Earcut(pb)) = (&q, &r) else { unreachable!() };
                let (e1, e2) = (valid(pa, u), valid(pb, v));
                ensure!(e1.is_ok() && e2.is_ok(), "{}: {e1:?} {e2:?}", tell());
                true
            }
            (u, v) => u == v,
        };
        ensure!(ok, "{}", tell());
    }
    Ok(())
}
/// The coordinates of the first position.
fn far_end(q: &Q) -> Vec<i64> {
    crate::nearmiss::positions_mut(&mut q.clone()).first().map_or(vec![], |p| vec![p.0, p.1])
}
fn fine(c: &mut Ctx) -> R {
    run_with(c, 8, false, 10)
}
fn small(c: &mut Ctx) -> R {
    run_one(c, 10, false)
}
fn large(c: &mut Ctx) -> R {
    run_one(c, 24, false)
}
fn far(c: &mut Ctx) -> R {
    run_one(c, 12, true)
}

/// Any angle, scale and shift by real numbers.
fn any_motion(c: &mut Ctx) -> R {
    let kinds = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 100, 101, 102, 103, 104, 105, 106, 107, 108];
    crate::rotated::check(c, &kinds, 9)
}
fn motion_hundreds(c: &mut Ctx) -> R {
    crate::curve::large(c, |c| crate::rotated::check(c, &[4, 5, 6, 7, 8, 18, 100, 101, 102, 103, 104, 105, 106, 107, 108], 9))
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "one question of 20 kinds (turns, triangles, areas, convexity, simplicity, locations, lines, rays, projections, pairs, sweeps, hulls, triangulations) asked as given and after one of eight quarter turns and mirrorings, a lattice shift (for the exact kinds up to 2^20 units) and a scaling by 2^-3..2^3, or made 2^-1..2^-10 as large and moved by up to 900; or turned by any angle, scaled and shifted by real numbers, every coordinate rounded (any-motion); non-trivial: the answer is not empty/negative/zero and the frame changed",
        subs: vec![sub_check("small", 60_000, 5_000_000, small), sub_check("large", 12_000, 800_000, large), sub_check("any-motion", 150_000, 8_000_000, any_motion), sub_check("any-motion-hundreds", 60_000, 3_000_000, motion_hundreds), sub_check("fine-and-far", 60_000, 3_000_000, fine), sub_check("far", 40_000, 3_000_000, far)],
    }
}
