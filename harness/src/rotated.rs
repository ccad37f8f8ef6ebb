//! Off the lattice: a generated question with a known answer is turned by any angle,
//! scaled and shifted by real numbers.  Every coordinate is rounded, so points on
//! edges, tangencies and shared ends now hold only up to rounding, and the library's
//! tolerance has to keep the answer the same.
use crate::battery::*;
use crate::curve::*;
use crate::engine::*;
use crate::ensure;
use crate::exact::*;
use crate::gen::*;
use crate::nearmiss;
use crate::props::{p17, p20};
use crate::util::*;
use rcgal::kernel::number_type::NumberType;
use rcgal::kernel::point_2::Point2;
use rcgal::kernel::vector_2::Vector2;
use std::cell::Cell;
use std::f64::consts::PI;

#[derive(Clone, Debug)]
pub struct Moved {
    pub f: Frame,
    pub turn: f64,
    pub scale: f64,
    pub shift: F2,
    /// when not 0, every use of a point rounds it anew: ends that are shared are so
    /// only to the last digit
    pub jitter: Cell<u64>,
}
impl Moved {
    fn nudged(&self, x: f64) -> f64 {
        let mut j = self.jitter.get();
        if j == 0 || x == 0.0 {
            return x;
        }
        j = mix(j) | 1;
        self.jitter.set(j);
        match j >> 61 {
            0 | 1 => f64::from_bits(x.to_bits() + 1),
            2 | 3 => f64::from_bits(x.to_bits() - 1),
            _ => x,
        }
    }
    pub fn at(&self, p: F2) -> F2 {
        let (c, s) = (self.turn.cos() * self.scale, self.turn.sin() * self.scale);
        (c * p.0 - s * p.1 + self.shift.0, s * p.0 + c * p.1 + self.shift.1)
    }
    pub fn back(&self, p: F2) -> F2 {
        let (x, y) = (p.0 - self.shift.0, p.1 - self.shift.1);
        let (c, s) = (self.turn.cos() / self.scale, self.turn.sin() / self.scale);
        (c * x + s * y, c * y - s * x)
    }
    pub fn ats(&self, v: &[F2]) -> Vec<F2> {
        v.iter().map(|p| self.at(*p)).collect()
    }
    fn fp(&self, p: P) -> F2 {
        self.at(self.f.fp(p))
    }
    pub fn flat(&self, x: &Shape) -> p17::Flat {
        match p17::Flat::of(&self.f, x) {
            p17::Flat::Seg(a, b) => p17::Flat::Seg(self.at(a), self.at(b)),
            p17::Flat::Round(c, r, e) => p17::Flat::Round(self.at(c), r * self.scale, e.map(|(a, b)| (self.at(a), self.at(b)))),
        }
    }
}
impl Place for Moved {
    fn point<T: NumberType>(&self, p: P) -> Point2<T> {
        let q = self.fp(p);
        Point2::new(T::from_f64(self.nudged(q.0)), T::from_f64(self.nudged(q.1)))
    }
    fn length<T: NumberType>(&self, r: i64) -> T {
        T::from_f64(r as f64 * self.f.unit() * self.scale)
    }
    fn direction<T: NumberType>(&self, d: P) -> Vector2<T> {
        let (c, s) = (self.turn.cos() * self.scale, self.turn.sin() * self.scale);
        let (x, y) = (d.0 as f64, d.1 as f64);
        Vector2::new(T::from_f64(c * x - s * y), T::from_f64(s * x + c * y))
    }
    fn angle(&self, a: f64) -> f64 {
        a + self.turn
    }
}

/// size: largest coordinate of the question, in real units
pub fn moved(s: &mut Src, f: Frame, size: f64) -> Moved {
    let turn = match s.upto(5) {
        0 => s.int(0, 7) as f64 * (PI / 4.0),
        1 => s.pick(&[4.0f64, 12.0, 2.0]).atan2(s.pick(&[3.0f64, 5.0, 1.0])) + s.int(0, 3) as f64 * (PI / 2.0),
        2 => s.int(0, 3) as f64 * (PI / 2.0),
        _ => s.f01() * TAU,
    };
    let scale = match s.upto(2) {
        0 => 1.0,
        1 => s.pick(&[0.1f64, 0.3, 1.0 / 3.0, 0.7, 1.1]),
        _ => 0.2 + s.f01(),
    };
    let scale = scale.min(60.0 / size.max(1.0));
    let shift = match s.upto(2) {
        0 => (0.0, 0.0),
        1 => (s.int(-300, 300) as f64 / 10.0, s.int(-300, 300) as f64 / 10.0),
        _ => ((s.f01() - 0.5) * 60.0, (s.f01() - 0.5) * 60.0),
    };
    let k = if s.large { 10.0 } else { 1.0 };
    let (scale, shift) = (scale * k, (shift.0 * k, shift.1 * k));
    let jitter = Cell::new(if s.chance(1, 3) { 1 + s.upto(1 << 20) } else { 0 });
    Moved { f, turn, scale, shift, jitter }
}

/// A slope form that loses more than the library's tolerance.
fn steep(m: &Moved, a: P, b: P) -> bool {
    let (p, q) = (m.fp(a), m.fp(b));
    let d = (q.0 - p.0, q.1 - p.1);
    if d.0.abs() < 5e-11 || d.1.abs() < 5e-11 {
        return false;
    }
    let k = d.1 / d.0;
    let c = (p.1 - k * p.0).abs();
    // rounding of the ends, carried into the slope and from there into c and the products
    let size = p.0.abs().max(p.1.abs()).max(q.0.abs()).max(q.1.abs());
    let err = 2.3e-16 * size * (1.0 + k.abs()) / d.0.abs();
    k.abs() > 30.0 || c > 1e3 || err * (1.0 + k.abs()) * (60.0 + c) > 1e-11
}

fn expect(m: &Moved, q: &Q) -> Result<Vec<Val>, Stop> {
    let f = &m.f;
    let lines: &[(P, P)] = match q {
        Q::LineLoc(_, a, b) | Q::ProjLine(_, a, b) | Q::LineRay(a, b, ..) => &[(*a, *b)],
        Q::LineLine(a, b, c, d) => &[(*a, *b), (*c, *d)],
        _ => &[],
    };
    for (a, b) in lines {
        if steep(m, *a, *b) {
            return discard("too steep for the tolerance");
        }
    }
    let want = match q {
        Q::Simple(v) => {
            nearmiss::clear_polygon(f, v)?;
            let edges: Vec<Shape> = (0..v.len()).map(|i| Shape::Seg(v[i], v[(i + 1) % v.len()])).collect();
            sweep(m, &edges)?;
            vec![Val::Yes(is_simple(v))]
        }
        Q::Sweep(x) => {
            for i in 0..x.len() {
                for j in 0..i {
                    nearmiss::clear_pair(f, &x[i], &x[j])?;
                }
            }
            vec![Val::Pts(sweep(m, x)?)]
        }
        // the order depends on the frame
        Q::Order(a, b) => {
            use std::cmp::Ordering::*;
            let (p, q) = (m.fp(*a), m.fp(*b));
            let by = |x: f64, y: f64| if (x - y).abs() < 1e-12 { Equal } else { y.partial_cmp(&x).unwrap() };
            let o = by(p.0, q.0).then(by(p.1, q.1));
            vec![Val::Code(o as i32), Val::Yes(a == b), Val::Num(dist(f.fp(*a), f.fp(*b)))]
        }
        _ => nearmiss::expect(f, q)?,
    };
    let (k, k2) = (m.scale, m.scale * m.scale);
    Ok(want
        .into_iter()
        .map(|v| match v {
            Val::Pts(p) => Val::Pts(m.ats(&p)),
            Val::Path(p) => Val::Path(m.ats(&p)),
            Val::Area(a) => Val::Area(a * k2),
            Val::Num(a) => Val::Num(a * k),
            o => o,
        })
        .collect())
}
fn sweep(m: &Moved, x: &[Shape]) -> Result<Vec<F2>, Stop> {
    let all = p17::common_points(&m.f, x)?;
    let flat: Vec<p17::Flat> = x.iter().map(|x| m.flat(x)).collect();
    p17::sweepable(&m.ats(&all), &flat)?;
    p17::distinct(all)
}

/// The corners in order; points between corners, on an edge up to rounding, may be listed too.
fn hull_of(m: &Moved, v: &[P], got: &[F2]) -> Result<(), String> {
    let want = hull(v);
    let all: Vec<F2> = v.iter().map(|p| m.fp(*p)).collect();
    let mut at = Vec::new();
    for g in got {
        match all.iter().position(|p| near(*p, *g, 1e-12)) {
            Some(i) => at.push(v[i]),
            None => return Err(format!("{g:?} is not an input point")),
        }
    }
    for (i, p) in at.iter().enumerate() {
        if at[..i].contains(p) {
            return Err(format!("{:?} is listed twice", got[i]));
        }
        let n = want.len();
        if !want.contains(p) && (n < 2 || !(0..n).any(|j| on_seg(*p, want[j], want[(j + 1) % n]))) {
            return Err(format!("{:?} is not on the hull's border", got[i]));
        }
    }
    let corners: Vec<P> = at.iter().filter(|p| want.contains(p)).copied().collect();
    if corners.len() != want.len() {
        return Err(format!("corners {corners:?} of {want:?}"));
    }
    let k = corners.first().and_then(|p| want.iter().position(|w| w == p)).unwrap_or(0);
    for i in 0..want.len() {
        if corners[i] != want[(k + i) % want.len()] {
            return Err(format!("corners {corners:?}, expected in the order {want:?}"));
        }
    }
    // the others between the right corners
    let n = at.len();
    for i in 0..n {
        if n > 2 && orient(at[i], at[(i + 1) % n], at[(i + 2) % n]) < 0 {
            return Err("not in order around the hull".into());
        }
    }
    Ok(())
}

fn same(q: &Q, want: &[Val], got: &[Val]) -> bool {
    let tol = match q {
        Q::Triangle(..) => 0.0,
        Q::LineLine(..) | Q::LineRay(..) | Q::ProjLine(..) => 1e-6,
        _ => 1e-7,
    };
    want.len() == got.len()
        && want.iter().zip(got).all(|(w, g)| match (w, g) {
            (Val::Pts(x), Val::Pts(y)) => finite(y) && same_set(x, y, tol),
            (Val::Path(x), Val::Path(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| near(*a, *b, 1e-12)),
            (Val::Area(x), Val::Area(y)) => (x - y).abs() <= 1e-9,
            (Val::Num(x), Val::Num(y)) => (x - y).abs() <= 1e-10,
            (x, y) => x == y,
        })
}

pub fn check(c: &mut Ctx, kinds: &[u64], max_n: usize) -> R {
    let s = &mut c.src;
    let kind = s.pick(kinds);
    let (f, q) = match kind {
        k if k >= 100 => {
            let f = curve_frame(s);
            let (x, y) = pair(s, &f, (k - 100) / 3, (k - 100) % 3);
            (f, Q::Pair(x, y))
        }
        k => question_of(s, k, Which::All, max_n),
    };
    let size = nearmiss::extent(&f, &q);
    let m = moved(s, f, size);
    c.note(|| format!("{}, turned by {} then scaled by {} then moved by {:?}{}", show(&f, &q), m.turn, m.scale, m.shift, if m.jitter.get() == 0 { "" } else { ", each point rounded anew" }));
    let want = expect(&m, &q)?;
    c.label(label(&q));
    c.nontrivial = weighty(&want) || want.is_empty();
    let got = run::<f64>(&m, &q);
    let tell = || format!("{}, turned by {}, scaled by {}, moved by {:?}: answered {got:?}, expected {want:?}", show(&f, &q), m.turn, m.scale, m.shift);
    match (&q, &want[..], &got[..]) {
        (Q::Earcut(v), _, [Val::Tris(t)]) => {
            if let Err(e) = p20::valid_rounded(v, t) {
                return fail(format!("{}: {e}", tell()));
            }
        }
        (Q::Hull(v), _, [Val::Path(g)]) => {
            if let Err(e) = hull_of(&m, v, g) {
                return fail(format!("{}: {e}", tell()));
            }
        }
        (Q::Sweep(x), [Val::Pts(w)], [Val::Pts(g)]) => {
            ensure!(finite(g) && p17::in_sweep_order(g), "not in sweep order: {}", tell());
            let b: Vec<F2> = g.iter().map(|p| m.back(*p)).collect();
            let u: Vec<F2> = w.iter().map(|p| m.back(*p)).collect();
            p17::check_members(&f, x, &u, &b)?;
        }
        _ => ensure!(same(&q, &want, &got), "{}", tell()),
    }
    Ok(())
}
