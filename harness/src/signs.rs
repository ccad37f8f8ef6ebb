//! Negative zeros: a lattice question is asked again with some of its zero coordinates,
//! directions and angles written as -0.0.  The numbers are equal, so the answers are.
use crate::battery::*;
use crate::curve::*;
use crate::engine::*;
use crate::ensure;
use crate::exact::*;
use crate::gen::*;
use crate::nearmiss::positions_mut;
use crate::props::p20;
use crate::util::*;
use rcgal::kernel::number_type::NumberType;
use rcgal::kernel::point_2::Point2;
use rcgal::kernel::vector_2::Vector2;
use std::cell::Cell;

struct Signed {
    f: Frame,
    seed: Cell<u64>,
    /// negative zeros handed out
    used: Cell<u32>,
}
impl Signed {
    fn z(&self, x: f64) -> f64 {
        if x != 0.0 {
            return x;
        }
        let m = mix(self.seed.get());
        self.seed.set(m);
        if m >> 63 == 0 {
            return 0.0;
        }
        self.used.set(self.used.get() + 1);
        -0.0
    }
}
impl Place for Signed {
    fn point<T: NumberType>(&self, p: P) -> Point2<T> {
        let (x, y) = self.f.fp(p);
        Point2::new(T::from_f64(self.z(x)), T::from_f64(self.z(y)))
    }
    fn length<T: NumberType>(&self, r: i64) -> T {
        T::from_f64(r as f64 * self.f.unit())
    }
    fn direction<T: NumberType>(&self, d: P) -> Vector2<T> {
        Vector2::new(T::from_f64(self.z(d.0 as f64)), T::from_f64(self.z(d.1 as f64)))
    }
    fn angle(&self, a: f64) -> f64 {
        self.z(a)
    }
}

pub fn check(c: &mut Ctx, kinds: &[u64], max_n: usize) -> R {
    let s = &mut c.src;
    let kind = s.pick(kinds);
    let (mut f, mut q) = match kind {
        k if k >= 100 => {
            let f = curve_frame(s);
            let (x, y) = pair(s, &f, (k - 100) / 3, (k - 100) % 3);
            (f, Q::Pair(x, y))
        }
        k => question_of(s, k, Which::All, max_n),
    };
    // bring one of the points to an axis or to the origin
    let mut at = positions_mut(&mut q);
    if !at.is_empty() {
        let i = s.idx(at.len());
        let p = *at[i];
        let by = match s.upto(3) {
            0 => p,
            1 => (p.0, 0),
            2 => (0, p.1),
            _ => (0, 0),
        };
        for x in at.iter_mut() {
            **x = sub(**x, by);
        }
        f.o = sub(f.o, by);
    }
    let g = Signed { f, seed: Cell::new(1 + s.upto(1 << 20)), used: Cell::new(0) };
    c.note(|| format!("{}, with negative zeros", show(&f, &q)));
    decided(&f, &q)?;
    if matches!(q, Q::Vectors(a, b) if a == (0, 0) || b == (0, 0)) {
        return discard("a zero vector has no angle");
    }
    c.label(label(&q));
    let a = run::<f64>(&f, &q);
    let b = run::<f64>(&g, &q);
    if g.used.get() == 0 {
        return discard("no zero");
    }
    c.nontrivial = weighty(&a);
    let tell = || format!("{}: answered {a:?}, and with {} zeros negative {b:?}", show(&f, &q), g.used.get());
    ensure!(a.len() == b.len(), "{}", tell());
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        let ok = match (x, y) {
            (Val::Pts(u), Val::Pts(v)) => finite(v) && same_set(u, v, 1e-9),
            (Val::Path(u), Val::Path(v)) => u == v,
            (Val::Tris(_), Val::Tris(v)) => match &q {
                Q::Earcut(p) => p20::valid(p, v).is_ok(),
                _ => true,
            },
            // the directed angle, up to a full turn
            (Val::Num(u), Val::Num(v)) if matches!(q, Q::Vectors(..)) && i == 3 => {
                let d = (u - v).abs();
                d < 1e-9 || (d - TAU).abs() < 1e-9
            }
            (Val::Num(u), Val::Num(v)) => (u - v).abs() <= 1e-12 * (1.0 + u.abs()),
            (Val::Area(u), Val::Area(v)) => (u - v).abs() <= 1e-12 * (1.0 + u.abs()),
            (u, v) => u == v,
        };
        ensure!(ok, "{}", tell());
    }
    Ok(())
}
