//! A user-defined number type: an f64 that counts the arithmetic done with it.
use rcgal::kernel::number_type::{DefaultNumberValueTrait, NumberType};
use std::cell::Cell;
use std::ops::{Add, Div, Mul, Neg, Sub};

pub const EXHAUSTED: &str = "arithmetic budget exhausted";

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub fn reset(n: u64) {
    LEFT.with(|l| l.set(n));
}
pub fn left() -> u64 {
    LEFT.with(|l| l.get())
}
fn tick() {
    LEFT.with(|l| {
        let v = l.get();
        if v == 0 {
            l.set(u64::MAX);
            panic!("{EXHAUSTED}");
        }
        l.set(v - 1);
    });
}

#[derive(Clone, Copy, Debug)]
pub struct Num(pub f64);

impl PartialEq for Num {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl PartialOrd for Num {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
}
impl std::fmt::Display for Num {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // how a number prints is no part of its value
        write!(f, "{:.0}", self.0)
    }
}
macro_rules! op {
    ($t:ident, $m:ident, $o:tt) => {
        impl $t for Num {
            type Output = Num;
            fn $m(self, r: Num) -> Num {
                tick();
                Num(self.0 $o r.0)
            }
        }
    };
}
op!(Add, add, +);
op!(Sub, sub, -);
op!(Mul, mul, *);
op!(Div, div, /);
impl Neg for Num {
    type Output = Num;
    fn neg(self) -> Num {
        tick();
        Num(-self.0)
    }
}
impl DefaultNumberValueTrait for Num {
    fn default() -> Self {
        Num(<f64 as DefaultNumberValueTrait>::default())
    }
    fn default_eps() -> Self {
        Num(<f64 as DefaultNumberValueTrait>::default_eps())
    }
    fn zero() -> Self {
        Num(0.0)
    }
    fn from_f64(v: f64) -> Self {
        Num(v)
    }
    fn pi() -> Self {
        Num(std::f64::consts::PI)
    }
}
impl NumberType for Num {
    fn equals(self, o: Self) -> bool {
        tick();
        NumberType::equals(self.0, o.0)
    }
    fn sqrt(self) -> Self {
        tick();
        Num(self.0.sqrt())
    }
    fn abs(self) -> Self {
        tick();
        Num(self.0.abs())
    }
    fn sin(self) -> Self {
        tick();
        Num(self.0.sin())
    }
    fn cos(self) -> Self {
        tick();
        Num(self.0.cos())
    }
    fn acos(self) -> Self {
        tick();
        Num(self.0.acos())
    }
    fn atan(self) -> Self {
        tick();
        Num(self.0.atan())
    }
    fn atan2(self, o: Self) -> Self {
        tick();
        Num(self.0.atan2(o.0))
    }
}
