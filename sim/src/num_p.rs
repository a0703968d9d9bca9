//! A real number whose arithmetic can panic after a set number of operations:
//! the fault "the caller's numeric type panics in the middle of an evaluation".
use qcd_sme::{Num, C, R};
use std::cell::Cell;
use std::fmt;
use std::ops::*;

thread_local! { static FUSE: Cell<i64> = const { Cell::new(-1) }; }

pub struct FusePanic;

pub fn set_fuse(n: i64) {
    FUSE.with(|f| f.set(n));
}

#[inline(never)]
fn step() {
    FUSE.with(|f| {
        let n = f.get();
        if n > 0 {
            f.set(n - 1);
        } else if n == 0 {
            f.set(-1);
            std::panic::panic_any(FusePanic);
        }
    });
}

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct P(pub R);

impl fmt::Display for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

macro_rules! bin {
    ($t:ident, $m:ident, $ta:ident, $ma:ident, $op:tt) => {
        impl $t for P {
            type Output = P;
            fn $m(self, o: P) -> P { step(); P(self.0 $op o.0) }
        }
        impl $t<R> for P {
            type Output = P;
            fn $m(self, o: R) -> P { step(); P(self.0 $op o) }
        }
        impl $t<C> for P {
            type Output = C;
            fn $m(self, o: C) -> C { step(); self.0 $op o }
        }
        impl $ta for P {
            fn $ma(&mut self, o: P) { step(); self.0 = self.0 $op o.0; }
        }
        impl $ta<R> for P {
            fn $ma(&mut self, o: R) { step(); self.0 = self.0 $op o; }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, +);
bin!(Sub, sub, SubAssign, sub_assign, -);
bin!(Mul, mul, MulAssign, mul_assign, *);
bin!(Div, div, DivAssign, div_assign, /);
impl Rem for P {
    type Output = P;
    fn rem(self, o: P) -> P {
        P(self.0 % o.0)
    }
}
impl Neg for P {
    type Output = P;
    fn neg(self) -> P {
        P(-self.0)
    }
}
impl num::Zero for P {
    fn zero() -> P {
        P(0.)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.
    }
}
impl num::One for P {
    fn one() -> P {
        P(1.)
    }
}
impl num::Num for P {
    type FromStrRadixErr = <R as num::Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<P, Self::FromStrRadixErr> {
        <R as num::Num>::from_str_radix(s, r).map(P)
    }
}
impl From<R> for P {
    fn from(x: R) -> P {
        P(x)
    }
}
impl From<P> for C {
    fn from(x: P) -> C {
        step();
        C { re: x.0, im: 0. }
    }
}
impl Num for P {
    fn abs(&self) -> R {
        step();
        self.0.abs()
    }
    fn exp(&self) -> P {
        step();
        P(self.0.exp())
    }
    fn im(&self) -> R {
        0.
    }
    fn inv(&self) -> P {
        step();
        P(1. / self.0)
    }
    fn ln(&self) -> P {
        step();
        P(self.0.ln())
    }
    fn re(&self) -> R {
        self.0
    }
    fn sqrt(&self) -> P {
        step();
        P(self.0.sqrt())
    }
}
