//! Caller-defined types with which the library is instantiated, whose every
//! operation is a scheduling point and a place for an injected fault.

use crate::wl::{fault_point, inject};
use micromath::vector::{Component, Vector};
use std::ops::{Add, Div, Mul, Sub};

/// A component with wrapping 64-bit arithmetic.
#[derive(Debug, Default, PartialEq, PartialOrd)]
pub struct Cx(pub i64);

impl Copy for Cx {}
impl Clone for Cx {
    fn clone(&self) -> Self {
        *self
    }
}
macro_rules! cxop {
    ($t:ident, $m:ident, $w:ident) => {
        impl $t for Cx {
            type Output = Cx;
            fn $m(self, o: Cx) -> Cx {
                fault_point();
                Cx(self.0.$w(o.0))
            }
        }
    };
}
cxop!(Add, add, wrapping_add);
cxop!(Sub, sub, wrapping_sub);
cxop!(Mul, mul, wrapping_mul);
impl Div for Cx {
    type Output = Cx;
    fn div(self, o: Cx) -> Cx {
        fault_point();
        if o.0 == 0 {
            inject();
        }
        Cx(self.0.wrapping_div(o.0))
    }
}
impl Component for Cx {}

/// A component convertible to and from f32, each conversion a fault point;
/// `id` travels with the value so that mixed-up components show.
#[derive(Debug, Default, PartialOrd)]
pub struct Cf(pub f32);
impl Copy for Cf {}
/// Equal to itself, whatever it holds.
impl PartialEq for Cf {
    fn eq(&self, o: &Cf) -> bool {
        self.0 == o.0 || self.0.to_bits() == o.0.to_bits()
    }
}
impl Clone for Cf {
    fn clone(&self) -> Self {
        *self
    }
}
macro_rules! cfop {
    ($t:ident, $m:ident, $o:tt) => {
        impl $t for Cf {
            type Output = Cf;
            fn $m(self, o: Cf) -> Cf {
                fault_point();
                Cf(self.0 $o o.0)
            }
        }
    };
}
cfop!(Add, add, +);
cfop!(Sub, sub, -);
cfop!(Mul, mul, *);
cfop!(Div, div, /);
impl Component for Cf {}
/// A value that has no conversion: every attempt fails.
pub const POISON: u32 = 0x7fc0_dead;
impl From<Cf> for f32 {
    fn from(c: Cf) -> f32 {
        fault_point();
        if c.0.to_bits() == POISON {
            inject();
        }
        c.0
    }
}
impl From<f32> for Cf {
    fn from(x: f32) -> Cf {
        fault_point();
        Cf(x)
    }
}
/// A fixed-point component: twelve fractional bits, of which a conversion to
/// f32 reads the upper eight, so that every skipped conversion shows.
#[derive(Debug, Default, PartialEq, PartialOrd)]
pub struct Cq(pub i64);
impl Copy for Cq {}
impl Clone for Cq {
    fn clone(&self) -> Self {
        *self
    }
}
macro_rules! cqop {
    ($t:ident, $m:ident, $e:expr) => {
        impl $t for Cq {
            type Output = Cq;
            fn $m(self, o: Cq) -> Cq {
                fault_point();
                let f: fn(i64, i64) -> i64 = $e;
                Cq(f(self.0, o.0))
            }
        }
    };
}
cqop!(Add, add, |a, b| a.wrapping_add(b));
cqop!(Sub, sub, |a, b| a.wrapping_sub(b));
cqop!(Mul, mul, |a, b| a.wrapping_mul(b) >> 12);
cqop!(Div, div, |a, b| if b == 0 { 0 } else { (a << 12).wrapping_div(b) });
impl Component for Cq {}
impl From<Cq> for f32 {
    fn from(c: Cq) -> f32 {
        fault_point();
        (c.0 >> 4) as f32 / 256.0
    }
}
impl From<f32> for Cq {
    fn from(x: f32) -> Cq {
        fault_point();
        Cq(((x * 256.0).round() as i64) << 4)
    }
}

impl std::iter::Sum for Cf {
    fn sum<I: Iterator<Item = Cf>>(it: I) -> Cf {
        let mut s = 0.0;
        for c in it {
            s += c.0;
        }
        Cf(s)
    }
}

/// A caller-defined vector type of `N` axes.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Vn<C: Component, const N: usize>(pub [C; N]);
impl<C: Component, const N: usize> Default for Vn<C, N> {
    fn default() -> Self {
        Vn([C::default(); N])
    }
}
impl<C: Component, const N: usize> FromIterator<C> for Vn<C, N> {
    fn from_iter<T: IntoIterator<Item = C>>(t: T) -> Self {
        let mut i = t.into_iter();
        let mut v = [C::default(); N];
        for x in v.iter_mut() {
            *x = i.next().expect("too few");
        }
        assert!(i.next().is_none(), "too many");
        Vn(v)
    }
}
impl<C: Component, const N: usize> Vector<C> for Vn<C, N> {
    const AXES: usize = N;
    fn get(self, i: usize) -> Option<C> {
        fault_point();
        self.0.get(i).copied()
    }
    fn dot(self, o: Self) -> C {
        let mut s = C::default();
        for i in 0..N {
            s = s + self.0[i] * o.0[i];
        }
        s
    }
}

/// A caller-defined vector type with many axes, whose components follow from
/// one number.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Ln<const N: usize>(pub u32);
impl<const N: usize> Ln<N> {
    pub fn at(self, i: usize) -> u64 {
        (self.0 as u64 * 31 + i as u64 * 7) % 10_007
    }
}
impl<const N: usize> FromIterator<Cx> for Ln<N> {
    fn from_iter<T: IntoIterator<Item = Cx>>(t: T) -> Self {
        assert!(t.into_iter().count() == N, "wrong number of components");
        Ln(0)
    }
}
impl<const N: usize> Vector<Cx> for Ln<N> {
    const AXES: usize = N;
    fn get(self, i: usize) -> Option<Cx> {
        fault_point();
        if i < N {
            Some(Cx(self.at(i) as i64))
        } else {
            None
        }
    }
    fn dot(self, o: Self) -> Cx {
        Cx((self.0 * o.0) as i64)
    }
}

/// A sample with an identity, converted to f32 at a fault point.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sample {
    pub v: f32,
    pub id: u32,
}
/// What each context's sensor is calibrated to: conversions depend on it.
pub static mut GAIN: [f32; 17] = [1.0; 17];
pub fn gain() -> &'static mut f32 {
    unsafe { &mut GAIN[mmrt::rt::cur().min(16)] }
}
impl From<Sample> for f32 {
    fn from(s: Sample) -> f32 {
        fault_point();
        s.v * *gain()
    }
}
