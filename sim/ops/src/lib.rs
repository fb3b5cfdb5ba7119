//! Flat catalogue of micromath's public operations: every operation is a
//! function from argument words to result words, so that the simulator can
//! name any call by (code, argument words) and compare any two calls.
//!
//! This crate and micromath itself are the two crates compiled with
//! scheduling callbacks (see rustc-wrap.sh), because generic operations are
//! instantiated here.
#![allow(clippy::all)]

use micromath::statistics::{Mean, StdDev, Trim, Variance};
use micromath::vector::{Vector, Vector2d, Vector3d};
use micromath::{F32Ext, Quaternion, F32};

pub const MAX_ARGS: usize = 12;

pub struct Out {
    pub n: usize,
    pub w: [u32; 32],
}

impl Out {
    pub const fn new() -> Self {
        Out { n: 0, w: [0; 32] }
    }
    #[inline(always)]
    fn u(&mut self, x: u32) {
        if self.n < 32 {
            self.w[self.n] = x;
        }
        self.n += 1;
    }
    #[inline(always)]
    fn f(&mut self, x: f32) {
        // The sign and payload of a NaN result are not specified by Rust.
        self.u(if x != x { 0x7fc0_0000 } else { x.to_bits() })
    }
    fn q(&mut self, x: Quaternion) {
        self.f(x.w());
        self.f(x.x());
        self.f(x.y());
        self.f(x.z());
    }
}

/// Argument kinds, one byte per argument: f float bits, i integer component,
/// n integer exponent, c small count.
pub struct OpDef {
    pub name: &'static str,
    pub kinds: &'static [u8],
    pub f: fn(&[u32; MAX_ARGS], &mut Out),
    /// Integer component arithmetic, which may overflow (and then panics in
    /// checked builds only).
    pub int: bool,
}

#[inline(always)]
fn g(x: u32) -> f32 {
    f32::from_bits(x)
}
#[inline(always)]
fn h(x: u32) -> F32 {
    F32(f32::from_bits(x))
}

macro_rules! op {
    ($n:expr, $k:expr, $f:expr) => {
        OpDef { name: $n, kinds: $k, f: $f, int: false }
    };
}

macro_rules! un {
    ($($m:ident),*) => { [$( op!(concat!("f32.", stringify!($m)), b"f", |a, o| o.f(<f32 as F32Ext>::$m(g(a[0])))) ),*] }
}
macro_rules! bin {
    ($($m:ident),*) => { [$( op!(concat!("f32.", stringify!($m)), b"ff", |a, o| o.f(<f32 as F32Ext>::$m(g(a[0]), g(a[1])))) ),*] }
}
macro_rules! hun {
    ($($m:ident),*) => { [$( op!(concat!("F32.", stringify!($m)), b"f", |a, o| o.f(h(a[0]).$m().0)) ),*] }
}
macro_rules! hbin {
    ($($m:ident),*) => { [$( op!(concat!("F32.", stringify!($m)), b"ff", |a, o| o.f(h(a[0]).$m(h(a[1])).0)) ),*] }
}

static UN: [OpDef; 25] = un!(
    abs, acos, asin, atan, atan_norm, ceil, cos, exp, floor, fract, inv, invsqrt, ln, log2, log10,
    recip, round, signum, sin, sqrt, tan, trunc, abs, cos, sqrt
);
static BIN: [OpDef; 8] = bin!(atan2, atan2_norm, copysign, div_euclid, hypot, log, powf, rem_euclid);
static HUN: [OpDef; 23] = hun!(
    abs, asin, atan, atan_norm, ceil, cos, cosh, exp, floor, fract, inv, invsqrt, ln, log2, log10,
    recip, round, signum, sin, sqrt, tan, trunc, exp
);
static HBIN: [OpDef; 7] = hbin!(atan2, copysign, div_euclid, hypot, log, powf, rem_euclid);

static MISC: [OpDef; 20] = [
    op!("f32.powi", b"fn", |a, o| o.f(<f32 as F32Ext>::powi(g(a[0]), a[1] as i32))),
    op!("F32.powi", b"fn", |a, o| o.f(h(a[0]).powi(a[1] as i32).0)),
    op!("f32.mul_add", b"fff", |a, o| o.f(<f32 as F32Ext>::mul_add(g(a[0]), g(a[1]), g(a[2])))),
    op!("f32.sin_cos", b"f", |a, o| {
        let (s, c) = <f32 as F32Ext>::sin_cos(g(a[0]));
        o.f(s);
        o.f(c);
    }),
    op!("F32.sin_cos", b"f", |a, o| {
        let (s, c) = h(a[0]).sin_cos();
        o.f(s.0);
        o.f(c.0);
    }),
    op!("F32.add", b"ff", |a, o| {
        let mut t = h(a[0]);
        t += h(a[1]);
        o.f((h(a[0]) + h(a[1])).0);
        o.f((h(a[0]) + g(a[1])).0);
        o.f((g(a[0]) + h(a[1])).0);
        o.f(t.0);
    }),
    op!("F32.sub", b"ff", |a, o| {
        let mut t = h(a[0]);
        t -= h(a[1]);
        o.f((h(a[0]) - h(a[1])).0);
        o.f((h(a[0]) - g(a[1])).0);
        o.f((g(a[0]) - h(a[1])).0);
        o.f(t.0);
    }),
    op!("F32.mul", b"ff", |a, o| {
        let mut t = h(a[0]);
        t *= h(a[1]);
        o.f((h(a[0]) * h(a[1])).0);
        o.f((h(a[0]) * g(a[1])).0);
        o.f((g(a[0]) * h(a[1])).0);
        o.f(t.0);
    }),
    op!("F32.div", b"ff", |a, o| {
        let mut t = h(a[0]);
        t /= h(a[1]);
        o.f((h(a[0]) / h(a[1])).0);
        o.f((h(a[0]) / g(a[1])).0);
        o.f((g(a[0]) / h(a[1])).0);
        o.f(t.0);
    }),
    op!("F32.rem", b"ff", |a, o| {
        let mut t = h(a[0]);
        t %= h(a[1]);
        o.f((h(a[0]) % h(a[1])).0);
        o.f((h(a[0]) % g(a[1])).0);
        o.f((g(a[0]) % h(a[1])).0);
        o.f(t.0);
    }),
    op!("F32.neg_class", b"f", |a, o| {
        let x = h(a[0]);
        o.f((-x).0);
        o.u(x.is_nan() as u32 | (x.is_infinite() as u32) << 1 | (x.is_finite() as u32) << 2);
    }),
    op!("F32.cmp", b"ff", |a, o| {
        let (x, y) = (h(a[0]), h(a[1]));
        let c = |c: Option<core::cmp::Ordering>| c.map(|c| c as i8 as i32 as u32 & 0xff).unwrap_or(9);
        o.u(c(x.partial_cmp(&y)));
        o.u(c(x.partial_cmp(&y.0)));
        o.u(c(x.0.partial_cmp(&y)));
        o.u((x == y) as u32 | ((x == y.0) as u32) << 1 | ((x.0 == y) as u32) << 2);
    }),
    op!("F32.sum", b"ffff", |a, o| o.f([h(a[0]), h(a[1]), h(a[2]), h(a[3])].iter().copied().sum::<F32>().0)),
    op!("F32.product", b"ffff", |a, o| o.f([h(a[0]), h(a[1]), h(a[2]), h(a[3])].iter().copied().product::<F32>().0)),
    op!("F32.from_int", b"ii", |a, o| {
        o.f(F32::from(a[0] as i8).0);
        o.f(F32::from(a[0] as i16).0);
        o.f(F32::from(a[1] as u8).0);
        o.f(F32::from(a[1] as u16).0);
    }),
    op!("stat.mean", b"ffffff", |a, o| o.f(fs(a).iter().cloned().mean())),
    op!("stat.variance", b"ffffff", |a, o| o.f(fs(a).as_ref().variance())),
    op!("stat.stddev", b"ffffff", |a, o| o.f(fs(a).as_ref().stddev())),
    op!("stat.trim", b"ffffff", |a, o| {
        let s = fs(a);
        let s: &[f32] = &s;
        for x in s.trim() {
            o.f(x)
        }
    }),
    op!("stat.trim_at", b"fffffff", |a, o| {
        let s = fs(a);
        let s: &[f32] = &s;
        for x in s.trim_at(g(a[6])) {
            o.f(x)
        }
    }),
];

fn fs(a: &[u32; MAX_ARGS]) -> [f32; 6] {
    [g(a[0]), g(a[1]), g(a[2]), g(a[3]), g(a[4]), g(a[5])]
}

fn q4(a: &[u32], i: usize) -> Quaternion {
    Quaternion::new(g(a[i]), g(a[i + 1]), g(a[i + 2]), g(a[i + 3]))
}
fn v3(a: &[u32], i: usize) -> Vector3d<f32> {
    Vector3d { x: g(a[i]), y: g(a[i + 1]), z: g(a[i + 2]) }
}

static QUAT: [OpDef; 20] = [
    op!("quat.mul", b"ffffffff", |a, o| o.q(q4(a, 0) * q4(a, 4))),
    op!("quat.add", b"ffffffff", |a, o| {
        let mut t = q4(a, 0);
        t += q4(a, 4);
        o.q(q4(a, 0) + q4(a, 4));
        o.q(t);
    }),
    op!("quat.sub", b"ffffffff", |a, o| {
        let mut t = q4(a, 0);
        t -= q4(a, 4);
        o.q(q4(a, 0) - q4(a, 4));
        o.q(t);
    }),
    op!("quat.scale", b"fffff", |a, o| {
        let mut t = q4(a, 0);
        t *= g(a[4]);
        o.q(t);
        o.q(q4(a, 0).scale(g(a[4])));
        o.q(q4(a, 0) * g(a[4]));
        o.q(g(a[4]) * q4(a, 0));
    }),
    op!("quat.conj", b"ffff", |a, o| o.q(q4(a, 0).conj())),
    op!("quat.dot", b"ffffffff", |a, o| o.f(q4(a, 0).dot(q4(a, 4)))),
    op!("quat.inv", b"ffff", |a, o| o.q(q4(a, 0).inv())),
    op!("quat.norm", b"ffff", |a, o| o.f(q4(a, 0).norm())),
    op!("quat.magnitude", b"ffff", |a, o| o.f(q4(a, 0).magnitude())),
    op!("quat.normalize", b"ffff", |a, o| o.q(q4(a, 0).normalize())),
    op!("quat.rotate", b"fffffff", |a, o| {
        let r = q4(a, 0).rotate(v3(a, 4));
        o.f(r.x);
        o.f(r.y);
        o.f(r.z);
        let r = q4(a, 0) * v3(a, 4);
        o.f(r.x);
        o.f(r.y);
        o.f(r.z);
    }),
    op!("quat.axis_angle", b"ffff", |a, o| o.q(Quaternion::axis_angle(v3(a, 0), g(a[3])))),
    op!("quat.from_two_vectors", b"ffffff", |a, o| o.q(Quaternion::from_two_vectors(v3(a, 0), v3(a, 3)))),
    op!("quat.from_two_vectors_i8", b"iiiiii", |a, o| {
        let v = |i: usize| Vector3d { x: a[i] as i8 & 7, y: a[i + 1] as i8 & 3, z: a[i + 2] as i8 & 3 };
        o.q(Quaternion::from_two_vectors(v(0), v(3)))
    }),
    op!("quat.to_euler", b"ffff", |a, o| {
        let (r, p, y) = q4(a, 0).to_euler();
        o.f(r);
        o.f(p);
        o.f(y);
    }),
    op!("quat.from_vector", b"fff", |a, o| o.q(Quaternion::from(v3(a, 0)))),
    op!("quat.to_array", b"ffff", |a, o| {
        for x in q4(a, 0).to_array() {
            o.f(x)
        }
        let t: (f32, f32, f32, f32) = q4(a, 0).into();
        o.f(t.0);
        o.f(t.3);
    }),
    op!("quat.default_eq", b"ffff", |a, o| {
        o.q(Quaternion::default());
        o.u((q4(a, 0) == Quaternion::IDENTITY) as u32);
    }),
    op!("vec.widen3", b"iii", |a, o| {
        let b: Vector3d<f32> = Vector3d { x: a[0] as i8, y: a[1] as i8, z: a[2] as i8 }.into();
        let w: Vector3d<f32> = Vector3d { x: a[0] as u16, y: a[1] as u16, z: a[2] as u16 }.into();
        o.f(b.x);
        o.f(b.y);
        o.f(b.z);
        o.f(w.x);
        o.f(w.y);
        o.f(w.z);
    }),
    op!("vec.widen2", b"ii", |a, o| {
        let b: Vector2d<f32> = Vector2d { x: a[0] as u8, y: a[1] as u8 }.into();
        let w: Vector2d<f32> = Vector2d { x: a[0] as i16, y: a[1] as i16 }.into();
        o.f(b.x);
        o.f(b.y);
        o.f(w.x);
        o.f(w.y);
    }),
];

/// Component types the catalogue instantiates the vectors with.
trait C: micromath::vector::Component {
    fn of(w: u32) -> Self;
    fn put(self, o: &mut Out);
}
macro_rules! int_c { ($($t:ty),*) => { $( impl C for $t {
    fn of(w: u32) -> Self { w as $t }
    fn put(self, o: &mut Out) { o.u(self as i64 as u32) }
} )* } }
int_c!(i8, i16, i32, u8, u16, u32);
impl C for f32 {
    fn of(w: u32) -> Self {
        g(w)
    }
    fn put(self, o: &mut Out) {
        o.f(self)
    }
}
impl C for F32 {
    fn of(w: u32) -> Self {
        h(w)
    }
    fn put(self, o: &mut Out) {
        o.f(self.0)
    }
}

fn a2<T: C>(a: &[u32], i: usize) -> Vector2d<T> {
    Vector2d { x: T::of(a[i]), y: T::of(a[i + 1]) }
}
fn a3<T: C>(a: &[u32], i: usize) -> Vector3d<T> {
    Vector3d { x: T::of(a[i]), y: T::of(a[i + 1]), z: T::of(a[i + 2]) }
}
fn p2<T: C>(v: Vector2d<T>, o: &mut Out) {
    v.x.put(o);
    v.y.put(o);
}
fn p3<T: C>(v: Vector3d<T>, o: &mut Out) {
    v.x.put(o);
    v.y.put(o);
    v.z.put(o);
}

macro_rules! vecops {
    ($t:ident, $k2:expr, $k22:expr, $k21:expr, $k3:expr, $k33:expr, $k31:expr, $int:expr) => {
        [
            OpDef { name: concat!("vec2.", stringify!($t), ".add"), kinds: $k22, int: $int, f: |a, o| {
                let (x, y) = (a2::<$t>(a, 0), a2::<$t>(a, 2));
                let mut t = x;
                t += y;
                p2(x + y, o);
                p2(t, o);
            } },
            OpDef { name: concat!("vec2.", stringify!($t), ".sub"), kinds: $k22, int: $int, f: |a, o| {
                let (x, y) = (a2::<$t>(a, 0), a2::<$t>(a, 2));
                let mut t = x;
                t -= y;
                p2(x - y, o);
                p2(t, o);
            } },
            OpDef { name: concat!("vec2.", stringify!($t), ".mul"), kinds: $k21, int: $int, f: |a, o| {
                let (x, k) = (a2::<$t>(a, 0), <$t as C>::of(a[2]));
                let mut t = x;
                t *= k;
                p2(x * k, o);
                p2(k * x, o);
                p2(t, o);
            } },
            OpDef { name: concat!("vec2.", stringify!($t), ".div"), kinds: $k21, int: $int, f: |a, o| {
                let (x, k) = (a2::<$t>(a, 0), <$t as C>::of(a[2]));
                let mut t = x;
                t /= k;
                p2(x / k, o);
                p2(t, o);
            } },
            OpDef { name: concat!("vec2.", stringify!($t), ".dot"), kinds: $k22, int: $int, f: |a, o| {
                let (x, y) = (a2::<$t>(a, 0), a2::<$t>(a, 2));
                x.dot(y).put(o);
                Vector::dot(x, y).put(o);
                x.perpendicular_dot(y).put(o);
                p3(x.cross(y), o);
                p3(x * y, o);
            } },
            OpDef { name: concat!("vec2.", stringify!($t), ".iter"), kinds: $k2, int: $int, f: |a, o| {
                let mut x = a2::<$t>(a, 0);
                for c in x.iter() { c.put(o) }
                p2(x.iter().collect::<Vector2d<$t>>(), o);
                p2(Vector2d::from_slice(&x.to_array()), o);
                p2(x.map(|c| c), o);
                o.u(x.get(2).is_none() as u32);
                x[1].put(o);
                p3(Vector3d::from(x), o);
            } },
            OpDef { name: concat!("vec2.", stringify!($t), ".sum"), kinds: $k22, int: $int, f: |a, o| {
                let s = [a2::<$t>(a, 0), a2::<$t>(a, 2)];
                p2(s.iter().sum(), o);
                p2(s.iter().copied().sum(), o);
                o.u((s[0] == s[1]) as u32);
            } },
            OpDef { name: concat!("vec3.", stringify!($t), ".add"), kinds: $k33, int: $int, f: |a, o| {
                let (x, y) = (a3::<$t>(a, 0), a3::<$t>(a, 3));
                let mut t = x;
                t += y;
                p3(x + y, o);
                p3(t, o);
            } },
            OpDef { name: concat!("vec3.", stringify!($t), ".sub"), kinds: $k33, int: $int, f: |a, o| {
                let (x, y) = (a3::<$t>(a, 0), a3::<$t>(a, 3));
                let mut t = x;
                t -= y;
                p3(x - y, o);
                p3(t, o);
            } },
            OpDef { name: concat!("vec3.", stringify!($t), ".mul"), kinds: $k31, int: $int, f: |a, o| {
                let (x, k) = (a3::<$t>(a, 0), <$t as C>::of(a[3]));
                let mut t = x;
                t *= k;
                p3(x * k, o);
                p3(k * x, o);
                p3(t, o);
            } },
            OpDef { name: concat!("vec3.", stringify!($t), ".div"), kinds: $k31, int: $int, f: |a, o| {
                let (x, k) = (a3::<$t>(a, 0), <$t as C>::of(a[3]));
                let mut t = x;
                t /= k;
                p3(x / k, o);
                p3(t, o);
            } },
            OpDef { name: concat!("vec3.", stringify!($t), ".dot"), kinds: $k33, int: $int, f: |a, o| {
                let (x, y) = (a3::<$t>(a, 0), a3::<$t>(a, 3));
                x.dot(y).put(o);
                Vector::dot(x, y).put(o);
                p3(x.cross(y), o);
                p3(x * y, o);
            } },
            OpDef { name: concat!("vec3.", stringify!($t), ".iter"), kinds: $k3, int: $int, f: |a, o| {
                let mut x = a3::<$t>(a, 0);
                for c in x.iter() { c.put(o) }
                p3(x.iter().collect::<Vector3d<$t>>(), o);
                p3(Vector3d::from_slice(&x.to_array()), o);
                p3(x.map(|c| c), o);
                o.u(x.get(3).is_none() as u32);
                x[2].put(o);
            } },
            OpDef { name: concat!("vec3.", stringify!($t), ".sum"), kinds: $k33, int: $int, f: |a, o| {
                let s = [a3::<$t>(a, 0), a3::<$t>(a, 3)];
                p3(s.iter().sum(), o);
                p3(s.iter().copied().sum(), o);
                o.u((s[0] == s[1]) as u32);
            } },
        ]
    };
}
macro_rules! intvec { ($t:ident) => { vecops!($t, b"ii", b"iiii", b"iii", b"iii", b"iiiiii", b"iiii", true) } }
macro_rules! fltvec { ($t:ident) => { vecops!($t, b"ff", b"ffff", b"fff", b"fff", b"ffffff", b"ffff", false) } }
static VI8: [OpDef; 14] = intvec!(i8);
static VI16: [OpDef; 14] = intvec!(i16);
static VI32: [OpDef; 14] = intvec!(i32);
static VU8: [OpDef; 14] = intvec!(u8);
static VU16: [OpDef; 14] = intvec!(u16);
static VU32: [OpDef; 14] = intvec!(u32);
static VF32: [OpDef; 14] = fltvec!(f32);
static VH32: [OpDef; 14] = fltvec!(F32);

macro_rules! magops {
    ($t:ident, $k2:expr, $k3:expr, $int:expr) => {
        [
            OpDef { name: concat!("vec2.", stringify!($t), ".magnitude"), kinds: $k2, int: $int, f: |a, o| {
                let (x, y) = (a2::<$t>(a, 0), a2::<$t>(a, 2));
                o.f(x.magnitude());
                o.f(x.distance(y));
            } },
            OpDef { name: concat!("vec3.", stringify!($t), ".magnitude"), kinds: $k3, int: $int, f: |a, o| {
                let (x, y) = (a3::<$t>(a, 0), a3::<$t>(a, 3));
                o.f(x.magnitude());
                o.f(x.distance(y));
            } },
        ]
    };
}
static MI8: [OpDef; 2] = magops!(i8, b"iiii", b"iiiiii", false);
static MI16: [OpDef; 2] = magops!(i16, b"iiii", b"iiiiii", false);
static MU8: [OpDef; 2] = magops!(u8, b"iiii", b"iiiiii", false);
static MU16: [OpDef; 2] = magops!(u16, b"iiii", b"iiiiii", false);
static MF32: [OpDef; 2] = magops!(f32, b"ffff", b"ffffff", false);
static MH32: [OpDef; 2] = magops!(F32, b"ffff", b"ffffff", false);

static NORM: [OpDef; 8] = [
    op!("vec2.f32.normalized", b"ff", |a, o| p2(a2::<f32>(a, 0).normalized(), o)),
    op!("vec3.f32.normalized", b"fff", |a, o| p3(a3::<f32>(a, 0).normalized(), o)),
    op!("vec2.F32.normalized", b"ff", |a, o| p2(a2::<F32>(a, 0).normalized(), o)),
    op!("vec3.F32.normalized", b"fff", |a, o| p3(a3::<F32>(a, 0).normalized(), o)),
    op!("vec3.f32.magnitude_sq", b"fff", |a, o| a3::<f32>(a, 0).magnitude_sq().put(o)),
    op!("vec2.f32.magnitude_sq", b"ff", |a, o| a2::<f32>(a, 0).magnitude_sq().put(o)),
    OpDef { name: "vec3.i32.magnitude_sq", kinds: b"iii", int: true, f: |a, o| a3::<i32>(a, 0).magnitude_sq().put(o) },
    OpDef { name: "vec2.u8.magnitude_sq", kinds: b"ii", int: true, f: |a, o| a2::<u8>(a, 0).magnitude_sq().put(o) },
];

#[cfg(feature = "integrations")]
static NT: [OpDef; 3] = [
    op!("num.inv", b"f", |a, o| o.f(micromath::num_traits::Inv::inv(h(a[0])).0)),
    op!("num.zero_one", b"f", |a, o| {
        use micromath::num_traits::{One, Zero};
        o.f(F32::zero().0);
        o.f(F32::one().0);
        o.u(h(a[0]).is_zero() as u32 | (h(a[0]).is_one() as u32) << 1);
    }),
    op!("num.from_str_radix", b"c", |a, o| {
        use micromath::num_traits::Num;
        const S: [&str; 8] = ["0", "-1.5", "ff.8", "101", "x", "", "1e3", "inf"];
        match F32::from_str_radix(S[a[0] as usize & 7], 2 + (a[0] >> 3) % 30) {
            Ok(x) => o.f(x.0),
            Err(_) => o.u(77),
        }
    }),
];
/// Stand-ins with the same results for builds without the integrations, so
/// that every build has the same operation numbering.
#[cfg(not(feature = "integrations"))]
static NT: [OpDef; 3] = [
    op!("num.inv", b"f", |a, o| o.f(h(a[0]).inv().0)),
    op!("num.zero_one", b"f", |a, o| {
        o.f(F32::ZERO.0);
        o.f(F32::ONE.0);
        o.u((h(a[0]) == F32::ZERO) as u32 | ((h(a[0]) == F32::ONE) as u32) << 1);
    }),
    op!("num.from_str_radix", b"c", |_, o| o.u(0)),
];

/// A text sink of fixed size; what does not fit counts but is not kept.
struct Text {
    n: usize,
    h: u32,
    b: [u8; 64],
}
impl core::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for c in s.as_bytes() {
            if self.n < 64 {
                self.b[self.n] = *c;
            }
            self.n += 1;
            self.h = (self.h ^ *c as u32).wrapping_mul(0x0100_0193);
        }
        Ok(())
    }
}
fn text(o: &mut Out, f: core::fmt::Arguments) -> Text {
    let mut t = Text { n: 0, h: 0x811c_9dc5, b: [0; 64] };
    let r = core::fmt::Write::write_fmt(&mut t, f);
    o.u(t.n as u32 | (r.is_err() as u32) << 31);
    o.u(t.h);
    t
}

static TEXT: [OpDef; 5] = [
    op!("F32.text", b"f", |a, o| {
        let x = h(a[0]);
        let t = text(o, format_args!("{}", x));
        match core::str::from_utf8(&t.b[..t.n.min(64)]).unwrap_or("").parse::<F32>() {
            Ok(y) => o.f(y.0),
            Err(_) => o.u(1),
        }
        text(o, format_args!("{:e}", x));
        text(o, format_args!("{:E}", x));
        text(o, format_args!("{:?}", x));
    }),
    op!("quat.debug", b"ffff", |a, o| {
        text(o, format_args!("{:?}", q4(a, 0)));
    }),
    op!("vec.debug", b"fff", |a, o| {
        text(o, format_args!("{:?}", a3::<f32>(a, 0)));
        text(o, format_args!("{:?}", a2::<F32>(a, 0)));
        text(o, format_args!("{:?}", a3::<i16>(a, 0)));
    }),
    op!("vec.widen_more", b"iii", |a, o| {
        p3(Vector3d::<f32>::from(a3::<i16>(a, 0)), o);
        p3(Vector3d::<f32>::from(a3::<u8>(a, 0)), o);
        p2(Vector2d::<f32>::from(a2::<i8>(a, 0)), o);
        p2(Vector2d::<f32>::from(a2::<u16>(a, 0)), o);
    }),
    op!("F32.classify", b"f", |a, o| {
        let x = h(a[0]);
        o.u(x.is_nan() as u32 | (x.is_finite() as u32) << 1 | (x.is_infinite() as u32) << 2
            | ((x.is_sign_negative() && !x.is_nan()) as u32) << 3 | ((x.is_sign_positive() && !x.is_nan()) as u32) << 4);
        o.f(x.mul_add(F32(2.0), F32(1.0)).0);
        o.f(f32::from(x));
        o.f(F32::from_bits(x.to_bits()).0);
        let mut y = x;
        y += 1.5;
        y -= F32(0.25);
        y *= 3.0;
        y /= F32(0.7);
        y %= 5.0;
        o.f(y.0);
        o.f((-y).0);
    }),
];

static GROUPS: [&[OpDef]; 23] = [
    &UN, &BIN, &HUN, &HBIN, &MISC, &QUAT, &VI8, &VI16, &VI32, &VU8, &VU16, &VU32, &VF32, &VH32, &MI8, &MI16,
    &MU8, &MU16, &MF32, &MH32, &NORM, &NT, &TEXT,
];

pub fn count() -> usize {
    let mut n = 0;
    for g in GROUPS.iter() {
        n += g.len();
    }
    n
}

pub fn op(code: usize) -> &'static OpDef {
    let mut c = code;
    for g in GROUPS.iter() {
        if c < g.len() {
            return &g[c];
        }
        c -= g.len();
    }
    panic!("no such operation")
}

/// Operations over whole slices and streams.
pub const STREAMS: usize = 20;
pub fn stream_name(k: usize) -> &'static str {
    [
        "mean", "variance", "stddev", "trim", "trim_at(0.5)", "F32 sum", "F32 product", "Vector3d<f32> sum",
        "Vector2d<i16> sum", "Vector2d<f32> sum of references", "Vector3d from a long slice", "F32 sum of iterator adaptors",
        "Vector2d from a long slice", "Vector2d from a stream without end", "Vector3d from a stream without end",
        "Vector3d<i32> sum of references", "variance of bytes", "stddev of i16", "trim of u16", "Vector2d<F32> sum",
    ][k % STREAMS]
}
/// A mean over more samples than 32 bits can count.
pub fn giant(n: u64, x: f32, o: &mut Out) {
    let mut left = n;
    let it = core::iter::from_fn(|| {
        if left == 0 {
            return None;
        }
        left -= 1;
        Some(x)
    });
    o.f(it.mean());
}
pub fn stream(k: usize, v: &[f32], o: &mut Out) {
    match k % STREAMS {
        0 => o.f(v.iter().copied().mean()),
        1 => o.f(v.variance()),
        2 => o.f(v.stddev()),
        3 => {
            for x in v.trim() {
                o.f(x)
            }
        }
        4 => {
            for x in v.trim_at(0.5) {
                o.f(x)
            }
        }
        5 => o.f(v.iter().map(|x| F32(*x)).sum::<F32>().0),
        6 => o.f(v.iter().map(|x| F32(*x)).product::<F32>().0),
        7 => p3(v.iter().map(|x| Vector3d { x: *x, y: 1.0, z: -*x }).sum::<Vector3d<f32>>(), o),
        8 => p2(v.iter().map(|x| Vector2d { x: *x as i8 as i16 & (v.len() < 30_000) as i16, y: 0i16 }).sum::<Vector2d<i16>>(), o),
        9 => {
            let w = [Vector2d { x: 1.0f32, y: 2.0 }, Vector2d { x: -1.0, y: 0.5 }];
            p2((0..v.len()).map(|i| &w[i & 1]).sum::<Vector2d<f32>>(), o)
        }
        10 => p3(Vector3d::from_slice(v), o),
        12 => p2(Vector2d::from_slice(v), o),
        // Far longer than any limit on steps, yet not without end.
        13 => p2((0..3_000_000u32).map(|i| i as f32).collect::<Vector2d<f32>>(), o),
        14 => p3((0..3_000_000u32).map(|i| i as f32).collect::<Vector3d<f32>>(), o),
        15 => {
            let w = [Vector3d { x: 1i32, y: 2, z: -3 }, Vector3d { x: -1, y: 5, z: 4 }, Vector3d { x: (v.len() & 0xff) as i32, y: 0, z: 7 }];
            let s = (0..v.len()).map(|i| &w[i % 3]).sum::<Vector3d<i32>>();
            o.u(s.x as u32);
            o.u(s.y as u32);
            o.u(s.z as u32);
        }
        16 => {
            let w: Vec<u8> = v.iter().map(|x| x.to_bits() as u8).collect();
            o.f((&w[..]).variance())
        }
        17 => {
            let w: Vec<i16> = v.iter().map(|x| (x.to_bits() >> 8) as i16).collect();
            o.f((&w[..]).stddev())
        }
        18 => {
            let w: Vec<u16> = v.iter().map(|x| (x.to_bits() >> 12) as u16).collect();
            for x in (&w[..]).trim() {
                o.f(x as f32)
            }
        }
        19 => {
            let s = v.iter().map(|x| Vector2d { x: F32(*x), y: F32(1.0) }).sum::<Vector2d<F32>>();
            o.f(s.x.0);
            o.f(s.y.0);
        }
        _ => o.f(v.iter().map(|x| F32(*x)).filter(|x| x.is_finite()).map(|x| x.abs()).sum::<F32>().0),
    }
}
