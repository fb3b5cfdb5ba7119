//! C12: shared totals do not depend on arrival order, batching, or retraction.
//!
//! Up to four contexts deliver contributions into shared totals (each update
//! under a simulated lock, batches summed outside it), late, in any order,
//! twice, and then retracted; contexts are preempted inside every operator.
//! The exact integer sum of the contributions present is the model.

use crate::cx::Cx;
use crate::wl::*;
use micromath::vector::{Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use mmrt::engine::{self, PropDef, Tuning};
use mmrt::rng::{mix, Rng};
use mmrt::rt;
use mmrt::scen::{Op, Scenario};

pub static DEF: PropDef = PropDef {
    id: "C12",
    gen,
    run,
    runs: (80_000, 2_000_000),
    counters: &[
        "mid_operator_preemptions",
        "contexts_stopped_for_ever_in_mid_operator",
        "shared_state_accesses",
        "blocked_futex_waits",
        "contributions_added",
        "contributions_added_twice",
        "contributions_retracted",
        "retractions_that_came_too_early",
        "batches_summed_by_value",
        "batches_summed_by_reference",
        "totals_checked",
        "orders_and_batchings_tried",
        "scalings_checked",
        "lock_waits",
        "late_or_out_of_order_arrivals",
    ],
    rule: "a case is one seeded run: 1 to 4 contexts add, batch, duplicate and retract up to 24 contributions of one of 21 types into 1 to 2 shared totals; non-trivial when at least two contributions from different contexts or a retraction took part; distinct by hash of switch points and totals",
    describe,
    var_from: |c| if c == BATCH || c == UNBATCH { 3 } else { 9 },
};

const ADD: u32 = 0;
const RETRACT: u32 = 1;
const BATCH: u32 = 2;
const UNBATCH: u32 = 3;
const CHECK: u32 = 4;

const TYPES: [&str; 21] = [
    "Vector2d<i8>", "Vector3d<i8>", "Vector2d<i16>", "Vector3d<i16>", "Vector2d<i32>", "Vector3d<i32>", "Vector2d<u8>",
    "Vector3d<u8>", "Vector2d<u16>", "Vector3d<u16>", "Vector2d<u32>", "Vector3d<u32>", "Vector2d<Cx>", "Vector3d<Cx>",
    "Vector2d<f32>", "Vector3d<f32>", "Vector2d<F32>", "Vector3d<F32>", "Quaternion", "F32", "f32 updated with F32",
];

fn gen(r: &mut Rng, _t: Tuning) -> Scenario {
    let mut s = Scenario::default();
    let ty = r.below(TYPES.len() as u64);
    let exp = if r.chance(1, 2) { 0 } else { r.range(-60, 60) };
    let k = if r.chance(1, 3) { 1 } else { r.below(5) };
    let cells = 1 + r.below(2);
    let n = 1 + r.below(4) as usize;
    let nc = if r.chance(1, 300) { 1 + r.logu(5000) } else if r.chance(1, 24) { 25 + r.below(300) } else { 1 + r.below(24) } as usize;
    let mut mult = vec![0u64; nc];
    for t in 0..n {
        let mut v = vec![];
        let mine: Vec<u64> = (0..nc as u64).filter(|i| *i as usize % n == t).collect();
        // Deliveries of this context's contributions, some twice, any order.
        let mut todo: Vec<u64> = mine.clone();
        for i in &mine {
            if r.chance(1, 5) {
                todo.push(*i);
            }
        }
        for i in (1..todo.len()).rev() {
            todo.swap(i, r.below(i as u64 + 1) as usize);
        }
        for i in &todo {
            mult[*i as usize] += 1;
        }
        let mut i = 0;
        while i < todo.len() {
            let most = if nc > 325 && r.chance(1, 4) { nc as u64 } else if nc > 24 { 100 } else { 8 };
            let b = if r.chance(1, 3) { (1 + r.below(most) as usize).min(todo.len() - i) } else { 1 };
            if b > 1 || r.chance(1, 12) {
                let mut a = vec![0, r.below(64), r.u64() >> 40];
                a.extend(&todo[i..i + b]);
                v.push(Op { code: BATCH, a });
            } else {
                v.push(Op { code: ADD, a: vec![0, r.below(64), todo[i]] });
            }
            i += b;
            while r.chance(1, 4) {
                // Retract anybody's contribution, present or not.
                v.push(Op { code: RETRACT, a: vec![0, r.below(64), r.below(nc as u64)] });
            }
            if r.chance(1, 12) {
                let mut a = vec![0, r.below(64), r.u64() >> 40];
                for _ in 0..1 + r.below(4) {
                    let i = r.below(nc as u64);
                    if !a[3..].contains(&i) {
                        a.push(i);
                    }
                }
                v.push(Op { code: UNBATCH, a });
            }
            if r.chance(1, 6) {
                v.push(Op { code: CHECK, a: vec![0, r.u64() >> 8] });
            }
        }
        // Each op works on one of the totals; a contribution always on the same.
        for o in v.iter_mut() {
            o.a[0] = r.below(cells);
        }
        s.tasks.push(v);
    }
    // Values: no order and no multiplicity can leave the range.
    let max: i64 = match ty {
        0 | 1 => i8::MAX as i64,
        2 | 3 => i16::MAX as i64,
        4 | 5 => i32::MAX as i64,
        6 | 7 => u8::MAX as i64,
        8 | 9 => u16::MAX as i64,
        10 | 11 => u32::MAX as i64,
        12 | 13 => 1 << 40,
        _ => 1 << 24,
    };
    let signed = !(6..=11).contains(&ty);
    let budget = max / (k.max(1) as i64);
    let mut comp = vec![vec![]; nc];
    let same = r.chance(1, 8);
    for _ in 0..4 {
        let w: Vec<f64> = (0..nc).map(|_| if r.chance(1, 6) { 0.0 } else { (r.unit() * 6.0).exp() }).collect();
        let sum: f64 = w.iter().zip(&mult).map(|(w, m)| w * (*m).max(1) as f64).sum::<f64>() + 1e-9;
        let b = if r.chance(1, 2) { budget } else { (nc as i64 * 6).min(budget) };
        for i in 0..nc {
            let mut c = (b as f64 * w[i] / sum * 0.999_999) as i64;
            if same {
                c = (b / (mult.iter().sum::<u64>() as i64 + nc as i64)).min(1);
            }
            if signed && r.chance(1, 2) {
                c = -c;
            }
            comp[i].push(c as u64);
        }
    }
    for c in comp {
        s.table.push(Op { code: 0, a: c });
    }
    s.cfg = vec![ty, exp as u64, k, cells];
    if n > 1 {
        s.sched = schedule(r, n, 20, false);
    }
    s
}

static mut EXP: i32 = 0;
fn ulp() -> f32 {
    f32::from_bits(((127 + unsafe { EXP }) as u32) << 23)
}

trait Num: micromath::vector::Component {
    fn of(c: i64) -> Self;
    /// The exact value; a float that is not a whole number of units gives an
    /// impossible value.
    fn val(self) -> i64;
}
macro_rules! num { ($($t:ty),*) => { $( impl Num for $t {
    fn of(c: i64) -> Self { c as $t }
    fn val(self) -> i64 { self as i64 }
} )* } }
num!(i8, i16, i32, u8, u16, u32);
impl Num for Cx {
    fn of(c: i64) -> Self {
        Cx(c)
    }
    fn val(self) -> i64 {
        self.0
    }
}
impl Num for f32 {
    fn of(c: i64) -> Self {
        c as f32 * ulp()
    }
    fn val(self) -> i64 {
        let x = self as f64 / ulp() as f64;
        if x.fract() != 0.0 || !(x.abs() < 1e15) {
            return i64::MIN;
        }
        x as i64
    }
}
impl Num for F32 {
    fn of(c: i64) -> Self {
        F32(<f32 as Num>::of(c))
    }
    fn val(self) -> i64 {
        self.0.val()
    }
}

trait Tot: Copy {
    const N: usize;
    fn of(c: &[i64; 4]) -> Self;
    fn val(&self) -> [i64; 4];
    fn add(&mut self, o: Self, how: u64);
    fn sub(&mut self, o: Self, how: u64);
    fn scale(self, k: i64, how: u64) -> Self;
    fn sum(v: &[Self], how: u64) -> Self;
}

macro_rules! tot_vec {
    ($v:ident, $n:expr, $c:ty, $left:expr, $($f:ident $i:expr),*) => {
        impl Tot for $v<$c> {
            const N: usize = $n;
            fn of(c: &[i64; 4]) -> Self { $v { $($f: <$c as Num>::of(c[$i])),* } }
            fn val(&self) -> [i64; 4] {
                let mut w = [0; 4];
                $( w[$i] = Num::val(self.$f); )*
                w
            }
            fn add(&mut self, o: Self, how: u64) {
                match how % 4 {
                    0 | 1 => *self += o,
                    2 => *self = *self + o,
                    _ => *self = o + *self,
                }
            }
            fn sub(&mut self, o: Self, how: u64) {
                match how % 3 {
                    0 | 1 => *self -= o,
                    _ => *self = *self - o,
                }
            }
            fn scale(self, k: i64, how: u64) -> Self {
                let k = <$c as Scalar>::k(k);
                match how % 3 {
                    0 => { let mut t = self; t *= k; t }
                    1 => self * k,
                    _ => ($left)(k, self),
                }
            }
            fn sum(v: &[Self], how: u64) -> Self {
                match how % 8 {
                    0 => v.iter().sum(),
                    1 => v.iter().copied().sum(),
                    2 => v.to_vec().into_iter().sum(),
                    3 => v.iter().rev().sum(),
                    4 => v.chunks(2).map(|c| c.iter().sum::<Self>()).sum(),
                    // Equal contributions are one object, referred to often.
                    6 | 7 if v.len() <= 64 => {
                        let mut r: Vec<&Self> = rt::quiet(|| v.iter().map(|x| v.iter().find(|y| y.val() == x.val()).unwrap()).collect());
                        if how % 8 == 7 {
                            rt::quiet(|| r.sort_by_key(|x| x.val()));
                        }
                        r.into_iter().sum()
                    }
                    _ => v.iter().map(|x| { rt::seam(); *x }).sum(),
                }
            }
        }
    };
}
/// Scale factors are plain numbers, not multiples of the unit.
trait Scalar {
    fn k(k: i64) -> Self;
}
macro_rules! scalar { ($($t:ty),*) => { $( impl Scalar for $t { fn k(k: i64) -> Self { k as $t } } )* } }
scalar!(i8, i16, i32, u8, u16, u32, f32);
impl Scalar for F32 {
    fn k(k: i64) -> Self {
        F32(k as f32)
    }
}
impl Scalar for Cx {
    fn k(k: i64) -> Self {
        Cx(k)
    }
}
macro_rules! tots { ($($c:ty),*) => { $(
    tot_vec!(Vector2d, 2, $c, |k: $c, v: Vector2d<$c>| k * v, x 0, y 1);
    tot_vec!(Vector3d, 3, $c, |k: $c, v: Vector3d<$c>| k * v, x 0, y 1, z 2);
)* } }
tots!(i8, i16, i32, u8, u16, u32, f32, F32);
tot_vec!(Vector2d, 2, Cx, |k: Cx, v: Vector2d<Cx>| v * k, x 0, y 1);
tot_vec!(Vector3d, 3, Cx, |k: Cx, v: Vector3d<Cx>| v * k, x 0, y 1, z 2);

impl Tot for Quaternion {
    const N: usize = 4;
    fn of(c: &[i64; 4]) -> Self {
        Quaternion::new(f32::of(c[0]), f32::of(c[1]), f32::of(c[2]), f32::of(c[3]))
    }
    fn val(&self) -> [i64; 4] {
        [self.w().val(), self.x().val(), self.y().val(), self.z().val()]
    }
    fn add(&mut self, o: Self, how: u64) {
        match how % 4 {
            0 | 1 => *self += o,
            2 => *self = *self + o,
            _ => *self = o + *self,
        }
    }
    fn sub(&mut self, o: Self, how: u64) {
        match how % 3 {
            0 | 1 => *self -= o,
            _ => *self = *self - o,
        }
    }
    fn scale(self, k: i64, how: u64) -> Self {
        let k = k as f32;
        match how % 4 {
            0 => {
                let mut t = self;
                t *= k;
                t
            }
            1 => self * k,
            2 => self.scale(k),
            _ => k * self,
        }
    }
    fn sum(v: &[Self], how: u64) -> Self {
        let z = Quaternion::new(0.0, 0.0, 0.0, 0.0);
        match how % 2 {
            0 => v.iter().fold(z, |a, b| a + *b),
            _ => {
                let mut t = z;
                for x in v {
                    t += *x;
                }
                t
            }
        }
    }
}
impl Tot for F32 {
    const N: usize = 1;
    fn of(c: &[i64; 4]) -> Self {
        <F32 as Num>::of(c[0])
    }
    fn val(&self) -> [i64; 4] {
        [Num::val(*self), 0, 0, 0]
    }
    fn add(&mut self, o: Self, how: u64) {
        match how % 5 {
            0 => *self += o,
            1 => *self += o.0,
            2 => *self = *self + o,
            3 => *self = o.0 + *self,
            _ => *self = *self + o.0,
        }
    }
    fn sub(&mut self, o: Self, how: u64) {
        match how % 5 {
            0 => *self -= o,
            1 => *self -= o.0,
            2 => *self = *self - o,
            3 => *self = self.0 - o,
            _ => *self = *self - o.0,
        }
    }
    fn scale(self, k: i64, how: u64) -> Self {
        let k = k as f32;
        match how % 5 {
            0 => {
                let mut t = self;
                t *= k;
                t
            }
            1 => {
                let mut t = self;
                t *= F32(k);
                t
            }
            2 => self * F32(k),
            3 => k * self,
            _ => self * k,
        }
    }
    fn sum(v: &[Self], how: u64) -> Self {
        match how % 3 {
            0 => v.iter().copied().sum(),
            1 => v.to_vec().into_iter().sum(),
            _ => v.chunks(2).map(|c| c.iter().copied().sum::<F32>()).sum(),
        }
    }
}
/// A plain f32 accumulator updated with wrapped floats.
#[derive(Clone, Copy)]
struct Plain(f32);
impl Tot for Plain {
    const N: usize = 1;
    fn of(c: &[i64; 4]) -> Self {
        Plain(f32::of(c[0]))
    }
    fn val(&self) -> [i64; 4] {
        [self.0.val(), 0, 0, 0]
    }
    fn add(&mut self, o: Self, how: u64) {
        match how % 2 {
            0 => self.0 += F32(o.0),
            _ => self.0 = (self.0 + F32(o.0)).into(),
        }
    }
    fn sub(&mut self, o: Self, how: u64) {
        match how % 2 {
            0 => self.0 -= F32(o.0),
            _ => self.0 = (self.0 - F32(o.0)).into(),
        }
    }
    fn scale(self, k: i64, how: u64) -> Self {
        let mut t = self.0;
        match how % 2 {
            0 => t *= F32(k as f32),
            _ => t = (t * F32(k as f32)).into(),
        }
        Plain(t)
    }
    fn sum(v: &[Self], _how: u64) -> Self {
        Plain(v.iter().map(|x| F32(x.0)).sum::<F32>().into())
    }
}

struct Cell<T> {
    v: T,
    lock: bool,
    /// How often each contribution is present.
    have: Vec<u64>,
    highest: u64,
}
struct World<T> {
    cell: Vec<Cell<T>>,
    k: i64,
    table: Vec<[i64; 4]>,
    froms: u64,
}
static mut W: *mut u8 = std::ptr::null_mut();
static mut TY: usize = 0;
fn world<T>() -> &'static mut World<T> {
    unsafe { &mut *(W as *mut World<T>) }
}

fn model(table: &[[i64; 4]], have: &[u64]) -> [i64; 4] {
    let mut m = [0; 4];
    for (c, h) in table.iter().zip(have) {
        for i in 0..4 {
            m[i] += c[i] * *h as i64;
        }
    }
    m
}
fn bad<T>(t: usize, what: &str, got: &[i64], want: &[i64]) -> ! {
    let f = |w: &[i64]| w.iter().map(|x| if *x == i64::MIN { "inexact".to_string() } else { x.to_string() }).collect::<Vec<_>>().join(", ");
    engine::fail(
        "C12.total",
        &format!("task {}: {} of {}: ({}) instead of ({})", t, what, TYPES[unsafe { TY }], f(got), f(want)),
    )
}
fn call<T>(t: usize, what: &str, f: impl FnOnce() -> T) -> T {
    match lib(LOOSE, f) {
        Got::Val(v) => v,
        Got::Panic(_) => engine::fail("C12.failed", &format!("task {}: {} of {} failed: {}", t, what, TYPES[unsafe { TY }], engine::last_panic())),
    }
}

/// The contributions present, in an order and a split chosen by `seed`,
/// give the same total; scaled, they give the scaled total.
fn check<T: Tot + 'static>(t: usize, have: &[u64], seed: u64) {
    let w = world::<T>();
    let m = model(&w.table, have);
    let mut ids = vec![];
    for (i, h) in have.iter().enumerate() {
        for _ in 0..*h {
            ids.push(i);
        }
    }
    let mut x = seed;
    let mut rnd = |n: usize| {
        x = mix(x);
        (x >> 16) as usize % n.max(1)
    };
    for i in (1..ids.len()).rev() {
        ids.swap(i, rnd(i + 1));
    }
    let v: Vec<T> = ids.iter().map(|i| T::of(&w.table[*i])).collect();
    let mut parts = vec![];
    let mut i = 0;
    while i < v.len() {
        let b = if rnd(3) == 0 { 1 } else { 1 + rnd(v.len() - i) };
        let how = rnd(60) as u64;
        parts.push(call(t, "summing a batch", || T::sum(&v[i..i + b], how)));
        i += b;
    }
    if rnd(4) == 0 {
        parts.push(call(t, "summing an empty batch", || T::sum(&[], 0)));
    }
    let how = rnd(60) as u64;
    let tot = call(t, "summing batch totals", || T::sum(&parts, how));
    engine::count(11, 1);
    if tot.val() != m {
        bad::<T>(t, "the total by batches", &tot.val()[..T::N], &m[..T::N]);
    }
    let km = m.map(|c| c * w.k);
    let how = rnd(60) as u64;
    let st = call(t, "scaling the total", || tot.scale(w.k, how));
    if st.val() != km {
        bad::<T>(t, &format!("the total scaled by {}", w.k), &st.val()[..T::N], &km[..T::N]);
    }
    let how = rnd(60) as u64;
    let sv: Vec<T> = call(t, "scaling contributions", || v.iter().enumerate().map(|(i, c)| c.scale(w.k, how.wrapping_add(i as u64))).collect());
    let how = rnd(60) as u64;
    let ts = call(t, "summing scaled contributions", || T::sum(&sv, how));
    engine::count(12, 1);
    if ts.val() != km {
        bad::<T>(t, &format!("the total of contributions scaled by {}", w.k), &ts.val()[..T::N], &km[..T::N]);
    }
}

fn one<T: Tot + 'static>(t: usize, o: &'static Op) {
    let w = world::<T>();
    let i = o.a[0] as usize % w.cell.len();
    let how = o.a.get(1).copied().unwrap_or(0);
    let n = w.table.len() as u64;
    if o.code == BATCH || o.code == UNBATCH {
        // The batch is summed before the lock is taken.
        let ids: Vec<usize> = o.a.get(3..).unwrap_or(&[]).iter().map(|x| (*x % n) as usize).collect();
        let v: Vec<T> = ids.iter().map(|i| T::of(&w.table[*i])).collect();
        let hs = o.a.get(2).copied().unwrap_or(0);
        let b = call(t, "summing a batch", || T::sum(&v, hs));
        engine::count(if matches!(hs % 8, 0 | 3 | 6 | 7) { 9 } else { 8 }, 1);
        let mut m = vec![0; n as usize];
        for i in &ids {
            m[*i] += 1;
        }
        let want = model(&w.table, &m);
        if b.val() != want {
            bad::<T>(t, &format!("a batch of {}", ids.len()), &b.val()[..T::N], &want[..T::N]);
        }
        lock(&mut w.cell[i], i);
        let c = &mut w.cell[i];
        if o.code == BATCH {
            call(t, "adding a batch", || c.v.add(b, how));
            for k in 0..m.len() {
                c.have[k] += m[k];
            }
            engine::count(4, ids.len() as u64);
        } else if m.iter().zip(&c.have).all(|(a, b)| a <= b) {
            call(t, "retracting a batch", || c.v.sub(b, how));
            for k in 0..m.len() {
                c.have[k] -= m[k];
            }
            engine::count(6, ids.len() as u64);
        } else {
            engine::count(7, 1);
        }
    } else if o.code == CHECK {
        lock(&mut w.cell[i], i);
        let h = w.cell[i].have.clone();
        check::<T>(t, &h, how);
    } else {
        let id = (o.a.get(2).copied().unwrap_or(0) % n) as usize;
        let v = T::of(&w.table[id]);
        lock(&mut w.cell[i], i);
        let c = &mut w.cell[i];
        if o.code == ADD {
            call(t, "adding", || c.v.add(v, how));
            c.have[id] += 1;
            engine::count(4, 1);
            if c.have[id] > 1 {
                engine::count(5, 1);
            }
            if (id as u64) < c.highest {
                engine::count(14, 1);
            }
            c.highest = c.highest.max(id as u64);
            w.froms |= 1 << t;
        } else if c.have[id] > 0 {
            call(t, "retracting", || c.v.sub(v, how));
            c.have[id] -= 1;
            engine::count(6, 1);
        } else {
            engine::count(7, 1);
        }
    }
    let c = &mut w.cell[i];
    let m = model(&w.table, &c.have);
    let v = c.v.val();
    engine::count(10, 1);
    rt::note(v.iter().fold(0, |a, b| a << 9 ^ *b as u64));
    if v != m {
        bad::<T>(t, &format!("total {} after {}", i, show(o)), &v[..T::N], &m[..T::N]);
    }
    c.lock = false;
    rt::wake(i + 1);
}
fn lock<T>(c: &mut Cell<T>, i: usize) {
    while c.lock {
        engine::count(13, 1);
        rt::wait(i + 1);
    }
    c.lock = true;
}

fn go<T: Tot + 'static>(s: &Scenario) {
    let table: Vec<[i64; 4]> = s
        .table
        .iter()
        .map(|o| {
            let mut c = [0; 4];
            for (i, x) in o.a.iter().take(T::N).enumerate() {
                c[i] = *x as i64;
            }
            c
        })
        .collect();
    if table.is_empty() {
        return;
    }
    let cell = (0..s.cfg[3].max(1)).map(|_| Cell { v: T::of(&[0; 4]), lock: false, have: vec![0; table.len()], highest: 0 }).collect();
    let w: &'static mut World<T> = Box::leak(Box::new(World { cell, k: s.cfg[2] as i64, table, froms: 0 }));
    unsafe { W = w as *mut _ as *mut u8 };
    run_tasks(s, 0, one::<T>);
    // Quiescence.
    for i in 0..w.cell.len() {
        let h = w.cell[i].have.clone();
        check::<T>(99, &h, mix(i as u64));
        let c = &mut w.cell[i];
        // Withdrawing what is left leaves nothing.
        for id in 0..h.len() {
            for n in 0..h[id] {
                let v = T::of(&w.table[id]);
                call(99, "retracting", || c.v.sub(v, n));
            }
        }
        if c.v.val() != [0; 4] {
            bad::<T>(99, "the emptied total", &c.v.val()[..T::N], &[0; 4][..T::N]);
        }
    }
    if w.froms.count_ones() > 1 || engine::counter(6) > 0 {
        engine::nontrivial();
    }
}

fn run(s: &Scenario) {
    unsafe {
        TY = s.cfg[0] as usize % TYPES.len();
        EXP = s.cfg[1] as i64 as i32;
    }
    rt::set_on_limit(|_| engine::fail("C12.no-progress", "a library call did not end"));
    match unsafe { TY } {
        0 => go::<Vector2d<i8>>(s),
        1 => go::<Vector3d<i8>>(s),
        2 => go::<Vector2d<i16>>(s),
        3 => go::<Vector3d<i16>>(s),
        4 => go::<Vector2d<i32>>(s),
        5 => go::<Vector3d<i32>>(s),
        6 => go::<Vector2d<u8>>(s),
        7 => go::<Vector3d<u8>>(s),
        8 => go::<Vector2d<u16>>(s),
        9 => go::<Vector3d<u16>>(s),
        10 => go::<Vector2d<u32>>(s),
        11 => go::<Vector3d<u32>>(s),
        12 => go::<Vector2d<Cx>>(s),
        13 => go::<Vector3d<Cx>>(s),
        14 => go::<Vector2d<f32>>(s),
        15 => go::<Vector3d<f32>>(s),
        16 => go::<Vector2d<F32>>(s),
        17 => go::<Vector3d<F32>>(s),
        18 => go::<Quaternion>(s),
        19 => go::<F32>(s),
        _ => go::<Plain>(s),
    }
}

fn show(o: &Op) -> String {
    let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
    match o.code {
        ADD => format!("adding contribution {} (form {})", g(2), g(1)),
        RETRACT => format!("retracting contribution {} (form {})", g(2), g(1)),
        BATCH => format!("adding the batch {:?} (form {}, sum form {})", o.a.get(3..).unwrap_or(&[]), g(1), g(2)),
        UNBATCH => format!("retracting the batch {:?} (form {}, sum form {})", o.a.get(3..).unwrap_or(&[]), g(1), g(2)),
        _ => "a check".into(),
    }
}
fn describe(s: &Scenario) -> Vec<String> {
    let mut l = vec![format!("totals of type {} in units of 2^{}, scale factor {}", TYPES[s.cfg[0] as usize % TYPES.len()], s.cfg[1] as i64, s.cfg[2])];
    for (i, o) in s.table.iter().enumerate() {
        l.push(format!("contribution {}: {:?}", i, o.a.iter().map(|x| *x as i64).collect::<Vec<_>>()));
    }
    for (t, ops) in s.tasks.iter().enumerate() {
        for o in ops {
            l.push(format!("task {}: total {}: {}", t, o.a[0], show(o)));
        }
    }
    show_sched(s, &mut l);
    l
}
