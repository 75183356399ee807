//! Enumeration helpers and the two float types under test.
use nalgebra::{Point, RealField};
use num_traits::{AsPrimitive, Bounded, Float};

/// `Imply<f32, Is: AsPrimitive<Self>>` as a supertrait makes `f32: AsPrimitive<Self>` an implied bound, so that the explorers keep
/// compiling when the library asks for one more ordinary bound.
pub trait Same<X> {
    type Is;
}
impl<T, X> Same<X> for T {
    type Is = X;
}
pub trait Imply<X>: Same<X, Is = X> {}
impl<T, X> Imply<X> for T {}

/// What every number type tested can do
pub trait Num:
    Imply<f32, Is: AsPrimitive<Self>>
    + Imply<f64, Is: AsPrimitive<Self>>
    + Imply<usize, Is: AsPrimitive<Self>>
    + Imply<isize, Is: AsPrimitive<Self>>
    + Imply<u8, Is: AsPrimitive<Self>>
    + Imply<u32, Is: AsPrimitive<Self>>
    + Imply<u64, Is: AsPrimitive<Self>>
    + Imply<i32, Is: AsPrimitive<Self>>
    + Imply<i64, Is: AsPrimitive<Self>>
    + num_traits::NumAssign
    + num_traits::NumCast
    + num_traits::FromPrimitive
    + Bounded
    + Default
    + PartialOrd
    + std::fmt::Debug
    + std::fmt::Display
    + std::iter::Sum
    + nalgebra::Scalar
    + mapping_algorithms::types::IsNan
    + Send
    + Sync
    + AsPrimitive<f32>
    + AsPrimitive<f64>
    + AsPrimitive<usize>
    + AsPrimitive<isize>
    + AsPrimitive<i32>
    + AsPrimitive<i64>
    + AsPrimitive<u64>
{
}
macro_rules! num { ($($t:ident)*) => { $(impl Num for $t {})* } }
num!(f32 f64 u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);

/// f32 or f64
pub trait Fl: Num + Float + RealField {
    const NAME: &'static str;
    const EPS: f64;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    /// the next number, up or down
    fn up(self) -> Self;
    fn down(self) -> Self;
    /// `k` numbers further
    fn step(self, k: i32) -> Self {
        (0..k.abs()).fold(self, |v, _| if k > 0 { v.up() } else { v.down() })
    }
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn up(self) -> f32 {
        self.next_up()
    }
    fn down(self) -> f32 {
        self.next_down()
    }
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    fn of(v: f64) -> f64 {
        v
    }
    fn f(self) -> f64 {
        self
    }
    fn up(self) -> f64 {
        self.next_up()
    }
    fn down(self) -> f64 {
        self.next_down()
    }
}

pub fn pt<T: Fl, const N: usize>(c: [f64; N]) -> Point<T, N> {
    Point::from(c.map(T::of))
}
pub fn un<T: Fl, const N: usize>(p: &Point<T, N>) -> [f64; N] {
    std::array::from_fn(|i| p[i].f())
}

/// Mixed-radix digits, least significant first.
pub struct Digits(pub u64);
impl Digits {
    pub fn take(&mut self, base: u64) -> usize {
        let d = self.0 % base;
        self.0 /= base;
        d as usize
    }
}

/// number of sequences of length min..=max over `k` symbols
pub fn seq_count(k: u64, min: u32, max: u32) -> u64 {
    (min..=max).map(|l| k.pow(l)).sum()
}
/// the n-th such sequence, shorter first
pub fn seq_nth(k: u64, min: u32, max: u32, mut n: u64) -> Vec<usize> {
    for l in min..=max {
        let c = k.pow(l);
        if n < c {
            let mut d = Digits(n);
            let mut v: Vec<usize> = (0..l).map(|_| d.take(k)).collect();
            v.reverse();
            return v;
        }
        n -= c;
    }
    panic!("index out of range")
}

pub fn factorial(n: u64) -> u64 {
    (1..=n).product()
}
/// the k-th permutation of 0..n (lexicographic)
pub fn perm_nth(n: usize, mut k: u64) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = Vec::with_capacity(n);
    for i in (0..n).rev() {
        let f = factorial(i as u64);
        out.push(left.remove((k / f) as usize));
        k %= f;
    }
    out
}

/// all points of {0..side}^N as integer coordinates
pub fn lattice<const N: usize>(side: i64) -> Vec<[i64; N]> {
    let n = (side as u64).pow(N as u32);
    (0..n)
        .map(|i| {
            let mut d = Digits(i);
            let mut c: [i64; N] = std::array::from_fn(|_| d.take(side as u64) as i64);
            c.reverse();
            c
        })
        .collect()
}
/// all points of {lo..=hi}^N
pub fn lattice_range<const N: usize>(lo: i64, hi: i64) -> Vec<[i64; N]> {
    lattice::<N>(hi - lo + 1).into_iter().map(|p| p.map(|c| c + lo)).collect()
}

/// An exactly representable affine frame: coordinate = offset + scale * lattice coordinate
#[derive(Clone, Copy, Debug)]
pub struct Frame {
    pub scale: f64,
    pub offset: f64,
    /// factor from each axis to the next
    pub stretch: f64,
}
impl std::fmt::Display for Frame {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:e}+{:e}x", self.offset, self.scale)?;
        if self.stretch != 1.0 {
            write!(f, " stretched {:e}", self.stretch)?;
        }
        Ok(())
    }
}
impl Frame {
    pub const fn new(scale: f64, offset: f64) -> Frame {
        Frame { scale, offset, stretch: 1.0 }
    }
    /// axes of very different scales
    pub fn stretched(stretch: f64) -> Frame {
        Frame { stretch, ..Frame::UNIT }
    }
    fn factor(&self, axis: usize) -> f64 {
        (0..axis).fold(self.scale, |s, _| s * self.stretch)
    }
    /// the lattice coordinate again
    pub fn back(&self, v: f64, axis: usize) -> f64 {
        (v - self.offset * (axis as f64 + 1.0)) / self.factor(axis)
    }
    pub const UNIT: Frame = Frame::new(1.0, 0.0);
    /// far below any absolute tolerance (2^-40), products still normal in f32
    pub const TINY: Frame = Frame::new(1.0 / (1u64 << 40) as f64, 0.0);
    /// far above any absolute bound (2^40), products still finite in f32
    pub const HUGE: Frame = Frame::new((1u64 << 40) as f64, 0.0);
    /// squared distances may vanish or overflow
    pub fn power(e: i32) -> Frame {
        Frame::new(2f64.powi(e / 2) * 2f64.powi(e - e / 2), 0.0)
    }
    pub fn extreme(&self) -> bool {
        let e = self.scale.log2().abs();
        e > 40.0 || (self.offset != 0.0 && self.scale < 1e-6)
    }
    pub fn at(&self, c: f64, axis: usize) -> f64 {
        // a different offset on each axis, so that confused axes show
        self.offset * (axis as f64 + 1.0) + self.factor(axis) * c
    }
    pub fn pt<T: Fl, const N: usize>(&self, c: &[i64; N]) -> Point<T, N> {
        Point::from(std::array::from_fn(|i| T::of(self.at(c[i] as f64, i))))
    }
    pub fn ptf<T: Fl, const N: usize>(&self, c: &[f64; N]) -> Point<T, N> {
        Point::from(std::array::from_fn(|i| T::of(self.at(c[i], i))))
    }
}

/// A large deterministic cloud: `n` lattice points visited by a stride coprime with the lattice size, so in a scattered order.
pub fn strided<const N: usize>(side: i64, n: usize, stride: u64) -> Vec<[i64; N]> {
    let l = lattice::<N>(side);
    let m = l.len() as u64;
    (0..n as u64).map(|i| l[((i * stride + i / m) % m) as usize]).collect()
}

/// Sizes at which an implementation may change its ways: the neighbours of every power of two and of 1, 2, 5 times every
/// power of ten, up to `max`.
pub fn ladder(min: u64, max: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..40).map(|e| 1u64 << e).chain((0..12).flat_map(|e| [1, 2, 5].map(|k| k * 10u64.pow(e)))).flat_map(|s| [s - 1, s, s + 1]).chain([max]).filter(|s| (min..=max).contains(s)).collect();
    v.sort();
    v.dedup();
    v
}
/// `n` distinct lattice points, far fewer than the lattice has, in a scattered order; no two share a coordinate.
pub fn scattered<const N: usize>(n: u64) -> Vec<[i64; N]> {
    // multiplicative order modulo a prime above every ladder in use
    const P: u64 = 1_048_583;
    (1..=n).map(|i| std::array::from_fn(|a| (i * [654_321, 271_829, 998_244, 123_457][a % 4] % P) as i64 - P as i64 / 2)).collect()
}
