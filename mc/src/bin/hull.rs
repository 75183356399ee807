//! C16-C19: Graham scan and Jarvis march against an exact integer hull.
use mapping_algorithms::{
    point_clouds::downsample_point_cloud_voxel,
    polygons::{graham_scan, jarvis_march},
};
use mc::{
    exact::{self, P},
    util::*,
    *,
};
use nalgebra::Point2;
use num_traits::{real::Real, AsPrimitive};
use std::collections::BTreeMap;

/// A coordinate type: lattice integers map into it, exactly, and back.
trait Coord: Num {
    const NAME: &'static str;
    fn put(v: i128, f: &Frame, axis: usize) -> Self;
    fn get(self, f: &Frame, axis: usize) -> Option<i128>;
}
macro_rules! float_coord { ($($t:ident),*) => { $(impl Coord for $t {
    const NAME: &'static str = stringify!($t);
    fn put(v: i128, f: &Frame, axis: usize) -> Self {
        f.at(v as f64, axis) as $t
    }
    fn get(self, f: &Frame, axis: usize) -> Option<i128> {
        let v = f.back(self as f64, axis);
        (v == v.round()).then_some(v as i128)
    }
})* } }
float_coord!(f32, f64);
macro_rules! int_coord { ($($t:ident),*) => { $(impl Coord for $t {
    const NAME: &'static str = stringify!($t);
    fn put(v: i128, f: &Frame, _: usize) -> Self {
        (v * f.scale as i128 + f.offset as i128).try_into().unwrap()
    }
    fn get(self, f: &Frame, _: usize) -> Option<i128> {
        let v = self as i128 - f.offset as i128;
        (v % f.scale as i128 == 0).then_some(v / f.scale as i128)
    }
})* } }
int_coord!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);

trait Prec: Fl + Real {}
impl Prec for f32 {}
impl Prec for f64 {}

#[derive(Clone, Copy, PartialEq)]
enum Algo {
    Graham,
    Jarvis,
}

fn make<T: Coord>(cloud: &[P], f: &Frame) -> Vec<Point2<T>> {
    cloud.iter().map(|p| Point2::new(T::put(p[0], f, 0), T::put(p[1], f, 1))).collect()
}

fn judge<T: Coord>(algo: Algo, got: Option<Vec<Point2<T>>>, corners: &[P], f: &Frame, ctx: &mut Ctx) -> Result<(), String> {
    ctx.eval();
    let Some(v) = got else {
        return if corners.is_empty() { Ok(()) } else { Err(format!("nothing was returned instead of the hull {corners:?}")) };
    };
    let mut back: Vec<P> = Vec::with_capacity(v.len());
    for p in &v {
        match (p.x.get(f, 0), p.y.get(f, 1)) {
            (Some(x), Some(y)) => back.push([x, y]),
            _ => return Err(format!("{p:?} is not an input point")),
        }
    }
    if corners.is_empty() {
        return Err(format!("{back:?} was returned although there is no hull"));
    }
    ctx.outcome(back.iter().fold(H::new(back.len() as u64), |h, p| h.i(p[0] as i64).i(p[1] as i64)));
    match algo {
        Algo::Graham => {
            let start = back.iter().position(|p| *p == corners[0]).ok_or(format!("{back:?} lacks the corner {:?}", corners[0]))?;
            back.rotate_left(start);
            if back != corners {
                return Err(format!("{back:?} was returned instead of the corners {corners:?}"));
            }
            Ok(())
        }
        Algo::Jarvis => exact::is_boundary_walk(&back, corners).map_err(|e| format!("{back:?} was returned for the hull {corners:?}: {e}")),
    }
}

fn check_hull<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O>>(algo: Algo, cloud: &[P], f: &Frame, ctx: &mut Ctx) -> Res
where
    usize: AsPrimitive<T>,
{
    let corners = exact::hull(cloud);
    let pts = make::<T>(cloud, f);
    match algo {
        Algo::Graham => {
            judge(algo, graham_scan::<O, T>(&pts, false, None), &corners, f, ctx)?;
            let mut sorted = cloud.to_vec();
            sorted.sort();
            judge(algo, graham_scan::<O, T>(&make::<T>(&sorted, f), true, None), &corners, f, ctx).map_err(|e| format!("declared sorted: {e}"))?;
        }
        Algo::Jarvis => judge(algo, jarvis_march::<O, T>(&pts, None), &corners, f, ctx)?,
    }
    Ok(())
}

fn square(values: &[i128]) -> Vec<P> {
    values.iter().flat_map(|x| values.iter().map(move |y| [*x, *y])).collect()
}
fn range(lo: i128, hi: i128) -> Vec<i128> {
    (lo..=hi).collect()
}

fn sequences<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O>>(algo: Algo, name: &str, alphabet: Vec<P>, min: u32, max: u32, f: Frame) -> Space
where
    usize: AsPrimitive<T>,
{
    let k = alphabet.len() as u64;
    let a2 = alphabet.clone();
    Space::new(
        format!("{name} {}/{} len {min}..={max} frame {}", T::NAME, O::NAME, f),
        seq_count(k, min, max),
        move |n| format!("points {:?}", seq_nth(k, min, max, n).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| check_hull::<O, T>(algo, &seq_nth(k, min, max, n).iter().map(|&i| alphabet[i]).collect::<Vec<_>>(), &f, ctx),
    )
}

/// the same points in the n-th of several orders, some with repetitions
const ORDERS: usize = 8;
fn reorder(mut v: Vec<P>, order: usize) -> Vec<P> {
    let n = v.len();
    match order {
        0 => v.sort(),
        1 => {
            v.sort();
            v.reverse()
        }
        2 => v.sort_by_key(|p| (p[1], -p[0])),
        3 => v.sort_by_key(|p| (p[0] + p[1], p[0])),
        4 => v = (0..n).map(|i| v[i * 7919 % n.max(1)]).collect(),
        5 => {
            // a stride coprime with n
            let s = (n / 2 + 1..).find(|s| num_gcd(*s, n) == 1).unwrap_or(1);
            v = (0..n).map(|i| v[i * s % n]).collect()
        }
        6 => v = v.iter().flat_map(|p| [*p, *p]).collect(),
        _ => {
            let mut w = v.clone();
            w.reverse();
            v.extend(w);
        }
    }
    v
}
fn num_gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        num_gcd(b, a % b)
    }
}

fn subsets<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O>>(algo: Algo, w: i128, h: i128, f: Frame) -> Space
where
    usize: AsPrimitive<T>,
{
    let all: Vec<P> = (0..w).flat_map(|x| (0..h).map(move |y| [x, y])).collect();
    let case = move |n: u64| {
        let mask = n / ORDERS as u64;
        let v: Vec<P> = (0..all.len()).filter(|i| mask >> i & 1 == 1).map(|i| all[i]).collect();
        // order 4 repeats points when the size is not coprime with the stride, which must not lose corners
        let o = (n % ORDERS as u64) as usize;
        reorder(v, o)
    };
    let c2 = case.clone();
    Space::new(
        format!("subsets of a {w}x{h} grid in {ORDERS} orders {}/{} frame {}", T::NAME, O::NAME, f),
        (1u64 << (w * h)) * ORDERS as u64,
        move |n| format!("points {:?}", case(n)),
        move |n, ctx| check_hull::<O, T>(algo, &c2(n), &f, ctx),
    )
}

/// large clouds: shape, size and order
fn shape(kind: usize, n: i128) -> Vec<P> {
    match kind {
        // convex position on two parabolas
        0 => (-n..=n).map(|x| [x, x * x]).chain((1 - n..n).map(|x| [x, 2 * n * n - x * x])).collect(),
        // a full square: long collinear edges
        1 => square(&range(0, n)),
        // all lattice points of a disk
        2 => square(&range(-n, n)).into_iter().filter(|p| p[0] * p[0] + p[1] * p[1] <= n * n + 1).collect(),
        // edge points of a triangle only
        3 => (0..=n).flat_map(|i| [[i, 0], [0, i], [i, n - i]]).collect(),
        // one point off a long line
        4 => (0..=n).map(|i| [2 * i, 3 * i]).chain([[2 * (n / 2) + 1, 3 * (n / 2)]]).collect(),
        // a long line: no hull
        5 => (0..=n).map(|i| [3 * i, -2 * i]).collect(),
        // one point many times
        6 => (0..=n).map(|_| [5, -7]).collect(),
        // scattered
        7 => (0..=n * 3).map(|i| [i * 37 % 101, i * i * 11 % 97]).collect(),
        // a thin sliver
        8 => (0..=n).flat_map(|i| [[i * 4, 0], [i * 4 + 1, 1]]).collect(),
        // as many corners as fit in little room: all primitive steps of n/4 or less, by angle
        _ => {
            let m = n / 4 + 1;
            let mut steps: Vec<P> = square(&range(-m, m)).into_iter().filter(|s| num_gcd(s[0].unsigned_abs() as usize, s[1].unsigned_abs() as usize) == 1).collect();
            let key = |s: &P| (s[1] as f64).atan2(s[0] as f64);
            steps.sort_by(|a, b| key(a).partial_cmp(&key(b)).unwrap());
            let mut at = [0, 0];
            steps
                .iter()
                .flat_map(|s| {
                    at = [at[0] + s[0], at[1] + s[1]];
                    // with a point inside now and then
                    if (at[0] + at[1]) % 3 == 0 { vec![at, [at[0] - s[1], at[1] + s[0]]] } else { vec![at] }
                })
                .collect()
        }
    }
}
const SHAPES: u64 = 10;
const LARGEST: usize = 6000;
fn shapes<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O>>(algo: Algo, max: u64, f: Frame) -> Space
where
    usize: AsPrimitive<T>,
{
    shapes_at::<O, T>(algo, (1..=max).collect(), f)
}
fn shapes_at<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O>>(algo: Algo, sizes: Vec<u64>, f: Frame) -> Space
where
    usize: AsPrimitive<T>,
{
    let k = sizes.len() as u64;
    let name = format!("large shapes of {k} sizes up to {} {}/{} frame {}", sizes[sizes.len() - 1], T::NAME, O::NAME, f);
    let parts = move |n: u64| {
        let mut d = Digits(n);
        let (kind, order) = (d.take(SHAPES), d.take(ORDERS as u64));
        (kind, order, sizes[d.0 as usize] as i128)
    };
    let p2 = parts.clone();
    Space::new(
        name,
        SHAPES * ORDERS as u64 * k,
        move |n| {
            let (kind, order, size) = p2(n);
            format!("shape {kind} of size {size} in order {order}: {:?}", reorder(shape(kind, size), order))
        },
        move |n, ctx| {
            let (kind, order, size) = parts(n);
            let cloud = shape(kind, size);
            if cloud.len() > LARGEST {
                ctx.count("skipped: more than 6000 points", 1);
                return Ok(());
            }
            check_hull::<O, T>(algo, &reorder(cloud, order), &f, ctx)
        },
    )
}
/// the shapes as far as they fit in an integer type, touching its lower or its upper end in both axes, or its middle
fn shapes_in<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O>>(algo: Algo, max: u64, lo: i128, hi: i128) -> Space
where
    usize: AsPrimitive<T>,
{
    // the cross products must be exact in O
    let (lo, hi) = if O::EPS > 1e-10 { (lo.max(-(1 << 24)), hi.min(1 << 24)) } else { (lo.max(-(1 << 53)), hi.min(1 << 53)) };
    let room = (hi - lo).min(if O::EPS > 1e-10 { 1 << 11 } else { 1 << 26 });
    let case = move |n: u64| -> Option<Vec<P>> {
        let mut d = Digits(n);
        let (kind, order, place) = (d.take(SHAPES), d.take(ORDERS as u64), d.take(3));
        let v = shape(kind, d.0 as i128 + 1);
        let low: P = std::array::from_fn(|a| v.iter().map(|p| p[a]).min().unwrap());
        let span: P = std::array::from_fn(|a| v.iter().map(|p| p[a]).max().unwrap() - low[a]);
        (span[0].max(span[1]) <= room).then(|| {
            let to: P = span.map(|s| [lo, hi - s, lo + (hi - lo - s) / 2][place]);
            reorder(v.iter().map(|p| [p[0] - low[0] + to[0], p[1] - low[1] + to[1]]).collect(), order)
        })
    };
    Space::new(
        format!("large shapes up to size {max} within {}/{}", T::NAME, O::NAME),
        SHAPES * ORDERS as u64 * 3 * max,
        move |n| format!("{:?}", case(n)),
        move |n, ctx| match case(n) {
            Some(cloud) => check_hull::<O, T>(algo, &cloud, &Frame::UNIT, ctx),
            None => Ok(ctx.count("skipped: does not fit", 1)),
        },
    )
}

/// more corners and more points than sixteen bits count
fn beyond<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O>>(algo: Algo, marches: bool) -> Space
where
    usize: AsPrimitive<T>,
{
    const SIZES: [i128; 4] = [65_535, 65_536, 65_537, 70_001];
    let case = move |n: u64| -> Vec<P> {
        let mut d = Digits(n);
        let (kind, order) = (d.take(6), d.take(3));
        let m = SIZES[d.0 as usize];
        let around = |far: Vec<P>| -> Vec<P> { (0..m - far.len() as i128).map(|i| [i * 37 % 251 - 125, i % 263 - 131]).chain(far).collect() };
        let mut v: Vec<P> = match kind {
            // corners below, above or on both sides (as many in all), but for two
            0 => (0..m).map(|i| [i - m / 2, (i - m / 2) * (i - m / 2)]).collect(),
            1 => (0..m).map(|i| [i - m / 2, -(i - m / 2) * (i - m / 2)]).collect(),
            2 => (0..m).map(|i| (i / 2 - m / 4, i % 2 * 2 - 1)).map(|(x, s)| [x, s * (x * x - m * m)]).collect(),
            // few corners, the last of all
            3 => around(vec![[1000, 1000]]),
            4 => around(vec![[-1000, 3], [1000, 5], [7, -1000], [2, 1000]]),
            // no two but the last apart
            _ => (0..m - 2).map(|_| [3, 4]).chain([[900, 5], [4, 901]]).collect(),
        };
        match order {
            0 => {}
            1 => v.reverse(),
            _ => {
                let k = v.len() / 2;
                v.rotate_left(k)
            }
        }
        v
    };
    Space::new(
        format!("more than 65 535 points {}/{} {}", T::NAME, O::NAME, if algo == Algo::Graham { "Graham" } else { "Jarvis" }),
        SIZES.len() as u64 * 18,
        move |n| format!("family {} in order {} of {} points", n % 6, n / 6 % 3, SIZES[n as usize / 18]),
        move |n, ctx| {
            // (a march around as many corners takes their square)
            if algo == Algo::Jarvis && n % 6 < 3 && !(marches && n / 6 == 5) {
                return Ok(());
            }
            check_hull::<O, T>(algo, &case(n), &Frame::UNIT, ctx).map_err(|f| Failure { msg: f.msg.chars().take(300).collect(), ..f })
        },
    )
}

/// signed zeros: equal points with different bits
fn signed_zeros<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O> + Fl>(algo: Algo, max: u32) -> Space
where
    usize: AsPrimitive<T>,
{
    let values = [-0.0f64, 0.0, 1.0];
    let alphabet: Vec<[f64; 2]> = values.iter().flat_map(|x| values.iter().map(move |y| [*x, *y])).collect();
    let a2 = alphabet.clone();
    Space::new(
        format!("signed zeros {}/{} len 0..={max}", <T as Coord>::NAME, O::NAME),
        seq_count(9, 0, max),
        move |n| format!("points {:?}", seq_nth(9, 0, max, n).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let c: Vec<[f64; 2]> = seq_nth(9, 0, max, n).iter().map(|&i| alphabet[i]).collect();
            let pts: Vec<Point2<T>> = c.iter().map(|p| pt(*p)).collect();
            let corners = exact::hull(&c.iter().map(|p| [p[0] as i128, p[1] as i128]).collect::<Vec<P>>());
            let got = if algo == Algo::Graham { graham_scan::<O, T>(&pts, false, None) } else { jarvis_march::<O, T>(&pts, None) };
            Ok(judge(algo, got, &corners, &Frame::UNIT, ctx)?)
        },
    )
}

const FINE: Frame = Frame::new(0.0625, -3.0);
const FAR: Frame = Frame::new(64.0, 131072.0);

fn hull_plan(algo: Algo, tier: Tier) -> Plan {
    let mut p = Plan::new(
        "exploration",
        "every sequence of lattice points up to a length, every subset of a grid in 8 orders, and families of large shapes at every size; each hull is compared with an exact integer reference; non-trivial outcome: distinct (space, returned hull)",
    )
    .assume("coordinates are lattice points in frames where all cross products keep their exact sign in the tested precision");
    let three = square(&range(0, 2));
    p.add(sequences::<f64, f64>(algo, "3x3", three.clone(), 0, tier.pick(6, 7), Frame::UNIT));
    p.add(sequences::<f32, f32>(algo, "3x3", three.clone(), 3, tier.pick(5, 6), FINE));
    p.add(sequences::<f64, f32>(algo, "3x3", three.clone(), 3, 5, FAR));
    p.add(sequences::<f32, f64>(algo, "3x3", three, 3, 5, Frame::UNIT));
    for f in [Frame::TINY, Frame::HUGE] {
        p.add(sequences::<f64, f64>(algo, "3x3", square(&range(0, 2)), 3, 5, f));
        p.add(sequences::<f32, f32>(algo, "3x3", square(&range(-2, 0)), 3, 5, f));
        p.add(sequences::<f64, f64>(algo, "4x4", square(&[0, 1, 9, 100]), 3, 4, f));
    }
    p.add(sequences::<f64, f64>(algo, "4x4", square(&range(-2, 1)), 3, tier.pick(5, 6), Frame::UNIT));
    p.add(sequences::<f32, f32>(algo, "5x5", square(&range(-2, 2)), 3, tier.pick(4, 5), FINE));
    // near-collinear at the limit of exactness
    p.add(sequences::<f64, f64>(algo, "slivers", square(&[0, 1, (1 << 26) - 1, 1 << 26]), 3, tier.pick(4, 5), Frame::UNIT));
    p.add(sequences::<f32, f32>(algo, "slivers", square(&[0, 1, 4094, 4095]), 3, tier.pick(4, 5), Frame::UNIT));
    p.add(sequences::<f64, f64>(algo, "slivers", square(&[-7, 0, 3, 1000, 1001]), 3, 4, Frame::new(1.0 / 1024.0, 1.0)));
    p.add(signed_zeros::<f64, f64>(algo, tier.pick(5, 6)));
    p.add(signed_zeros::<f32, f32>(algo, tier.pick(4, 6)));
    for e in [-40, -12, 12, 40] {
        // axes of very different scales: the cross products are only scaled
        let f = Frame::stretched(2f64.powi(e));
        p.add(sequences::<f64, f64>(algo, "3x3", square(&range(0, 2)), 3, 5, f));
        p.add(sequences::<f32, f32>(algo, "3x3", square(&range(0, 2)), 3, 5, f));
        p.add(subsets::<f64, f64>(algo, 4, 3, f));
    }
    p.add(subsets::<f64, f64>(algo, 4, 4, Frame::UNIT));
    p.add(subsets::<f32, f32>(algo, 5, 3, FINE));
    p.add(subsets::<f64, f64>(algo, 2, 7, Frame::UNIT));
    if tier.thorough() {
        p.add(subsets::<f64, f64>(algo, 5, 4, Frame::UNIT));
    }
    p.add(shapes::<f64, f64>(algo, tier.pick(28, 60), Frame::UNIT));
    p.add(shapes::<f32, f32>(algo, tier.pick(20, 24), FINE));
    p.add(shapes_at::<f64, f64>(algo, ladder(28, tier.pick(513, 2001)), Frame::UNIT));
    p.add(beyond::<f64, f64>(algo, tier.thorough()));
    p
}

// ------------------------------------------------------------------------------------------------ C18

/// The lattice step is 60, so that the mean of up to 6 points (but not of arbitrary ones) is a whole number.
const STEP: i128 = 60;
fn voxel_means(cloud: &[P], voxel: i128) -> Option<Vec<P>> {
    let mut cells: BTreeMap<P, (i128, P)> = BTreeMap::new();
    for p in cloud {
        let e = cells.entry(p.map(|c| c.div_euclid(voxel))).or_insert((0, [0; 2]));
        e.0 += 1;
        e.1[0] += p[0];
        e.1[1] += p[1];
    }
    cells.values().map(|(n, s)| (s[0] % n == 0 && s[1] % n == 0).then(|| s.map(|c| c / n))).collect()
}

fn check_voxel_hull<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O>>(cloud: &[P], voxel: i128, f: &Frame, ctx: &mut Ctx) -> Res
where
    usize: AsPrimitive<T>,
{
    let Some(means) = voxel_means(cloud, voxel) else {
        ctx.count("skipped: mean not exact", 1);
        return Ok(());
    };
    let corners = exact::hull(&means);
    let pts = make::<T>(cloud, f);
    let size = Some(O::of(voxel as f64 * f.scale));
    judge(Algo::Graham, graham_scan::<O, T>(&pts, false, size), &corners, f, ctx).map_err(|e| format!("Graham, not declared sorted: {e}"))?;
    let mut sorted = cloud.to_vec();
    sorted.sort();
    judge(Algo::Graham, graham_scan::<O, T>(&make::<T>(&sorted, f), true, size), &corners, f, ctx).map_err(|e| format!("Graham, declared sorted: {e}"))?;
    judge(Algo::Jarvis, jarvis_march::<O, T>(&pts, size), &corners, f, ctx).map_err(|e| format!("Jarvis: {e}"))?;
    Ok(())
}

fn voxel_sequences<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O>>(ks: Vec<i128>, voxels: Vec<i128>, min: u32, max: u32, f: Frame) -> Space
where
    usize: AsPrimitive<T>,
{
    let alphabet = square(&ks.iter().map(|k| k * STEP).collect::<Vec<_>>());
    let (k, m) = (alphabet.len() as u64, voxels.len() as u64);
    let (a2, v2) = (alphabet.clone(), voxels.clone());
    Space::new(
        format!("voxel {voxels:?} {}/{} coordinates {ks:?} len {min}..={max} scale {}", T::NAME, O::NAME, f.scale),
        seq_count(k, min, max) * m,
        move |n| format!("voxel {} points {:?}", v2[(n % m) as usize], seq_nth(k, min, max, n / m).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let cloud: Vec<P> = seq_nth(k, min, max, n / m).iter().map(|&i| alphabet[i]).collect();
            check_voxel_hull::<O, T>(&cloud, voxels[(n % m) as usize], &f, ctx)
        },
    )
}

fn voxel_shapes<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O>>(max: u64, base: i128, f: Frame) -> Space
where
    usize: AsPrimitive<T>,
{
    // each cluster of the shape is doubled symmetrically about its centre, so that the means are exact
    let case = move |n: u64| {
        let mut d = Digits(n);
        let (kind, order) = (d.take(SHAPES), d.take(ORDERS as u64));
        // some sizes further on too
        let size = if d.0 < max { d.0 as i128 + 1 } else { [33, 65, 100][(d.0 - max) as usize] };
        let v: Vec<P> = shape(kind, size).into_iter().flat_map(|p| [[p[0] * 8 + 3, p[1] * 8 + 5], [p[0] * 8 + 5, p[1] * 8 + 3]]).map(|p| p.map(|c| c + base * 8)).collect();
        reorder(v, order)
    };
    Space::new(
        format!("voxel 8 large shapes up to size {max} (and 3 more) {base} voxels from the origin {}/{} scale {}", T::NAME, O::NAME, f.scale),
        SHAPES * ORDERS as u64 * (max + if T::NAME == "f64" { 3 } else { 0 }),
        move |n| format!("shape {}, size number {}, order {}: {:?}", n % SHAPES, n / SHAPES / ORDERS as u64, n / SHAPES % ORDERS as u64, case(n)),
        move |n, ctx| check_voxel_hull::<O, T>(&case(n), 8, &f, ctx),
    )
}

/// integer points: the hull of whatever the downsampling of integers yields, and of means that are whole numbers
fn voxel_ints<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O>>(base: i128, max: u32) -> Space
where
    usize: AsPrimitive<T>,
{
    let alphabet = square(&[base, base + 2, base + 4, base + 10]);
    let a2 = alphabet.clone();
    Space::new(
        format!("voxel 1..=6 integers {}/{} from {base} len 3..={max}", T::NAME, O::NAME),
        seq_count(16, 3, max) * 4,
        move |n| format!("voxel {} points {:?}", [1, 3, 4, 6][(n % 4) as usize], seq_nth(16, 3, max, n / 4).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let voxel = [1, 3, 4, 6][(n % 4) as usize];
            let cloud: Vec<P> = seq_nth(16, 3, max, n / 4).iter().map(|&i| alphabet[i]).collect();
            check_voxel_hull::<O, T>(&cloud, voxel, &Frame::UNIT, ctx)?;
            let pts = make::<T>(&cloud, &Frame::UNIT);
            let size = O::of(voxel as f64);
            let down: Vec<P> = downsample_point_cloud_voxel::<T, O, 2>(&pts, size).iter().map(|p| [p.x.get(&Frame::UNIT, 0).unwrap(), p.y.get(&Frame::UNIT, 1).unwrap()]).collect();
            let corners = exact::hull(&down);
            judge(Algo::Graham, graham_scan::<O, T>(&pts, false, Some(size)), &corners, &Frame::UNIT, ctx)?;
            judge(Algo::Jarvis, jarvis_march::<O, T>(&pts, Some(size)), &corners, &Frame::UNIT, ctx)?;
            Ok(())
        },
    )
}

fn integer_sum_overflow() -> Space {
    let clouds: Vec<Vec<P>> = vec![vec![[200, 200], [200, 200], [0, 0], [0, 100], [100, 0]]];
    Space::new(
        "integer points whose sum per voxel exceeds the type",
        1,
        |_| "u8 points (200,200) twice, (0,0), (0,100), (100,0) with voxel size 10".into(),
        move |n, ctx| {
            let r = no_panic(|| check_voxel_hull::<f64, u8>(&clouds[n as usize], 10, &Frame::UNIT, &mut Ctx::default()));
            ctx.eval();
            match r {
                Ok(Ok(())) => Ok(()),
                Ok(Err(f)) => Err(Failure { key: "u8-voxel-sum-overflow".into(), msg: f.msg }),
                Err(e) => Err(Failure { key: "u8-voxel-sum-overflow".into(), msg: e }),
            }
        },
    )
}

/// The keys of the standard library's hash maps come from `getrandom`, which it declares as a weak symbol for this very
/// purpose; a thread that has set a seed gets keys determined by it, any other the real ones.
mod map_order {
    use std::cell::Cell;
    thread_local! { static SEED: Cell<u64> = const { Cell::new(0) } }
    extern "C" {
        fn syscall(number: std::ffi::c_long, ...) -> std::ffi::c_long;
    }
    #[no_mangle]
    unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
        let mut z = SEED.get();
        if z == 0 {
            return syscall(318, buf, len, flags) as isize;
        }
        for i in 0..len {
            z = z.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
            *buf.add(i) = (z >> 56) as u8;
        }
        len as isize
    }
    /// run in a new thread whose maps get their keys from `seed`
    pub fn with<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> Result<R, String> {
        std::thread::scope(|s| {
            s.spawn(move || {
                SEED.set(seed);
                super::no_panic(f)
            })
            .join()
            .unwrap_or_else(|_| Err("panic".into()))
        })
    }
}

/// Every order in which the voxel map can yield its voxels: seeds are tried until the downsampling itself has shown all
/// of them, and each new order is put through every algorithm in a thread that starts from the same keys.
fn voxel_orders<O: Prec + AsPrimitive<T>, T: Coord + AsPrimitive<O>>(w: u64, h: u64, sizes: std::ops::RangeInclusive<u32>) -> Space
where
    usize: AsPrimitive<T>,
{
    let sets: Vec<u64> = (0..1u64 << (w * h)).filter(|m| sizes.contains(&m.count_ones())).collect();
    // a single point in a voxel, or two with a mean on the same lattice
    let case = move |sets: &[u64], n: u64| -> Vec<P> {
        let m = sets[(n / 2) as usize];
        (0..w * h)
            .filter(|i| m >> i & 1 == 1)
            .flat_map(|i| {
                let (x, y) = ((i % w) as i128 * 8 + 4, (i / w) as i128 * 8 + 4);
                if n % 2 == 0 { vec![[x, y]] } else { vec![[x - 1, y + 2], [x + 1, y - 2]] }
            })
            .collect()
    };
    let s2 = sets.clone();
    Space::new(
        format!("every order of the voxels: {sizes:?} of a {w}x{h} grid {}/{}", T::NAME, O::NAME),
        sets.len() as u64 * 2,
        move |n| format!("voxel 8 points {:?}", case(&s2, n)),
        move |n, ctx| {
            let cloud = case(&sets, n);
            let corners = exact::hull(&voxel_means(&cloud, 8).unwrap());
            let pts = make::<T>(&cloud, &Frame::UNIT);
            let size = O::of(8.0);
            let k = sets[(n / 2) as usize].count_ones() as u64;
            let orders: u64 = (1..=k).product();
            let mut seen = std::collections::BTreeSet::new();
            for seed in 1..=orders * 24 {
                let order: Vec<P> = map_order::with(seed, || {
                    downsample_point_cloud_voxel::<T, O, 2>(&pts, size).iter().map(|p| [p.x.get(&Frame::UNIT, 0).unwrap_or(-1), p.y.get(&Frame::UNIT, 1).unwrap_or(-1)]).collect()
                })?;
                if !seen.insert(order.clone()) {
                    continue;
                }
                for (declared, name) in [(false, "Graham, not declared sorted"), (true, "Graham, declared sorted")] {
                    let got = map_order::with(seed, || {
                        let mut pts = pts.clone();
                        if declared {
                            pts.sort_by(|a, b| (a.x, a.y).partial_cmp(&(b.x, b.y)).unwrap());
                        }
                        graham_scan::<O, T>(&pts, declared, Some(size))
                    })?;
                    judge(Algo::Graham, got, &corners, &Frame::UNIT, ctx).map_err(|e| format!("{name}, map keys from seed {seed} (order {order:?}): {e}"))?;
                }
                let got = map_order::with(seed, || jarvis_march::<O, T>(&pts, Some(size)))?;
                judge(Algo::Jarvis, got, &corners, &Frame::UNIT, ctx).map_err(|e| format!("Jarvis, map keys from seed {seed} (order {order:?}): {e}"))?;
                if seen.len() as u64 == orders {
                    break;
                }
            }
            ctx.count("orders of voxels explored", seen.len() as u64);
            if seen.len() as u64 == orders {
                ctx.count("clouds with every order of their voxels explored", 1);
            } else {
                ctx.count("clouds with some order of their voxels never shown by the map", 1);
            }
            Ok(())
        },
    )
}

fn c18(tier: Tier) -> Plan {
    let mut p = Plan::new(
        "exploration",
        "every sequence of lattice points up to a length with every voxel size of a list, and families of large shapes, through Graham scan (declared sorted or not) and Jarvis march, against the exact hull of the exact voxel means; non-trivial outcome: distinct (space, returned hull)",
    )
    .assume("voxel means are exact in the tested precision (other clouds are skipped and counted)")
    .assume("the voxel map of the library iterates in an order given by random keys: the spaces 'every order of the voxels' control the keys and explore every order the map can show, the other spaces see one order per case and run");
    p.add(voxel_sequences::<f64, f64>(vec![-1, 0, 1, 2], vec![60, 120, 180], 0, tier.pick(5, 6), Frame::UNIT));
    p.add(voxel_sequences::<f32, f32>(vec![-2, -1, 0, 1], vec![60, 120, 240], 3, tier.pick(4, 5), Frame::new(0.25, 0.0)));
    p.add(voxel_sequences::<f64, f64>(vec![-2, -1, 0, 1, 2], vec![90, 120], 3, tier.pick(4, 5), Frame::UNIT));
    p.add(voxel_sequences::<f64, f32>(vec![0, 1, 3], vec![60, 100], 3, tier.pick(5, 6), Frame::UNIT));
    p.add(voxel_sequences::<f32, f64>(vec![0, 1, 3], vec![60, 100], 3, 5, Frame::UNIT));
    p.add(voxel_shapes::<f64, f64>(tier.pick(14, 30), 0, Frame::UNIT));
    p.add(voxel_shapes::<f32, f32>(tier.pick(8, 12), 0, Frame::UNIT));
    // fractional voxel sizes, near and far from the origin on either side
    for (base, scale) in [(4, 0.3125), (-40, 0.3125), (1000, 0.3125), (0, 0.1875), (100, 0.1875), (-1000, 0.5625), (3, 0.03125), (10, 17.0)] {
        p.add(voxel_shapes::<f64, f64>(tier.pick(8, 20), base, Frame::new(scale, 0.0)));
    }
    p.add(voxel_shapes::<f32, f32>(tier.pick(6, 10), 20, Frame::new(0.3125, 0.0)));
    p.add(voxel_shapes::<f32, f64>(tier.pick(6, 10), 20, Frame::new(0.1875, 0.0)));
    p.add(voxel_sequences::<f64, f64>(vec![4, 5, 6], vec![60, 90], 3, tier.pick(5, 6), Frame::new(0.03125, 0.0)));
    p.add(voxel_sequences::<f64, f64>(vec![-90, -89, -87], vec![60, 90], 3, 4, Frame::new(0.1875, 0.0)));
    p.add(voxel_ints::<f64, i32>(-4, tier.pick(4, 5)));
    p.add(voxel_ints::<f32, u8>(0, tier.pick(4, 5)));
    p.add(voxel_ints::<f64, u16>(3, 4));
    p.add(voxel_ints::<f32, i64>(-6, 4));
    p.add(voxel_orders::<f64, f64>(3, 3, 3..=4));
    p.add(voxel_orders::<f32, f32>(4, 2, 3..=4));
    p.add(voxel_orders::<f64, i32>(2, 3, 3..=tier.pick(4, 5)));
    if tier.thorough() {
        p.add(voxel_orders::<f64, f64>(3, 3, 5..=5));
        p.add(voxel_orders::<f32, u16>(3, 2, 6..=6));
    }
    p.add(integer_sum_overflow());
    p
}

// ------------------------------------------------------------------------------------------------ C19

fn c19(tier: Tier) -> Plan {
    let mut p = Plan::new(
        "exploration",
        "every sequence over integer points at the extremes of each type, at its middle, and in windows as wide as the calculation precision is exact for, through both algorithms, against exact integers; non-trivial outcome: distinct (space, returned hull)",
    )
    .assume("coordinates are multiples of a power of two such that cross products keep their exact sign in the calculation precision");
    for algo in [Algo::Graham, Algo::Jarvis] {
        let name = if algo == Algo::Graham { "Graham" } else { "Jarvis" };
        macro_rules! ty { ($($t:ident),*) => { $({
            let (lo, hi, bits) = ($t::MIN as i128, $t::MAX as i128, $t::BITS);
            // at most 12 significant bits over the whole range of the type
            let unit = 1i128 << bits.saturating_sub(12);
            let top = (hi - lo) / unit;
            let scaled = Frame::new(unit as f64, lo as f64);
            let whole: Vec<i128> = vec![0, 1, top / 2, top / 2 + 1, top - 1, top];
            let len = tier.pick(3, 4);
            p.add(sequences::<f32, $t>(algo, &format!("{name} whole range"), square(&whole), 3, len, scaled));
            p.add(sequences::<f64, $t>(algo, &format!("{name} whole range"), square(&whole), 3, len, scaled));
            let four: Vec<i128> = vec![0, 1, top / 2, top];
            p.add(sequences::<f64, $t>(algo, &format!("{name} whole range, 4 values"), square(&four), 4, tier.pick(4, 5), scaled));
            // the exact values next to the ends of the type, as far as f64 represents them
            let (a, b) = (lo.max(-(1 << 53)), hi.min(1 << 53));
            let span = (b - a).min(1 << 26);
            for (w, from) in [("low", a), ("high", b - span), ("zero", 0.max(a))] {
                let v: Vec<i128> = [0, 1, span - 1, span].iter().map(|x| (from + x).min(b)).collect();
                p.add(sequences::<f64, $t>(algo, &format!("{name} {w} window"), square(&v), 3, tier.pick(3, 4), Frame::UNIT));
            }
            let (a, b) = (lo.max(-(1 << 24)), hi.min(1 << 24));
            let span = (b - a).min(1 << 12);
            for (w, from) in [("low", a), ("high", b - span), ("zero", 0.max(a))] {
                let v: Vec<i128> = [0, 1, span - 1, span].iter().map(|x| (from + x).min(b)).collect();
                p.add(sequences::<f32, $t>(algo, &format!("{name} {w} window"), square(&v), 3, tier.pick(3, 4), Frame::UNIT));
            }
            p.add(shapes_in::<f64, $t>(algo, tier.pick(24, 60), lo, hi));
            p.add(shapes_in::<f32, $t>(algo, tier.pick(16, 30), lo, hi));
            if lo < 0 {
                p.add(sequences::<f64, $t>(algo, &format!("{name} small signed"), square(&[-2, -1, 0, 1]), 3, tier.pick(4, 5), Frame::UNIT));
            } else {
                p.add(sequences::<f64, $t>(algo, &format!("{name} small unsigned"), square(&[0, 1, 2]), 3, tier.pick(5, 6), Frame::UNIT));
            }
        })* } }
        ty!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
        // 8-bit values have no further restriction
        let byte = [0, 1, 2, 100, 127, 128, 200, 254, 255];
        p.add(sequences::<f32, u8>(algo, &format!("{name} bytes"), square(&byte), 3, 3, Frame::UNIT));
        p.add(sequences::<f32, i8>(algo, &format!("{name} signed bytes"), square(&byte.map(|b| b - 128)), 3, 3, Frame::UNIT));
        p.add(beyond::<f64, i64>(algo, false));
        p.add(shapes_at::<f64, i32>(algo, ladder(1, tier.pick(257, 1025)), Frame::UNIT));
    }
    p
}

fn plan(id: &str, tier: Tier) -> Option<Plan> {
    Some(match id {
        "C16" => hull_plan(Algo::Graham, tier),
        "C17" => hull_plan(Algo::Jarvis, tier),
        "C18" => c18(tier),
        "C19" => c19(tier),
        _ => return None,
    })
}

fn main() {
    mc::main(plan)
}
