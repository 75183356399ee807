//! C31-C32: NaN coordinates everywhere, and the NaN predicate over complete bit-pattern spaces.
use mapping_algorithms::{
    point_clouds::{icp, icp_iteration, lex_sort, lex_sort_in_place, lex_sort_ref, ICPConfiguration, ICPError},
    polygons::{are_multiple_points_in_polygon, graham_scan, is_single_point_in_polygon, jarvis_march},
    types::{AbstractIsometry, IsNan, IsometryAbstractor},
};
use mc::{util::*, *};
use nalgebra::{Isometry, Point, Point2};
use num_traits::AsPrimitive;

/// every kind of NaN
trait Nans: Fl {
    fn nans() -> [Self; 4];
}
impl Nans for f32 {
    fn nans() -> [f32; 4] {
        [f32::NAN, -f32::NAN, f32::from_bits(0x7f80_0001), f32::from_bits(0xffff_ffff)]
    }
}
impl Nans for f64 {
    fn nans() -> [f64; 4] {
        [f64::NAN, -f64::NAN, f64::from_bits(0x7ff0_0000_0000_0001), f64::from_bits(u64::MAX)]
    }
}

/// a small cloud with one or two coordinates replaced by NaN
struct Spoiled<const N: usize> {
    cloud: Vec<[i64; N]>,
    at: Vec<usize>,
    kind: usize,
}
struct Spoiler<const N: usize> {
    alphabet: Vec<[i64; N]>,
    min: u32,
    max: u32,
}
impl<const N: usize> Spoiler<N> {
    fn positions(&self) -> u64 {
        let c = self.max as u64 * N as u64;
        c * c
    }
    fn size(&self) -> u64 {
        seq_count(self.alphabet.len() as u64, self.min, self.max) * self.positions() * 4
    }
    fn nth(&self, n: u64) -> Spoiled<N> {
        let mut d = Digits(n);
        let kind = d.take(4);
        let c = self.max as u64 * N as u64;
        let at = vec![d.take(c), d.take(c)];
        let cloud: Vec<[i64; N]> = seq_nth(self.alphabet.len() as u64, self.min, self.max, d.0).iter().map(|&i| self.alphabet[i]).collect();
        // positions beyond the cloud wrap around
        let n = cloud.len() * N;
        Spoiled { cloud, at: at.into_iter().map(|a| a % n).collect(), kind }
    }
    fn describe(&self, n: u64) -> String {
        let s = self.nth(n);
        format!("{:?} with NaN (kind {}) at coordinates {:?}", s.cloud, s.kind, s.at)
    }
}
impl<const N: usize> Spoiled<N> {
    fn points<T: Nans>(&self) -> Vec<Point<T, N>> {
        let mut p: Vec<Point<T, N>> = self.cloud.iter().map(|c| Frame::new(1.0, 0.25).pt(c)).collect();
        for a in &self.at {
            p[a / N][a % N] = T::nans()[self.kind];
        }
        p
    }
}
fn bits<T: Fl, const N: usize>(p: &[Point<T, N>]) -> Vec<[u64; N]> {
    p.iter().map(|c| un(c).map(f64::to_bits)).collect()
}

fn sorts<T: Nans, const N: usize>(side: i64, max: u32) -> Space {
    let s = std::sync::Arc::new(Spoiler::<N> { alphabet: lattice(side), min: 1, max });
    let s2 = s.clone();
    Space::new(
        format!("sorts {} {N}D len<={max} side {side}", T::NAME),
        s.size(),
        move |n| s2.describe(n),
        move |n, ctx| {
            let p: Vec<Point<T, N>> = s.nth(n).points();
            ctx.evals(3);
            ctx.outcome(bits(&p).iter().flatten().fold(H::new(1), |h, c| h.u(*c)));
            let mut q = p.clone();
            if lex_sort_in_place(&mut q) {
                return Err("lex_sort_in_place accepts it".into());
            }
            if bits(&q) != bits(&p) {
                return Err("lex_sort_in_place refuses it but changes it".into());
            }
            if lex_sort(&p).is_some() {
                return Err("lex_sort accepts it".into());
            }
            if lex_sort_ref(&p).is_some() {
                return Err("lex_sort_ref accepts it".into());
            }
            Ok(())
        },
    )
}

fn hulls<T: Nans>(side: i64, max: u32) -> Space
where
    T: AsPrimitive<f32> + AsPrimitive<f64>,
    usize: AsPrimitive<T>,
{
    let s = std::sync::Arc::new(Spoiler::<2> { alphabet: lattice(side), min: 1, max });
    let s2 = s.clone();
    Space::new(
        format!("hulls {} len<={max} side {side}", T::NAME),
        s.size(),
        move |n| s2.describe(n),
        move |n, ctx| {
            let p: Vec<Point2<T>> = s.nth(n).points();
            ctx.outcome(bits(&p).iter().flatten().fold(H::new(1), |h, c| h.u(*c)));
            for voxel in [None, Some(0.5), Some(1.7), Some(1e9)] {
                let single = voxel.map(|v| v as f32);
                ctx.evals(5);
                for (name, some) in [
                    ("graham_scan::<f64>", graham_scan::<f64, T>(&p, false, voxel).is_some()),
                    ("graham_scan::<f32>", graham_scan::<f32, T>(&p, false, single).is_some()),
                    ("graham_scan::<f64>, declared sorted,", voxel.is_some() && graham_scan::<f64, T>(&p, true, voxel).is_some()),
                    ("jarvis_march::<f64>", jarvis_march::<f64, T>(&p, voxel).is_some()),
                    ("jarvis_march::<f32>", jarvis_march::<f32, T>(&p, single).is_some()),
                ] {
                    if some {
                        return Err(format!("{name} with voxels {voxel:?} returns a hull").into());
                    }
                }
            }
            Ok(())
        },
    )
}

fn queries<T: Nans>(max: u32) -> Space
where
    f32: AsPrimitive<T>,
{
    let l = lattice::<2>(3);
    let l2 = l.clone();
    let others = [-1.0, 0.0, 0.5, 1.0, 2.0, 3.0];
    Space::new(
        format!("NaN query points {} polygons len<={max}", T::NAME),
        seq_count(9, 0, max),
        move |n| format!("polygon {:?}", seq_nth(9, 0, max, n).iter().map(|&i| l2[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let poly: Vec<Point2<T>> = seq_nth(9, 0, max, n).iter().map(|&i| Frame::UNIT.pt(&l[i])).collect();
            let mut q: Vec<Point2<T>> = Vec::new();
            for nan in T::nans() {
                for o in others {
                    q.push(Point2::new(nan, T::of(o)));
                    q.push(Point2::new(T::of(o), nan));
                }
                q.push(Point2::new(nan, nan));
            }
            for p in &q {
                ctx.eval();
                if is_single_point_in_polygon(p, &poly) {
                    return Err(format!("{p:?} is said to be inside").into());
                }
            }
            ctx.eval();
            match are_multiple_points_in_polygon(&q, &poly) {
                None if poly.len() < 3 => {}
                Some(v) if v.len() == q.len() && v.iter().all(|b| !b) => {}
                r => return Err(format!("the batch test answers {r:?}").into()),
            }
            ctx.outcome(H::new(n));
            Ok(())
        },
    )
}

fn registrations<T: Nans, const N: usize>(side: i64, max: u32, targets: u32) -> Space
where
    IsometryAbstractor<T, N>: AbstractIsometry<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let s = std::sync::Arc::new(Spoiler::<N> { alphabet: lattice(side), min: 1, max });
    let s2 = s.clone();
    let l = lattice::<N>(2);
    let k = l.len() as u64;
    let c = seq_count(k, 1, targets);
    Space::new(
        format!("ICP with a NaN source {} {N}D len<={max} side {side}, targets len<={targets}", T::NAME),
        s.size() * c,
        move |n| format!("source {} target #{}", s2.describe(n / c), n % c),
        move |n, ctx| {
            let a: Vec<Point<T, N>> = s.nth(n / c).points();
            let b: Vec<Point<T, N>> = seq_nth(k, 1, targets, n % c).iter().map(|&i| Frame::UNIT.pt(&l[i])).collect();
            for (max, abs, interval) in [(1usize, None, 0.01), (3, Some(1e9), 1e9), (2, Some(f64::INFINITY), f64::INFINITY)] {
                let cfg = ICPConfiguration::<T>::builder()
                    .with_max_iterations(max)
                    .with_absolute_mse_threshold(abs.map(T::of))
                    .with_mse_interval_threshold(T::of(interval))
                    .build();
                ctx.eval();
                match icp(&a, &b, cfg.clone()) {
                    Err(ICPError::AlrogithmDidNotConverge) => {}
                    Err(e) => return Err(format!("ICP fails with {e:?} under {cfg:?}").into()),
                    Ok(s) => return Err(format!("ICP claims to converge with an error of {} under {cfg:?}", s.mse).into()),
                }
                let (mut p, mut iso, mut mse) = (a.clone(), Isometry::identity(), T::of(1.0));
                ctx.eval();
                if let Ok(m) = icp_iteration(&a, &mut p, &b, None, &mut iso, &mut mse, &cfg) {
                    return Err(format!("an iteration claims to converge with an error of {m} under {cfg:?}").into());
                }
                ctx.outcome(H::new(max as u64).u(n / c));
            }
            Ok(())
        },
    )
}

/// the sorts alone, in other dimensions
fn large_sorts<T: Nans, const N: usize>(max: u64) -> Space {
    let places: Vec<(usize, usize)> =
        (1..=max as usize).flat_map(|len| (0..len).map(move |pos| (len, pos))).chain(ladder(max + 1, 1025).into_iter().flat_map(|l| ladder(1, l).into_iter().flat_map(move |p| [(l as usize, p as usize - 1), (l as usize, (l - p) as usize)]))).collect();
    let case = move |n: u64| {
        let mut d = Digits(n);
        let (axis, order) = (d.take(N as u64), d.take(2));
        let (len, pos) = places[d.0 as usize];
        (len, pos, axis, order)
    };
    let case = std::sync::Arc::new(case);
    let c2 = case.clone();
    let count = (2 * N * ((max * (max + 1) / 2) as usize + ladder(max + 1, 1025).into_iter().map(|l| 2 * ladder(1, l).len()).sum::<usize>())) as u64;
    Space::new(
        format!("sorts of clouds with one NaN {} {N}D", T::NAME),
        count,
        move |n| format!("(length, position, axis, order) = {:?}", c2(n)),
        move |n, ctx| {
            let (len, pos, axis, order) = case(n);
            let mut p: Vec<Point<T, N>> = (0..len).map(|i| Frame::UNIT.pt(&std::array::from_fn(|a| if order == 0 { i as i64 } else { (i * 29 + a * 7) as i64 % 31 }))).collect();
            p[pos][axis] = T::nans()[n as usize % 4];
            ctx.evals(3);
            ctx.outcome(H::new(n));
            let mut q = p.clone();
            for (name, ok) in [
                ("lex_sort_in_place", !lex_sort_in_place(&mut q) && bits(&q) == bits(&p)),
                ("lex_sort", lex_sort(&p).is_none()),
                ("lex_sort_ref", lex_sort_ref(&p).is_none()),
            ] {
                if !ok {
                    return Err(format!("{name} does not refuse it").into());
                }
            }
            Ok(())
        },
    )
}

/// NaN at every single position of clouds of every size
fn large<T: Nans>(max: u64) -> Space
where
    T: AsPrimitive<f32> + AsPrimitive<f64>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    IsometryAbstractor<T, 2>: AbstractIsometry<T, 2>,
{
    large_at::<T>(format!("of every length up to {max}"), (1..=max as usize).flat_map(|len| (0..len).map(move |pos| (len, pos))).collect())
}
/// one NaN in clouds of the given (length, position)
fn large_at<T: Nans>(name: String, places: Vec<(usize, usize)>) -> Space
where
    T: AsPrimitive<f32> + AsPrimitive<f64>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
    IsometryAbstractor<T, 2>: AbstractIsometry<T, 2>,
{
    // (length, position, axis, order of the cloud)
    let count = 6 * places.len() as u64;
    let case = move |n: u64| {
        let mut d = Digits(n);
        let (axis, order) = (d.take(2), d.take(3));
        let (len, pos) = places[d.0 as usize];
        (len, pos, axis, order)
    };
    let case = std::sync::Arc::new(case);
    let c2 = case.clone();
    Space::new(
        format!("one NaN in clouds {name} {}", T::NAME),
        count,
        move |n| format!("(length, position, axis, order) = {:?}", c2(n)),
        move |n, ctx| {
            let (len, pos, axis, order) = case(n);
            let side = if len > 4096 { 300 } else if len > 144 { 64 } else { 12 };
            let mut c: Vec<[i64; 2]> = strided::<2>(side, len, [1, 29, 61][order]);
            if order == 1 {
                c.sort();
            }
            let clean: Vec<Point2<T>> = c.iter().map(|p| Frame::UNIT.pt(p)).collect();
            let mut p = clean.clone();
            p[pos][axis] = T::nans()[n as usize % 4];
            ctx.evals(8);
            ctx.outcome(H::new(n));
            let mut q = p.clone();
            let refused = [
                ("lex_sort_in_place", !lex_sort_in_place(&mut q) && bits(&q) == bits(&p)),
                ("lex_sort", lex_sort(&p).is_none()),
                ("lex_sort_ref", lex_sort_ref(&p).is_none()),
                ("graham_scan", graham_scan::<f64, T>(&p, false, None).is_none()),
                ("graham_scan with voxels", graham_scan::<f64, T>(&p, n % 2 == 0, Some(2.3)).is_none()),
                ("jarvis_march", jarvis_march::<f64, T>(&p, None).is_none()),
                ("jarvis_march with voxels", jarvis_march::<f64, T>(&p, Some(2.3)).is_none()),
                (
                    "icp",
                    matches!(
                        icp(&p, &clean[..len.min(144)], ICPConfiguration::<T>::builder().with_max_iterations(2).with_mse_interval_threshold(T::of(1e9)).build()),
                        Err(ICPError::AlrogithmDidNotConverge)
                    ),
                ),
            ];
            for (name, ok) in refused {
                if !ok {
                    return Err(format!("{name} does not refuse it").into());
                }
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------------------------------------------------------
// C32

const BLOCK: u64 = 1 << 16;

fn all32() -> Space {
    Space::new(
        "every f32 bit pattern",
        1 << 16,
        |n| format!("bit patterns {:#x}..", n * BLOCK),
        |n, ctx| {
            for b in n * BLOCK..(n + 1) * BLOCK {
                let b = b as u32;
                let want = (b >> 23) & 0xff == 0xff && b & 0x7f_ffff != 0;
                if IsNan::is_nan(f32::from_bits(b)) != want {
                    return Err(format!("is_nan({b:#010x}) is {}", !want).into());
                }
            }
            ctx.evals(BLOCK);
            ctx.outcome(H::new(n));
            Ok(())
        },
    )
}

fn mantissas() -> Vec<u64> {
    let m = (1u64 << 52) - 1;
    let mut v = vec![0, m, 0x5_5555_5555_5555, 0xa_aaaa_aaaa_aaaa];
    for i in 0..52 {
        v.extend([1 << i, (1 << i) - 1, m ^ (1 << i), m ^ ((1 << i) - 1)]);
        for j in 0..i {
            v.push(1 << i | 1 << j);
        }
    }
    v.iter().map(|x| x & m).collect()
}
fn structured64() -> Space {
    let m = mantissas();
    Space::new(
        "every f64 sign and exponent, structured mantissas",
        4096,
        |n| format!("sign and exponent {n:#x}"),
        move |n, ctx| {
            for x in &m {
                let b = n << 52 | x;
                let want = n & 0x7ff == 0x7ff && *x != 0;
                if IsNan::is_nan(f64::from_bits(b)) != want {
                    return Err(format!("is_nan({b:#018x}) is {}", !want).into());
                }
            }
            ctx.evals(m.len() as u64);
            ctx.outcome(H::new(n));
            Ok(())
        },
    )
}
macro_rules! small_ints { ($plan:expr, $($t:ident $wide:ty, $size:expr);*) => { $( $plan.add(Space::new(
    format!("every {}", stringify!($t)),
    ($size + BLOCK - 1) / BLOCK,
    |n| format!("bit patterns {:#x}..", n * BLOCK),
    |n, ctx| {
        for b in n * BLOCK..((n + 1) * BLOCK).min($size) {
            if IsNan::is_nan(b as $t) {
                return Err(format!("is_nan({}) is true", b as $t).into());
            }
        }
        ctx.evals(BLOCK.min($size));
        ctx.outcome(H::new(n));
        Ok(())
    }
)); )* } }
macro_rules! large_ints { ($plan:expr, $($t:ident $w:literal),*) => { $( $plan.add(Space::new(
    format!("{} around every power of two and pattern of two bits", stringify!($t)),
    $w * $w,
    |n| format!("bits {} and {}", n % $w, n / $w),
    |n, ctx| {
        let x = (1 as $t).wrapping_shl((n % $w) as u32) | (1 as $t).wrapping_shl((n / $w) as u32);
        for d in -20i32..=20 {
            for v in [x, !x, (0 as $t).wrapping_sub(x)] {
                let v = v.wrapping_add(d as $t);
                if IsNan::is_nan(v) {
                    return Err(format!("is_nan({v}) is true").into());
                }
            }
        }
        ctx.evals(123);
        ctx.outcome(H::new(n));
        Ok(())
    }
)); )* } }

fn plan(id: &str, tier: Tier) -> Option<Plan> {
    Some(match id {
        "C31" => {
            let mut p = Plan::new("exploration", "distinct clouds with NaN coordinates");
            p.add(sorts::<f64, 2>(2, tier.pick(4, 5)));
            p.add(sorts::<f32, 3>(2, tier.pick(3, 4)));
            p.add(sorts::<f64, 1>(3, tier.pick(4, 6)));
            p.add(sorts::<f32, 2>(3, 3));
            p.add(hulls::<f64>(2, tier.pick(4, 5)));
            p.add(hulls::<f32>(2, tier.pick(4, 5)));
            p.add(hulls::<f64>(3, tier.pick(3, 4)));
            p.add(large::<f64>(tier.pick(64, 144)));
            p.add(large::<f32>(tier.pick(40, 144)));
            let places = |max| ladder(65, max).into_iter().flat_map(|l| ladder(1, l).into_iter().flat_map(move |p| [(l as usize, p as usize - 1), (l as usize, (l - p) as usize)])).collect::<Vec<_>>();
            p.add(large_at::<f64>("of large sizes".into(), places(tier.pick(1025, 4097))));
            p.add(large_at::<f32>("of large sizes".into(), places(tier.pick(513, 4097))));
            let far = |lens: &[usize]| lens.iter().flat_map(|&l| [(l, 0), (l, 65_535), (l, 65_536), (l, l - 1)]).filter(|p| p.1 < p.0).collect::<Vec<_>>();
            p.add(large_at::<f64>("of more than 65 535 points".into(), far(&[65_536, 65_537, 70_001])));
            p.add(large_at::<f32>("of more than 65 535 points".into(), far(&[65_537])));
            p.add(large_sorts::<f64, 1>(tier.pick(130, 300)));
            p.add(large_sorts::<f32, 1>(tier.pick(130, 300)));
            p.add(large_sorts::<f64, 3>(tier.pick(70, 140)));
            p.add(large_sorts::<f32, 4>(tier.pick(70, 140)));
            p.add(queries::<f64>(tier.pick(4, 6)));
            p.add(queries::<f32>(tier.pick(4, 6)));
            p.add(registrations::<f64, 2>(2, 3, 2));
            p.add(registrations::<f32, 2>(2, 2, tier.pick(2, 3)));
            p.add(registrations::<f64, 3>(2, 2, tier.pick(1, 2)));
            p.add(registrations::<f32, 3>(2, 2, tier.pick(1, 2)));
            p
        }
        "C32" => {
            let mut p = Plan::new("exploration", "one per block of bit patterns; f32 and integers up to 32 bits are covered completely");
            p.add(all32());
            p.add(structured64());
            small_ints!(p, u8 u64, 1 << 8; i8 u64, 1 << 8; u16 u64, 1 << 16; i16 u64, 1 << 16; u32 u64, 1u64 << 32; i32 u64, 1u64 << 32);
            large_ints!(p, u64 64, i64 64, usize 64, isize 64, u128 128, i128 128);
            p
        }
        _ => return None,
    })
}

fn main() {
    mc::main(plan)
}
