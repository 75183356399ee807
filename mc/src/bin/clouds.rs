//! C05-C08: lexicographic sorts, voxel downsampling, centroid and transforms, generated clouds.
use mapping_algorithms::point_clouds::{
        calculate_point_cloud_center, downsample_point_cloud_voxel, generate_point_cloud, lex_sort, lex_sort_in_place, lex_sort_ref,
        transform_point_cloud,
    };
use mc::{util::*, *};
use nalgebra::{AbstractRotation, Isometry, Point, Rotation2, Rotation3, Translation, Unit, UnitComplex, UnitQuaternion, Vector3};
use num_traits::AsPrimitive;
use std::{collections::BTreeMap, fmt::Debug};

// ------------------------------------------------------------------------------------------------ C05

trait Bits: Num {
    fn bits(self) -> u128;
}
macro_rules! int_bits { ($($t:ty),*) => { $(impl Bits for $t { fn bits(self) -> u128 { self as i128 as u128 } })* } }
int_bits!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, i128);
impl Bits for u128 {
    fn bits(self) -> u128 {
        self
    }
}
impl Bits for f32 {
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}
impl Bits for f64 {
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}

fn key<T: Bits, const N: usize>(p: &Point<T, N>) -> [u128; N] {
    std::array::from_fn(|i| p[i].bits())
}
fn keys<T: Bits, const N: usize>(v: &[Point<T, N>]) -> Vec<[u128; N]> {
    v.iter().map(key).collect()
}
/// a <= b lexicographically
fn le<T: Bits, const N: usize>(a: &Point<T, N>, b: &Point<T, N>) -> bool {
    for i in 0..N {
        if a[i] < b[i] {
            return true;
        }
        if a[i] > b[i] {
            return false;
        }
    }
    true
}

fn check_sorts<T: Bits, const N: usize>(pts: &[Point<T, N>], ctx: &mut Ctx) -> Res {
    let refuse = N == 0 || pts.iter().any(|p| p.iter().any(|c| c.partial_cmp(c).is_none()));
    let original = keys(pts);
    let mut counts = original.clone();
    counts.sort();
    let sorted_permutation = |v: &[Point<T, N>], who: &str| -> Result<(), String> {
        let mut k = keys(v);
        k.sort();
        if k != counts {
            return Err(format!("{who} yields {v:?}, not a permutation of {pts:?}"));
        }
        if let Some(w) = v.windows(2).find(|w| !le(&w[0], &w[1])) {
            return Err(format!("{who} yields {v:?}: {:?} before {:?}", w[0], w[1]));
        }
        Ok(())
    };
    ctx.evals(3);
    let mut in_place = pts.to_vec();
    let ok = lex_sort_in_place(&mut in_place);
    if ok == refuse {
        return Err(format!("lex_sort_in_place returns {ok} for {pts:?}").into());
    }
    if refuse {
        if keys(&in_place) != original {
            return Err(format!("lex_sort_in_place refuses {pts:?} but leaves {in_place:?}").into());
        }
    } else {
        sorted_permutation(&in_place, "lex_sort_in_place")?;
    }
    match lex_sort(pts) {
        None if refuse => {}
        Some(v) if !refuse => sorted_permutation(&v, "lex_sort")?,
        r => return Err(format!("lex_sort returns {r:?} for {pts:?}").into()),
    }
    match lex_sort_ref(pts) {
        None if refuse => {}
        Some(v) if !refuse => {
            let copied: Vec<Point<T, N>> = v.iter().map(|p| **p).collect();
            sorted_permutation(&copied, "lex_sort_ref")?;
            let range = pts.as_ptr_range();
            let mut at: Vec<*const Point<T, N>> = v.iter().map(|p| *p as *const _).collect();
            at.sort();
            at.dedup();
            if at.len() != pts.len() || at.iter().any(|p| !range.contains(p)) {
                return Err(format!("lex_sort_ref does not refer to every element of {pts:?} once").into());
            }
        }
        r => return Err(format!("lex_sort_ref returns {r:?} for {pts:?}").into()),
    }
    if keys(pts) != original {
        return Err("the input of a copying sort was modified".into());
    }
    if !refuse {
        ctx.outcome(in_place.iter().fold(H::new(N as u64), |h, p| key(p).iter().fold(h, |h, c| h.u(*c as u64))));
    } else {
        ctx.outcome(H::new(99).u(pts.len() as u64));
    }
    Ok(())
}

fn sort_sequences<T: Bits, const N: usize>(name: &str, values: Vec<T>, max: u32) -> Space {
    let alphabet: Vec<Point<T, N>> = lattice::<N>(values.len() as i64).into_iter().map(|p| Point::from(p.map(|c| values[c as usize]))).collect();
    let k = alphabet.len() as u64;
    let a2 = alphabet.clone();
    Space::new(
        format!("sort {name} {} {N}D len<={max}", std::any::type_name::<T>()),
        seq_count(k, 0, max),
        move |n| format!("{:?}", seq_nth(k, 0, max, n).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let pts: Vec<Point<T, N>> = seq_nth(k, 0, max, n).iter().map(|&i| alphabet[i]).collect();
            check_sorts(&pts, ctx)
        },
    )
}

/// every size, several arrangements, and a NaN in every position and axis
fn sort_sizes<T: Bits + Fl, const N: usize>(max: u64) -> Space {
    let case = move |n: u64| -> Vec<Point<T, N>> {
        let mut d = Digits(n);
        let (arrangement, nan, len) = (d.take(5) as u64, d.take(max * N as u64 + 1) as u64, d.take(max + 1) as u64);
        let mut v: Vec<Point<T, N>> = (0..len)
            .map(|i| {
                let x: u64 = match arrangement {
                    0 => i,
                    1 => len - i,
                    2 => i * 7919 % 64,
                    3 => (i * i * 31 + i) % 17,
                    _ => i % 2,
                };
                Point::from(std::array::from_fn(|a| T::of(if a + 1 == N { x as f64 - 5.0 } else { (x / 4 % 4) as f64 - 1.0 })))
            })
            .collect();
        if nan > 0 && (nan - 1) / (N as u64) < len {
            v[((nan - 1) / N as u64) as usize][((nan - 1) % N as u64) as usize] = <T as num_traits::Float>::nan();
        }
        v
    };
    Space::new(
        format!("sort every size <={max} with a NaN anywhere {} {N}D", <T as Fl>::NAME),
        5 * (max * N as u64 + 1) * (max + 1),
        move |n| format!("{:?}", case(n)),
        move |n, ctx| {
            let mut d = Digits(n);
            let (_, nan, len) = (d.take(5), d.take(max * N as u64 + 1) as u64, d.take(max + 1) as u64);
            if nan > 0 && (nan - 1) / (N as u64) >= len {
                return Ok(());
            }
            check_sorts(&case(n), ctx)
        },
    )
}

/// every size, all points apart in the first coordinate but for one pair (or triple) that agrees in all coordinates but the last
fn sort_ties<T: Bits, const N: usize>(max: u64, orders: u64) -> Space {
    let decode = move |n: u64| {
        let mut d = Digits(n);
        (d.take(4) as u64, d.take(orders) as u64, d.take(max) as u64, d.take(max) as u64, d.take(max + 1) as u64)
    };
    let case = move |n: u64| -> Vec<Point<T, N>> {
        let (variant, order, j, k, len) = decode(n);
        let x = |i: u64| match order {
            0 => i,
            1 => len - i,
            _ => i * 37 % 127 + 1,
        };
        let mut v: Vec<Point<T, N>> = (0..len).map(|i| Point::from(std::array::from_fn(|a| T::from_u64(if a + 1 == N { 3 } else { x(i) }).unwrap()))).collect();
        let last = |p: &Point<T, N>, y: u64| {
            let mut p = *p;
            p[N - 1] = T::from_u64(y).unwrap();
            p
        };
        if variant == 3 && len > 2 {
            // a third one in between
            let m = ((j + k) / 2 + 1) % len;
            v[m as usize] = last(&v[j as usize], 4);
        }
        v[k as usize] = last(&v[j as usize], [2, 4, 3, 2][variant as usize]);
        v
    };
    Space::new(
        format!("sort every size <={max} with tied leading coordinates {} {N}D", std::any::type_name::<T>()),
        4 * orders * max * max * (max + 1),
        move |n| format!("{:?}", case(n)),
        move |n, ctx| {
            let (_, _, j, k, len) = decode(n);
            if j >= len || k >= len || j == k {
                return Ok(());
            }
            check_sorts(&case(n), ctx)
        },
    )
}

/// large clouds with a NaN nowhere, first, last or in the middle
fn sort_large<T: Bits + Fl, const N: usize>() -> Space {
    const LENS: [usize; 18] = [100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 4097, 20_000, 65_535, 65_536, 65_537, 70_001];
    Space::new(
        format!("sort large {} {N}D", <T as Fl>::NAME),
        LENS.len() as u64 * 4 * 4,
        |n| format!("{} points, arrangement {}, NaN variant {}", LENS[(n / 16) as usize], n / 4 % 4, n % 4),
        |n, ctx| {
            let len = LENS[(n / 16) as usize];
            let mut v: Vec<Point<T, N>> = (0..len)
                .map(|i| {
                    let x = match n / 4 % 4 {
                        0 => i,
                        1 => len - i,
                        2 => i * 7919 % 1009,
                        _ => i % 3,
                    };
                    Point::from(std::array::from_fn(|a| T::of(if a + 1 == N { x as f64 } else { (x / 4 % 5) as f64 })))
                })
                .collect();
            match n % 4 {
                1 => v[0][N - 1] = <T as num_traits::Float>::nan(),
                2 => v[len - 1][0] = <T as num_traits::Float>::nan(),
                3 => v[len / 2][N / 2] = <T as num_traits::Float>::nan(),
                _ => {}
            }
            check_sorts(&v, ctx)
        },
    )
}

/// points that differ in one coordinate each, in many dimensions
fn sort_axes<T: Bits, const N: usize>(letters: [T; 3], max: u32) -> Space {
    let alphabet: Vec<Point<T, N>> = (0..N)
        .flat_map(|a| [letters[0], letters[2]].map(|v| Point::from(std::array::from_fn(|i| if i == a { v } else { letters[1] }))))
        .chain([Point::from([letters[1]; N])])
        .collect();
    let k = alphabet.len() as u64;
    let a2 = alphabet.clone();
    Space::new(
        format!("sort points on the axes {} {N}D len<={max}", std::any::type_name::<T>()),
        seq_count(k, 0, max),
        move |n| format!("{:?}", seq_nth(k, 0, max, n).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| check_sorts(&seq_nth(k, 0, max, n).iter().map(|&i| alphabet[i]).collect::<Vec<_>>(), ctx),
    )
}

fn c05(tier: Tier) -> Plan {
    let mut p = Plan::new(
        "exploration",
        "every sequence over an alphabet of points up to a length, and every size up to a bound with a NaN at every position; each is given to the three sorts; non-trivial outcome: distinct (space, sorted sequence)",
    );
    p.add(sort_sequences::<f64, 2>("lattice", vec![-1.0, 0.0, 1.0], tier.pick(7, 8)));
    p.add(sort_sequences::<f32, 2>("lattice", vec![2.0, -3.5, 0.25], tier.pick(5, 6)));
    p.add(sort_sequences::<f64, 3>("lattice", vec![0.0, 1.0], tier.pick(7, 8)));
    p.add(sort_sequences::<f32, 4>("lattice", vec![1.0, -1.0], tier.pick(4, 5)));
    p.add(sort_sequences::<f64, 1>("lattice", vec![3.0, -2.0, 7.0, 0.5, -9.0], tier.pick(7, 8)));
    p.add(sort_sequences::<f64, 0>("zero-dimensional", vec![0.0], 5));
    p.add(sort_sequences::<i32, 0>("zero-dimensional", vec![0], 5));
    let special = [f64::NEG_INFINITY, f64::MIN, -1.0, -0.0, 0.0, f64::MIN_POSITIVE / 4.0, f64::MAX, f64::INFINITY, f64::NAN, -f64::NAN];
    let special32 = [f32::NEG_INFINITY, f32::MIN, -1.0, -0.0, 0.0, f32::MIN_POSITIVE / 4.0, f32::MAX, f32::INFINITY, f32::NAN, -f32::NAN];
    p.add(sort_sequences::<f64, 1>("special values", special.to_vec(), tier.pick(5, 6)));
    p.add(sort_sequences::<f32, 1>("special values", special32.to_vec(), tier.pick(5, 6)));
    p.add(sort_sequences::<f64, 2>("special values", special.to_vec(), tier.pick(2, 3)));
    p.add(sort_sequences::<f32, 2>("special values", vec![-0.0, 0.0, f32::INFINITY, f32::NAN], 4));
    p.add(sort_sequences::<f64, 3>("special values", vec![f64::NAN, 0.0, -1.0], tier.pick(3, 4)));
    macro_rules! ints { ($($t:ty),*) => { $(
        p.add(sort_sequences::<$t, 2>("extremes", vec![<$t>::MIN, <$t>::MIN + 1, <$t>::MAX / 2, <$t>::MAX], tier.pick(3, 4)));
        p.add(sort_sequences::<$t, 1>("extremes", vec![<$t>::MAX, <$t>::MIN, <$t>::MAX / 2, <$t>::MAX / 2 + 1], 6));
    )* } }
    ints!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128);
    p.add(sort_axes::<f64, 4>([-1.0, 0.0, 2.0], tier.pick(4, 5)));
    p.add(sort_axes::<f32, 5>([-1.0, 0.0, 2.0], tier.pick(4, 5)));
    p.add(sort_axes::<f64, 6>([-1.0, 0.0, 2.0], tier.pick(4, 5)));
    p.add(sort_axes::<i32, 7>([-1, 0, 2], tier.pick(3, 4)));
    p.add(sort_axes::<f64, 8>([-1.0, 0.0, f64::NAN], tier.pick(3, 4)));
    p.add(sort_axes::<u8, 9>([3, 4, 5], tier.pick(3, 4)));
    p.add(sort_axes::<f32, 12>([-1.0, 0.0, 2.0], 3));
    p.add(sort_sizes::<f64, 2>(tier.pick(70, 150)));
    p.add(sort_sizes::<f32, 3>(tier.pick(40, 80)));
    p.add(sort_sizes::<f32, 1>(tier.pick(70, 150)));
    p.add(sort_ties::<f64, 2>(tier.pick(70, 127), 3));
    p.add(sort_ties::<f32, 3>(tier.pick(40, 70), 3));
    p.add(sort_ties::<f32, 2>(tier.pick(40, 70), 3));
    p.add(sort_ties::<u8, 2>(tier.pick(40, 70), 3));
    p.add(sort_ties::<i64, 4>(tier.pick(24, 40), 3));
    p.add(sort_large::<f64, 2>());
    p.add(sort_large::<f32, 3>());
    p
}

// ------------------------------------------------------------------------------------------------ C06

/// coordinates are k * unit, the voxel size is w * unit (both in integers, or guaranteed off the boundary)
struct Voxels {
    unit: f64,
    /// voxel size as the fraction num / den of the unit
    num: i64,
    den: i64,
}

fn check_voxels<T, O, const N: usize>(cloud: &[[i64; N]], v: &Voxels, ctx: &mut Ctx) -> Res
where
    T: Fl + AsPrimitive<O>,
    O: Fl + AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    let pts: Vec<Point<T, N>> = cloud.iter().map(|c| pt(c.map(|k| k as f64 * v.unit))).collect();
    let size = O::of(v.unit * v.num as f64 / v.den as f64);
    let got = downsample_point_cloud_voxel::<T, O, N>(&pts, size);
    ctx.eval();
    let mut cells: BTreeMap<[i64; N], (i64, [i64; N])> = BTreeMap::new();
    for c in cloud {
        let e = cells.entry(c.map(|k| (k * v.den).div_euclid(v.num))).or_insert((0, [0; N]));
        e.0 += 1;
        for i in 0..N {
            e.1[i] += c[i];
        }
    }
    let means: Vec<[f64; N]> = cells.values().map(|(n, s)| s.map(|s| s as f64 * v.unit / *n as f64)).collect();
    let fail = |what: String| -> Res { Err(format!("voxel size {:?}: {what}; got {got:?}, expected the means {means:?}", size.f()).into()) };
    if got.len() != means.len() {
        return fail(format!("{} points for {} occupied voxels", got.len(), means.len()));
    }
    let scale = cloud.iter().flatten().map(|k| (*k as f64 * v.unit).abs()).fold(v.unit, f64::max);
    let tol = scale * <T as Fl>::EPS * (4.0 + cloud.len() as f64);
    let mut used = vec![false; got.len()];
    for m in &means {
        let hit = (0..got.len()).find(|&g| !used[g] && (0..N).all(|i| (got[g][i].f() - m[i]).abs() <= tol));
        match hit {
            Some(g) => used[g] = true,
            None => return fail(format!("no point for the mean {m:?}")),
        }
    }
    ctx.outcome(cells.iter().fold(H::new(N as u64), |h, (k, (n, s))| k.iter().chain(s).fold(h.i(*n), |h, c| h.i(*c))));
    Ok(())
}

fn voxel_sequences<T, O, const N: usize>(ks: Vec<i64>, unit: f64, sizes: Vec<(i64, i64)>, max: u32) -> Space
where
    T: Fl + AsPrimitive<O>,
    O: Fl + AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    let alphabet: Vec<[i64; N]> = lattice::<N>(ks.len() as i64).into_iter().map(|p| p.map(|c| ks[c as usize])).collect();
    let k = alphabet.len() as u64;
    let (a2, s2) = (alphabet.clone(), sizes.clone());
    let m = sizes.len() as u64;
    Space::new(
        format!("voxels {}/{} {N}D coordinates {ks:?}x{unit} len<={max}", <T as Fl>::NAME, <O as Fl>::NAME),
        seq_count(k, 0, max) * m,
        move |n| {
            format!("points {:?} x {unit}, voxel size {:?} x {unit}", seq_nth(k, 0, max, n / m).iter().map(|&i| a2[i]).collect::<Vec<_>>(), s2[(n % m) as usize])
        },
        move |n, ctx| {
            let cloud: Vec<[i64; N]> = seq_nth(k, 0, max, n / m).iter().map(|&i| alphabet[i]).collect();
            let (num, den) = sizes[(n % m) as usize];
            check_voxels::<T, O, N>(&cloud, &Voxels { unit, num, den }, ctx)
        },
    )
}

fn voxel_sizes<T, O, const N: usize>(max: u64) -> Space
where
    T: Fl + AsPrimitive<O>,
    O: Fl + AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    let sizes = [(1i64, 1i64), (3, 1), (4, 1), (16, 1), (64, 1)];
    let side = if N == 1 { 200 } else if N == 2 { 20 } else { 8 };
    Space::new(
        format!("voxels {}/{} {N}D every size <={max}", <T as Fl>::NAME, <O as Fl>::NAME),
        (max + 1) * 10,
        move |n| format!("the first {} points of the lattice of side {side} (from {}), stride {}, voxel {:?}", n / 10, -side / 2, [7, 1][(n / 5 % 2) as usize], sizes[(n % 5) as usize]),
        move |n, ctx| {
            let (num, den) = sizes[(n % 5) as usize];
            let cloud: Vec<[i64; N]> = strided::<N>(side, (n / 10) as usize, [7, 1][(n / 5 % 2) as usize]).into_iter().map(|p| p.map(|c| c - side / 2)).collect();
            check_voxels::<T, O, N>(&cloud, &Voxels { unit: 0.25, num, den }, ctx)
        },
    )
}

/// every whole voxel size up to a bound, with points right at, just below and just above many voxel boundaries
fn voxel_boundaries<T, O, const N: usize>(max: i64, ks: Vec<i64>, den: i64) -> Space
where
    T: Fl + AsPrimitive<O>,
    O: Fl + AsPrimitive<T>,
{
    let nk = ks.len() as u64;
    let k2 = ks.clone();
    Space::new(
        format!("voxels {}/{} {N}D around multiples {}..={} of every size 1..={max}", <T as Fl>::NAME, <O as Fl>::NAME, ks[0], ks[ks.len() - 1]),
        max as u64 * nk,
        move |n| format!("voxel size {}, 1/{den} around its multiple by {}", n / nk + 1, k2[(n % nk) as usize]),
        move |n, ctx| {
            let (size, k) = ((n / nk) as i64 + 1, ks[(n % nk) as usize]);
            let cloud: Vec<[i64; N]> = lattice_range::<N>(-1, 1).into_iter().map(|p| std::array::from_fn(|a| if a == 0 || p[a] != 0 { k * size * den + p[a] } else { (k + a as i64) * size * den })).collect();
            check_voxels::<T, O, N>(&cloud, &Voxels { unit: 1.0 / den as f64, num: size * den, den: 1 }, ctx)
        },
    )
}

/// thousands of points in one voxel, or in voxels on a diagonal
fn voxel_crowds<T, O, const N: usize>() -> Space
where
    T: Fl + AsPrimitive<O>,
    O: Fl + AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    const LENS: [i64; 8] = [255, 256, 257, 1000, 4097, 10_000, 65_536, 70_000];
    Space::new(
        format!("voxels {}/{} {N}D crowds", <T as Fl>::NAME, <O as Fl>::NAME),
        LENS.len() as u64 * 3,
        |n| format!("{} points, {} voxels", LENS[(n / 3) as usize], [1, 2, 10][(n % 3) as usize]),
        |n, ctx| {
            let m = [1, 2, 10][(n % 3) as usize];
            let cloud: Vec<[i64; N]> = (0..LENS[(n / 3) as usize]).map(|i| std::array::from_fn(|a| i % m * 8 + (i / m + a as i64) % 2)).collect();
            check_voxels::<T, O, N>(&cloud, &Voxels { unit: 1.0, num: 8, den: 1 }, ctx)
        },
    )
}

/// as many voxels as points, or about half as many, at every size of the ladder
fn voxel_many<T, O, const N: usize>(max: u64) -> Space
where
    T: Fl + AsPrimitive<O>,
    O: Fl + AsPrimitive<T>,
    usize: AsPrimitive<T>,
{
    let sizes = ladder(100, max);
    let s2 = sizes.clone();
    Space::new(
        format!("voxels {}/{} {N}D up to {max} of them", <T as Fl>::NAME, <O as Fl>::NAME),
        sizes.len() as u64 * 2,
        move |n| format!("{} scattered points, variant {}", s2[(n / 2) as usize], n % 2),
        move |n, ctx| {
            let cloud: Vec<[i64; N]> = scattered::<N>(sizes[(n / 2) as usize])
                .into_iter()
                .flat_map(|p| {
                    let p = p.map(|c| c >> 8);
                    if n % 2 == 0 { vec![p] } else { vec![p, std::array::from_fn(|a| (p[a] & !1) + (p[a] & 1 ^ 1))] }
                })
                .collect();
            check_voxels::<T, O, N>(&cloud, &Voxels { unit: 0.5, num: 2, den: 1 }, ctx)
        },
    )
}

/// two points around voxel indices as large as the index type and larger
fn voxel_indices<T, O, const N: usize>() -> Space
where
    T: Fl + AsPrimitive<O>,
    O: Fl + AsPrimitive<T>,
{
    let case = |n: u64| {
        let mut d = Digits(n);
        let (e, sign, axis, voxel) = (40 + d.take(60) as i32, [1.0, -1.0][d.take(2)], d.take(N as u64), [1.0, 0.25, 1024.0][d.take(3)]);
        // two neighbouring powers of two, as voxel indices
        let p = |e: i32| -> [f64; N] { std::array::from_fn(|i| if i == axis { sign * voxel * 2f64.powi(e) } else { voxel / 4.0 }) };
        (e, voxel, [p(e), p(e + 1)])
    };
    Space::new(
        format!("voxels {}/{} {N}D of the highest indices", <T as Fl>::NAME, <O as Fl>::NAME),
        60 * 2 * N as u64 * 3,
        move |n| format!("points {:?}, voxel size {}", case(n).2, case(n).1),
        move |n, ctx| {
            let (e, voxel, cloud) = case(n);
            let pts: Vec<Point<T, N>> = cloud.iter().map(|p| pt(*p)).collect();
            ctx.eval();
            let mut got: Vec<[f64; N]> = downsample_point_cloud_voxel::<T, O, N>(&pts, O::of(voxel)).iter().map(un).collect();
            got.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut want = cloud.to_vec();
            want.sort_by(|a, b| a.partial_cmp(b).unwrap());
            ctx.outcome(H::new(got.len() as u64).u(e as u64));
            if got != want {
                // listed: indices saturate at the ends of isize
                let key = if e >= 63 && got.len() == 1 { "voxel-index-saturation".into() } else { String::new() };
                return Err(Failure { key, msg: format!("{got:?} instead of {want:?}") });
            }
            Ok(())
        },
    )
}

/// Voxels that a key computed from the indices (a polynomial or a mix of multiples) might take for one another:
/// one step along one axis against any number of steps along another.
fn voxel_keys<const N: usize>(max: u64) -> Space {
    const CHUNK: u64 = 1000;
    const MULTIPLIERS: [i64; 16] = [
        1, 3, 31, 37, 131, 1_000_003, 16_777_619, 19_349_663, 73_856_093, 83_492_791, 0x5bd1_e995, 2_654_435_761, 0x9e37_79b9, 4_294_967_291, 4_294_967_296, 6_700_417,
    ];
    let chunks = max / CHUNK;
    let axes: Vec<(usize, usize)> = (0..N).flat_map(|a| (0..N).filter(move |&b| b != a).map(move |b| (a, b))).collect();
    let at = |a: usize, x: i64, b: usize, y: i64| -> [i64; N] { std::array::from_fn(|i| if i == a { x } else if i == b { y } else { 0 }) };
    let n_axes = axes.len() as u64;
    let case = move |n: u64| -> Vec<[i64; N]> {
        let (a, b) = axes[(n % n_axes) as usize];
        let c = n / n_axes;
        if c < chunks {
            let mut v = vec![at(a, 1, b, 0), at(a, -1, b, 0), at(a, 2, b, 0)];
            v.extend((c * CHUNK..(c + 1) * CHUNK).map(|y| at(a, 0, b, y as i64 + 1)));
            v
        } else {
            let (p, q) = (MULTIPLIERS[((c - chunks) / 16) as usize], MULTIPLIERS[((c - chunks) % 16) as usize]);
            let mut v = vec![at(a, p, b, 0), at(a, 0, b, q), at(a, -p, b, 0), at(a, 0, b, -q)];
            if p != q {
                v.extend([at(a, q, b, 0), at(a, 0, b, p)]);
            }
            v
        }
    };
    let c2 = case.clone();
    Space::new(
        format!("voxels f64 {N}D one step along an axis against up to {max} along another, and pairs of common multipliers"),
        (chunks + 256) * n_axes,
        move |n| format!("voxels {:?}...", &c2(n)[..4]),
        move |n, ctx| check_voxels::<f64, f64, N>(&case(n), &Voxels { unit: 0.5, num: 1, den: 1 }, ctx),
    )
}

fn c06(tier: Tier) -> Plan {
    let mut p = Plan::new(
        "exploration",
        "every sequence of lattice points up to a length with every voxel size of a list, and every size up to a bound of large clouds, against integer floor division; non-trivial outcome: distinct (space, set of voxels with their count and sum)",
    )
    .assume("coordinate over voxel size is exact or at least 1/24 of a voxel away from a voxel boundary, and within isize");
    let dyadic = vec![(1, 1), (2, 1), (4, 1), (8, 1)];
    // odd multiples of 1/8 against multiples of 1/10: never on a boundary
    let decimal = vec![(8, 10), (24, 10), (40, 10), (56, 10), (8, 1)];
    p.add(voxel_indices::<f64, f64, 1>());
    p.add(voxel_indices::<f32, f32, 2>());
    p.add(voxel_indices::<f64, f64, 3>());
    p.add(voxel_sequences::<f64, f64, 1>((-9..=9).collect(), 0.25, dyadic.clone(), tier.pick(4, 5)));
    p.add(voxel_sequences::<f32, f32, 1>((-5..=5).collect(), 0.5, vec![(1, 1), (2, 1), (3, 1), (5, 1)], tier.pick(4, 5)));
    p.add(voxel_sequences::<f64, f64, 2>(vec![-5, -4, -1, 0, 3, 4], 0.25, dyadic.clone(), tier.pick(4, 5)));
    p.add(voxel_sequences::<f32, f32, 2>(vec![-4, -3, 0, 1, 4], 0.25, dyadic.clone(), tier.pick(3, 4)));
    p.add(voxel_sequences::<f64, f64, 2>(vec![-1, 0, 1], 1.0, vec![(1, 1), (2, 1), (3, 1)], tier.pick(6, 7)));
    p.add(voxel_sequences::<f64, f64, 3>(vec![-4, -1, 0, 4], 0.25, dyadic.clone(), tier.pick(2, 3)));
    p.add(voxel_sequences::<f32, f32, 3>(vec![-1, 0, 1], 0.5, vec![(1, 1), (2, 1), (4, 1)], tier.pick(3, 4)));
    p.add(voxel_sequences::<f64, f64, 4>(vec![-1, 0], 0.5, vec![(1, 1), (2, 1)], tier.pick(3, 4)));
    p.add(voxel_sequences::<f64, f64, 5>(vec![-1, 0], 0.5, vec![(1, 1), (2, 1)], 2));
    p.add(voxel_sequences::<f32, f32, 6>(vec![-1, 0], 0.5, vec![(1, 1), (2, 1)], 2));
    p.add(voxel_sequences::<f32, f64, 2>(vec![-4, -3, 0, 4], 0.25, dyadic.clone(), 3));
    p.add(voxel_sequences::<f64, f32, 2>(vec![-4, -3, 0, 4], 0.25, dyadic, 3));
    p.add(voxel_sequences::<f64, f64, 2>(vec![-17, -9, -1, 1, 7, 15], 0.125, decimal.clone(), tier.pick(3, 5)));
    p.add(voxel_sequences::<f32, f32, 1>(vec![-33, -17, -9, -7, -1, 1, 7, 9, 15, 31], 0.125, decimal, tier.pick(4, 5)));
    p.add(voxel_sequences::<f64, f64, 2>(vec![-1_000_001, -4, 0, 999_999], 1024.0, vec![(1, 1), (1024, 1)], 3));
    p.add(voxel_sequences::<f32, f32, 2>(vec![-70_001, 0, 40_000, 69_999], 1.0, vec![(1, 1), (7, 1)], 3));
    // voxel numbers that collide when truncated to 8, 16 or 32 bits
    p.add(voxel_sequences::<f64, f64, 2>(vec![0, 1 << 32, (1 << 32) + 1, -(1 << 32), 1 << 31, -(1 << 31) - 1], 1.0, vec![(1, 1), (2, 1)], tier.pick(2, 3)));
    p.add(voxel_sequences::<f64, f64, 1>(vec![0, 1 << 8, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 40, -1, -(1 << 8) - 1, -(1 << 31), -(1 << 32) - 1], 1.0, vec![(1, 1), (16, 1)], tier.pick(3, 4)));
    p.add(voxel_sequences::<f32, f32, 2>(vec![0, 1 << 8, 1 << 16, -(1 << 16), (1 << 16) + 1], 1.0, vec![(1, 1)], tier.pick(3, 3)));
    let ks: Vec<i64> = (-60..=60).collect();
    p.add(voxel_boundaries::<f64, f64, 1>(tier.pick(300, 2000), (-300..=300).collect(), 1));
    p.add(voxel_boundaries::<f64, f64, 2>(tier.pick(120, 400), ks.clone(), 2));
    p.add(voxel_boundaries::<f32, f32, 1>(tier.pick(300, 2000), (-300..=300).collect(), 1));
    p.add(voxel_boundaries::<f32, f32, 2>(tier.pick(120, 400), ks.clone(), 4));
    p.add(voxel_boundaries::<f32, f64, 2>(tier.pick(60, 200), ks.clone(), 1));
    p.add(voxel_boundaries::<f64, f32, 2>(tier.pick(60, 200), ks.clone(), 1));
    p.add(voxel_boundaries::<f32, f32, 3>(tier.pick(60, 200), ks, 2));
    p.add(voxel_keys::<2>(tier.pick(1_500_000, 20_000_000)));
    p.add(voxel_keys::<3>(tier.pick(300_000, 5_000_000)));
    p.add(voxel_crowds::<f64, f64, 2>());
    p.add(voxel_many::<f64, f64, 3>(tier.pick(70_001, 300_001)));
    p.add(voxel_many::<f32, f32, 2>(tier.pick(5001, 20_001)));
    p.add(voxel_crowds::<f32, f32, 3>());
    p.add(voxel_sizes::<f64, f64, 2>(tier.pick(700, 3000)));
    p.add(voxel_sizes::<f32, f32, 2>(tier.pick(700, 3000)));
    p.add(voxel_sizes::<f32, f32, 3>(tier.pick(600, 2000)));
    p.add(voxel_sizes::<f32, f32, 1>(tier.pick(600, 2000)));
    p
}

// ------------------------------------------------------------------------------------------------ C07

fn check_center<T: Fl, const N: usize>(cloud: &[[i64; N]], unit: f64, ctx: &mut Ctx) -> Res
where
    usize: AsPrimitive<T>,
{
    let pts: Vec<Point<T, N>> = cloud.iter().map(|c| pt(c.map(|k| k as f64 * unit))).collect();
    ctx.eval();
    let got = un(&calculate_point_cloud_center(&pts));
    let want: [f64; N] = std::array::from_fn(|i| {
        if cloud.is_empty() {
            0.0
        } else {
            cloud.iter().map(|c| c[i]).sum::<i64>() as f64 * unit / cloud.len() as f64
        }
    });
    let scale = cloud.iter().flatten().map(|k| (*k as f64 * unit).abs()).fold(0.0, f64::max);
    let tol = scale * T::EPS * (4.0 + cloud.len() as f64);
    if (0..N).any(|i| !((got[i] - want[i]).abs() <= tol)) {
        return Err(format!("the centre is {got:?} instead of {want:?}").into());
    }
    ctx.outcome(want.iter().fold(H::new(cloud.len() as u64), |h, c| h.f(*c)));
    Ok(())
}

fn centers<T: Fl, const N: usize>(ks: Vec<i64>, unit: f64, max: u32) -> Space
where
    usize: AsPrimitive<T>,
{
    let alphabet: Vec<[i64; N]> = lattice::<N>(ks.len() as i64).into_iter().map(|p| p.map(|c| ks[c as usize])).collect();
    let k = alphabet.len() as u64;
    let a2 = alphabet.clone();
    Space::new(
        format!("centre {} {N}D coordinates {ks:?}x{unit} len<={max}", T::NAME),
        seq_count(k, 0, max),
        move |n| format!("{:?} x {unit}", seq_nth(k, 0, max, n).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| check_center::<T, N>(&seq_nth(k, 0, max, n).iter().map(|&i| alphabet[i]).collect::<Vec<_>>(), unit, ctx),
    )
}

fn center_sizes<T: Fl, const N: usize>(max: u64) -> Space
where
    usize: AsPrimitive<T>,
{
    let len = move |n: u64| if n <= max { n } else { [1000u64, 1023, 1024, 1025, 2048, 4096, 4097, 5000, 8193, 10_000, 10_001, 16_385, 65_535, 65_536, 65_537, 70_000, 100_001][(n - max - 1) as usize] };
    Space::new(
        format!("centre {} {N}D every size <={max} and some large ones", T::NAME),
        max + 18,
        move |n| format!("{} points", len(n)),
        move |n, ctx| {
            let cloud: Vec<[i64; N]> = (0..len(n) as i64).map(|i| std::array::from_fn(|a| (i * (7 + a as i64 * 4)) % 23 - 9)).collect();
            check_center::<T, N>(&cloud, 0.5, ctx)
        },
    )
}

/// counts that no single precision number holds
fn center_huge() -> Space {
    const LEN: [i64; 3] = [(1 << 24) - 1, (1 << 24) + 1, (1 << 24) + 5];
    Space::new("centre f64 1D around 2^24 points", 3, |n| format!("{} points", LEN[n as usize]), |n, ctx| {
        let cloud: Vec<Point<f64, 1>> = (0..LEN[n as usize]).map(|i| pt([(i % 3) as f64])).collect();
        let sum = (0..LEN[n as usize]).map(|i| i % 3).sum::<i64>();
        ctx.eval();
        let (got, want) = (calculate_point_cloud_center(&cloud).x, sum as f64 / LEN[n as usize] as f64);
        // every partial sum is exact
        if (got - want).abs() > 1e-9 {
            return Err(format!("the centre is {got} instead of {want}").into());
        }
        ctx.outcome(H::new(n));
        Ok(())
    })
}

trait Turn<const N: usize, T: Fl>: AbstractRotation<T, N> + Copy + Debug + Send + Sync + 'static {
    const COUNT: u64;
    const NAME: &'static str;
    /// the n-th rotation and its matrix
    fn nth(n: u64) -> (Self, [[f64; N]; N]) {
        Self::turn(n / STEPS, angle(n % STEPS))
    }
    /// by an angle about an axis of a list (ignored in 2D)
    fn turn(axis: u64, a: f64) -> (Self, [[f64; N]; N]);
}
const STEPS: u64 = 24;
fn angle(n: u64) -> f64 {
    (n as f64 - 11.0) * std::f64::consts::PI / 12.0
}
fn matrix2(a: f64) -> [[f64; 2]; 2] {
    [[a.cos(), -a.sin()], [a.sin(), a.cos()]]
}
/// Rodrigues' formula
fn matrix3(axis: [f64; 3], a: f64) -> [[f64; 3]; 3] {
    let n = (axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2]).sqrt();
    let u = axis.map(|c| c / n);
    let k = [[0.0, -u[2], u[1]], [u[2], 0.0, -u[0]], [-u[1], u[0], 0.0]];
    std::array::from_fn(|i| {
        std::array::from_fn(|j| {
            let k2: f64 = (0..3).map(|m| k[i][m] * k[m][j]).sum();
            (i == j) as u8 as f64 + a.sin() * k[i][j] + (1.0 - a.cos()) * k2
        })
    })
}
fn axis3(n: u64) -> [f64; 3] {
    let l: Vec<[i64; 3]> = lattice_range::<3>(-1, 1).into_iter().filter(|p| *p != [0; 3]).collect();
    l[n as usize].map(|c| c as f64)
}
impl<T: Fl> Turn<2, T> for UnitComplex<T> {
    const COUNT: u64 = STEPS;
    const NAME: &'static str = "UnitComplex";
    fn turn(_: u64, a: f64) -> (Self, [[f64; 2]; 2]) {
        (UnitComplex::new(T::of(a)), matrix2(a))
    }
}
impl<T: Fl> Turn<2, T> for Rotation2<T> {
    const COUNT: u64 = STEPS;
    const NAME: &'static str = "Rotation2";
    fn turn(_: u64, a: f64) -> (Self, [[f64; 2]; 2]) {
        (Rotation2::new(T::of(a)), matrix2(a))
    }
}
impl<T: Fl> Turn<3, T> for UnitQuaternion<T> {
    const COUNT: u64 = STEPS * 26;
    const NAME: &'static str = "UnitQuaternion";
    fn turn(axis: u64, a: f64) -> (Self, [[f64; 3]; 3]) {
        let ax = axis3(axis);
        (UnitQuaternion::from_axis_angle(&Unit::new_normalize(Vector3::from(ax.map(T::of))), T::of(a)), matrix3(ax, a))
    }
}
impl<T: Fl> Turn<3, T> for Rotation3<T> {
    const COUNT: u64 = STEPS * 26;
    const NAME: &'static str = "Rotation3";
    fn turn(axis: u64, a: f64) -> (Self, [[f64; 3]; 3]) {
        let ax = axis3(axis);
        (Rotation3::from_axis_angle(&Unit::new_normalize(Vector3::from(ax.map(T::of))), T::of(a)), matrix3(ax, a))
    }
}

fn transforms<T: Fl, R: Turn<N, T>, const N: usize>(shifts: Vec<f64>, tier: Tier) -> Space {
    let singles = lattice_range::<N>(-2, 2);
    // the whole lattice in two orders, short prefixes, and large clouds
    let mut clouds: Vec<Vec<[i64; N]>> = vec![vec![], vec![[1; N]], singles.clone(), singles.iter().rev().copied().collect()];
    for n in 2..tier.pick(6, 40) {
        clouds.push(singles.iter().rev().take(n).copied().collect());
    }
    clouds.push((0..300i64).map(|i| std::array::from_fn(|a| (i * 37 + 11 * a as i64) % 101 - 50)).collect());
    if shifts.len() > 2 && N == 2 || tier.thorough() {
        for n in ladder(60, tier.pick(10_001, 100_001)) {
            clouds.push((0..n as i64).map(|i| std::array::from_fn(|a| (i * 37 + 11 * a as i64) % 101 - 50)).collect());
        }
    }
    transforms_of::<T, R, N>("transforms", shifts, clouds, 1)
}

/// clouds beyond the sixteenth bit
fn transforms_many<T: Fl, R: Turn<N, T>, const N: usize>() -> Space {
    let clouds = [65_535, 65_536, 65_537, 131_073].map(|n| (0..n).map(|i| std::array::from_fn(|a| (i * 37 + 11 * a as i64) % 101 - 50)).collect()).to_vec();
    transforms_of::<T, R, N>("many points through transforms", vec![2.0], clouds, R::COUNT / 4 + 1)
}

fn transforms_of<T: Fl, R: Turn<N, T>, const N: usize>(name: &str, shifts: Vec<f64>, clouds: Vec<Vec<[i64; N]>>, stride: u64) -> Space {
    let turns = R::COUNT.div_ceil(stride);
    let shifts_n: Vec<[f64; N]> = lattice::<N>(shifts.len() as i64).into_iter().map(|p| p.map(|c| shifts[c as usize])).collect();
    let s = shifts_n.len() as u64;
    let c2 = clouds.clone();
    let sh2 = shifts_n.clone();
    Space::new(
        format!("{name} {} {} {N}D", T::NAME, R::NAME),
        turns * s * clouds.len() as u64,
        move |n| {
            let mut d = Digits(n);
            let (c, t, r) = (d.take(c2.len() as u64), d.take(s), d.take(turns));
            format!("rotation {:?} then translation {:?} of {:?}", R::nth(r as u64 * stride).1, sh2[t], c2[c])
        },
        move |n, ctx| {
            let mut d = Digits(n);
            let (c, t, r) = (d.take(clouds.len() as u64), d.take(s), d.take(turns));
            let (rot, m) = R::nth(r as u64 * stride);
            let pts: Vec<Point<T, N>> = clouds[c].iter().map(|k| pt(k.map(|k| k as f64 * 0.5))).collect();
            let before: Vec<[f64; N]> = pts.iter().map(un).collect();
            let iso = Isometry::<T, R, N>::from_parts(Translation::from(nalgebra::SVector::<T, N>::from(shifts_n[t].map(T::of))), rot);
            ctx.eval();
            let got = transform_point_cloud(&pts, iso);
            if got.len() != pts.len() {
                return Err(format!("{} points became {}", pts.len(), got.len()).into());
            }
            for (i, (g, p)) in got.iter().zip(&before).enumerate() {
                let want: [f64; N] = std::array::from_fn(|a| (0..N).map(|b| m[a][b] * p[b]).sum::<f64>() + shifts_n[t][a]);
                let scale = 1.0 + p.iter().chain(&shifts_n[t]).map(|c| c.abs()).sum::<f64>();
                if (0..N).any(|a| !((g[a].f() - want[a]).abs() <= scale * T::EPS * 16.0)) {
                    return Err(format!("point {i} {p:?} became {:?} instead of {want:?}", un(g)).into());
                }
                ctx.outcome(want.iter().chain(p).fold(H::new(3), |h, c| h.f((c * 1e6).round())));
            }
            if pts.iter().map(un).ne(before) {
                return Err("the input was modified".into());
            }
            Ok(())
        },
    )
}

/// small turns, and turns next to the quarters, of clouds and by translations of every magnitude
fn transforms_scaled<T: Fl, R: Turn<N, T>, const N: usize>(exponents: Vec<i32>) -> Space {
    let mut angles = vec![0.0];
    for k in 0..60 {
        angles.extend([0.5f64.powi(k), -0.5f64.powi(k)]);
    }
    for quarter in [-2.0, -1.0, 1.0, 2.0] {
        for k in [4, 10, 16, 20, 23, 26, 30, 40, 50] {
            angles.extend([quarter * std::f64::consts::FRAC_PI_2 + 0.5f64.powi(k), quarter * std::f64::consts::FRAC_PI_2 - 0.5f64.powi(k)]);
        }
    }
    // what T makes of them
    let angles: Vec<f64> = angles.into_iter().map(|a| T::of(a).f()).collect();
    let axes = R::COUNT / STEPS;
    let shifts = [0.0, 3.0, 2f64.powi(-10), -2f64.powi(14)];
    let count = angles.len() as u64 * axes * exponents.len() as u64 * shifts.len() as u64;
    let split = move |n: u64, angles: &[f64], exponents: &[i32]| {
        let mut d = Digits(n);
        let (a, x, e, s) = (d.take(angles.len() as u64), d.take(axes), d.take(exponents.len() as u64), d.take(4));
        (angles[a], x as u64, 2f64.powi(exponents[e]), shifts[s])
    };
    let (a2, e2) = (angles.clone(), exponents.clone());
    Space::new(
        format!("small turns {} {} {N}D, {} magnitudes", T::NAME, R::NAME, exponents.len()),
        count,
        move |n| {
            let (a, x, unit, shift) = split(n, &a2, &e2);
            format!("a turn by {a:e} about axis {x}, then a translation by {shift} x {unit:e} along the axes, of points of magnitude {unit:e}")
        },
        move |n, ctx| {
            let (a, x, unit, shift) = split(n, &angles, &exponents);
            let (rot, m) = R::turn(x, a);
            let t: [f64; N] = std::array::from_fn(|i| shift * unit * (1.0 - 0.5 * i as f64));
            let iso = Isometry::<T, R, N>::from_parts(Translation::from(nalgebra::SVector::<T, N>::from(t.map(T::of))), rot);
            let pts: Vec<Point<T, N>> = lattice_range::<N>(-1, 1).into_iter().map(|k| pt(std::array::from_fn(|i| k[i] as f64 * unit * (1.0 + i as f64)))).collect();
            ctx.eval();
            let got = transform_point_cloud(&pts, iso);
            if got.len() != pts.len() {
                return Err(format!("{} points became {}", pts.len(), got.len()).into());
            }
            for (g, p) in got.iter().zip(&pts) {
                let p = un(p);
                let want: [f64; N] = std::array::from_fn(|a| (0..N).map(|b| m[a][b] * p[b]).sum::<f64>() + t[a]);
                let scale = p.iter().chain(&t).map(|c| c.abs()).sum::<f64>();
                if (0..N).any(|a| !((g[a].f() - want[a]).abs() <= scale * T::EPS * 16.0)) {
                    return Err(format!("{p:?} became {:?} instead of {want:?}", un(g)).into());
                }
            }
            ctx.outcome(H::new(n));
            Ok(())
        },
    )
}

fn c07(tier: Tier) -> Plan {
    let mut p = Plan::new(
        "exploration",
        "every sequence of lattice points up to a length and every size up to a bound for the centre; every rotation of a 15 degree grid (26 axes in 3D), every translation of a lattice and every cloud of a list for the transform; non-trivial outcome: distinct (space, centre) or (space, image rounded to 1e-6)",
    )
    .assume("results are compared up to a small multiple of the machine epsilon times the size of the operands");
    p.add(centers::<f64, 2>(vec![-1, 0, 1], 1.0, tier.pick(6, 7)));
    p.add(centers::<f32, 2>(vec![-3, 2, 10], 0.5, tier.pick(5, 6)));
    p.add(centers::<f64, 1>(vec![-4, 0, 1, 7], 1.0, tier.pick(7, 9)));
    p.add(centers::<f64, 3>(vec![0, 1], 2.0, tier.pick(6, 7)));
    p.add(centers::<f32, 3>(vec![-1, 0, 5], 1.0, tier.pick(3, 4)));
    p.add(centers::<f32, 4>(vec![0, 1], 1.0, tier.pick(4, 5)));
    p.add(centers::<f32, 5>(vec![0, 1], 1.0, tier.pick(2, 3)));
    p.add(centers::<f64, 6>(vec![0, 1], 1.0, tier.pick(2, 3)));
    p.add(centers::<f64, 7>(vec![0, 3], 1.0, 2));
    for e in [-300, -40, 40, 300] {
        p.add(centers::<f64, 2>(vec![-1, 0, 3], 2f64.powi(e), 4));
        p.add(centers::<f32, 3>(vec![-1, 0, 3], 2f64.powi(e / 3), 2));
    }
    p.add(center_huge());
    p.add(center_sizes::<f64, 2>(tier.pick(600, 2000)));
    p.add(center_sizes::<f32, 3>(tier.pick(600, 2000)));
    let e64 = vec![-200, -40, -20, -1, 0, 10, 20, 40, 200];
    let e32 = vec![-40, -20, -1, 0, 10, 20, 40];
    p.add(transforms_scaled::<f64, UnitComplex<f64>, 2>(e64.clone()));
    p.add(transforms_scaled::<f32, UnitComplex<f32>, 2>(e32.clone()));
    p.add(transforms_scaled::<f64, Rotation2<f64>, 2>(e64.clone()));
    p.add(transforms_scaled::<f64, UnitQuaternion<f64>, 3>(e64.clone()));
    p.add(transforms_scaled::<f32, UnitQuaternion<f32>, 3>(e32.clone()));
    p.add(transforms_scaled::<f64, Rotation3<f64>, 3>(e64));
    p.add(transforms_scaled::<f32, Rotation3<f32>, 3>(e32));
    p.add(transforms_many::<f64, UnitComplex<f64>, 2>());
    p.add(transforms_many::<f64, Rotation2<f64>, 2>());
    p.add(transforms_many::<f32, UnitQuaternion<f32>, 3>());
    p.add(transforms::<f64, UnitComplex<f64>, 2>(vec![0.0, -3.0, 0.5, 100.0], tier));
    p.add(transforms::<f32, UnitComplex<f32>, 2>(vec![0.0, -3.0, 0.5, 100.0], tier));
    p.add(transforms::<f64, Rotation2<f64>, 2>(vec![0.0, 2.0], tier));
    p.add(transforms::<f64, UnitQuaternion<f64>, 3>(tier.pick(vec![0.0, -2.0], vec![0.0, -3.0, 0.5]), tier));
    p.add(transforms::<f32, UnitQuaternion<f32>, 3>(vec![0.0, 2.0], tier));
    p.add(transforms::<f32, Rotation3<f32>, 3>(vec![0.0, 2.0], tier));
    p
}

// ------------------------------------------------------------------------------------------------ C08

fn generated<T, const N: usize>(ranges: Vec<(T, T)>, max: u64) -> Space
where
    T: Num + rand::distributions::uniform::SampleUniform,
{
    let combos: Vec<[(T, T); N]> = lattice::<N>(ranges.len() as i64).into_iter().map(|p| p.map(|c| ranges[c as usize])).collect();
    let k = combos.len() as u64;
    let count = move |n: u64| if n <= max { n } else { [100u64, 255, 256, 257, 1000, 2000, 5000, 8193, 10_001, 32_769, 65_537, 100_001, 1_048_577][(n - max - 1) as usize] } as usize;
    let c2 = combos.clone();
    Space::new(
        format!("generate {} {N}D {} ranges", std::any::type_name::<T>(), ranges.len()),
        k * (max + 14),
        move |n| format!("{} points in {:?}", count(n / k), c2[(n % k) as usize]),
        move |n, ctx| {
            let (len, r) = (count(n / k), combos[(n % k) as usize]);
            let make = |len: usize| generate_point_cloud::<T, N>(len, std::array::from_fn(|i| r[i].0..=r[i].1));
            ctx.evals(2);
            let a = make(len);
            if a.len() != len {
                return Err(format!("{} points were generated", a.len()).into());
            }
            for p in &a {
                for i in 0..N {
                    if !(r[i].0 <= p[i] && p[i] <= r[i].1) {
                        return Err(format!("{p:?} is outside the range {:?} of axis {i}", r[i]).into());
                    }
                }
            }
            make(3);
            if make(len) != a {
                return Err("a second call gives another cloud".into());
            }
            ctx.outcome(H::new(n));
            Ok(())
        },
    )
}

fn c08(tier: Tier) -> Plan {
    let mut p = Plan::new(
        "exploration",
        "every count of a list (0..=bound and some larger) with every combination of ranges per axis; non-trivial outcome: distinct (space, count, ranges)",
    );
    let m = tier.pick(40, 300);
    let f = vec![(0.0, 0.0), (0.0, 1.0), (-1.0, 1.0), (-5.0, -4.0), (100.0, 101.0), (-1e6, 1e6), (0.25, 0.5)];
    let f32s: Vec<(f32, f32)> = f.iter().map(|r| (r.0 as f32, r.1 as f32)).collect();
    p.add(generated::<f64, 1>(f.clone(), m));
    p.add(generated::<f64, 2>(f.clone(), m));
    p.add(generated::<f64, 3>(f, m / 2));
    p.add(generated::<f32, 2>(f32s.clone(), m));
    p.add(generated::<f32, 3>(f32s.clone(), m / 2));
    p.add(generated::<f32, 4>(f32s[..4].to_vec(), m / 2));
    p.add(generated::<f64, 5>(vec![(0.0, 1.0), (-1.0, 1.0), (0.0, 0.25)], m / 4));
    p.add(generated::<f32, 6>(vec![(0.0, 1.0), (-1.0, 0.0)], m / 4));
    p.add(generated::<f64, 8>(vec![(0.0, 1.0), (2.0, 3.0)], m / 4));
    p.add(generated::<f32, 0>(f32s[..1].to_vec(), m));
    macro_rules! ints { ($($t:ty),*) => { $(
        p.add(generated::<$t, 2>(vec![(<$t>::MIN, <$t>::MAX), (0, 0), (3, 4), (<$t>::MIN, <$t>::MIN + 1), (<$t>::MAX, <$t>::MAX), (10, 100)], m));
    )* } }
    ints!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
    p
}

fn plan(id: &str, tier: Tier) -> Option<Plan> {
    Some(match id {
        "C05" => c05(tier),
        "C06" => c06(tier),
        "C07" => c07(tier),
        "C08" => c08(tier),
        _ => return None,
    })
}

fn main() {
    mc::main(plan)
}
