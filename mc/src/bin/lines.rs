//! C26-C27: plotted lines against the ideal segment in integers.
use mapping_algorithms::lines::plot_bresenham_line;
use mc::{util::*, *};
use nalgebra::{Point, RealField};
use num_traits::AsPrimitive;

type I<const N: usize> = [i64; N];

trait In: Fl + RealField + AsPrimitive<usize> + AsPrimitive<i64> + AsPrimitive<i32> + AsPrimitive<f32> + AsPrimitive<f64>
where
    usize: AsPrimitive<Self>,
{
}
impl In for f32 {}
impl In for f64 {}

fn check_path<const N: usize>(a: I<N>, b: I<N>, path: &[I<N>]) -> Result<(), String> {
    let d: I<N> = std::array::from_fn(|i| b[i] - a[i]);
    let l = d.iter().map(|c| c.abs()).max().unwrap_or(0);
    if path.len() as i64 != l + 1 {
        return Err(format!("{} cells for a line of length {l}: {path:?}", path.len()));
    }
    if path[0] != a || path[path.len() - 1] != b {
        return Err(format!("the line runs from {:?} to {:?}: {path:?}", path[0], path[path.len() - 1]));
    }
    for (k, w) in path.windows(2).enumerate() {
        let s: I<N> = std::array::from_fn(|i| (w[1][i] - w[0][i]) * d[i].signum());
        if (0..N).any(|i| d[i] == 0 && w[1][i] != w[0][i] || !(0..=1).contains(&s[i])) {
            return Err(format!("step {k} from {:?} to {:?}", w[0], w[1]));
        }
        if !(0..N).any(|i| d[i].abs() == l && s[i] == 1) {
            return Err(format!("step {k} from {:?} to {:?} does not advance along a longest axis", w[0], w[1]));
        }
    }
    for (k, p) in path.iter().enumerate() {
        for i in 0..N {
            // | (p - a) - k d / l | < 1
            if l > 0 && ((p[i] - a[i]) * l - k as i64 * d[i]).abs() >= l {
                return Err(format!("cell {k} {p:?} is a whole unit away from the segment on axis {i}"));
            }
        }
    }
    Ok(())
}

fn plot<F: In, const N: usize>(a: I<N>, b: I<N>) -> Vec<I<N>>
where
    usize: AsPrimitive<F>,
{
    plot_bresenham_line::<F, i64, N>(pt(a.map(|c| c as f64)), pt(b.map(|c| c as f64))).iter().map(|p| std::array::from_fn(|i| p[i])).collect()
}

fn boxes<F: In, const N: usize>(side: i64, starts: Vec<i64>) -> Space
where
    usize: AsPrimitive<F>,
{
    let deltas = lattice_range::<N>(-side, side);
    let st = lattice::<N>(starts.len() as i64);
    let m = st.len() as u64;
    let case = move |n: u64| -> (I<N>, I<N>) {
        let a: I<N> = st[(n % m) as usize].map(|c| starts[c as usize]);
        let d = deltas[(n / m) as usize];
        (a, std::array::from_fn(|i| a[i] + d[i]))
    };
    let c2 = case.clone();
    Space::new(
        format!("lines {} {N}D, every difference up to {side}, {m} starts", F::NAME),
        ((2 * side + 1) as u64).pow(N as u32) * m,
        move |n| format!("{:?} to {:?}", case(n).0, case(n).1),
        move |n, ctx| {
            let (a, b) = c2(n);
            let path = plot::<F, N>(a, b);
            ctx.eval();
            check_path(a, b, &path)?;
            ctx.outcome(path.iter().flatten().fold(H::new(N as u64), |h, c| h.i(*c)));
            Ok(())
        },
    )
}

/// every length up to a bound, with slopes at the corners of the algorithm
fn long<F: In, const N: usize>(max: u64, from: i64) -> Space
where
    usize: AsPrimitive<F>,
{
    let slopes = |l: i64| [0, 1, 2, l / 3, l / 2, (2 * l + 2) / 3, (3 * l + 3) / 4, l - 2, l - 1, l].map(|s| s.clamp(0, l));
    let case = move |n: u64| -> (I<N>, I<N>) {
        let mut d = Digits(n);
        let (primary, s1, s2, sign) = (d.take(N as u64), d.take(10), d.take(10), d.take(4));
        let l = d.0 as i64;
        let sl = slopes(l);
        let a: I<N> = std::array::from_fn(|i| from - 3 * i as i64);
        let b = std::array::from_fn(|i| {
            let s = if i == primary { l } else if (i + N - primary) % N == 1 { sl[s1] } else { sl[s2] };
            a[i] + if sign >> (i % 2) & 1 == 1 { -s } else { s }
        });
        (a, b)
    };
    Space::new(
        format!("lines {} {N}D of every length up to {max} from {from}", F::NAME),
        N as u64 * 400 * (max + 1),
        move |n| format!("{:?} to {:?}", case(n).0, case(n).1),
        move |n, ctx| {
            let (a, b) = case(n);
            let path = plot::<F, N>(a, b);
            ctx.eval();
            check_path(a, b, &path)?;
            ctx.outcome(path.iter().flatten().fold(H::new(N as u64), |h, c| h.i(*c)));
            Ok(())
        },
    )
}

/// lengths of the ladder
fn very_long<F: In, const N: usize>(min: u64, max: u64, from: i64) -> Space
where
    usize: AsPrimitive<F>,
{
    let lens = ladder(min, max);
    let case = long_case::<N>(lens.clone(), from);
    let c2 = case.clone();
    Space::new(
        format!("lines {} {N}D of the lengths {} to {max} near powers of 2 and 10 from {from}", F::NAME, lens[0]),
        lens.len() as u64 * N as u64 * SLOPES * 4,
        move |n| format!("{:?} to {:?}", case(n).0, case(n).1),
        move |n, ctx| {
            let (a, b) = c2(n);
            let path = plot::<F, N>(a, b);
            ctx.eval();
            check_path(a, b, &path)?;
            ctx.outcome(H::new(n));
            Ok(())
        },
    )
}
const SLOPES: u64 = 12;
fn long_case<const N: usize>(lens: Vec<u64>, from: i64) -> impl Fn(u64) -> (I<N>, I<N>) + Clone + Send + Sync + 'static {
    move |n: u64| -> (I<N>, I<N>) {
        let mut d = Digits(n);
        let (primary, s, sign) = (d.take(N as u64), d.take(SLOPES), d.take(4));
        let l = lens[d.0 as usize] as i64;
        let s = [0, 1, 2, 4, 9, l / 1000, l / 70, l / 3, l / 2, (2 * l + 2) / 3, l - 1, l][s];
        let a: I<N> = std::array::from_fn(|i| from - 3 * i as i64);
        (a, std::array::from_fn(|i| a[i] + if i == primary { l } else { (s - i as i64).max(0) } * if sign >> (i % 2) & 1 == 1 { -1 } else { 1 }))
    }
}

/// f32 lines up to the last length f32 can count. The quotient of the differences rounds, and so does every addition of it, so
/// the error drifts by up to `l / 2^24` over the line; beyond 2^23 cells that is known to exceed a whole unit.
fn longest(lens: Vec<i64>) -> Space {
    let case = move |n: u64| -> (I<2>, I<2>) {
        let l = lens[(n / 10) as usize];
        let s = [0, 1, l / 3, l / 2, 2 * l / 3, 2 * l / 3 + 1, l / 200 * 199 + 6, l - 2, l - 1, l][(n % 10) as usize];
        if n % 2 == 0 { ([0, 0], [l, s]) } else { ([l, s], [0, 0]) }
    };
    let c2 = case.clone();
    Space::new(
        format!("lines f32 2D of up to 2^24-1 cells"),
        50,
        move |n| format!("{:?} to {:?}", case(n).0, case(n).1),
        move |n, ctx| {
            let (a, b) = c2(n);
            let d: I<2> = std::array::from_fn(|i| b[i] - a[i]);
            let l = d[0].abs();
            let path = plot_bresenham_line::<f32, i32, 2>(pt(a.map(|c| c as f64)), pt(b.map(|c| c as f64)));
            ctx.eval();
            ctx.outcome(H::new(n));
            if path.len() as i64 != l + 1 {
                return Err(format!("{} cells for a line of length {l}", path.len()).into());
            }
            let cell = |k: usize| -> I<2> { [path[k].x as i64, path[k].y as i64] };
            if cell(0) != a || cell(path.len() - 1) != b {
                return Err(format!("the line runs from {:?} to {:?}", cell(0), cell(path.len() - 1)).into());
            }
            let mut worst = (0, 0);
            let mut drifted = None;
            for k in 0..path.len() {
                let p = cell(k);
                let off = ((p[1] - a[1]) * l - k as i64 * d[1]).abs();
                worst = worst.max((off, k));
                if k == 0 {
                    continue;
                }
                let q = cell(k - 1);
                let s: I<2> = std::array::from_fn(|i| (p[i] - q[i]) * d[i].signum());
                if s[0] != 1 || (0..2).any(|i| d[i] == 0 && p[i] != q[i]) || !(0..=1).contains(&s[1]) {
                    let m = format!("step {} from {q:?} to {p:?}", k - 1);
                    if s[0] != 1 || k + 1 < path.len() || !(-1..=2).contains(&s[1]) {
                        return Err(m.into());
                    }
                    drifted = Some(m); // the end point is set, which shows the drift of the cells before
                }
            }
            if worst.0 >= l {
                drifted = Some(format!("cell {} {:?} is {} units away from the segment", worst.1, cell(worst.1), worst.0 as f64 / l as f64));
            }
            match drifted {
                Some(m) if l > 1 << 23 && worst.0 < l + l / (1 << 8) * l / (1 << 16) => Err(Failure { msg: m, key: "f32-line-drift".into() }),
                Some(m) => Err(m.into()),
                None => Ok(()),
            }
        },
    )
}

fn c26(tier: Tier) -> Plan {
    let mut p = Plan::new(
        "exploration",
        "every difference of end points in a box, from several starts, in 1 to 5 dimensions, and lines of every length up to a bound with extreme slopes; non-trivial outcome: distinct (space, path)",
    )
    .assume("coordinates are whole numbers below 2^24 (f32) or 2^41, lines have at most 17 million cells");
    p.add(boxes::<f64, 1>(tier.pick(300, 2000), vec![0, -7, 1000, 4_000_000]));
    p.add(boxes::<f32, 1>(tier.pick(300, 2000), vec![0, -7, 1000, 4_000_000]));
    p.add(boxes::<f64, 2>(tier.pick(60, 150), vec![0, -30]));
    p.add(boxes::<f32, 2>(tier.pick(60, 150), vec![0, 5]));
    p.add(boxes::<f32, 2>(tier.pick(9, 20), vec![4_000_000, -100_000]));
    p.add(boxes::<f64, 2>(tier.pick(9, 20), vec![1_000_000_000_000, -1000]));
    p.add(boxes::<f64, 3>(tier.pick(12, 20), vec![0, -5]));
    p.add(boxes::<f32, 3>(tier.pick(12, 20), vec![3]));
    p.add(boxes::<f64, 4>(tier.pick(5, 7), vec![0]));
    p.add(boxes::<f32, 4>(tier.pick(5, 7), vec![-2]));
    p.add(boxes::<f64, 5>(tier.pick(3, 4), vec![1]));
    p.add(boxes::<f32, 6>(tier.pick(2, 3), vec![0]));
    p.add(boxes::<f64, 7>(1, vec![5]));
    p.add(boxes::<f32, 8>(1, vec![0]));
    p.add(long::<f64, 4>(tier.pick(100, 500), 3));
    p.add(long::<f32, 6>(tier.pick(60, 300), -8));
    p.add(long::<f64, 9>(tier.pick(40, 200), 1));
    p.add(long::<f64, 2>(tier.pick(500, 3000), -100));
    p.add(long::<f32, 2>(tier.pick(500, 3000), 50));
    p.add(long::<f64, 3>(tier.pick(200, 1000), 10));
    p.add(long::<f32, 3>(tier.pick(200, 1000), -1000));
    p.add(very_long::<f64, 2>(500, tier.pick(1_100_000, 5_000_000), -100));
    p.add(very_long::<f32, 2>(500, 1_100_000, 50));
    let top = (1i64 << 24) - 1;
    p.add(longest(vec![(1 << 22) + 1, 5_000_000, (1 << 23) - 1, (1 << 23) + 1, top]));
    p.add(very_long::<f64, 3>(500, tier.pick(140_000, 1_100_000), 7));
    p
}

// ------------------------------------------------------------------------------------------------ C27

fn types<F: In, const N: usize>(side: i64, starts: Vec<i64>) -> Space
where
    usize: AsPrimitive<F>,
    F: AsPrimitive<i8> + AsPrimitive<i16> + AsPrimitive<isize> + AsPrimitive<u8> + AsPrimitive<u16> + AsPrimitive<u32> + AsPrimitive<u64> + AsPrimitive<i128> + AsPrimitive<u128>,
{
    let ends = lattice_range::<N>(-side, side);
    let st = lattice::<N>(starts.len() as i64);
    let m = st.len() as u64;
    let case = move |n: u64| -> (I<N>, I<N>) {
        let a: I<N> = st[(n % m) as usize].map(|c| starts[c as usize]);
        (a, std::array::from_fn(|i| a[i] + ends[(n / m) as usize][i]))
    };
    types_of::<F, N>(format!("every difference up to {side}, {m} starts"), ((2 * side + 1) as u64).pow(N as u32) * m, case)
}
fn types_of<F: In, const N: usize>(name: String, count: u64, case: impl Fn(u64) -> (I<N>, I<N>) + Clone + Send + Sync + 'static) -> Space
where
    usize: AsPrimitive<F>,
    F: AsPrimitive<i8> + AsPrimitive<i16> + AsPrimitive<isize> + AsPrimitive<u8> + AsPrimitive<u16> + AsPrimitive<u32> + AsPrimitive<u64> + AsPrimitive<i128> + AsPrimitive<u128>,
{
    let c2 = case.clone();
    Space::new(
        format!("output types {} {N}D, {name}", F::NAME),
        count,
        move |n| format!("{:?} to {:?}", case(n).0, case(n).1),
        move |n, ctx| {
            let (a, b) = c2(n);
            let (pa, pb) = (pt::<F, N>(a.map(|c| c as f64)), pt::<F, N>(b.map(|c| c as f64)));
            let reference = plot::<F, N>(a, b);
            let (lo, hi) = (*a.iter().chain(&b).min().unwrap(), *a.iter().chain(&b).max().unwrap());
            macro_rules! same { ($($t:ident),*) => { $({
                if lo as i128 >= $t::MIN as i128 && hi as f64 <= $t::MAX as f64 {
                    ctx.eval();
                    let got: Vec<I<N>> = plot_bresenham_line::<F, $t, N>(pa, pb).iter().map(|p| std::array::from_fn(|i| p[i] as i64)).collect();
                    if got != reference {
                        return Err(format!("{} gives {got:?}, but i64 {reference:?}", stringify!($t)).into());
                    }
                }
            })* } }
            same!(i8, i16, i32, isize, u8, u16, u32, u64, usize, i128);
            macro_rules! same_float { ($($t:ident),*) => { $({
                ctx.eval();
                let got: Vec<[f64; N]> = plot_bresenham_line::<F, $t, N>(pa, pb).iter().map(|p| std::array::from_fn(|i| p[i] as f64)).collect();
                if got != reference.iter().map(|p| p.map(|c| c as f64)).collect::<Vec<_>>() {
                    return Err(format!("{} gives {got:?}, but i64 {reference:?}", stringify!($t)).into());
                }
            })* } }
            same_float!(f32, f64);
            ctx.outcome(reference.iter().flatten().fold(H::new(N as u64), |h, c| h.i(*c)));
            Ok(())
        },
    )
}

/// fractional end points, in steps of 1/den
fn fractional<F: In, const N: usize>(den: i64, side: i64, starts: Vec<[i64; N]>) -> Space
where
    usize: AsPrimitive<F>,
{
    let deltas = lattice_range::<N>(-side, side);
    let m = starts.len() as u64;
    let case = move |n: u64| -> (I<N>, I<N>) {
        let a = starts[(n % m) as usize];
        (a, std::array::from_fn(|i| a[i] + deltas[(n / m) as usize][i]))
    };
    let c2 = case.clone();
    let show = move |p: I<N>| p.map(|c| c as f64 / den as f64);
    Space::new(
        format!("fractional {} {N}D, every difference up to {side}/{den}, {m} starts", F::NAME),
        ((2 * side + 1) as u64).pow(N as u32) * m,
        move |n| format!("{:?} to {:?}", show(case(n).0), show(case(n).1)),
        move |n, ctx| {
            let (a, b) = c2(n);
            let (pa, pb) = (pt::<F, N>(show(a)), pt::<F, N>(show(b)));
            let l = (0..N).map(|i| (b[i] - a[i]).abs()).max().unwrap();
            let judge = |got: Vec<[f64; N]>, t: &str| -> Result<(), String> {
                if got.len() as i64 != l / den + 1 {
                    return Err(format!("{t}: {} points for a longest difference of {}: {got:?}", got.len(), l as f64 / den as f64));
                }
                if got[got.len() - 1] != show(b) {
                    return Err(format!("{t}: the last point is {:?}", got[got.len() - 1]));
                }
                if l >= den && got[0] != show(a) {
                    return Err(format!("{t}: the first point is {:?}", got[0]));
                }
                Ok(())
            };
            ctx.evals(2);
            let r64 = plot_bresenham_line::<F, f64, N>(pa, pb);
            ctx.outcome(r64.iter().flat_map(|p| un(p)).fold(H::new(N as u64), |h, c| h.f(c)));
            judge(r64.iter().map(un).collect(), "f64")?;
            judge(plot_bresenham_line::<F, f32, N>(pa, pb).iter().map(un).collect(), "f32")?;
            Ok(())
        },
    )
}

/// end points that are exact in no number type, or beyond the whole numbers the type can count through
fn rough<F: In + AsPrimitive<F>, const N: usize>(what: &str, values: Vec<f64>) -> Space
where
    usize: AsPrimitive<F>,
{
    let pts: Vec<Point<F, N>> = lattice::<N>(values.len() as i64).into_iter().map(|p| pt(p.map(|c| values[c as usize]))).collect();
    let m = pts.len() as u64;
    let p2 = pts.clone();
    Space::new(
        format!("{what} {} {N}D, every pair over {} values from {} to {}", F::NAME, values.len(), values[0], values[values.len() - 1]),
        m * m,
        move |n| format!("{:?} to {:?}", p2[(n / m) as usize], p2[(n % m) as usize]),
        move |n, ctx| {
            let (a, b) = (pts[(n / m) as usize], pts[(n % m) as usize]);
            // the whole part of the difference, rounded or not
            let rounded = (0..N).map(|i| (b[i] - a[i]).f().abs()).fold(0.0, f64::max).floor();
            let exact = (0..N).map(|i| (b[i].f() - a[i].f()).abs()).fold(0.0, f64::max).floor();
            let judge = |len: usize, first: [f64; N], last: [f64; N], t: &str| -> Result<(), String> {
                let points = len as f64 - 1.0;
                if points != rounded && points != exact {
                    return Err(format!("{t}: {len} points for a longest difference of {rounded} whole units"));
                }
                if last != std::array::from_fn(|i| b[i].f()) {
                    return Err(format!("{t}: the last point is {last:?}"));
                }
                if len > 1 && first != std::array::from_fn(|i| a[i].f()) {
                    return Err(format!("{t}: the first point is {first:?}"));
                }
                Ok(())
            };
            ctx.evals(2);
            let r = plot_bresenham_line::<F, F, N>(a, b);
            ctx.outcome(r.iter().flat_map(un).fold(H::new(N as u64), |h, c| h.f(c)));
            judge(r.len(), un(&r[0]), un(&r[r.len() - 1]), "own type")?;
            let r = plot_bresenham_line::<F, f64, N>(a, b);
            judge(r.len(), un(&r[0]), un(&r[r.len() - 1]), "f64")?;
            Ok(())
        },
    )
}

fn c27(tier: Tier) -> Plan {
    let mut p = Plan::new(
        "exploration",
        "every difference of whole end points in a box, through ten integer and two float output types; every difference of fractional end points in steps of 1/4, 1/8 or 1/2, through both float output types; non-trivial outcome: distinct (space, path)",
    )
    .assume("the path of fractional end points is compared with their differences only: its length and its ends");
    p.add(types::<f64, 1>(tier.pick(100, 300), vec![0, 100, -100]));
    p.add(types::<f64, 2>(tier.pick(20, 40), vec![0, 21, -7]));
    p.add(types::<f32, 2>(tier.pick(20, 40), vec![0, 21, -7]));
    p.add(types::<f64, 2>(tier.pick(9, 15), vec![100_000, 65_530]));
    p.add(types::<f32, 2>(tier.pick(9, 15), vec![100_000, 250]));
    p.add(types::<f64, 3>(tier.pick(5, 8), vec![0, 6]));
    p.add(types::<f32, 3>(tier.pick(5, 8), vec![0, 6]));
    p.add(types::<f32, 4>(tier.pick(2, 3), vec![0, 3]));
    p.add(types::<f64, 5>(tier.pick(1, 2), vec![0, -3]));
    p.add(types::<f64, 7>(1, vec![2]));
    let lens = ladder(20, tier.pick(70_001, 1_100_000));
    let k = lens.len() as u64 * SLOPES * 4;
    let (k2, k3) = (k * 2, k * 3);
    p.add(types_of::<f64, 2>("long lines".into(), k2, long_case::<2>(lens.clone(), 0)));
    p.add(types_of::<f32, 2>("long lines".into(), k2, long_case::<2>(lens.clone(), 40_000)));
    p.add(types_of::<f64, 3>("long lines".into(), k3, long_case::<3>(lens, -3)));
    let starts2: Vec<[i64; 2]> = lattice_range::<2>(-2, 3);
    p.add(fractional::<f64, 2>(4, tier.pick(30, 60), starts2.clone()));
    p.add(fractional::<f32, 2>(4, tier.pick(30, 60), starts2.clone()));
    p.add(fractional::<f64, 2>(8, tier.pick(30, 60), starts2.clone()));
    p.add(fractional::<f32, 1>(8, tier.pick(400, 2000), lattice_range::<1>(-9, 9)));
    p.add(fractional::<f64, 3>(2, tier.pick(9, 14), lattice_range::<3>(-1, 1)));
    p.add(fractional::<f32, 3>(4, tier.pick(9, 14), lattice_range::<3>(0, 1)));
    let values = vec![0.1, 0.2, 0.3, 0.7, 1.1, 1.7, 2.3, 3.1, -0.4, -2.6, 5.9, 10.3, 100.7, 1000.1, -7.0, 0.9999999];
    p.add(rough::<f64, 1>("rough ends", values.clone()));
    p.add(rough::<f32, 1>("rough ends", values.clone()));
    p.add(rough::<f64, 2>("rough ends", values.clone()));
    p.add(rough::<f32, 2>("rough ends", values.clone()));
    p.add(rough::<f64, 3>("rough ends", values[5..tier.pick(10, 14)].to_vec()));
    p.add(rough::<f32, 3>("rough ends", values[3..tier.pick(8, 12)].to_vec()));
    let tenths: Vec<f64> = (0..tier.pick(300, 1000)).map(|i| i as f64 * 0.1).collect();
    p.add(rough::<f64, 1>("tenths", tenths.clone()));
    p.add(rough::<f32, 1>("tenths", tenths));
    for (top32, top64) in [(2f64.powi(24), 2f64.powi(53)), (2f64.powi(30), 2f64.powi(60))] {
        let around = |t: f64| [-300.0, -100.0, -4.0, -2.0, 0.0, 2.0, 4.0, 64.0, 200.0].map(|d| t + d * (t / 2f64.powi(if t.abs() >= 2f64.powi(53) { 53 } else { 24 }))).to_vec();
        p.add(rough::<f32, 1>("beyond the countable", around(top32)));
        p.add(rough::<f32, 2>("beyond the countable", around(-top32)));
        p.add(rough::<f64, 1>("beyond the countable", around(-top64)));
        p.add(rough::<f64, 2>("beyond the countable", around(top64)));
    }
    p.add(fractional::<f64, 2>(4, tier.pick(9, 20), vec![[400_001, -100_003], [4095, 65_535]]));
    p
}

fn plan(id: &str, tier: Tier) -> Option<Plan> {
    match id {
        "C26" => Some(c26(tier)),
        "C27" => Some(c27(tier)),
        _ => None,
    }
}

fn main() {
    mc::main(plan)
}
