//! C28: every pregenerated function against the generic function, argument for argument.
use mapping_algorithms::{
    geo, lines,
    point_clouds::{self, icp, ICPConfiguration, ICPError, ICPResult},
    polygons,
};
use mc::{util::*, *};
use nalgebra::{AbstractRotation, Isometry, Point, Point2, SVector};
use std::sync::Arc;

/// bit-exact view of a number
trait Bits: Copy + 'static {
    fn bits(self) -> u64;
}
macro_rules! bits_int { ($($t:ty),*) => { $(impl Bits for $t { fn bits(self) -> u64 { self as u64 } })* } }
bits_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl Bits for f32 {
    fn bits(self) -> u64 {
        if self.is_nan() { u64::MAX } else { self.to_bits() as u64 }
    }
}
impl Bits for f64 {
    fn bits(self) -> u64 {
        if self.is_nan() { u64::MAX } else { self.to_bits() }
    }
}
fn view<T: Bits + nalgebra::Scalar, const N: usize>(v: &[Point<T, N>]) -> Vec<[u64; N]> {
    v.iter().map(|p| std::array::from_fn(|i| p[i].bits())).collect()
}

// ---------------------------------------------------------------------------------------------------------------
// lines

const LONG: u64 = 200;
fn ends<F: Fl, const N: usize>(i: u64) -> ([f64; N], [f64; N]) {
    if i >= 12 * 9u64.pow(N as u32) {
        // long lines
        let mut d = Digits(i - 12 * 9u64.pow(N as u32));
        let (slope, place) = (d.take(5), d.take(2));
        let l = [127.0, 128.0, 129.0, 255.0, 256.0, 257.0, 300.0, 511.5, 512.0, 1000.0, 1023.0, 1024.0, 1025.0, 2000.25, 4096.0, 4097.0, 10_001.0, 32_769.0, 65_537.0, 70_000.5][d.0 as usize];
        let a: [f64; N] = std::array::from_fn(|k| [0.0, -33_000.25][place] + k as f64);
        return (a, std::array::from_fn(|k| a[k] + if k == i as usize % N { l } else { (l * [0.0f64, 0.25, 0.5, -0.75, 1.0][slope]).round() }));
    }
    // whole, fractional, negative and large coordinates: (start kind, delta digits)
    // (in single precision a line must stay below 2^24 to make progress)
    let starts = [0.0, 7.0, 2.25, 0.1, if F::EPS > 1e-10 { 16777190.0 } else { 33554433.0 }, -3.5];
    let mut d = Digits(i);
    let s = starts[d.take(6)];
    let frac = [0.0, 0.3][d.take(2)];
    let a: [f64; N] = std::array::from_fn(|k| s + k as f64 * 5.0);
    (a, std::array::from_fn(|k| a[k] + d.take(9) as f64 - 4.0 + frac))
}

macro_rules! line {
    ($plan:expr, $module:ident, $f:ty, $n:literal, $($out:ident $func:ident),*) => { $(
        $plan.add(Space::new(
            format!("lines::{}::{}", stringify!($module), stringify!($func)),
            12 * 9u64.pow($n) + LONG,
            |n| format!("{:?}", ends::<$f, $n>(n)),
            |n, ctx| {
                let (a, b) = ends::<$f, $n>(n);
                let (a, b): (Point<$f, $n>, Point<$f, $n>) = (pt(a), pt(b));
                let want = view(&lines::plot_bresenham_line::<$f, $out, $n>(a, b));
                let got = view(&lines::$module::$func(a, b));
                ctx.evals(2);
                ctx.outcome(got.iter().flatten().fold(H::new(1), |h, x| h.u(*x)));
                if got != want {
                    return Err(format!("gives {got:?} (bits), the generic function {want:?}").into());
                }
                Ok(())
            },
        ));
    )* };
}

// ---------------------------------------------------------------------------------------------------------------
// geo

const RADII: [f64; 16] = [6371.1, 1.0, 0.0, 1.0e-12, 3.3e-4, 0.7, 99.9, 1737.4, 65_537.3, 6_371_008.8, 1.0000001e7, 7.1e8, 1.4e9, 3.3e13, -2.5, 9.5e30];
fn sphere(i: u64) -> ([f64; 2], [f64; 2], f64) {
    let lat = [-90.0, -33.3, 0.0, 12.1, 52.52, 90.0, 1.0e-9, 12.1000001, 400.7];
    let lon = [-180.0, -77.7, 0.0, 2.35, 100.1, 359.0, -1.0e-7, 2.3500001, -7200.3];
    let mut d = Digits(i);
    ([lat[d.take(9)], lon[d.take(9)]], [lat[d.take(9)], lon[d.take(9)]], RADII[d.take(RADII.len() as u64)])
}
macro_rules! sphere {
    ($plan:expr, $module:ident, $f:ty) => {
        $plan.add(Space::new(
            format!("geo::{}::calculate_haversine_distance", stringify!($module)),
            16 * 9u64.pow(4),
            |n| format!("{:?}", sphere(n)),
            |n, ctx| {
                let (a, b, r) = sphere(n);
                let (a, b, r): (Point<$f, 2>, Point<$f, 2>, $f) = (pt(a), pt(b), r as $f);
                let (want, got) = (geo::calculate_haversine_distance(a, b, r), geo::$module::calculate_haversine_distance(a, b, r));
                ctx.evals(2);
                ctx.outcome(H::new(got.bits()));
                if got.bits() != want.bits() {
                    return Err(format!("gives {got}, the generic function {want}").into());
                }
                Ok(())
            },
        ));
        $plan.add(Space::new(
            format!("geo::{}::calculate_sphere_bearing", stringify!($module)),
            9u64.pow(4),
            |n| format!("{:?}", sphere(n)),
            |n, ctx| {
                let (a, b, _) = sphere(n);
                let (a, b): (Point<$f, 2>, Point<$f, 2>) = (pt(a), pt(b));
                let (want, got) = (geo::calculate_sphere_bearing(a, b), geo::$module::calculate_sphere_bearing(a, b));
                ctx.evals(2);
                ctx.outcome(H::new(got.bits()));
                if got.bits() != want.bits() {
                    return Err(format!("gives {got}, the generic function {want}").into());
                }
                Ok(())
            },
        ));
    };
}

// ---------------------------------------------------------------------------------------------------------------
// point in polygon

/// coordinates an f32 can not tell apart, so that a wrong precision shows
const FINE: [f64; 4] = [0.0, 1.0, 1.00000002, 2.1];
fn fine(i: usize) -> [f64; 2] {
    [FINE[i % 4], FINE[i / 4]]
}
const BIG_POLYGONS: u64 = 24;
fn polygon(n: u64) -> Vec<[f64; 2]> {
    if n >= seq_count(16, 0, 3) {
        let i = n - seq_count(16, 0, 3);
        let len = [15, 16, 17, 33, 64, 65, 129, 256, 257, 1000, 1025, 4097][(i / 2) as usize];
        return (0..len).map(|k| if i % 2 == 0 { [(k * 37 % 101) as f64 * 0.021, (k * k % 89) as f64 * 0.023] } else { [k as f64 * 2.0 / len as f64, (k % 2) as f64 * 2.0 + 0.00000003] }).collect();
    }
    seq_nth(16, 0, 3, n).into_iter().chain([5, 14, 3]).skip(if n % 7 == 0 { 2 } else { 0 }).map(fine).collect()
}
macro_rules! pip {
    ($plan:expr, $module:ident, $f:ty) => {
        $plan.add(Space::new(
            format!("polygons::{}::*point*_in_polygon", stringify!($module)),
            seq_count(16, 0, 3) + BIG_POLYGONS,
            |n| format!("polygon {:?}", polygon(n)),
            |n, ctx| {
                let poly: Vec<Point2<$f>> = polygon(n).into_iter().map(pt).collect();
                let q: Vec<Point2<$f>> = (0..16).map(fine).chain([[0.5, 0.5], [1.00000001, 1.3], [-1.0, 1.0], [1.5, 1.00000001]]).map(pt).collect();
                for p in &q {
                    let (want, got) = (polygons::is_single_point_in_polygon(p, &poly), polygons::$module::is_single_point_in_polygon(p, &poly));
                    ctx.evals(2);
                    if want != got {
                        return Err(format!("single test of {p:?} gives {got}, the generic function {want}").into());
                    }
                }
                let big = n >= seq_count(16, 0, 3);
                let q: Vec<Point2<$f>> = if big { q.iter().cycle().take(1100).copied().collect() } else { q };
                for k in [q.len(), 3, 1, 0] {
                    let (want, got) = (polygons::are_multiple_points_in_polygon(&q[..k], &poly), polygons::$module::are_multiple_points_in_polygon(&q[..k], &poly));
                    ctx.evals(2);
                    ctx.outcome(got.iter().flatten().fold(H::new(k as u64), |h, b| h.u(*b as u64)));
                    if want != got {
                        return Err(format!("batch test gives {got:?}, the generic function {want:?}").into());
                    }
                }
                Ok(())
            },
        ));
    };
}

// ---------------------------------------------------------------------------------------------------------------
// hulls

/// the hull's corners, free of the start and of collinear boundary points (whose choice may depend on the cloud's order)
fn canonical<T: Bits + nalgebra::Scalar + num_traits::AsPrimitive<f64>>(h: Option<Vec<Point2<T>>>) -> Option<Vec<[u64; 2]>> {
    let h = h?;
    let f: Vec<[f64; 2]> = h.iter().map(|p| [p.x.as_(), p.y.as_()]).collect();
    let n = f.len();
    let cross = |a: [f64; 2], b: [f64; 2], c: [f64; 2]| (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
    let mut keep: Vec<[u64; 2]> =
        (0..n).filter(|&i| cross(f[(i + n - 1) % n], f[i], f[(i + 1) % n]).abs() > 1e-9).map(|i| [h[i].x.bits(), h[i].y.bits()]).collect();
    if let Some(m) = (0..keep.len()).min_by_key(|&i| keep[i]) {
        keep.rotate_left(m);
    }
    Some(keep)
}

const MAXLEN: u32 = 5;
const BIG_CLOUDS: u64 = 13;
fn cloud(n: u64) -> (Vec<[i64; 2]>, u64) {
    let mut d = Digits(n);
    let v = d.take(3) as u64;
    if d.0 >= seq_count(9, 0, MAXLEN) {
        // many points, still of coordinates 0..=2 (so that every type takes them) but for the floats and wide integers
        let len = [6, 9, 15, 16, 17, 33, 65, 100, 129, 257, 513, 1025, 4097][(d.0 - seq_count(9, 0, MAXLEN)) as usize];
        return ((0..len).map(|i| [i * 7 % 3, i * i * 5 % 11 % 3]).collect(), v);
    }
    let k = lattice::<2>(3);
    (seq_nth(9, 0, MAXLEN, d.0).iter().map(|&i| k[i]).collect(), v)
}
macro_rules! hull {
    ($plan:expr, $module:ident, $o:ty, $($t:ident $graham:ident $jarvis:ident),*) => { $(
        $plan.add(Space::new(
            format!("polygons::{}::{} and {}", stringify!($module), stringify!($graham), stringify!($jarvis)),
            3 * (seq_count(9, 0, MAXLEN) + BIG_CLOUDS),
            |n| format!("(cloud, variant) = {:?}", cloud(n)),
            |n, ctx| {
                let (c, variant) = cloud(n);
                // variant 0: small, 1: as large as the type (and f64) allows, where single precision loses the lattice
                let (scale, off) = match (variant, std::mem::size_of::<$t>()) {
                    (1, 1) => (50.0, 5.0),
                    (1, 2) => (10007.0, 100.0),
                    (1, _) => (1.0, 16777213.0),
                    _ => (3.0, 1.0),
                };
                // the sum over a voxel has to fit the type
                let most = match (variant, std::mem::size_of::<$t>()) {
                    (2, 1) => 15,
                    (2, 2) => 4000,
                    _ => usize::MAX,
                };
                let pts: Vec<Point2<$t>> = c.iter().take(most).map(|p| Point2::new((p[0] as f64 * scale + off) as $t, (p[1] as f64 * scale + off * 0.5) as $t)).collect();
                let size: Option<$o> = if variant == 2 { Some(2.5) } else { None };
                for sorted in [false, true] {
                    let want = polygons::graham_scan::<$o, $t>(&pts, sorted, size);
                    let got = polygons::$module::$graham(&pts, sorted, size);
                    ctx.evals(2);
                    let (want, got) = if variant == 2 { (canonical(want), canonical(got)) } else { (want.map(|v| view(&v)), got.map(|v| view(&v))) };
                    ctx.outcome(got.iter().flatten().flatten().fold(H::new(sorted as u64), |h, b| h.u(*b)));
                    if want != got {
                        return Err(format!("assume_sorted {sorted}, voxels {size:?}: gives {got:?} (bits), the generic function {want:?}").into());
                    }
                }
                let want = polygons::jarvis_march::<$o, $t>(&pts, size);
                let got = polygons::$module::$jarvis(&pts, size);
                ctx.evals(2);
                let (want, got) = if variant == 2 { (canonical(want), canonical(got)) } else { (want.map(|v| view(&v)), got.map(|v| view(&v))) };
                if want != got {
                    return Err(format!("Jarvis, voxels {size:?}: gives {got:?} (bits), the generic function {want:?}").into());
                }
                Ok(())
            },
        ));
    )* };
}

// ---------------------------------------------------------------------------------------------------------------
// ICP

fn end<T: Fl, R: AbstractRotation<T, N>, const N: usize>(r: ICPResult<T, R, N>) -> Result<(usize, Vec<u64>), ICPError<T, N>> {
    r.map(|s| {
        let t: &Isometry<T, R, N> = &s.transform;
        let mut v: Vec<f64> = (0..N).map(|i| t.translation.vector[i].f()).collect();
        for j in 0..N {
            let e = SVector::<T, N>::from_fn(|i, _| if i == j { T::of(1.0) } else { T::of(0.0) });
            v.extend(t.transform_vector(&e).iter().map(|c| c.f()));
        }
        v.push(s.mse.f());
        (s.iteration_num, v.into_iter().map(f64::to_bits).collect())
    })
}
fn icp_args<const N: usize>(n: u64) -> (Vec<[f64; N]>, Vec<[f64; N]>, u64) {
    let small = 24 * seq_count(if N == 2 { 9 } else { 8 }, 0, 2).pow(2);
    if n >= small {
        let mut d = Digits(n - small);
        let cfg = d.take(12) as u64;
        let (na, nb) = [(3, 40), (40, 5), (17, 17), (65, 64), (129, 200), (300, 9), (10, 1030), (1030, 10), (513, 513)][d.take(9)];
        let plain = |n: usize, f: f64| (0..n).map(|i| std::array::from_fn(|a| ((i * (37 + 12 * a)) % 101) as f64 * f + (i % 7) as f64 * 0.011)).collect();
        return (plain(na, 0.1), plain(nb, 0.1003), cfg);
    }
    let mut d = Digits(n);
    let k = if N == 2 { 9 } else { 8 };
    let l: Vec<[f64; N]> = lattice::<N>(if N == 2 { 3 } else { 2 }).iter().map(|p| p.map(|c| c as f64)).collect();
    let cfg = d.take(12) as u64;
    let a: Vec<[f64; N]> = seq_nth(k, 0, 2, d.take(seq_count(k, 0, 2)) as u64).iter().map(|&i| l[i]).collect();
    let shift = [0.3, 0.1][d.take(2)];
    let b = seq_nth(k, 0, 2, d.0).iter().map(|&i| std::array::from_fn(|j| l[i][j] * 1.3 + shift)).collect();
    (a, b, cfg)
}
macro_rules! icps {
    ($plan:expr, $module:ident, $func:ident, $f:ty, $n:literal, $k:literal) => {
        $plan.add(Space::new(
            format!("point_clouds::{}::{}", stringify!($module), stringify!($func)),
            24 * seq_count($k, 0, 2).pow(2) + 12 * 9,
            |n| format!("(source, target, settings) = {:?}", icp_args::<$n>(n)),
            |n, ctx| {
                let (a, b, c) = icp_args::<$n>(n);
                let (a, b): (Vec<Point<$f, $n>>, Vec<Point<$f, $n>>) = (a.into_iter().map(pt).collect(), b.into_iter().map(pt).collect());
                let cfg = Arc::new(ICPConfiguration::<$f>::builder())
                    .with_kd_tree(c % 2 == 1)
                    .with_max_iterations([1, 2, 9][(c / 2 % 3) as usize])
                    .with_absolute_mse_threshold([None, Some(0.5)][(c / 6) as usize])
                    .build();
                let want = end(icp::<$f, $n>(&a, &b, cfg.clone()));
                let got = end(point_clouds::$module::$func(&a, &b, cfg));
                ctx.evals(2);
                ctx.outcome(match &got {
                    Ok((i, v)) => v.iter().fold(H::new(*i as u64), |h, b| h.u(*b)),
                    Err(e) => H::new(format!("{e:?}").len() as u64),
                });
                if want != got {
                    return Err(format!("gives {got:?} (bits), the generic function {want:?}").into());
                }
                Ok(())
            },
        ));
    };
}

fn plan(id: &str, tier: Tier) -> Option<Plan> {
    if id != "C28" {
        return None;
    }
    let _ = tier;
    let mut p = Plan::new("exploration", "distinct results of pregenerated functions, compared bit for bit with the generic ones")
        .assume("hulls with a voxel size are compared by their corners, since voxels come in no particular order");
    macro_rules! both {
        ($module:ident, $f:ty) => {
            line!(p, $module, $f, 2, i32 plot_2d_i32_bresenham_line, i64 plot_2d_i64_bresenham_line, isize plot_2d_isize_bresenham_line,
                u32 plot_2d_u32_bresenham_line, u64 plot_2d_u64_bresenham_line, usize plot_2d_usize_bresenham_line,
                f32 plot_2d_f32_bresenham_line, f64 plot_2d_f64_bresenham_line);
            line!(p, $module, $f, 3, i32 plot_3d_i32_bresenham_line, i64 plot_3d_i64_bresenham_line, isize plot_3d_isize_bresenham_line,
                u32 plot_3d_u32_bresenham_line, u64 plot_3d_u64_bresenham_line, usize plot_3d_usize_bresenham_line,
                f32 plot_3d_f32_bresenham_line, f64 plot_3d_f64_bresenham_line);
            sphere!(p, $module, $f);
            pip!(p, $module, $f);
            hull!(p, $module, $f, u8 graham_scan_u8 jarvis_march_u8, u16 graham_scan_u16 jarvis_march_u16, u32 graham_scan_u32 jarvis_march_u32,
                u64 graham_scan_u64 jarvis_march_u64, usize graham_scan_usize jarvis_march_usize, i8 graham_scan_i8 jarvis_march_i8,
                i16 graham_scan_i16 jarvis_march_i16, i32 graham_scan_i32 jarvis_march_i32, i64 graham_scan_i64 jarvis_march_i64,
                isize graham_scan_isize jarvis_march_isize, f32 graham_scan_f32 jarvis_march_f32, f64 graham_scan_f64 jarvis_march_f64);
            icps!(p, $module, icp_2d, $f, 2, 9);
            icps!(p, $module, icp_3d, $f, 3, 8);
        };
    }
    both!(single_precision, f32);
    both!(double_precision, f64);
    Some(p)
}

fn main() {
    mc::main(plan)
}
