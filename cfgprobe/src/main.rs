//! `cfgprobe`: one line "block count hash" per block of cases; `cfgprobe --dump BLOCK`: the results of every case of a block.
use mapping_algorithms::{
    geo,
    kd_tree::KDTree,
    lines,
    point_clouds::{icp, *},
    polygons::*,
    types::IsNan,
};
use nalgebra::{Isometry2, Isometry3, Point, Point2, Point3, Quaternion, UnitComplex, UnitQuaternion, Vector2, Vector3};
use std::fmt::Write;

/// the outcome of one case: text for what must be the same, numbers for what may differ by rounding
#[derive(Default)]
struct Out(String);
impl Out {
    fn s(&mut self, s: impl std::fmt::Display) {
        let _ = write!(self.0, " {s}");
    }
    fn f(&mut self, v: f64) {
        let _ = write!(self.0, " ~{:e}", v + 0.0);
    }
    fn p<T: Num, const N: usize>(&mut self, p: &Point<T, N>) {
        for c in p.iter() {
            c.put(self)
        }
    }
    fn v<T: Num, const N: usize>(&mut self, v: &[Point<T, N>]) {
        self.s(v.len());
        v.iter().for_each(|p| self.p(p));
    }
    fn o<T: Num, const N: usize>(&mut self, v: &Option<Vec<Point<T, N>>>) {
        match v {
            Some(v) => self.v(v),
            None => self.s("none"),
        }
    }
}
trait Num: nalgebra::Scalar + Copy + PartialOrd {
    fn put(&self, o: &mut Out);
}
macro_rules! num {
    (float $($t:ty)*) => { $(impl Num for $t { fn put(&self, o: &mut Out) { if self.is_nan() { o.s("nan") } else { o.f(*self as f64) } } })* };
    (int $($t:ty)*) => { $(impl Num for $t { fn put(&self, o: &mut Out) { o.s(self) } })* };
}
num!(float f32 f64);
num!(int u8 i32 i64 u64);

struct Digits(u64);
impl Digits {
    fn take(&mut self, base: u64) -> usize {
        let d = self.0 % base;
        self.0 /= base;
        d as usize
    }
}
fn count(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}
fn nth(k: u64, max: u32, mut n: u64) -> Vec<usize> {
    for l in 0..=max {
        let c = k.pow(l);
        if n < c {
            let mut d = Digits(n);
            return (0..l).map(|_| d.take(k)).collect();
        }
        n -= c;
    }
    panic!("index out of range")
}
fn lattice(i: usize) -> [f64; 2] {
    [(i % 3) as f64, (i / 3) as f64]
}
fn lattice3(i: usize) -> [f64; 3] {
    [(i % 2) as f64, (i / 2 % 2) as f64 * 1.5, (i / 4) as f64 - 0.25]
}

type Case = fn(u64, &mut Out);
struct Block {
    name: &'static str,
    size: u64,
    run: Case,
}

fn pts2(n: u64) -> Vec<Point2<f64>> {
    nth(9, 4, n).into_iter().map(|i| Point2::from(lattice(i))).collect()
}
fn pts3(n: u64) -> Vec<Point3<f32>> {
    nth(8, 4, n).into_iter().map(|i| Point3::from(lattice3(i).map(|c| c as f32))).collect()
}

/// corners only, starting with the smallest: the voxels come in no particular order
fn canonical<T: Num + Into<f64>>(h: Option<Vec<Point2<T>>>) -> Option<Vec<Point2<T>>> {
    let h = h?;
    let f: Vec<[f64; 2]> = h.iter().map(|p| [p.x.into(), p.y.into()]).collect();
    let n = f.len();
    let cross = |a: [f64; 2], b: [f64; 2], c: [f64; 2]| (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
    let mut keep: Vec<usize> = (0..n).filter(|&i| cross(f[(i + n - 1) % n], f[i], f[(i + 1) % n]).abs() > 1e-6).collect();
    if let Some(m) = (0..keep.len()).min_by(|&a, &b| f[keep[a]].partial_cmp(&f[keep[b]]).unwrap()) {
        keep.rotate_left(m);
    }
    Some(keep.into_iter().map(|i| h[i]).collect())
}

fn hulls(pts: &[Point2<f64>], o: &mut Out) {
    let ints: Vec<Point2<i32>> = pts.iter().map(|p| Point2::new(p.x as i32 * 1000 - 900, p.y as i32 * 700 - 650)).collect();
    let bytes: Vec<Point2<u8>> = pts.iter().map(|p| Point2::new(p.x as u8 * 100, p.y as u8 * 120)).collect();
    let singles: Vec<Point2<f32>> = pts.iter().map(|p| p.cast()).collect();
    let mut sorted = ints.clone();
    sorted.sort_by_key(|p| (p.x, p.y));
    #[cfg(feature = "pregenerated")]
    {
        use mapping_algorithms::polygons::{double_precision as d, single_precision as s};
        o.o(&d::graham_scan_f64(pts, false, None));
        o.o(&s::graham_scan_f32(&singles, false, None));
        o.o(&d::graham_scan_i32(&sorted, true, None));
        o.o(&s::graham_scan_u8(&bytes, false, None));
        o.o(&d::jarvis_march_f64(pts, None));
        o.o(&s::jarvis_march_f32(&singles, None));
        o.o(&d::jarvis_march_i32(&ints, None));
        o.o(&s::jarvis_march_u8(&bytes, None));
    }
    #[cfg(not(feature = "pregenerated"))]
    {
        o.o(&graham_scan::<f64, f64>(pts, false, None));
        o.o(&graham_scan::<f32, f32>(&singles, false, None));
        o.o(&graham_scan::<f64, i32>(&sorted, true, None));
        o.o(&graham_scan::<f32, u8>(&bytes, false, None));
        o.o(&jarvis_march::<f64, f64>(pts, None));
        o.o(&jarvis_march::<f32, f32>(&singles, None));
        o.o(&jarvis_march::<f64, i32>(&ints, None));
        o.o(&jarvis_march::<f32, u8>(&bytes, None));
    }
    for size in [0.75, 1.5] {
        for s in [false, true] {
            o.o(&canonical(graham_scan::<f64, f64>(pts, s, Some(size))));
        }
        o.o(&canonical(jarvis_march::<f64, f64>(pts, Some(size))));
        o.o(&canonical(graham_scan::<f64, i32>(&ints, false, Some(size * 1000.0))));
    }
}

fn sphere<T: nalgebra::RealField + Copy>(n: u64, of: fn(f64) -> T) -> (Point2<T>, Point2<T>) {
    let lat = [-90.0, -89.9, -33.3, 0.0, 12.1, 52.52, 90.0];
    let lon = [-180.0, -179.9, -77.7, 0.0, 2.35, 100.1, 180.0, 359.0];
    let mut d = Digits(n);
    (
        Point2::new(of(lat[d.take(7)]), of(lon[d.take(8)])),
        Point2::new(of(lat[d.take(7)]), of(lon[d.take(8)])),
    )
}
macro_rules! spheres {
    ($n:expr, $o:expr, $t:ty, $m:ident) => {{
        let (a, b) = sphere::<$t>($n, |v| v as $t);
        #[cfg(feature = "pregenerated")]
        let (d, h) = (geo::$m::calculate_haversine_distance(a, b, 10.0), geo::$m::calculate_sphere_bearing(a, b));
        #[cfg(not(feature = "pregenerated"))]
        let (d, h) = (geo::calculate_haversine_distance(a, b, 10.0), geo::calculate_sphere_bearing(a, b));
        (d as f64).put($o);
        // a heading is an angle: compare the direction (any will do at a pole or between coincident and antipodal points)
        let vague = a.x.abs() > 89.8 || b.x.abs() > 89.8 || (a - b).norm() < 0.2 || d > 31.0 || ((a.y - b.y).abs() % 180.0) < 0.2;
        $o.s(h >= 0.0 && h < 6.2832);
        if !vague {
            (h as f64).put($o);
        }
    }};
}

macro_rules! icp_out {
    ($r:expr, $o:expr) => {
        match $r {
            Ok(s) => {
                $o.s("ok");
                $o.s(s.iteration_num);
                s.transform.to_homogeneous().iter().for_each(|c| $o.f(*c as f64));
                $o.f(s.mse as f64);
            }
            Err(e) => $o.s(format!("{e:?}").split('(').next().unwrap_or("")),
        }
    };
}
const CLOUD: [[f64; 3]; 8] = [
    [0.0, 0.0, 0.3],
    [4.1, 0.7, -1.9],
    [-3.2, 2.9, 2.2],
    [1.7, -4.4, 1.1],
    [-2.6, -3.1, -2.8],
    [3.3, 3.9, 0.6],
    [-5.2, 0.4, -0.7],
    [0.9, 5.6, 3.4],
];
fn shift(n: u64) -> ([f64; 3], usize, u64) {
    let mut d = Digits(n);
    let m = [-0.4, 0.1, 0.35];
    ([m[d.take(3)], m[d.take(3)], m[d.take(3)]], 3 + d.take(6), d.0)
}
macro_rules! icps {
    ($n:expr, $o:expr, $t:ty, $m:ident) => {{
        let (s, len, c) = shift($n);
        let conf = |k: u64| {
            let b = ICPConfiguration::<$t>::builder().with_kd_tree(k % 2 == 1).with_max_iterations([1, 4, 15][(k / 2 % 3) as usize]);
            match k / 6 {
                0 => b.build(),
                1 => b.with_absolute_mse_threshold(Some(2.0)).build(),
                _ => b.with_mse_interval_threshold(1.0).build(),
            }
        };
        // a quarter-radian turn, with its sine and cosine written out so that the input is the same everywhere
        let (co, si) = (0.968912421710645, 0.247403959254523);
        let turn = |p: &[f64; 3]| [p[0] * co - p[1] * si + s[0], p[0] * si + p[1] * co + s[1], p[2] + s[2]];
        let a3: Vec<Point3<$t>> = CLOUD[..len].iter().map(|p| Point3::from(p.map(|c| c as $t))).collect();
        let b3: Vec<Point3<$t>> = CLOUD.iter().rev().map(|p| Point3::from(turn(p).map(|c| c as $t))).collect();
        let (a2, b2): (Vec<Point2<$t>>, Vec<Point2<$t>>) = (a3.iter().map(|p| p.xy()).collect(), b3.iter().map(|p| p.xy()).collect());
        #[cfg(feature = "pregenerated")]
        {
            icp_out!(point_clouds_of::$m::icp_2d(&a2, &b2, conf(c)), $o);
            icp_out!(point_clouds_of::$m::icp_3d(&a3, &b3, conf(c)), $o);
        }
        #[cfg(not(feature = "pregenerated"))]
        {
            icp_out!(icp::<$t, 2>(&a2, &b2, conf(c)), $o);
            icp_out!(icp::<$t, 3>(&a3, &b3, conf(c)), $o);
        }
        let (mut iso, mut mse, mut pts) = (Isometry3::<$t>::identity(), 1e6, a3.clone());
        let tree = KDTree::from(b3.as_slice());
        for k in 0..2 {
            let r = icp_iteration(&a3, &mut pts, &b3, if k == 0 { Some(&tree) } else { None }, &mut iso, &mut mse, &conf(c));
            match r {
                Ok(m) => $o.f(m as f64),
                Err(e) => $o.s(format!("{e:?}").split('(').next().unwrap_or("")),
            }
            $o.f(mse as f64);
            $o.v(&pts);
        }
    }};
}
#[cfg(feature = "pregenerated")]
use mapping_algorithms::point_clouds as point_clouds_of;

fn ends(n: u64) -> ([f64; 3], [f64; 3]) {
    let mut d = Digits(n);
    let s = [0.0, 7.0, 2.25, -3.5][d.take(4)];
    let f = [0.0, 0.3][d.take(2)];
    let a = [s, s + 5.0, s + 10.0];
    (a, [a[0] + d.take(9) as f64 - 4.0 + f, a[1] + d.take(9) as f64 - 4.0 + f, a[2] + d.take(9) as f64 - 4.0 + f])
}

/// all that looks at every element, in a way that every element matters
fn sized<T: nalgebra::RealField + Copy + Num + Default + num_traits::Bounded + num_traits::AsPrimitive<T> + num_traits::AsPrimitive<isize> + IsNan, const N: usize>(len: u64, of: fn(f64) -> T, o: &mut Out)
where
    usize: num_traits::AsPrimitive<T>,
{
    let at = |i: u64| -> Point<T, N> { Point::from(std::array::from_fn(|a| of(scattered(i)[a % 3] * if a > 2 { -0.5 } else { 1.0 }))) };
    let c: Vec<Point<T, N>> = (0..len).map(at).collect();
    let t = KDTree::from(c.as_slice());
    o.s(t.len());
    let mut asked: Vec<u64> = (0..len).step_by(len as usize / 24 + 1).collect();
    asked.extend([len.saturating_sub(2), len.saturating_sub(1)]);
    for i in asked {
        let q = at(i);
        for p in [t.nearest(&q), find_nearest_neighbour_naive(&q, &c)] {
            p.map_or(o.s("none"), |p| o.p(&p));
        }
    }
    let mut count = 0;
    t.traverse_tree(|_| count += 1);
    o.s(count);
    o.p(&calculate_point_cloud_center(&c));
    o.o(&lex_sort(&c));
    o.s(lex_sort_ref(&c).map_or(0, |r| r.len()));
    let mut v = c.clone();
    o.s(lex_sort_in_place(&mut v));
    o.v(&v);
    for size in [0.001, 200.0] {
        let d = downsample_point_cloud_voxel(&c, of(size));
        let mut d: Vec<_> = d.iter().map(|p| p.coords.iter().copied().collect::<Vec<_>>()).collect();
        d.sort_by(|a, b| a.partial_cmp(b).unwrap());
        o.s(d.len());
        d.iter().flatten().for_each(|x| x.put(o));
    }
    if let Some(e) = calculate_polygon_extents(&c) {
        e.iter().for_each(|r| {
            r.start().put(o);
            r.end().put(o);
        });
    }
}
/// corners of a convex polygon and of a star, with whole coordinates
fn ring(n: u64) -> (Vec<Point2<f64>>, Vec<Point2<f64>>) {
    let half = (n / 2) as i64;
    let mut convex: Vec<Point2<f64>> = (0..half).map(|i| Point2::new(i as f64, (i * (half - i)) as f64 + 1.0)).collect();
    convex.extend((0..n as i64 - half).rev().map(|i| Point2::new(i as f64, -((i * (half + 1 - i)) as f64))));
    // mirrored inwards at every other corner
    let star = convex.iter().enumerate().map(|(i, p)| if i % 2 == 0 { *p } else { Point2::new(p.x, p.y / 4.0) }).collect();
    (convex, star)
}
fn rings(n: u64, o: &mut Out) {
    let (convex, star) = ring(n);
    let mut shuffled: Vec<Point2<f64>> = (0..n).map(|i| convex[(i * 7 % n) as usize]).collect();
    shuffled.extend(&star);
    o.o(&graham_scan::<f64, f64>(&shuffled, false, None));
    o.o(&jarvis_march::<f64, f64>(&shuffled, None));
    let ints: Vec<Point2<i32>> = shuffled.iter().map(|p| Point2::new(p.x as i32, p.y as i32)).collect();
    o.o(&graham_scan::<f32, i32>(&ints, false, None));
    o.o(&jarvis_march::<f32, i32>(&ints, None));
    let height = (n * n) as f64 / 16.0 + 1.0;
    for poly in [&convex, &star] {
        let q: Vec<Point2<f64>> = (0..n + 17).map(|i| Point2::new((i * 13 % (n + 3)) as f64 / 2.0 - 0.75, ((i * 29 % 31) as f64 / 15.0 - 1.0) * height)).collect();
        let bits = |v: Vec<bool>| v.into_iter().map(|b| if b { '1' } else { '0' }).collect::<String>();
        o.s(are_multiple_points_in_polygon(&q, poly).map_or("none".into(), bits));
        o.s(bits(q.iter().map(|p| is_single_point_in_polygon(p, poly)).collect()));
        let (q, poly): (Vec<Point2<f32>>, Vec<Point2<f32>>) = (q.iter().map(|p| p.cast()).collect(), poly.iter().map(|p| p.cast()).collect());
        o.s(are_multiple_points_in_polygon(&q, &poly).map_or("none".into(), bits));
    }
}

const MANY: [u64; 14] = [31, 33, 64, 65, 100, 129, 256, 257, 500, 1000, 1025, 2049, 4097, 10_001];
const SCALES: [f64; 5] = [1.0, 1.0 / 1048576.0, 1048576.0, 1.0 / 1099511627776.0, 1099511627776.0];
const LONG: [f64; 12] = [100.0, 127.0, 129.0, 255.5, 257.0, 1000.0, 1025.0, 4097.0, 10_001.0, 32_769.0, 65_537.0, 100_000.0];
/// well spread, distinct in every coordinate
fn scattered(i: u64) -> [f64; 3] {
    let i = i + 1;
    [(i * 654_321 % 1_048_583) as f64 / 1024.0 - 500.0, (i * 271_829 % 1_048_583) as f64 / 1024.0 - 300.0, (i * 998_244 % 1_048_583) as f64 / 1024.0 - 700.0]
}

fn blocks() -> Vec<Block> {
    vec![
        Block { name: "f64 kd tree 2D", size: count(9, 4), run: |n, o| {
            let mut t = KDTree::from(pts2(n).as_slice());
            o.s(t.len());
            o.s(t.is_empty());
            for i in 0..9 {
                let q = lattice(i).map(|c| c * 0.9 + 0.05 * i as f64);
                if let Some(p) = t.nearest(&q.into()) {
                    // the distance: ties may be broken either way
                    o.f((p - Point2::from(q)).norm_squared());
                }
            }
            t.traverse_tree_mut(|p| p.x += 2.0);
            t.clone().traverse_tree(|p| o.p(p));
        } },
        Block { name: "f32 kd tree 3D", size: count(8, 4), run: |n, o| {
            let mut t = KDTree::default();
            pts3(n).into_iter().for_each(|p| t.insert(p));
            o.s(t.len());
            for i in 0..8 {
                let q = lattice3(i).map(|c| (c * 0.9 + 0.05 * i as f64) as f32);
                if let Some(p) = t.nearest(&q.into()) {
                    o.f((p - Point3::from(q)).norm_squared() as f64);
                }
            }
            t.traverse_tree(|p| o.p(p));
        } },
        Block { name: "f64 exhaustive nearest, sorts, centre", size: count(9, 4), run: |n, o| {
            let mut c = pts2(n);
            let q = Point2::new(0.7, 1.3);
            if let Some(p) = find_nearest_neighbour_naive(&q, &c) {
                o.f((p - q).norm_squared());
            }
            o.p(&calculate_point_cloud_center(&c));
            o.o(&lex_sort(&c));
            if let Some(r) = lex_sort_ref(&c) {
                r.into_iter().for_each(|p| o.p(p));
            }
            o.s(lex_sort_in_place(&mut c));
            o.v(&c);
        } },
        Block { name: "f32 exhaustive nearest, sorts, centre", size: count(8, 4), run: |n, o| {
            let mut c = pts3(n);
            let q = Point3::new(0.7, 1.3, 0.2);
            if let Some(p) = find_nearest_neighbour_naive(&q, &c) {
                o.f((p - q).norm_squared() as f64);
            }
            o.p(&calculate_point_cloud_center(&c));
            o.s(lex_sort_in_place(&mut c));
            o.v(&c);
        } },
        Block { name: "f64 voxels", size: count(9, 4), run: |n, o| {
            let c: Vec<Point2<f64>> = pts2(n).into_iter().enumerate().map(|(i, p)| p * 1.3 - Vector2::new(1.0 + 0.01 * i as f64, 0.9)).collect();
            for size in [0.5, 1.0, 2.5] {
                let mut d = downsample_point_cloud_voxel(&c, size);
                d.sort_by(|a, b| (a.x, a.y).partial_cmp(&(b.x, b.y)).unwrap());
                o.v(&d);
            }
        } },
        Block { name: "f32 voxels", size: count(8, 4), run: |n, o| {
            let c: Vec<Point3<f32>> = pts3(n).into_iter().enumerate().map(|(i, p)| p * 1.3 - Vector3::new(1.0 + 0.01 * i as f32, 0.9, 0.0)).collect();
            for size in [0.5f32, 2.5] {
                let mut d = downsample_point_cloud_voxel(&c, size);
                d.sort_by(|a, b| (a.x, a.y, a.z).partial_cmp(&(b.x, b.y, b.z)).unwrap());
                o.v(&d);
            }
        } },
        Block { name: "f64 transforms and generated clouds", size: 200, run: |n, o| {
            let k = n as f64;
            let c = pts2(n * 7);
            o.v(&transform_point_cloud(&c, Isometry2::from_parts(Vector2::new(k, 0.5).into(), UnitComplex::from_cos_sin_unchecked(0.6, 0.8))));
            let q = UnitQuaternion::new_unchecked(Quaternion::new(0.5f32, 0.5, -0.5, 0.5));
            o.v(&transform_point_cloud(&pts3(n * 7), Isometry3::from_parts(Vector3::new(k as f32, 0.5, 1.0).into(), q)));
            o.v(&generate_point_cloud::<f64, 2>((n % 20) as usize, [0.0..=1.0 + k, -k..=2.5]));
            o.v(&generate_point_cloud::<f32, 3>((n % 20) as usize, [0.0..=1.0, -4.0..=2.5, 7.0..=7.5]));
            o.v(&generate_point_cloud::<i32, 2>((n % 20) as usize, [0..=9, -4..=n as i32]));
        } },
        Block { name: "f32 hulls", size: count(9, 4), run: |n, o| hulls(&pts2(n), o) },
        Block { name: "f64 point in polygon", size: count(9, 4), run: |n, o| {
            let poly = pts2(n);
            let single: Vec<Point2<f32>> = poly.iter().map(|p| p.cast()).collect();
            let q: Vec<Point2<f64>> = (0..49).map(|i| Point2::new((i % 7) as f64 * 0.5 - 0.5, (i / 7) as f64 * 0.5 - 0.5)).collect();
            let q32: Vec<Point2<f32>> = q.iter().map(|p| p.cast()).collect();
            let bits = |v: Vec<bool>| v.into_iter().map(|b| if b { '1' } else { '0' }).collect::<String>();
            o.s(bits(q.iter().map(|p| is_single_point_in_polygon(p, &poly)).collect()));
            #[cfg(feature = "pregenerated")]
            {
                o.s(bits(q32.iter().map(|p| mapping_algorithms::polygons::single_precision::is_single_point_in_polygon(p, &single)).collect()));
                o.s(mapping_algorithms::polygons::double_precision::are_multiple_points_in_polygon(&q, &poly).map_or("none".into(), bits));
                o.s(mapping_algorithms::polygons::single_precision::are_multiple_points_in_polygon(&q32, &single).map_or("none".into(), bits));
            }
            #[cfg(not(feature = "pregenerated"))]
            {
                o.s(bits(q32.iter().map(|p| is_single_point_in_polygon(p, &single)).collect()));
                o.s(are_multiple_points_in_polygon(&q, &poly).map_or("none".into(), bits));
                o.s(are_multiple_points_in_polygon(&q32, &single).map_or("none".into(), bits));
            }
            match calculate_polygon_extents(&poly) {
                Some(e) => e.iter().for_each(|r| {
                    o.f(*r.start());
                    o.f(*r.end());
                }),
                None => o.s("none"),
            }
        } },
        Block { name: "f64 sphere", size: 56 * 56, run: |n, o| spheres!(n, o, f64, double_precision) },
        Block { name: "f32 sphere", size: 56 * 56, run: |n, o| spheres!(n, o, f32, single_precision) },
        Block { name: "f64 lines", size: 8 * 729, run: |n, o| {
            let (a, b) = ends(n);
            #[cfg(feature = "pregenerated")]
            {
                o.v(&lines::double_precision::plot_3d_i32_bresenham_line(a.into(), b.into()));
                o.v(&lines::double_precision::plot_2d_f64_bresenham_line(Point2::new(a[0], a[1]), Point2::new(b[0], b[1])));
                o.v(&lines::double_precision::plot_2d_u64_bresenham_line(Point2::new(a[0] + 99.0, a[1] + 99.0), Point2::new(b[0] + 99.0, b[1] + 99.0)));
            }
            #[cfg(not(feature = "pregenerated"))]
            {
                o.v(&lines::plot_bresenham_line::<f64, i32, 3>(a.into(), b.into()));
                o.v(&lines::plot_bresenham_line::<f64, f64, 2>(Point2::new(a[0], a[1]), Point2::new(b[0], b[1])));
                o.v(&lines::plot_bresenham_line::<f64, u64, 2>(Point2::new(a[0] + 99.0, a[1] + 99.0), Point2::new(b[0] + 99.0, b[1] + 99.0)));
            }
        } },
        Block { name: "f32 lines", size: 8 * 729, run: |n, o| {
            let (a, b) = ends(n);
            let (a, b) = (a.map(|c| c as f32), b.map(|c| c as f32));
            #[cfg(feature = "pregenerated")]
            {
                o.v(&lines::single_precision::plot_3d_i64_bresenham_line(a.into(), b.into()));
                o.v(&lines::single_precision::plot_3d_f32_bresenham_line(a.into(), b.into()));
            }
            #[cfg(not(feature = "pregenerated"))]
            {
                o.v(&lines::plot_bresenham_line::<f32, i64, 3>(a.into(), b.into()));
                o.v(&lines::plot_bresenham_line::<f32, f32, 3>(a.into(), b.into()));
            }
        } },
        Block { name: "f64 icp", size: 27 * 6 * 18, run: |n, o| icps!(n, o, f64, double_precision) },
        Block { name: "f32 icp", size: 27 * 6 * 18, run: |n, o| icps!(n, o, f32, single_precision) },
        Block { name: "f64 icp refusals", size: 32, run: |n, o| {
            let b = |k: u64| n >> k & 1 == 1;
            let p = [Point2::new(0.0, 1.0)];
            let e: [Point2<f64>; 0] = [];
            let cfg = ICPConfiguration::builder()
                .with_max_iterations(if b(2) { 0 } else { 3 })
                .with_mse_interval_threshold(if b(3) { 0.0 } else { 0.1 })
                .with_absolute_mse_threshold(if b(4) { Some(0.0) } else { None })
                .build();
            icp_out!(icp::<f64, 2>(if b(0) { &e } else { &p }, if b(1) { &e } else { &p }, cfg), o);
        } },
        Block { name: "f64 many elements and scales", size: MANY.len() as u64 * 5, run: |n, o| {
            let (len, scale) = (MANY[(n / 5) as usize], SCALES[(n % 5) as usize]);
            let c: Vec<Point2<f64>> = (0..len).map(|i| Point2::new(scattered(i)[0] * scale, scattered(i)[1] * scale)).collect();
            let t = KDTree::from(c.as_slice());
            o.s(t.len());
            for i in 0..40 {
                let q = Point2::new(scattered(i * 3 + 1)[1] * scale, scattered(i * 5 + 2)[0] * scale);
                if let (Some(a), Some(b)) = (t.nearest(&q), find_nearest_neighbour_naive(&q, &c)) {
                    o.f((a - q).norm() / scale);
                    o.f((b - q).norm() / scale);
                }
            }
            t.clone().traverse_tree(|p| o.p(p));
            o.p(&(calculate_point_cloud_center(&c) / scale));
            o.o(&lex_sort(&c));
            o.s(lex_sort_ref(&c).map_or(0, |r| r.len()));
            let mut d = downsample_point_cloud_voxel(&c, 37.5 * scale);
            d.sort_by(|a, b| (a.x, a.y).partial_cmp(&(b.x, b.y)).unwrap());
            o.v(&d);
            o.v(&transform_point_cloud(&c, Isometry2::from_parts(Vector2::new(scale, 0.5).into(), UnitComplex::from_cos_sin_unchecked(0.6, 0.8))));
            o.o(&graham_scan::<f64, f64>(&c, false, None));
            o.o(&jarvis_march::<f64, f64>(&c, None));
            let q: Vec<Point2<f64>> = (0..len.min(2000)).map(|i| Point2::new(scattered(i * 3 + 1)[1] * scale, scattered(i * 5 + 2)[0] * scale)).collect();
            let poly = &c[..len.min(300) as usize];
            o.s(are_multiple_points_in_polygon(&q, poly).map_or("none".into(), |v| v.into_iter().map(|b| if b { '1' } else { '0' }).collect::<String>()));
            o.s(q.iter().take(50).map(|p| if is_single_point_in_polygon(p, poly) { '1' } else { '0' }).collect::<String>());
            if let Some(e) = calculate_polygon_extents(&c) {
                e.iter().for_each(|r| {
                    o.f(*r.start());
                    o.f(*r.end());
                });
            }
        } },
        Block { name: "f32 many elements and scales", size: MANY.len() as u64 * 5, run: |n, o| {
            let (len, scale) = (MANY[(n / 5) as usize], SCALES[(n % 5) as usize] as f32);
            let c: Vec<Point3<f32>> = (0..len).map(|i| Point3::from(scattered(i).map(|c| c as f32 * scale))).collect();
            let t = KDTree::from(c.as_slice());
            o.s(t.len());
            for i in 0..40 {
                let q = Point3::from(scattered(i * 3 + 1).map(|c| c as f32 * scale * 0.97));
                if let (Some(a), Some(b)) = (t.nearest(&q), find_nearest_neighbour_naive(&q, &c)) {
                    o.f(((a - q) / scale).norm() as f64);
                    o.f(((b - q) / scale).norm() as f64);
                }
            }
            o.o(&lex_sort(&c));
            let mut d = downsample_point_cloud_voxel(&c, 80.0 * scale);
            d.sort_by(|a, b| (a.x, a.y, a.z).partial_cmp(&(b.x, b.y, b.z)).unwrap());
            o.s(d.len());
            let flat: Vec<Point2<i32>> = (0..len).map(|i| Point2::new(scattered(i)[0] as i32, scattered(i)[1] as i32)).collect();
            o.o(&graham_scan::<f64, i32>(&flat, false, None));
            o.o(&jarvis_march::<f64, i32>(&flat, None));
        } },
        Block { name: "f64 every size up to 300 and more", size: 301 + 3 * 10, run: |n, o| {
            let len = if n <= 300 { n } else { [511, 1023, 2047, 4095, 8191, 9999, 16_383, 16_384, 16_385, 20_000][(n as usize - 301) / 3] + (n - 301) % 3 };
            sized::<f64, 1>(len, |v| v, o);
            sized::<f64, 2>(len, |v| v, o);
            sized::<f64, 3>(len, |v| v, o);
        } },
        Block { name: "f32 every size up to 300", size: 301, run: |n, o| {
            sized::<f32, 1>(n, |v| v as f32, o);
            sized::<f32, 2>(n, |v| v as f32, o);
            sized::<f32, 3>(n, |v| v as f32, o);
            sized::<f32, 4>(n, |v| v as f32, o);
        } },
        Block { name: "f64 polygons of every size up to 200", size: 201, run: rings },
        Block { name: "f64 generated clouds of every size", size: 301, run: |n, o| {
            let len = if n == 300 { 70_001 } else { n as usize };
            o.v(&generate_point_cloud::<f64, 2>(len, [0.0..=1.0, -1e300..=2.5]));
            o.v(&generate_point_cloud::<f32, 3>(len, [0.0..=1.0, -4.0..=2.5, 7.0..=7.5]));
            o.v(&generate_point_cloud::<u8, 4>(len, [0..=9, 4..=4, 0..=255, 1..=200]));
        } },
        Block { name: "f64 icp of many points", size: MANY.len() as u64 * 4, run: |n, o| {
            let len = MANY[(n / 4) as usize].min(1025);
            // a grid with distinct neighbours, moved by little
            let a: Vec<Point2<f64>> = (0..len).map(|i| Point2::new((i % 32) as f64 * 3.0 + (i % 5) as f64 * 0.125, (i / 32) as f64 * 3.0 + (i % 7) as f64 * 0.0625)).collect();
            let i = Isometry2::from_parts(Vector2::new(0.25, -0.125).into(), UnitComplex::from_cos_sin_unchecked(0.99998, 0.00632449));
            let b: Vec<Point2<f64>> = a.iter().rev().map(|p| i.transform_point(p)).collect();
            let cfg = ICPConfiguration::builder().with_kd_tree(n % 2 == 1).with_mse_interval_threshold([1e-3, 1e-7][(n / 2 % 2) as usize]).build();
            icp_out!(icp::<f64, 2>(&a, &b, cfg), o);
        } },
        Block { name: "f64 long lines", size: LONG.len() as u64 * 8, run: |n, o| {
            let l = LONG[(n / 8) as usize];
            let m = [0.0, 0.3, -0.5, 1.0][(n % 4) as usize] * l;
            let s = [0.0, -1000.25][(n / 4 % 2) as usize];
            for v in [lines::plot_bresenham_line::<f64, i32, 2>(Point2::new(s, s), Point2::new(s + l, s + m)), lines::plot_bresenham_line::<f32, i32, 2>(Point2::new(s as f32, s as f32), Point2::new((s + m) as f32, (s - l) as f32))] {
                o.v(&v);
            }
            o.v(&lines::plot_bresenham_line::<f64, i64, 4>([s, 0.0, 1.0, 2.0].into(), [s - l, m, -m, l].into()));
        } },
        Block { name: "f64 radii and turns", size: 7 * 8 * 7 * 8, run: |n, o| {
            let (a, b) = sphere::<f64>(n, |v| v);
            for r in [1e-6, 1.0, 6371.0, 6_371_008.8, 1e12] {
                o.f(geo::calculate_haversine_distance(a, b, r));
                o.f(geo::calculate_haversine_distance(Point2::new(a.x, a.y - 720.0), b, r));
            }
        } },
        Block { name: "f64 other dimensions", size: count(9, 4), run: |n, o| {
            let l = nth(9, 4, n);
            let one: Vec<Point<f64, 1>> = l.iter().map(|&i| [i as f64 - 4.0].into()).collect();
            let five: Vec<Point<f64, 5>> = l.iter().map(|&i| [i as f64 - 4.0, (i * 5 % 9) as f64, (i * 7 % 4) as f64 - 2.0, 0.5, (i % 2) as f64].into()).collect();
            let (t, u) = (KDTree::from(one.as_slice()), KDTree::from(five.as_slice()));
            o.s(t.len());
            o.s(u.len());
            for i in 0..9 {
                let q: Point<f64, 1> = [i as f64 * 1.1 - 4.3].into();
                if let (Some(a), Some(b)) = (t.nearest(&q), find_nearest_neighbour_naive(&q, &one)) {
                    o.f((a - q).norm());
                    o.f((b - q).norm());
                }
                let q: Point<f64, 5> = [i as f64 * 1.1 - 4.3, i as f64, 0.3, 0.2, 0.1].into();
                if let (Some(a), Some(b)) = (u.nearest(&q), find_nearest_neighbour_naive(&q, &five)) {
                    o.f((a - q).norm());
                    o.f((b - q).norm());
                }
            }
            o.p(&calculate_point_cloud_center(&five));
            o.o(&lex_sort(&five));
            let mut d = downsample_point_cloud_voxel(&five, 1.7);
            d.sort_by(|a, b| a.coords.as_slice().partial_cmp(b.coords.as_slice()).unwrap());
            o.v(&d);
            if let Some(e) = calculate_polygon_extents(&five) {
                e.iter().for_each(|r| {
                    o.f(*r.start());
                    o.f(*r.end());
                });
            }
        } },
        Block { name: "f64 NaN", size: count(9, 4) * 2, run: |n, o| {
            let mut c = pts2(n / 2);
            if let Some(l) = c.len().checked_sub(1) {
                c[(n % 7) as usize % (l + 1)][(n % 2) as usize] = f64::NAN;
            }
            o.s(lex_sort(&c).is_some());
            o.s(lex_sort_ref(&c).is_some());
            o.s(lex_sort_in_place(&mut c));
            o.o(&graham_scan::<f64, f64>(&c, false, None));
            o.o(&jarvis_march::<f64, f64>(&c, None));
            o.s(c.iter().flat_map(|p| p.iter()).filter(|c| IsNan::is_nan(**c)).count());
            o.s(IsNan::is_nan(n as i32));
        } },
    ]
}

// ---------------------------------------------------------------------------------------------------------------
// errors as errors: looked up without requiring that the traits are there

#[cfg(feature = "std")]
mod errors {
    use super::*;
    pub struct W<T>(pub T);
    #[allow(dead_code)]
    pub trait Not {
        fn message(&self) -> Option<String> {
            None
        }
    }
    impl<T> Not for &W<T> {}
    impl<T: std::error::Error + 'static> W<T> {
        pub fn message(&self) -> Option<String> {
            let e: &dyn std::error::Error = &self.0;
            Some(e.to_string())
        }
    }
    pub fn report() {
        let p = Point2::new(1.0, 2.0);
        let all: [(&str, ICPError<f64, 2>); 8] = [
            ("SourcePointCloudEmpty", ICPError::SourcePointCloudEmpty),
            ("TargetPointCloudEmpty", ICPError::TargetPointCloudEmpty),
            ("NoNearestNeighbour", ICPError::NoNearestNeighbour),
            ("IterationNumIsZero", ICPError::IterationNumIsZero),
            ("MSEIntervalThreshold", ICPError::MSEIntervalThreshold),
            ("MSEAbsoluteThreshold", ICPError::MSEAbsoluteThreshold),
            ("IterationDidNotConverge", ICPError::IterationDidNotConverge((p, p))),
            ("AlrogithmDidNotConverge", ICPError::AlrogithmDidNotConverge),
        ];
        for (n, e) in all {
            println!("error\t{n}\t{}", (&W(e)).message().unwrap_or_default());
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// with tracing, everything is recorded

#[cfg(feature = "tracing")]
mod spans {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    pub static SPANS: AtomicU64 = AtomicU64::new(0);
    struct All;
    struct Show;
    impl tracing::field::Visit for Show {
        fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
            std::hint::black_box(format!("{v:?}"));
        }
    }
    impl tracing::Subscriber for All {
        fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
            a.record(&mut Show);
            tracing::span::Id::from_u64(SPANS.fetch_add(1, Relaxed) + 1)
        }
        fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
            r.record(&mut Show)
        }
        fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
        fn event(&self, e: &tracing::Event<'_>) {
            e.record(&mut Show)
        }
        fn enter(&self, _: &tracing::span::Id) {}
        fn exit(&self, _: &tracing::span::Id) {}
    }
    pub fn on() {
        let _ = tracing::dispatcher::set_global_default(tracing::Dispatch::new(All));
    }
}

fn case(b: &Block, n: u64) -> String {
    let mut o = Out::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (b.run)(n, &mut o)));
    if r.is_err() {
        o.s("PANIC");
    }
    o.0
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(feature = "tracing")]
    spans::on();
    let args: Vec<String> = std::env::args().collect();
    let all = blocks();
    if args.len() > 2 && args[1] == "--dump" {
        let b = &all[args[2].parse::<usize>().expect("block number")];
        for n in 0..b.size {
            println!("{}", case(b, n));
        }
        return;
    }
    let todo = std::sync::atomic::AtomicUsize::new(0);
    let done = std::sync::Mutex::new(vec![String::new(); all.len()]);
    std::thread::scope(|s| {
        for _ in 0..4 {
            s.spawn(|| loop {
                let i = todo.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= all.len() {
                    return;
                }
                let b = &all[i];
                let (mut h, mut distinct) = (0xcbf2_9ce4_8422_2325u64, std::collections::HashSet::new());
                for n in 0..b.size {
                    let mut c = 0xcbf2_9ce4_8422_2325u64;
                    for x in case(b, n).bytes() {
                        c = (c ^ x as u64).wrapping_mul(0x100_0000_01b3);
                    }
                    distinct.insert(c);
                    h = (h ^ c).wrapping_mul(0x100_0000_01b3).rotate_left(17);
                }
                done.lock().unwrap()[i] = format!("block\t{i}\t{}\t{}\t{}\t{h:016x}", b.name, b.size, distinct.len());
            });
        }
    });
    for l in done.into_inner().unwrap() {
        println!("{l}");
    }
    #[cfg(feature = "std")]
    errors::report();
    #[cfg(feature = "tracing")]
    println!("spans\t{}", spans::SPANS.load(std::sync::atomic::Ordering::Relaxed));
}
