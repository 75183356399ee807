//! C30: every public function is a function of its arguments, under every call history and every interleaving.
use mapping_algorithms::{
    geo,
    kd_tree::KDTree,
    lines,
    point_clouds::{self, *},
    polygons::{self, *},
};
use mc::{step::*, *};
use nalgebra::{Isometry2, Isometry3, Point, Point2, Point3, UnitComplex, UnitQuaternion, Vector2, Vector3};
use std::{
    cell::UnsafeCell,
    sync::{
        atomic::{AtomicPtr, Ordering::SeqCst},
        OnceLock,
    },
};

// ---------------------------------------------------------------------------------------------------------------
// arguments

/// Inputs live in the same buffers for every call, so that a cache keyed by address and length shows.
#[repr(align(64))]
struct Scratch(UnsafeCell<[[u8; 16384]; 4]>);
thread_local! {
    static SCRATCH: Scratch = const { Scratch(UnsafeCell::new([[0; 16384]; 4])) };
}
fn at<P: Copy>(slot: usize, v: &[P]) -> &'static mut [P] {
    assert!(std::mem::size_of_val(v) <= 16384);
    SCRATCH.with(|s| unsafe {
        let p = (*s.0.get())[slot].as_mut_ptr() as *mut P;
        std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
        std::slice::from_raw_parts_mut(p, v.len())
    })
}

thread_local! {
    /// arguments that are almost, but not quite, those of another call (0: as they are)
    static NUDGE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// relative changes; the last kind only turns the sign of the zeros
const EPS: [f64; 6] = [2.3e-16, 1e-12, 1e-10, 1e-8, 2e-7, 1e-4];
const NUDGES: usize = EPS.len() * 4 + 1;
fn nudge_name(n: usize) -> String {
    match n {
        0 => "as they are".into(),
        NUDGES => "with the sign of zeros turned".into(),
        n => format!("{} changed by {:e}", ["every value", "every other value"][(n - 1) / 2 % 2], EPS[(n - 1) / 4] * [1.0, -1.0][(n - 1) % 2]),
    }
}
/// the i-th value of an argument
fn near(i: usize, x: f64) -> f64 {
    match NUDGE.get() {
        0 => x,
        NUDGES if x == 0.0 => -0.0,
        NUDGES => x,
        n if (n - 1) / 2 % 2 == 1 && i % 2 == 0 => x,
        n => x * (1.0 + EPS[(n - 1) / 4] * [1.0, -1.0][(n - 1) % 2]),
    }
}
fn nears<const K: usize>(c: [f64; K]) -> [f64; K] {
    std::array::from_fn(|i| near(i, c[i]))
}
fn nears32<const K: usize>(c: [f32; K]) -> [f32; K] {
    std::array::from_fn(|i| near(i, c[i] as f64) as f32)
}

/// variant 0 and 1: same length, other contents; 2: shorter; 3: differs from 0 in one element in the middle; 4: many elements
const VARIANTS: usize = 5;
const MANY: usize = 140;
fn cloud2(v: usize) -> Vec<Point2<f64>> {
    if v == 4 {
        // most of them corners of the hull (no three on a line, also in quarters), in no particular order, a few inside
        let corner = |i: usize| (i * 59 % (MANY - 30)) as f64 - 55.0;
        return (0..MANY)
            .map(|i| if i < MANY - 30 { [corner(i), corner(i) * corner(i) * 0.25 - 50.0] } else { [(i * 37 % 23) as f64 - 11.0, (i * i * 5 % 29) as f64 * 0.75] })
            .map(|c| Point2::from(nears(c)))
            .collect();
    }
    let all: [&[[f64; 2]]; 4] = [
        &[[0.0, 0.0], [4.0, 0.5], [1.25, 3.0], [3.5, 4.0], [2.0, 1.75], [0.5, 2.25]],
        &[[7.0, -2.0], [-3.0, 6.5], [2.0, 2.0], [5.5, 5.0], [-1.0, -1.5], [0.25, 8.0]],
        &[[1.0, 5.0], [6.0, 1.0], [-2.0, 2.5], [2.0, 2.0]],
        &[[0.0, 0.0], [4.0, 0.5], [1.25, 3.0], [4.25, 6.5], [2.0, 1.75], [0.5, 2.25]],
    ];
    all[v].iter().map(|c| Point2::from(nears(*c))).collect()
}
fn cloud3(v: usize) -> Vec<Point3<f32>> {
    if v == 4 {
        return (0..MANY).map(|i| Point3::new((i * 37 % 101) as f32 * 0.25, (i * i * 5 % 97) as f32 * 0.25, (i * 11 % 89) as f32 * 0.5)).collect();
    }
    let all: [&[[f32; 3]]; 4] = [
        &[[0.0, 0.0, 0.0], [4.0, 0.5, 1.0], [1.25, 3.0, -1.0], [3.5, 4.0, 2.0], [2.0, 1.75, 5.0]],
        &[[7.0, -2.0, 3.0], [-3.0, 6.5, 0.0], [2.0, 2.0, -4.0], [5.5, 5.0, 5.0], [-1.0, -1.5, 1.0]],
        &[[1.0, 5.0, 2.0], [6.0, 1.0, -3.0], [-2.0, 2.5, 0.5]],
        &[[0.0, 0.0, 0.0], [4.0, 0.5, 1.0], [2.25, 2.5, -0.5], [3.5, 4.0, 2.0], [2.0, 1.75, 5.0]],
    ];
    all[v].iter().map(|c| Point3::from(nears32(*c))).collect()
}
fn square(v: usize) -> Vec<Point2<f64>> {
    if v == 4 {
        // a star of many vertices
        return (0..MANY).map(|i| (i as f64 * std::f64::consts::TAU / MANY as f64, 1.0 + (i % 2) as f64 * 3.5)).map(|(t, r)| Point2::new(1.5 + r * t.cos(), 1.5 + r * t.sin())).collect();
    }
    let all: [&[[f64; 2]]; 4] = [
        &[[0.0, 0.0], [4.0, 0.0], [4.0, 4.0], [2.0, 1.0], [0.0, 4.0]],
        &[[-3.0, 1.0], [1.0, -3.0], [5.0, 1.0], [1.0, 5.0], [0.0, 1.0]],
        &[[0.0, 0.0], [6.0, 2.0], [1.0, 5.0]],
        &[[0.0, 0.0], [4.0, 0.0], [5.5, 2.0], [2.0, 1.0], [0.0, 4.0]],
    ];
    all[v].iter().map(|c| Point2::from(nears(*c))).collect()
}
fn queries() -> [Point2<f64>; 5] {
    [[1.0, 1.0], [3.0, 3.5], [-1.0, 2.0], [2.0, 0.5], [0.5, 3.0]].map(nears).map(Point2::from)
}

/// what all callers share
struct Shared {
    tree: [KDTree<f64, 2>; VARIANTS],
    tree3: [KDTree<f32, 3>; VARIANTS],
    cloud: [Vec<Point2<f64>>; VARIANTS],
    polygon: [Vec<Point2<f64>>; VARIANTS],
    cfg: ICPConfigurationBuilder<f64>,
}
static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());
/// builds the shared arguments (made before a second thread exists)
fn shared() -> &'static Shared {
    let p = SHARED.load(SeqCst);
    if !p.is_null() {
        return unsafe { &*p };
    }
    let nudge = NUDGE.replace(0);
    let b = Box::new(Shared {
        tree: std::array::from_fn(|v| KDTree::from(cloud2(v).as_slice())),
        tree3: std::array::from_fn(|v| KDTree::from(cloud3(v).as_slice())),
        cloud: std::array::from_fn(cloud2),
        polygon: std::array::from_fn(square),
        cfg: ICPConfiguration::builder().with_max_iterations(6),
    });
    let p = Box::into_raw(b);
    SHARED.store(p, SeqCst);
    NUDGE.set(nudge);
    unsafe { &*p }
}

// ---------------------------------------------------------------------------------------------------------------
// digests

trait Bits: Copy {
    fn bits(self) -> u64;
}
impl Bits for f32 {
    fn bits(self) -> u64 {
        if self.is_nan() { u64::MAX } else { self.to_bits() as u64 }
    }
}
impl Bits for f64 {
    fn bits(self) -> u64 {
        if self.is_nan() { u64::MAX } else { self.to_bits() }
    }
}
impl Bits for i32 {
    fn bits(self) -> u64 {
        self as u64
    }
}
fn hp<T: Bits + nalgebra::Scalar, const N: usize>(h: H, p: &Point<T, N>) -> H {
    (0..N).fold(h, |h, i| h.u(p[i].bits()))
}
fn hv<T: Bits + nalgebra::Scalar, const N: usize>(v: &[Point<T, N>]) -> H {
    v.iter().fold(H::new(v.len() as u64), hp)
}
fn ho<T: Bits + nalgebra::Scalar, const N: usize>(v: &Option<Vec<Point<T, N>>>) -> H {
    v.as_ref().map_or(H::new(u64::MAX), |v| hv(v))
}
/// free of the order, for results that come in none
fn hset<T: Bits + nalgebra::Scalar, const N: usize>(v: &[Point<T, N>]) -> H {
    v.iter().fold(H::new(v.len() as u64), |h, p| H(h.0.wrapping_add(hp(H::new(3), p).0)))
}

struct Call {
    name: &'static str,
    /// needs the shared arguments
    shared: bool,
    f: fn(usize) -> H,
}

fn iso2(v: usize) -> Isometry2<f64> {
    Isometry2::from_parts(Vector2::new(near(0, 0.25 * (v + 1) as f64), near(1, -0.5)).into(), UnitComplex::new(near(1, 0.125 * (v + 1) as f64)))
}
fn iso3(v: usize) -> Isometry3<f32> {
    Isometry3::from_parts(Vector3::new(0.25 * (v + 1) as f32, -0.5, 1.0).into(), UnitQuaternion::from_euler_angles(near(1, 0.1 * (v + 1) as f64) as f32, 0.2, -0.3))
}
macro_rules! icp_digest {
    ($r:expr) => {
        match $r {
            Ok(s) => {
                let m = s.transform.to_homogeneous();
                m.iter().fold(H::new(s.iteration_num as u64), |h, c| h.u(c.bits())).u(s.mse.bits())
            }
            Err(ICPError::IterationDidNotConverge((a, b))) => hp(hp(H::new(901), &a), &b),
            Err(e) => H::new(match e {
                ICPError::SourcePointCloudEmpty => 902,
                ICPError::TargetPointCloudEmpty => 903,
                ICPError::NoNearestNeighbour => 904,
                ICPError::IterationNumIsZero => 905,
                ICPError::MSEIntervalThreshold => 906,
                ICPError::MSEAbsoluteThreshold => 907,
                ICPError::AlrogithmDidNotConverge => 908,
                _ => 909,
            }),
        }
    };
}

fn catalogue() -> &'static [Call] {
    macro_rules! c {
        ($name:literal, $f:expr) => {
            Call { name: $name, shared: false, f: $f }
        };
        (shared $name:literal, $f:expr) => {
            Call { name: $name, shared: true, f: $f }
        };
    }
    const C: &[Call] = &[
        c!("KDTree::from and traverse_tree, 2D f64", |v| {
            let t = KDTree::from(&*at(0, &cloud2(v)));
            let mut h = H::new(t.len() as u64);
            t.traverse_tree(|p| h = hp(h, p));
            h
        }),
        c!("KDTree::insert, len, is_empty, 3D f32", |v| {
            let mut t = KDTree::default();
            let mut h = H::new(t.is_empty() as u64);
            for p in at(0, &cloud3(v)).iter() {
                t.insert(*p);
                t.insert(*p);
                h = h.u(t.len() as u64);
            }
            t.traverse_tree(|p| h = hp(h, p));
            h.u(t.is_empty() as u64)
        }),
        c!("KDTree::nearest, own tree, 3D f32", |v| {
            let t = KDTree::from(&*at(0, &cloud3(v)));
            let q = at(1, &[Point3::new(1.0f32, 2.0, v as f32), Point3::new(-5.0, 6.0, 0.0), Point3::new(3.0, 3.0, 3.0)]);
            q.iter().fold(H::new(1), |h, q| hp(h, &t.nearest(q).unwrap()))
        }),
        c!(shared "KDTree::nearest, shared tree, 2D f64", |v| {
            at(1, &queries()).iter().fold(H::new(1), |h, q| hp(h, &shared().tree[v].nearest(q).unwrap()))
        }),
        c!(shared "KDTree::traverse_tree, shared tree, 3D f32", |v| {
            let mut h = H::new(shared().tree3[v].len() as u64);
            shared().tree3[v].traverse_tree(|p| h = hp(h, p));
            h
        }),
        c!(shared "KDTree::clone of a shared tree, traverse_tree_mut and nearest", |v| {
            let mut t = shared().tree[v].clone();
            t.traverse_tree_mut(|p| *p = Point2::new(p.x + 10.0, p.y - v as f64));
            let mut h = H::new(t.len() as u64);
            t.traverse_tree(|p| h = hp(h, p));
            at(1, &queries()).iter().fold(h, |h, q| hp(h, &t.nearest(q).unwrap()))
        }),
        c!("find_nearest_neighbour_naive", |v| {
            let c = at(0, &cloud2(v));
            at(1, &queries()).iter().fold(H::new(1), |h, q| hp(h, &find_nearest_neighbour_naive(q, c).unwrap()))
        }),
        c!("lex_sort_in_place", |v| {
            let c = at(0, &cloud2(v));
            c.reverse();
            let r = lex_sort_in_place(c);
            hv(c).u(r as u64)
        }),
        c!("lex_sort", |v| hv(&lex_sort(at(0, &cloud3(v))).unwrap())),
        c!(shared "lex_sort_ref of a shared cloud", |v| {
            let r = lex_sort_ref(&shared().cloud[v]).unwrap();
            r.iter().fold(H::new(r.len() as u64), |h, p| hp(h, p))
        }),
        c!("downsample_point_cloud_voxel, 2D f64", |v| hset(&downsample_point_cloud_voxel(at(0, &cloud2(v)), near(1, [2.0f64, 3.0, 1.5, 2.0, 2.0][v])))),
        c!("downsample_point_cloud_voxel, 3D f32", |v| hset(&downsample_point_cloud_voxel(at(0, &cloud3(v)), near(1, [3.0, 2.0, 4.0, 3.0, 3.0][v]) as f32))),
        c!("calculate_point_cloud_center", |v| hp(H::new(1), &calculate_point_cloud_center(at(0, &cloud2(v))))),
        c!("transform_point_cloud, 2D f64", |v| hv(&transform_point_cloud(at(0, &cloud2(v)), iso2(v)))),
        c!("transform_point_cloud, 3D f32", |v| hv(&transform_point_cloud(at(0, &cloud3(v)), iso3(v)))),
        c!("generate_point_cloud", |v| {
            hv(&generate_point_cloud::<f64, 2>([3, 3, 4, 3, MANY][v], [[0.0..=1.0, -4.0..=2.5], [5.0..=9.0, 0.0..=0.5], [0.0..=1.0, -4.0..=2.5], [0.0..=1.0, -4.0..=2.0], [0.0..=1.0, -4.0..=2.5]][v].clone()))
        }),
        c!("icp, 2D f64, exhaustive", |v| {
            let a = cloud2(v);
            let b = transform_by_hand(&a, v);
            let cfg = ICPConfiguration::builder().with_max_iterations([4, 5, 6, 4, 2][v]).with_mse_interval_threshold(near(1, [1e-3, 0.25, 1e-3, 1e-3, 1e-3][v])).build();
            icp_digest!(icp::<f64, 2>(at(0, &a), at(1, &b), cfg))
        }),
        c!("icp, 3D f32, KD-tree", |v| {
            let a = cloud3(v);
            let b: Vec<_> = a.iter().map(|p| iso3(v).inverse() * p).collect();
            let cfg = ICPConfiguration::builder().with_kd_tree(true).with_max_iterations(3).with_absolute_mse_threshold([None, Some(0.5), Some(2.0), None, None][v]).build();
            icp_digest!(icp::<f32, 3>(at(0, &a), at(1, &b), cfg))
        }),
        c!("icp, refused and unfinished", |v| {
            let a = cloud2(v);
            let b = transform_by_hand(&a, v);
            let k = ICPConfiguration::<f64>::builder();
            let cfg = [k.with_max_iterations(0), k.with_max_iterations(1), k.with_mse_interval_threshold(0.0), k.with_max_iterations(1), k.with_max_iterations(1)][v].build();
            icp_digest!(icp::<f64, 2>(at(0, &a), at(1, &b), cfg))
        }),
        c!(shared "icp with a shared configuration builder", |v| {
            let a = &shared().cloud[v];
            let b = transform_by_hand(a, v);
            icp_digest!(icp::<f64, 2>(a, at(1, &b), shared().cfg.with_kd_tree(v == 1).build()))
        }),
        c!(shared "icp_iteration on a shared target tree", |v| {
            let a = cloud2(v);
            let mut pts = a.clone();
            let mut iso = iso2(v);
            pts.iter_mut().for_each(|p| *p = iso * *p);
            let mut mse = 100.0;
            let cfg = shared().cfg.build();
            let r = icp_iteration(at(0, &a), at(2, &pts), &shared().cloud[v], Some(&shared().tree[v]), &mut iso, &mut mse, &cfg);
            let h = match r {
                Ok(m) => H::new(7).u(m.bits()),
                Err(ICPError::IterationDidNotConverge((a, b))) => hp(hp(H::new(8), &a), &b),
                Err(_) => H::new(9),
            };
            iso.to_homogeneous().iter().fold(h, |h, c| h.u(c.bits())).u(mse.bits())
        }),
        c!("icp_iteration chained without a tree, 3D f32", |v| {
            let a = cloud3(v);
            let b: Vec<_> = a.iter().map(|p| iso3(v) * p).collect();
            let (a, b) = (at(0, &a), at(1, &b));
            let pts = at(2, a);
            let mut iso = Isometry3::identity();
            let mut mse = 1e6;
            let cfg = ICPConfiguration::builder().build();
            let mut h = H::new(1);
            for _ in 0..2 {
                h = match icp_iteration(a, pts, b, None, &mut iso, &mut mse, &cfg) {
                    Ok(m) => h.u(7).u(m.bits()),
                    Err(ICPError::IterationDidNotConverge((a, b))) => hp(hp(h.u(8), &a), &b),
                    Err(_) => h.u(9),
                };
            }
            iso.to_homogeneous().iter().fold(h, |h, c| h.u(c.bits())).u(mse.bits())
        }),
        c!("graham_scan", |v| ho(&graham_scan::<f64, f64>(at(0, &cloud2(v)), false, None))),
        c!("graham_scan of i32 points, sorted by the caller", |v| {
            let mut c: Vec<Point2<i32>> = cloud2(v).iter().map(|p| Point2::new((p.x * 4.0).round() as i32, (p.y * 4.0).round() as i32)).collect();
            c.sort_by_key(|p| (p.x, p.y));
            ho(&graham_scan::<f32, i32>(at(0, &c), true, None))
        }),
        c!("graham_scan with voxels", |v| ho(&graham_scan::<f64, f64>(at(0, &cloud2(v)), false, Some(near(1, [0.5, 0.75, 1.5, 0.5, 0.5][v]))))),
        c!("jarvis_march", |v| ho(&jarvis_march::<f64, f64>(at(0, &cloud2(v)), None))),
        c!("jarvis_march with voxels", |v| {
            // the walk starts at the leftmost point, which is unique here: free of the order of the voxels
            ho(&jarvis_march::<f32, i32>(
                at(0, &cloud2(v).iter().map(|p| Point2::new((p.x * 4.0).round() as i32, (p.y * 4.0).round() as i32)).collect::<Vec<_>>()),
                Some(0.5),
            ))
        }),
        c!("is_single_point_in_polygon", |v| {
            let s = at(0, &square(v));
            at(1, &queries()).iter().fold(H::new(1), |h, q| h.u(is_single_point_in_polygon(q, s) as u64))
        }),
        c!(shared "are_multiple_points_in_polygon on a shared polygon", |v| {
            are_multiple_points_in_polygon(at(1, &queries()), &shared().polygon[v]).unwrap().iter().fold(H::new(1), |h, b| h.u(*b as u64))
        }),
        c!("calculate_polygon_extents", |v| {
            calculate_polygon_extents(at(0, &square(v))).unwrap().iter().fold(H::new(1), |h, r| h.u(r.start().bits()).u(r.end().bits()))
        }),
        c!("calculate_haversine_distance", |v| {
            let (a, b) = pairs(v);
            H::new(geo::calculate_haversine_distance(a, b, near(1, [6371.0, 1.0, 6371.0, 6371.0, 6371.0][v])).bits())
        }),
        c!("calculate_sphere_bearing", |v| {
            let (a, b) = pairs(v);
            H::new(geo::calculate_sphere_bearing(a, b).bits())
        }),
        c!("plot_bresenham_line, 2D f64 to i32", |v| {
            let (a, b) = [([0.0, 0.0], [5.0, 3.0]), ([0.0, 0.0], [-3.0, 5.0]), ([2.0, 1.0], [4.0, -2.0]), ([0.0, 0.0], [5.0, 4.0]), ([0.0, 0.0], [300.0, 77.0])][v];
            hv(&lines::plot_bresenham_line::<f64, i32, 2>(nears(a).into(), nears(b).into()))
        }),
        c!("plot_bresenham_line, 3D f32", |v| {
            let (a, b) = [([0.0, 0.0, 1.0], [5.0, 3.0, 2.0]), ([0.5, 0.0, 0.0], [-3.0, 4.5, 2.0]), ([2.0, 1.0, 0.0], [2.0, 1.0, 3.0]), ([0.0, 0.0, 1.0], [5.0, 4.0, 2.0]), ([0.0, 0.0, 1.0], [-300.0, 77.0, 20.5])][v];
            hv(&lines::plot_bresenham_line::<f32, f32, 3>(nears32(a).into(), nears32(b).into()))
        }),
        c!("pregenerated single precision", |v| {
            let p: Vec<Point2<f32>> = cloud2(v).iter().map(|p| p.cast()).collect();
            let s: Vec<Point2<f32>> = square(v).iter().map(|p| p.cast()).collect();
            let (a, b) = pairs(v);
            let h = ho(&polygons::single_precision::graham_scan_f32(at(0, &p), false, None));
            let h = h.u(ho(&polygons::single_precision::jarvis_march_f32(at(0, &p), None)).0);
            let h = h.u(polygons::single_precision::is_single_point_in_polygon(&Point2::new(1.0, 1.5), at(1, &s)) as u64);
            let h = h.u(geo::single_precision::calculate_haversine_distance(a.cast(), b.cast(), 2.0).bits());
            let h = h.u(geo::single_precision::calculate_sphere_bearing(a.cast(), b.cast()).bits());
            h.u(hv(&lines::single_precision::plot_2d_i32_bresenham_line(p[0], p[1])).0)
        }),
        c!("pregenerated double precision", |v| {
            let a = cloud2(v);
            let b = transform_by_hand(&a, v);
            let h = icp_digest!(point_clouds::double_precision::icp_2d(at(0, &a), at(1, &b), ICPConfiguration::builder().with_max_iterations(2).build()));
            h.u(ho(&polygons::double_precision::jarvis_march_f64(at(2, &a), None)).0)
        }),
        c!("is_nan and the empty arguments", |v| {
            let e: [Point2<f64>; 0] = [];
            let h = H::new(mapping_algorithms::types::IsNan::is_nan([f64::NAN, 1.0, -0.0, f64::INFINITY, -f64::NAN][v]) as u64);
            let h = h.u(graham_scan::<f64, f64>(&e, false, None).is_none() as u64).u(jarvis_march::<f64, f64>(&e, None).is_none() as u64);
            let h = h.u(calculate_polygon_extents(&e).is_none() as u64).u(find_nearest_neighbour_naive(&queries()[v], &e).is_none() as u64);
            let h = h.u(KDTree::from(e.as_slice()).nearest(&queries()[v]).is_none() as u64);
            let h = h.u(is_single_point_in_polygon(&queries()[v], &e) as u64).u(hv(&downsample_point_cloud_voxel(&e, 1.0f64)).0);
            h.u(icp_digest!(icp::<f64, 2>(&e, &queries(), ICPConfiguration::builder().build())).0)
        }),
        c!("clouds with NaN", |v| {
            let mut c = cloud2(v);
            c[v].y = f64::NAN;
            let c = at(0, &c);
            let h = H::new(lex_sort(c).is_none() as u64).u(graham_scan::<f64, f64>(c, false, None).is_none() as u64);
            h.u(jarvis_march::<f64, f64>(c, None).is_none() as u64).u(lex_sort_in_place(c) as u64)
        }),
    ];
    C
}
fn pairs(v: usize) -> (Point2<f64>, Point2<f64>) {
    let (a, b) = [([52.52, 13.4], [48.86, 2.35]), ([-33.9, 151.2], [35.7, 139.7]), ([10.0, 179.0], [-10.0, -179.0]), ([52.52, 13.4], [40.7, -74.0]), ([-33.9, 13.4], [48.86, 2.35])][v];
    (nears(a).into(), nears(b).into())
}
fn transform_by_hand(a: &[Point2<f64>], v: usize) -> Vec<Point2<f64>> {
    let i = iso2(v);
    a.iter().rev().map(|p| i * p).collect()
}

// ---------------------------------------------------------------------------------------------------------------

/// call number k: function k / VARIANTS with variant k % VARIANTS; beyond all calls, the same again with nudged arguments
fn calls() -> usize {
    catalogue().len() * VARIANTS
}
fn name(k: usize) -> String {
    let (nudge, k) = (k / calls(), k % calls());
    let how = if nudge == 0 { String::new() } else { format!(", {}", nudge_name(nudge)) };
    format!("{} [arguments {}{how}]", catalogue()[k / VARIANTS].name, k % VARIANTS)
}
fn call(k: usize) -> u64 {
    let (nudge, k) = (k / calls(), k % calls());
    NUDGE.set(nudge);
    let r = (catalogue()[k / VARIANTS].f)(k % VARIANTS).0;
    NUDGE.set(0);
    r
}
const PANICKED: u64 = 0xDEAD_DEAD_DEAD_DEAD;
fn guarded(k: usize) -> u64 {
    no_panic(|| call(k)).unwrap_or(PANICKED)
}

fn ended(e: &End) -> Result<(), String> {
    match e {
        End::Ok => Ok(()),
        End::Hang => Err("does not return (deadlock or endless loop)".into()),
        End::Died(s) => Err(format!("ends the process (status {s})")),
    }
}

/// what every call returns when it is the only one its process ever makes
fn baseline(k: usize) -> u64 {
    static B: OnceLock<Vec<OnceLock<u64>>> = OnceLock::new();
    let b = B.get_or_init(|| (0..calls() * (NUDGES + 1)).map(|_| OnceLock::new()).collect());
    *b[k].get_or_init(|| {
        let run = || {
            let (end, out) = in_child(15, |w| {
                w[1] = guarded(k);
                w[0] = 1;
            });
            match ended(&end) {
                Ok(()) => out[1],
                Err(_) => PANICKED,
            }
        };
        run()
    })
}

/// executes the calls in a fresh process and compares each with its baseline
fn history(ks: &[usize], ctx: &mut Ctx) -> Res {
    let (end, out) = in_child(15, |w| {
        for (i, k) in ks.iter().enumerate() {
            w[i + 1] = guarded(*k);
            w[0] = i as u64 + 1;
        }
    });
    ctx.evals(ks.len() as u64);
    ctx.trace();
    for (i, k) in ks.iter().enumerate().take(out.len() - 1) {
        if out[i + 1] != baseline(*k) {
            let from = i.saturating_sub(6);
            return Err(format!(
                "call {} of the history, {}, {} what it returns alone; the calls before it were {:?}",
                i + 1,
                name(*k),
                if out[i + 1] == PANICKED { "panics; that is not" } else { "does not return" },
                ks[from..i].iter().map(|k| name(*k)).collect::<Vec<_>>()
            )
            .into());
        }
    }
    ended(&end).map_err(|e| format!("after {} calls, {} {e}", out.len() - 1, name(ks[(out.len() - 1).min(ks.len() - 1)])))?;
    Ok(())
}

fn singles() -> Space {
    Space::new("every call, alone in a process, twice", calls() as u64, |n| name(n as usize), |n, ctx| {
        let k = n as usize;
        let b = baseline(k);
        if b == PANICKED {
            return Err(format!("{} panics or ends the process", name(k)).into());
        }
        ctx.outcome(H::new(b));
        ctx.state(H::new(k as u64));
        history(&[k], ctx)
    })
}

/// for each ordered pair: x, y and then every call
fn pairs_then_all() -> Space {
    let m = calls() as u64;
    Space::new(
        "x, y, and then all calls, in one process",
        m * m,
        move |n| format!("x = {}, y = {}", name((n / m) as usize), name((n % m) as usize)),
        move |n, ctx| {
            let (x, y) = ((n / m) as usize, (n % m) as usize);
            let mut ks = vec![x, y];
            ks.extend(0..m as usize);
            ctx.steps(ks.len() as u64);
            ctx.state(H::new(1).u(x as u64).u(y as u64));
            history(&ks, ctx)
        },
    )
}
/// caches keyed by "about the same" arguments: every call before and after the same one with arguments changed a little
fn almost() -> Space {
    let m = (calls() * NUDGES) as u64;
    Space::new(
        "every call, the same with arguments changed a little, and again, in one process",
        2 * m,
        move |n| format!("{}, {}", name((n / 2 % m) as usize + calls()), ["after the unchanged", "before the unchanged"][(n % 2) as usize]),
        move |n, ctx| {
            let nudged = (n / 2) as usize + calls();
            let k = nudged % calls();
            let ks = if n % 2 == 0 { vec![k, nudged, k, nudged, nudged] } else { vec![nudged, k, nudged, k, k] };
            ctx.steps(ks.len() as u64);
            ctx.state(H::new(8).u(n));
            if baseline(k) != baseline(nudged) {
                ctx.count("changes_that_show", 1);
            }
            history(&ks, ctx)
        },
    )
}
/// the same across functions: arguments of one, after the nudged arguments of another, and the other way round
fn almost_across() -> Space {
    let f = catalogue().len() as u64;
    Space::new(
        "every two functions, one with arguments changed a little, and again, in one process",
        f * f * NUDGES as u64,
        move |n| {
            let (x, y, e) = ((n / f % f) as usize, (n % f) as usize, (n / f / f) as usize + 1);
            format!("{}, then {}", name(x * VARIANTS), name(y * VARIANTS + e * calls()))
        },
        move |n, ctx| {
            let (x, y, e) = ((n / f % f) as usize * VARIANTS, (n % f) as usize * VARIANTS, (n / f / f) as usize + 1);
            let ks = [x, y + e * calls(), x, y];
            ctx.steps(4);
            ctx.state(H::new(9).u(n));
            history(&ks, ctx)
        },
    )
}
fn triples(variants: usize) -> Space {
    let m = (catalogue().len() * variants) as u64;
    let k = move |d: u64| (d as usize / variants) * VARIANTS + d as usize % variants;
    Space::new(
        format!("every sequence of three calls, {variants} arguments each, in a fresh process"),
        m * m * m,
        move |n| format!("{:?}", [n / m / m, n / m % m, n % m].map(k).map(name)),
        move |n, ctx| {
            let ks = [n / m / m, n / m % m, n % m].map(k);
            ctx.steps(3);
            ctx.state(H::new(2).u(n));
            history(&ks, ctx)
        },
    )
}
/// counters, pools and caches that fill up: one call many times, then all
fn repeated(times: usize, variants: &'static [usize]) -> Space {
    let which = move |n: u64| n as usize / variants.len() * VARIANTS + variants[n as usize % variants.len()];
    Space::new(
        format!("every call {times} times, then all calls{}", if variants.len() < VARIANTS { " (few elements)" } else { "" }),
        (catalogue().len() * variants.len()) as u64,
        move |n| name(which(n)),
        move |n, ctx| {
            let k = which(n);
            ctx.steps(times as u64);
            ctx.state(H::new(3).u(n));
            // in one process, but reported in batches that fit the buffer
            let want = baseline(k);
            let (end, out) = in_child(120, |w| {
                w[0] = 1;
                for i in 0..times {
                    if guarded(k) != want {
                        w[1] = i as u64 + 1;
                        return;
                    }
                }
                for z in 0..calls() {
                    w[2 + z] = guarded(z);
                    w[0] = 2 + z as u64;
                }
            });
            ctx.evals((times + calls()) as u64);
            ctx.trace();
            if out.len() > 1 && out[1] != 0 {
                return Err(format!("repetition {} of {} differs from the first", out[1], name(k)).into());
            }
            ended(&end).map_err(|e| format!("repeating {} {e}", name(k)))?;
            for z in 0..calls() {
                if out[2 + z] != baseline(z) {
                    return Err(format!("after {times} times {}, {} does not return what it returns alone", name(k), name(z)).into());
                }
            }
            Ok(())
        },
    )
}
/// all calls in the order of a stride coprime to their number, over and over
fn strides(rounds: usize) -> Space {
    let m = calls();
    let gcd = |mut a: usize, mut b: usize| {
        while b > 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    let steps: Vec<usize> = (1..m).filter(|s| gcd(*s, m) == 1).collect();
    let steps2 = steps.clone();
    Space::new(
        format!("{rounds} rounds through all calls in every stride"),
        steps.len() as u64,
        move |n| format!("stride {}", steps2[n as usize]),
        move |n, ctx| {
            let ks: Vec<usize> = (0..rounds * m).map(|i| i * steps[n as usize] % m).collect();
            ctx.steps(ks.len() as u64);
            ctx.state(H::new(4).u(n));
            history(&ks, ctx)
        },
    )
}

/// every call made from inside the closures of a traversal, at every visit
fn nested() -> Space {
    let (m, visits) = (calls() as u64, 6);
    Space::new(
        "every call inside the closures of traverse_tree and traverse_tree_mut, at every visit",
        m * 3 * visits,
        move |n| format!("visit {}, {}: {}", n % visits, ["traverse_tree", "traverse_tree_mut", "both, nested"][(n / visits % 3) as usize], name((n / visits / 3) as usize)),
        move |n, ctx| {
            let (visit, mode, k) = (n % visits, n / visits % 3, (n / visits / 3) as usize);
            ctx.steps(3);
            ctx.trace();
            ctx.evals(2);
            ctx.state(H::new(5).u(n));
            let want = baseline(k);
            let (end, out) = in_child(15, |w| {
                let c = cloud2(0);
                // the shared tree itself is traversed where it can be, so that calls on it come from inside its own traversal
                let tree = &shared().tree[0];
                let mut own = tree.clone();
                let inner = |i: u64| if i == visit { guarded(k) } else { want };
                let (mut i, mut ok, mut seen) = (0, true, Vec::new());
                match mode {
                    0 => tree.traverse_tree(|p| {
                        ok &= inner(i) == want;
                        seen.push(*p);
                        i += 1;
                    }),
                    1 => own.traverse_tree_mut(|p| {
                        ok &= inner(i) == want;
                        seen.push(*p);
                        i += 1;
                    }),
                    _ => own.traverse_tree_mut(|p| {
                        seen.push(*p);
                        let here = i == visit;
                        i += 1;
                        if here {
                            let mut j = 0;
                            tree.traverse_tree(|_| {
                                if j == visit {
                                    ok &= guarded(k) == want;
                                }
                                j += 1;
                            });
                            ok &= j == c.len() as u64;
                        }
                    }),
                }
                let mut all = true;
                for p in &c {
                    all &= seen.contains(p);
                }
                w[0] = 3;
                w[1] = ok as u64;
                w[2] = (all && seen.len() == c.len()) as u64;
                w[3] = (guarded(k) == want) as u64;
            });
            ended(&end).map_err(|e| format!("{} {e}", name(k)))?;
            if out[1] != 1 {
                return Err(format!("{} does not return what it returns alone", name(k)).into());
            }
            if out[2] != 1 {
                return Err("the traversal is disturbed".into());
            }
            if out[3] != 1 {
                return Err(format!("after the traversal, {} does not return what it returns alone", name(k)).into());
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------------------------------------------------------
// interleavings

/// what was called before, in the main thread of the process: nothing, both with other arguments, or the first call itself
const WARMTH: [&str; 3] = ["first calls of the process", "after calls of both with other arguments", "after the first one was called before"];
fn prepare(warm: usize, x: usize, y: usize) {
    let (cx, cy) = (&catalogue()[x / VARIANTS], &catalogue()[y / VARIANTS]);
    if cx.shared || cy.shared {
        in_setup_arena(shared);
    }
    in_setup_arena(|| match warm {
        0 => {}
        1 => {
            for k in [x, y] {
                // other arguments of the same function, so that whatever they leave behind is wrong for this call
                guarded(k / VARIANTS * VARIANTS + (k + 1) % VARIANTS);
            }
        }
        _ => {
            guarded(x);
        }
    });
}
fn run(warm: usize, x: usize, y: usize, start: usize, conflicts: &[u64], switches: &[u32], stepped: [bool; 2]) -> Result<Run, String> {
    let base: Vec<u64> = after(x, y).into_iter().map(baseline).collect();
    let (end, out) = in_child(250, |w| {
        prepare(warm, x, y);
        let (jx, jy) = (move || guarded(x), move || guarded(y));
        run_pair([&jx, &jy], start, conflicts, switches, stepped, w);
        // what they leave behind must not show either
        let n = w[0] as usize;
        for (i, k) in after(x, y).into_iter().enumerate() {
            w[n + 1 + i] = (guarded(k) == base[i]) as u64;
            w[0] += 1;
        }
    });
    ended(&end).map_err(|e| format!("one of the calls {e}"))?;
    let r = Run::read(&out).ok_or("incomplete run")?;
    for (i, k) in after(x, y).into_iter().enumerate() {
        if out[out.len() - base.len() + i] != 1 {
            return Err(format!("called afterwards, {} does not return what it returns alone", name(k)));
        }
    }
    Ok(r)
}
/// the calls made when both threads have ended
fn after(x: usize, y: usize) -> Vec<usize> {
    let all = |k: usize| (0..VARIANTS).map(move |v| k / VARIANTS * VARIANTS + v);
    [y, x].into_iter().chain(all(x)).chain(all(y)).collect()
}
fn judge(r: &Run, x: usize, y: usize, what: &dyn Fn() -> String) -> Res {
    for (s, k) in r.side.iter().zip([x, y]) {
        if s.digest != baseline(k) {
            return Err(format!(
                "{}: {} {} what it returns alone",
                what(),
                name(k),
                if s.digest == PANICKED { "panics; that is not" } else { "does not return" }
            )
            .into());
        }
    }
    Ok(())
}

fn interleavings(tier: Tier, many: bool) -> Space {
    let (m, deep) = (catalogue().len() as u64, tier.thorough());
    let who = move |n: u64| {
        if many {
            // the same function twice, with many elements against few, cold and warm
            return ((n % 2) as usize, (n / 2) as usize * VARIANTS + 4, (n / 2) as usize * VARIANTS + 3);
        }
        let (warm, f, g) = match n / (m * m) {
            // a first call before it matters to calls of the same function; of others, in the thorough tier
            2 if !deep => (2, n % m, n % m),
            w => (w, n / m % m, n % m),
        };
        (warm as usize, f as usize * VARIANTS, g as usize * VARIANTS + 1)
    };
    let cap = tier.pick(3_000u64, 60_000);
    let bound = tier.pick(2, 3);
    let patience = tier.pick(40, 1200);
    Space::new(
        format!("two threads{}, every schedule with at most {bound} preemptions, at the granularity of machine instructions", if many { " in the same function, many elements against few" } else { "" }),
        if many { 2 * m } else if deep { 3 * m * m } else { 2 * m * m + m },
        move |n| {
            let (warm, x, y) = who(n);
            format!("{} and {}, {}", name(x), name(y), WARMTH[warm])
        },
        move |n, ctx| {
            let (warm, x, y) = who(n);
            let t0 = std::time::Instant::now();
            let all = [true, true];
            // both serial orders, every instruction observed (of first calls, the first thread does the same whatever the other is)
            let mut seen: [Vec<u64>; 2] = Default::default();
            for start in [0, 1] {
                let r = run(warm, x, y, start, &[], &[], all)?;
                ctx.trace();
                ctx.evals(2);
                ctx.steps(r.side[0].steps + r.side[1].steps);
                ctx.state(H::new(6).u(n).u(start as u64).u(r.side[0].steps).u(r.side[1].steps));
                judge(&r, x, y, &|| format!("in two threads, one after the other (thread {start} first)"))?;
                if r.side.iter().any(|s| s.steps < 20) {
                    return Err("the processor's trap flag has no effect here".into());
                }
                for i in 0..2 {
                    seen[i].extend(&r.side[i].seen);
                }
            }
            ctx.count("shared_locations_observed", (seen[0].len() + seen[1].len()) as u64);
            let mut explored: Vec<u64> = vec![u64::MAX];
            for _round in 0..3 {
                let mut c = conflicts(&seen[0], &seen[1]);
                c.sort();
                let foreign = seen.iter().flatten().any(|v| v >> 1 == FOREIGN);
                if (c.is_empty() && !foreign) || c == explored {
                    break;
                }
                explored = c.clone();
                ctx.count("pairs_with_conflicts", 1);
                // schedules: (start, before which access each preemption happens)
                let mut left = cap;
                let mut stack: Vec<(usize, Vec<u32>)> = vec![(1, vec![0]), (0, vec![0])];
                let mut by_depth = std::collections::VecDeque::from(std::mem::take(&mut stack));
                while let Some((start, sw)) = by_depth.pop_front() {
                    if left == 0 || t0.elapsed().as_secs() > patience {
                        ctx.count("pairs_cut_off", 1);
                        break;
                    }
                    left -= 1;
                    let r = run(warm, x, y, start, &c, &sw, all).map_err(|e| format!("thread {start} first, preempted before conflicting accesses {sw:?}: {e}"))?;
                    ctx.trace();
                    ctx.evals(2);
                    ctx.steps(r.side[0].steps + r.side[1].steps);
                    ctx.count("schedules", 1);
                    ctx.count("lock_waits", r.forced);
                    judge(&r, x, y, &|| format!("thread {start} first, preempted before conflicting accesses {sw:?}"))?;
                    for i in 0..2 {
                        seen[i].extend(&r.side[i].seen);
                        seen[i].sort();
                        seen[i].dedup();
                    }
                    if r.reached as usize == sw.len() {
                        ctx.state(H::new(7).u(n).u(start as u64).u(sw.iter().fold(0, |a, b| a * 1000 + *b as u64)));
                        let mut next = sw.clone();
                        *next.last_mut().unwrap() += 1;
                        by_depth.push_back((start, next));
                        if sw.len() < bound {
                            // the next preemption of the thread that resumes comes after its previous one
                            let from = if sw.len() >= 2 { sw[sw.len() - 2] + 1 } else { 0 };
                            let mut deeper = sw.clone();
                            deeper.push(from);
                            by_depth.push_back((start, deeper));
                        }
                    }
                }
            }
            Ok(())
        },
    )
}

fn plan(id: &str, tier: Tier) -> Option<Plan> {
    if id != "C30" {
        return None;
    }
    map_arenas();
    let mut p = Plan::new(
        "model_checking",
        "states: call histories (one per prefix explored) and reached switch points of schedules; transitions: calls of histories and machine instructions executed under the scheduler; traces: executions of the real library in a fresh process; distinct results of the calls",
    )
    .assume("schedules are sequentially consistent interleavings of the machine code compiled here, for two threads; reordering by weaker hardware is not explored")
    .assume("switches are tried only before accesses to memory locations that both calls touch and one writes; other interleavings are equivalent")
    .assume("results whose order is unspecified (voxels) are compared as sets");
    p.case_timeout = tier.pick(700, 7000);
    p.add(singles());
    p.add(pairs_then_all());
    // past the wrap of counters of sixteen bits
    p.add(repeated(tier.pick(3_000, 70_000), &[0, 1, 2, 3, 4]));
    p.add(repeated(tier.pick(66_000, 1_000_000), &[0, 1, 2, 3]));
    p.add(strides(tier.pick(3, 30)));
    p.add(nested());
    p.add(almost());
    p.add(almost_across());
    p.add(interleavings(tier, false));
    p.add(interleavings(tier, true));
    p.add(triples(tier.pick(1, 2)));
    Some(p)
}

fn main() {
    mc::main(plan)
}
