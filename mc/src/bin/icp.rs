//! C09-C15: ICP as a transition system of single iterations, against a closed-form rigid-fit oracle.
use mapping_algorithms::{
    kd_tree::KDTree,
    point_clouds::{icp, icp_iteration, ICPConfiguration, ICPConfigurationBuilder, ICPError},
    types::{AbstractIsometry, IsometryAbstractor},
};
use mc::{util::*, *};
use nalgebra::{Isometry, Point, SMatrix, SVector, Translation, UnitComplex, UnitQuaternion, Vector3};
use num_traits::AsPrimitive;
use std::sync::{
    atomic::{AtomicU64, Ordering},
    Arc,
};

type V<const N: usize> = [f64; N];
type Rot<T, const N: usize> = <IsometryAbstractor<T, N> as AbstractIsometry<T, N>>::RotType;
type Iso<T, const N: usize> = Isometry<T, Rot<T, N>, N>;

/// the two dimensions ICP supports
trait Rig<T: Fl, const N: usize>: AbstractIsometry<T, N, RotType: Send + Sync + 'static> {
    fn rotation(axis: usize, angle: f64) -> Self::RotType;
}
impl<T: Fl> Rig<T, 2> for IsometryAbstractor<T, 2> {
    fn rotation(_: usize, angle: f64) -> UnitComplex<T> {
        UnitComplex::new(T::of(angle))
    }
}
const AXES: [[f64; 3]; 4] = [[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.6, -0.64, 0.48]];
impl<T: Fl> Rig<T, 3> for IsometryAbstractor<T, 3> {
    fn rotation(axis: usize, angle: f64) -> UnitQuaternion<T> {
        UnitQuaternion::from_scaled_axis(Vector3::from(AXES[axis].map(|c| T::of(c * angle))))
    }
}
fn start<T: Fl, const N: usize>(s: &Start) -> Iso<T, N>
where
    IsometryAbstractor<T, N>: Rig<T, N>,
{
    let t = SVector::<T, N>::from_fn(|i, _| T::of(s.t[i]));
    Isometry::from_parts(Translation::from(t), IsometryAbstractor::<T, N>::rotation(s.axis, s.angle))
}

#[derive(Clone, Copy, Debug)]
struct Start {
    axis: usize,
    angle: f64,
    t: [f64; 3],
}
impl Start {
    fn within(&self, world: Frame) -> Start {
        Start { t: self.t.map(|c| c * world.scale), ..*self }
    }
}
const PI: f64 = std::f64::consts::PI;
const STARTS: [Start; 6] = [
    Start { axis: 0, angle: 0.0, t: [0.0; 3] },
    Start { axis: 0, angle: PI / 2.0, t: [1.0, 0.0, 0.0] },
    Start { axis: 3, angle: 0.5, t: [0.25, -1.5, 0.75] },
    Start { axis: 1, angle: PI, t: [0.0, 2.0, 1.0] },
    Start { axis: 2, angle: -2.5, t: [-3.0, 0.5, 0.25] },
    Start { axis: 0, angle: 0.0, t: [0.5, 0.5, 0.5] },
];

/// A rigid motion as matrix and translation
#[derive(Clone, Copy, Debug)]
struct Mo<const N: usize> {
    r: [V<N>; N],
    t: V<N>,
}
impl<const N: usize> Mo<N> {
    fn of<T: Fl>(iso: &Iso<T, N>) -> Self
    where
        IsometryAbstractor<T, N>: Rig<T, N>,
    {
        let mut r = [[0.0; N]; N];
        for j in 0..N {
            let e = SVector::<T, N>::from_fn(|i, _| if i == j { T::of(1.0) } else { T::of(0.0) });
            let c = iso.transform_vector(&e);
            for i in 0..N {
                r[i][j] = c[i].f();
            }
        }
        Mo { r, t: std::array::from_fn(|i| iso.translation.vector[i].f()) }
    }
    fn rotate(&self, p: &V<N>) -> V<N> {
        std::array::from_fn(|i| (0..N).map(|j| self.r[i][j] * p[j]).sum::<f64>())
    }
    fn map(&self, p: &V<N>) -> V<N> {
        let r = self.rotate(p);
        std::array::from_fn(|i| r[i] + self.t[i])
    }
    fn proper(&self, tol: f64) -> Result<(), String> {
        for i in 0..N {
            for j in 0..N {
                let d: f64 = (0..N).map(|k| self.r[k][i] * self.r[k][j]).sum();
                if !((d - (i == j) as u8 as f64).abs() <= tol) {
                    return Err(format!("{:?} is not a rotation (column products {d})", self.r));
                }
            }
        }
        let d = det(&self.r);
        if !((d - 1.0).abs() <= tol) {
            return Err(format!("{:?} is not a proper rotation (determinant {d})", self.r));
        }
        if self.t.iter().any(|c| !c.is_finite()) {
            return Err(format!("translation {:?}", self.t));
        }
        Ok(())
    }
}
fn det<const N: usize>(m: &[V<N>; N]) -> f64 {
    match N {
        2 => m[0][0] * m[1][1] - m[0][1] * m[1][0],
        _ => {
            m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
        }
    }
}
fn d2<const N: usize>(a: &V<N>, b: &V<N>) -> f64 {
    (0..N).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum()
}
fn mean<const N: usize>(p: &[V<N>]) -> V<N> {
    std::array::from_fn(|i| p.iter().map(|c| c[i]).sum::<f64>() / p.len() as f64)
}
fn size<const N: usize>(sets: &[&[V<N>]]) -> f64 {
    sets.iter().flat_map(|s| s.iter()).flatten().fold(0.0, |m: f64, c| m.max(c.abs()))
}

/// the largest eigenvalue of a symmetric 4x4 matrix (Jacobi rotations)
fn top_eigenvalue(mut a: [[f64; 4]; 4]) -> f64 {
    for _ in 0..60 {
        let mut off = 0.0;
        for p in 0..4 {
            for q in p + 1..4 {
                off += a[p][q] * a[p][q];
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let theta = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = theta.signum() / (theta.abs() + (theta * theta + 1.0).sqrt());
                let t = if theta == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..4 {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..4 {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
        }
        if off < 1e-280 {
            break;
        }
    }
    (0..4).map(|i| a[i][i]).fold(f64::NEG_INFINITY, f64::max)
}

/// max over proper rotations R of the sum of R[i][j] m[i][j]
fn best_alignment<const N: usize>(m: &[V<N>; N]) -> f64 {
    if N == 2 {
        (m[0][0] + m[1][1]).hypot(m[1][0] - m[0][1])
    } else {
        // Horn's quaternion form; s[a][b] couples source axis a with target axis b
        let s = |a: usize, b: usize| m[b][a];
        top_eigenvalue([
            [s(0, 0) + s(1, 1) + s(2, 2), s(1, 2) - s(2, 1), s(2, 0) - s(0, 2), s(0, 1) - s(1, 0)],
            [s(1, 2) - s(2, 1), s(0, 0) - s(1, 1) - s(2, 2), s(0, 1) + s(1, 0), s(2, 0) + s(0, 2)],
            [s(2, 0) - s(0, 2), s(0, 1) + s(1, 0), s(1, 1) - s(0, 0) - s(2, 2), s(1, 2) + s(2, 1)],
            [s(0, 1) - s(1, 0), s(2, 0) + s(0, 2), s(1, 2) + s(2, 1), s(2, 2) - s(0, 0) - s(1, 1)],
        ])
    }
}
/// the smallest sum of squared distances any proper rigid motion of p can reach to q
fn best_fit<const N: usize>(p: &[V<N>], q: &[V<N>]) -> f64 {
    let (mp, mq) = (mean(p), mean(q));
    let mut m = [[0.0; N]; N];
    let mut total = 0.0;
    for (a, b) in p.iter().zip(q) {
        let a: V<N> = std::array::from_fn(|i| a[i] - mp[i]);
        let b: V<N> = std::array::from_fn(|i| b[i] - mq[i]);
        for i in 0..N {
            total += a[i] * a[i] + b[i] * b[i];
            for j in 0..N {
                m[i][j] += b[i] * a[j];
            }
        }
    }
    (total - 2.0 * best_alignment(&m)).max(0.0)
}

#[derive(Clone, Copy, Debug)]
struct Cfg {
    kd: bool,
    max: usize,
    abs: Option<f64>,
    interval: f64,
}
impl Cfg {
    fn build<T: Fl>(&self) -> ICPConfiguration<T>
    where
        f32: AsPrimitive<T>,
    {
        ICPConfiguration::builder()
            .with_kd_tree(self.kd)
            .with_max_iterations(self.max)
            .with_absolute_mse_threshold(self.abs.map(T::of))
            .with_mse_interval_threshold(T::of(self.interval))
            .build()
    }
    fn converged<T: Fl>(&self, old: T, new: T) -> bool {
        self.abs.is_some_and(|a| new < T::of(a)) || num_traits::Float::abs(old - new) < T::of(self.interval)
    }
}

/// The state an ICP run walks through
#[derive(Clone)]
struct State<T: Fl, const N: usize>
where
    IsometryAbstractor<T, N>: Rig<T, N>,
{
    points: Vec<Point<T, N>>,
    iso: Iso<T, N>,
    mse: T,
}
impl<T: Fl, const N: usize> State<T, N>
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    fn new(a: &[Point<T, N>], iso: Iso<T, N>) -> Self {
        State { points: a.iter().map(|p| iso.transform_point(p)).collect(), iso, mse: <T as num_traits::Float>::max_value() }
    }
    fn step(&mut self, a: &[Point<T, N>], b: &[Point<T, N>], tree: Option<&KDTree<T, N>>, cfg: &Cfg) -> Result<T, ICPError<T, N>> {
        icp_iteration(a, &mut self.points, b, tree, &mut self.iso, &mut self.mse, &cfg.build())
    }
    fn bits(&self) -> Vec<u64> {
        let m = Mo::of(&self.iso);
        let mut v: Vec<u64> = self.points.iter().flat_map(|p| un(p)).map(f64::to_bits).collect();
        v.extend(m.r.iter().flatten().chain(&m.t).map(|c| c.to_bits()));
        v.push(self.mse.f().to_bits());
        v
    }
    fn hash(&self, h: H) -> H {
        // rounded: states that differ by rounding noise are the same state
        let g = |h: H, c: f64| h.i((c * 4096.0).round() as i64);
        let h = self.points.iter().flat_map(|p| un(p)).fold(h, g);
        g(h, if self.mse.f() < 1e15 { self.mse.f() } else { -1.0 })
    }
}

fn tol<T: Fl>(scale: f64) -> f64 {
    2000.0 * T::EPS * scale.max(1e-300)
}

/// all targets that can count as nearest to p
fn nearest_options<T: Fl, const N: usize>(p: &V<N>, b: &[V<N>], scale: f64) -> Vec<V<N>> {
    let best = b.iter().map(|q| d2(p, q)).fold(f64::INFINITY, f64::min);
    let e = 16.0 * T::EPS * scale;
    let mut v: Vec<V<N>> = b.iter().filter(|q| d2(p, q) <= best + e * best.sqrt() + e * e).copied().collect();
    v.sort_by(|x, y| x.partial_cmp(y).unwrap());
    v.dedup();
    v
}

/// The singular value decomposition the 3D steps rest on loses accuracy on rare matrices (known finding svd3-accuracy): a few steps of
/// the millions explored may fall short of the best fit by a thousandth.
static SHORT: AtomicU64 = AtomicU64::new(0);
fn short_of_best() -> bool {
    !STRICT.get() && SHORT.fetch_add(1, Ordering::Relaxed) < SHORT_LIMIT
}
const SHORT_LIMIT: u64 = 5_000;
thread_local! {
    static STRICT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// twice the largest sum of products any alignment of the centred clouds can reach, roughly
fn spread<const N: usize>(p: &[V<N>], q: &[V<N>]) -> f64 {
    let (mp, mq) = (mean(p), mean(q));
    p.iter().map(|x| d2(x, &mp)).sum::<f64>().sqrt() * q.iter().map(|x| d2(x, &mq)).sum::<f64>().sqrt()
}

/// Is the covariance of a nearest matching of rank one, up to rounding?
fn straight<T: Fl, const N: usize>(p: &[V<N>], b: &[V<N>], scale: f64) -> bool {
    let q: Vec<V<N>> = p.iter().map(|x| nearest_options::<T, N>(x, b, scale)[0]).collect();
    let (mp, mq) = (mean(p), mean(&q));
    let m: [V<N>; N] = std::array::from_fn(|i| std::array::from_fn(|j| p.iter().zip(&q).map(|(x, y)| (y[i] - mq[i]) * (x[j] - mp[j])).sum()));
    let big = m.iter().flatten().fold(0.0f64, |x, c| x.max(c.abs()));
    (0..N).all(|i| (0..N).all(|j| (0..N).all(|k| (0..N).all(|l| (m[i][j] * m[k][l] - m[i][l] * m[k][j]).abs() <= 1e-4 * big * big))))
}

/// Does the transition before -> after realise the best rigid fit to some nearest matching?
fn check_step<T: Fl, const N: usize>(
    a: &[V<N>],
    b: &[V<N>],
    before: &State<T, N>,
    after: &State<T, N>,
    res: &Result<T, ICPError<T, N>>,
    cfg: &Cfg,
    ctx: &mut Ctx,
) -> Result<bool, String>
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let p: Vec<V<N>> = before.points.iter().map(un).collect();
    let r: Vec<V<N>> = after.points.iter().map(un).collect();
    if r.len() != a.len() {
        return Err(format!("{} transformed points for {} source points", r.len(), a.len()));
    }
    let scale = size(&[a, b, &p]);
    // positions are within rounding of the coordinates, squared distances within twice that times the extent of the scene
    let tl = tol::<T>(scale);
    let extent = (0..N).map(|i| p.iter().chain(b).map(|x| x[i]).fold(f64::NEG_INFINITY, f64::max) - p.iter().chain(b).map(|x| x[i]).fold(f64::INFINITY, f64::min));
    let extent = extent.map(|c| c * c).sum::<f64>().sqrt();
    let tq = tl * (2.0 * extent + tl) * a.len() as f64;
    let m = Mo::of(&after.iso);
    if N == 3 && T::EPS > 1e-10 && m.r[0][0].is_nan() && straight::<T, N>(&p, b, scale) && short_of_best() {
        ctx.count("f32 steps on straight clouds that end in NaN (known finding of C15)", 1);
        return Ok(false);
    }
    m.proper(2000.0 * T::EPS)?;
    for (x, y) in a.iter().zip(&r) {
        if !(d2(&m.map(x), y).sqrt() <= tl) {
            return Err(format!("source point {x:?} is at {y:?}, the transform takes it to {:?}", m.map(x)));
        }
    }
    let mse = after.mse.f();
    // some nearest matching must explain everything observed
    let options: Vec<Vec<V<N>>> = p.iter().map(|x| nearest_options::<T, N>(x, b, scale)).collect();
    let combos: u64 = options.iter().map(|o| o.len() as u64).product();
    ctx.count("steps with tied matches", (combos > 1) as u64);
    let means = match res {
        Err(ICPError::IterationDidNotConverge((x, y))) => Some((un(x), un(y))),
        Ok(v) => {
            if v.f() != mse {
                return Err(format!("returned an error of {v} but left the running error at {mse}"));
            }
            None
        }
        Err(e) => return Err(format!("iteration failed with {e:?}")),
    };
    if let Some((x, _)) = &means {
        if !(d2(x, &mean(&p)).sqrt() <= tl) {
            return Err(format!("reported source centroid {x:?}, it is {:?}", mean(&p)));
        }
    }
    let mut why = String::new();
    let mut slack = 0.0;
    if combos > 1 << 16 {
        ctx.count("steps with too many tied matchings to compare", 1);
        return Ok(true);
    }
    let ok = (0..combos).any(|c| {
        let mut dg = Digits(c);
        let q: Vec<V<N>> = options.iter().map(|o| o[dg.take(o.len() as u64)]).collect();
        if let Some((_, y)) = &means {
            if !(d2(y, &mean(&q)).sqrt() <= tl) {
                if why.is_empty() {
                    why = format!("reported target centroid {y:?}, that of the matches {q:?} is {:?}", mean(&q));
                }
                return false;
            }
        }
        let cost: f64 = r.iter().zip(&q).map(|(x, y)| d2(x, y)).sum();
        let best = best_fit(&p, &q);
        if !((mse - cost).abs() <= tq) {
            why = format!("running error {mse}, the squared distances to the matches {q:?} sum to {cost}");
            return false;
        }
        let lost = 1e-3 * spread(&p, &q);
        if N == 3 && cost > best + tq && cost <= best + lost && short_of_best() {
            ctx.count("3D steps short of the best fit", 1);
            slack = lost;
            return true;
        }
        if !(cost <= best + tq) {
            why = format!("the transform leaves an error of {cost} to the matches {q:?}, {best} is possible");
            return false;
        }
        true
    });
    if !ok {
        return Err(format!("{why} ({combos} possible matchings, positions before the step {p:?}, after {r:?})"));
    }
    // monotone: no worse than the matched distances before the step, and no worse than the running error
    let was: f64 = p.iter().zip(&options).map(|(x, o)| d2(x, &o[0])).sum();
    let tq = tq + slack;
    if !(mse <= was + 2.0 * tq) || before.mse < <T as num_traits::Float>::max_value() && !(mse <= before.mse.f() + 2.0 * tq) {
        return Err(format!("the error rose to {mse}, the matches were at {was}, the previous error was {}", before.mse));
    }
    if cfg.converged(before.mse, after.mse) != res.is_ok() {
        return Err(format!("error went from {} to {mse} and the iteration answered {res:?} under {cfg:?}", before.mse));
    }
    Ok(true)
}

const STEP_CFGS: [Cfg; 4] = [
    Cfg { kd: false, max: 1, abs: None, interval: 0.01 },
    Cfg { kd: false, max: 1, abs: Some(0.7), interval: 1e-4 },
    Cfg { kd: false, max: 1, abs: Some(1e-4), interval: 1.3 },
    Cfg { kd: false, max: 1, abs: None, interval: 1e30 },
];

/// three chained iterations from one start, with and without a tree, then the convergence verdict probed at its boundary
fn walk<T: Fl, const N: usize>(a: &[Point<T, N>], b: &[Point<T, N>], s: &Start, depth: usize, ctx: &mut Ctx) -> Result<(), String>
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let (fa, fb): (Vec<V<N>>, Vec<V<N>>) = (a.iter().map(un).collect(), b.iter().map(un).collect());
    let tree = KDTree::from(b);
    for t in [None, Some(&tree)] {
        let mut st = State::new(a, start::<T, N>(s));
        for k in 0..depth {
            let cfg = &STEP_CFGS[k % STEP_CFGS.len()];
            let before = st.clone();
            let res = st.step(a, b, t, cfg);
            ctx.eval();
            ctx.steps(1);
            ctx.state(st.hash(H::new(N as u64)));
            let go_on = check_step(&fa, &fb, &before, &st, &res, cfg, ctx)
                .map_err(|e| format!("iteration {k} ({}) : {e}", if t.is_some() { "kd-tree" } else { "naive" }))?;
            if !go_on {
                break;
            }
            ctx.outcome(st.hash(H::new(res.is_ok() as u64)));
            if k == 1 {
                // the verdict at its very boundary
                let change = num_traits::Float::abs(before.mse - st.mse);
                let m = st.mse;
                let up = T::of(m.f() * (1.0 + 2.0 * T::EPS));
                let tiny = if change.f() > 0.0 { change.f() / 2.0 } else { 0.0 };
                let cu = T::of(change.f() * (1.0 + 2.0 * T::EPS));
                let probes = [(Some(m), tiny), (Some(up), tiny), (None, change.f()), (None, cu.f()), (Some(T::of(m.f() / 2.0)), cu.f())];
                for (abs, interval) in probes {
                    let c = Cfg { abs: abs.map(|x| x.f()), interval, ..*cfg };
                    let mut again = before.clone();
                    let r = again.step(a, b, t, &c);
                    ctx.eval();
                    if again.bits() != st.bits() {
                        return Err(format!("the thresholds {c:?} change the step itself"));
                    }
                    if c.converged(before.mse, m) != r.is_ok() {
                        return Err(format!("error went from {} to {m} and the iteration answered {r:?} under {c:?}", before.mse));
                    }
                }
            }
        }
        ctx.trace();
    }
    Ok(())
}

fn subset(mask: u64, n: usize) -> Vec<usize> {
    (0..n).filter(|i| mask >> i & 1 == 1).collect()
}

/// a lattice point in the coordinates of a frame, which is itself placed in a world
fn placed<T: Fl, const N: usize>(p: &[i64; N], frame: Frame, world: Frame) -> Point<T, N> {
    pt(std::array::from_fn(|i| world.at(frame.at(p[i] as f64, i), i)))
}
/// worlds where coordinates are tiny, huge, far from the origin, or no binary fractions
fn worlds<T: Fl>() -> Vec<Frame> {
    let mut w = vec![Frame::new(0.1, 0.0), Frame::new(1.0 / 3.0, 100.7), Frame::new(1e3, 0.0), Frame::new(1e-4, 0.0)];
    if T::EPS < 1e-10 {
        w.extend([Frame::new(1e-9, 0.0), Frame::new(1e9, -1e9), Frame::new(1e-3, 1e6), Frame::new(1e-40, 0.0), Frame::new(1e40, 0.0)]);
    }
    w
}

fn step_subsets<T: Fl, const N: usize>(side: i64, target: Frame, world: Frame, starts: usize, depth: usize) -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let l = lattice::<N>(side);
    let k = (1u64 << l.len()) - 1;
    let case = move |n: u64| {
        let mut d = Digits(n);
        let s = d.take(starts as u64);
        let a = d.take(k) as u64 + 1;
        (a, d.take(k) as u64 + 1, STARTS[s].within(world))
    };
    let l2 = l.clone();
    Space::new(
        format!("iterations {} {N}D all subsets of side {side} target {target} in {world}", T::NAME),
        k * k * starts as u64,
        move |n| {
            let (a, b, s) = case(n);
            let f = |m| subset(m, l2.len()).iter().map(|&i| l2[i]).collect::<Vec<_>>();
            format!("source {:?} target {:?} in frame {target:?}, all in {world:?}, from {s:?}", f(a), f(b))
        },
        move |n, ctx| {
            let (a, b, s) = case(n);
            let pa: Vec<Point<T, N>> = subset(a, l.len()).iter().map(|&i| placed(&l[i], Frame::UNIT, world)).collect();
            let pb: Vec<Point<T, N>> = subset(b, l.len()).iter().map(|&i| placed(&l[i], target, world)).collect();
            Ok(walk(&pa, &pb, &s, depth, ctx)?)
        },
    )
}

/// sequences, so repeated points count twice
fn step_sequences<T: Fl, const N: usize>(side: i64, max: u32, target: Frame, world: Frame, starts: usize, depth: usize) -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let l = lattice::<N>(side);
    let k = l.len() as u64;
    let c = seq_count(k, 1, max);
    let case = move |n: u64| {
        let mut d = Digits(n);
        let s = d.take(starts as u64);
        let a = d.take(c) as u64;
        (seq_nth(k, 1, max, a), seq_nth(k, 1, max, d.take(c) as u64), STARTS[s].within(world))
    };
    let l2 = l.clone();
    Space::new(
        format!("iterations {} {N}D sequences len<={max} of side {side} target {target} in {world}", T::NAME),
        c * c * starts as u64,
        move |n| {
            let (a, b, s) = case(n);
            let f = |m: Vec<usize>| m.iter().map(|&i| l2[i]).collect::<Vec<_>>();
            format!("source {:?} target {:?} in frame {target:?}, all in {world:?}, from {s:?}", f(a), f(b))
        },
        move |n, ctx| {
            let (a, b, s) = case(n);
            let pa: Vec<Point<T, N>> = a.iter().map(|&i| placed(&l[i], Frame::UNIT, world)).collect();
            let pb: Vec<Point<T, N>> = b.iter().map(|&i| placed(&l[i], target, world)).collect();
            Ok(walk(&pa, &pb, &s, depth, ctx)?)
        },
    )
}

/// chained iterations on clouds of every size of the ladder
fn step_large<T: Fl, const N: usize>(max: usize, square: usize) -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    IsometryAbstractor<f64, N>: Rig<f64, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    step_pairs::<T, N>(&format!("large clouds up to {max}"), large_pairs::<N>(max, square, &GENTLE[1..]))
}
fn step_pairs<T: Fl, const N: usize>(name: &str, pairs: Pairs<N>) -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let pairs = Arc::new(pairs);
    let p2 = pairs.clone();
    Space::new(
        format!("iterations {} {N}D {name}", T::NAME),
        pairs.len(),
        move |n| format!("{} points against {}: source {:?}", p2.nth(n).0.len(), p2.nth(n).1.len(), p2.nth(n).0),
        move |n, ctx| {
            let (a, b) = pairs.nth(n);
            let pa: Vec<Point<T, N>> = a.iter().map(|p| pt(*p)).collect();
            let pb: Vec<Point<T, N>> = b.iter().map(|p| pt(*p)).collect();
            Ok(walk(&pa, &pb, &STARTS[0], 3, ctx)?)
        },
    )
}

/// the clouds of the listed finding
fn step_accuracy() -> Space {
    let (a, b) = ([[0i64, 0, 1], [1, 1, 0], [1, 1, 1]], [[0i64, 0, 1], [0, 1, 0], [1, 0, 1]]);
    Space::new(
        "iterations f64 3D of listed accuracy".to_string(),
        1,
        move |_| format!("source {a:?} target {b:?} in frame 0.7x+0.3, all in 1/3x+100.7"),
        move |_, ctx| {
            let w = Frame::new(1.0 / 3.0, 100.7);
            let pa: Vec<Point<f64, 3>> = a.iter().map(|p| placed(p, Frame::UNIT, w)).collect();
            let pb: Vec<Point<f64, 3>> = b.iter().map(|p| placed(p, Frame::new(0.7, 0.3), w)).collect();
            STRICT.set(true);
            let r = walk(&pa, &pb, &STARTS[0], 4, ctx);
            STRICT.set(false);
            r.map_err(|msg| Failure { key: if msg.contains("the error rose") || msg.contains("is possible") { "svd3-accuracy".into() } else { String::new() }, msg })
        },
    )
}

fn step_no_target<T: Fl, const N: usize>() -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let l = lattice::<N>(2);
    let k = l.len() as u64;
    let c = seq_count(k, 1, 3);
    let case = move |n: u64| {
        let mut d = Digits(n);
        let (s, cfg, tree) = (d.take(6), d.take(4), d.take(2) == 1);
        (STARTS[s], STEP_CFGS[cfg], tree, seq_nth(k, 1, 3, d.0))
    };
    Space::new(
        format!("iteration without targets {} {N}D", T::NAME),
        c * 48,
        move |n| format!("{:?}", case(n)),
        move |n, ctx| {
            let (s, cfg, tree, a) = case(n);
            let a: Vec<Point<T, N>> = a.iter().map(|&i| Frame::UNIT.pt(&l[i])).collect();
            let empty = KDTree::<T, N>::default();
            let mut st = State::new(&a, start::<T, N>(&s));
            if n % 3 == 0 {
                st.mse = T::of(0.5);
            }
            let before = st.bits();
            let r = st.step(&a, &[], tree.then_some(&empty), &cfg);
            ctx.eval();
            ctx.steps(1);
            ctx.trace();
            ctx.state(st.hash(H::new(9)));
            ctx.outcome(st.hash(H::new(8)));
            if !matches!(r, Err(ICPError::NoNearestNeighbour)) {
                return Err(format!("answered {r:?} with nothing to match").into());
            }
            if st.bits() != before {
                return Err("a failed iteration changed its state".into());
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------------------------------------------------------
// C09

fn arguments<T: Fl, const N: usize>() -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let e = T::EPS;
    let sub = e * (1.0 - T::EPS / 2.0);
    let values: Vec<f64> = vec![
        -1.0, -0.0, 0.0, e / 2.0, sub, e, e * (1.0 + 2.0 * T::EPS), e * 2.0, 0.01, 1.0, 1e30, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-40, -e, -f64::NAN,
    ];
    let mut abs: Vec<Option<f64>> = vec![None];
    abs.extend(values.iter().map(|v| Some(*v)));
    let clouds: Vec<Vec<[i64; N]>> = vec![vec![], vec![[0; N]], lattice::<N>(2)];
    let iters = [0usize, 1, 2, 3, 40, 255, 256, 65_535, 65_536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 63, usize::MAX - 1, usize::MAX];
    let (c, i, v, a) = (clouds.len() as u64, iters.len() as u64, values.len() as u64, abs.len() as u64);
    let case = move |n: u64| {
        let mut d = Digits(n);
        let (s, t) = (d.take(c), d.take(c));
        let max = iters[d.take(i)];
        let interval = values[d.take(v)];
        let ab = abs[d.take(a)];
        (s, t, Cfg { kd: d.take(2) == 1, max, abs: ab, interval })
    };
    let case2 = case.clone();
    Space::new(
        format!("arguments {} {N}D", T::NAME),
        c * c * i * v * a * 2,
        move |n| format!("(source, target, settings) = {:?}", case2(n)),
        move |n, ctx| {
            let (s, t, cfg) = case(n);
            let pa: Vec<Point<T, N>> = clouds[s].iter().map(|p| Frame::UNIT.pt(p)).collect();
            let pb: Vec<Point<T, N>> = clouds[t].iter().map(|p| Frame::new(1.0, 0.125).pt(p)).collect();
            let r = icp(&pa, &pb, cfg.build::<T>());
            ctx.eval();
            let bad = |x: f64| {
                let x = T::of(x).f();
                x.is_nan() || x <= T::EPS
            };
            let want = if s == 0 {
                Some(ICPError::SourcePointCloudEmpty)
            } else if t == 0 {
                Some(ICPError::TargetPointCloudEmpty)
            } else if cfg.max == 0 {
                Some(ICPError::IterationNumIsZero)
            } else if bad(cfg.interval) {
                Some(ICPError::MSEIntervalThreshold)
            } else if cfg.abs.is_some_and(bad) {
                Some(ICPError::MSEAbsoluteThreshold)
            } else {
                None
            };
            let got = match r {
                Ok(_) | Err(ICPError::AlrogithmDidNotConverge) => None,
                Err(e) => Some(e),
            };
            ctx.outcome(H::new(n % (c * c * i)).u(got.is_some() as u64));
            if got != want {
                return Err(format!("refused with {got:?} instead of {want:?}").into());
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------------------------------------------------------
// C11

/// what a run ended with
#[derive(Clone, Debug)]
enum End<const N: usize> {
    Stopped { iteration: usize, m: Mo<N>, mse: f64 },
    Gave,
}
fn run_icp<T: Fl, const N: usize>(a: &[Point<T, N>], b: &[Point<T, N>], cfg: &Cfg) -> Result<End<N>, String>
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    match icp(a, b, cfg.build::<T>()) {
        Ok(s) => Ok(End::Stopped { iteration: s.iteration_num, m: Mo::of(&s.transform), mse: s.mse.f() }),
        Err(ICPError::AlrogithmDidNotConverge) => Ok(End::Gave),
        Err(e) => Err(format!("failed with {e:?}")),
    }
}
fn same_end<T: Fl, const N: usize>(x: &End<N>, y: &End<N>, scale: f64) -> bool {
    match (x, y) {
        (End::Gave, End::Gave) => true,
        (End::Stopped { iteration: i, m: a, mse: e }, End::Stopped { iteration: j, m: b, mse: f }) => {
            i == j
                && (e - f).abs() <= tol::<T>(scale) * scale
                && (0..N).all(|r| (a.t[r] - b.t[r]).abs() <= tol::<T>(scale) && (0..N).all(|c| (a.r[r][c] - b.r[r][c]).abs() <= tol::<T>(1.0)))
        }
        _ => false,
    }
}

/// pairs of a source and a target cloud
struct Pairs<const N: usize> {
    a: Vec<Vec<V<N>>>,
    b: Vec<Vec<V<N>>>,
    /// all combinations, rather than one to one
    all: bool,
}
impl<const N: usize> Pairs<N> {
    fn product(a: Vec<Vec<V<N>>>, b: Vec<Vec<V<N>>>) -> Self {
        Pairs { a, b, all: true }
    }
    fn len(&self) -> u64 {
        (if self.all { self.a.len() * self.b.len() } else { self.a.len() }) as u64
    }
    fn nth(&self, n: u64) -> (&Vec<V<N>>, &Vec<V<N>>) {
        let n = n as usize;
        if self.all {
            (&self.a[n % self.a.len()], &self.b[n / self.a.len()])
        } else {
            (&self.a[n], &self.b[n])
        }
    }
}

/// `n` points of a unit lattice in a scattered order, pushed off it so that no two distances agree
fn plain<const N: usize>(n: usize) -> Vec<V<N>> {
    let side = (1..).find(|s: &i64| (*s as u64).pow(N as u32) >= n as u64).unwrap();
    let all = (side as u64).pow(N as u32) as usize;
    let stride = (all * 5 / 13 + 1..).find(|s| gcd(*s, all) == 1).unwrap();
    let l = lattice::<N>(side);
    (0..n).map(|i| l[(i * stride) % all]).map(|p| std::array::from_fn(|a| p[a] as f64 + ((p[0] * 37 + p[N - 1] * 11 + a as i64 * 53) % 101) as f64 * 0.002)).collect()
}
/// Sizes of the ladder for either cloud: few sources against many targets, many against few, and as many of both.
/// The source is `k` of the target's points (repeated if there are more sources than targets), displaced.
fn large_pairs<const N: usize>(max: usize, square: usize, mv: &[Start]) -> Pairs<N>
where
    IsometryAbstractor<f64, N>: Rig<f64, N>,
{
    let mut p = Pairs { a: vec![], b: vec![], all: false };
    // stay: which of the source's points lie on their match already
    let mut add = |na: usize, nb: usize, s: &Start, stay: &dyn Fn(usize) -> bool| {
        let b = plain::<N>(nb);
        let src: Vec<V<N>> = (0..na).map(|i| b[nb - 1 - (i * 7) % nb]).collect();
        let cen = mean(&src);
        let m = Mo::<N>::of::<f64>(&start::<f64, N>(s));
        let at = |x: &V<N>| -> V<N> {
            let y = m.map(&std::array::from_fn(|i| x[i] - cen[i]));
            std::array::from_fn(|i| y[i] + cen[i])
        };
        p.a.push(src.iter().enumerate().map(|(i, x)| if stay(i) { *x } else { at(x) }).collect());
        p.b.push(b);
    };
    for (k, s) in mv.iter().enumerate() {
        let nobody = |_: usize| false;
        for n in mc::util::ladder(10, max as u64) {
            add(9, n as usize, s, &nobody);
            add(n as usize, 12, s, &nobody);
        }
        for n in mc::util::ladder(10, square as u64) {
            let n = n as usize;
            add(n, n, s, &nobody);
            if k == 0 {
                add(n, n, s, &|i| i < n / 2);
                add(n, n, s, &|i| i % 3 != 0);
                add(n, n, s, &|i| i + 1 < n);
                add(n, n, s, &|i| i > 0);
            }
        }
    }
    p
}
/// More sources than sixteen bits count, the first or last few far out, where their offsets from their matches weigh most
/// (and agree with no others').
fn heavy_ends<const N: usize>() -> Pairs<N> {
    let mut p = Pairs { a: vec![], b: vec![], all: false };
    let (near, far): (Vec<V<N>>, Vec<V<N>>) = (plain::<N>(12), (0..3).map(|k| std::array::from_fn(|i| if i == k % N { 1000.0 } else { 40.0 * k as f64 - 20.0 })).collect());
    for n in [65_535usize, 65_536, 65_537, 65_541, 70_001, 131_073] {
        for few in [1, 3] {
            let mut a: Vec<V<N>> = (0..n - few).map(|i| std::array::from_fn(|k| near[i % 12][k] + ((i * 37 + k * 11) % 17) as f64 * 0.015 - 0.1)).collect();
            a.extend((0..few).map(|i| std::array::from_fn::<f64, N, _>(|k| far[i][k] + if (k + i) % 2 == 0 { 5.0 } else { -4.0 })));
            let b: Vec<V<N>> = near.iter().chain(&far).copied().collect();
            p.a.push(a.clone());
            p.b.push(b.clone());
            a.rotate_right(few);
            p.a.push(a);
            p.b.push(b);
        }
    }
    p
}
/// Clouds whose targets nearly coincide in places, at gaps of every scale: one pair of twins anywhere, or all of them twins.
fn twin_pairs<const N: usize>(sizes: &[usize], scales: i32) -> Pairs<N> {
    let mut p = Pairs { a: vec![], b: vec![], all: false };
    for &n in sizes {
        for k in 0..scales {
            let gap = 0.4 * 0.6f64.powi(k);
            for place in [Some(0), Some(n / 2), Some(n - 1), None] {
                let mut b = vec![];
                for (i, x) in plain::<N>(n).into_iter().enumerate() {
                    b.push(x);
                    if place.is_none_or(|p| p == i) {
                        let mut t = x;
                        t[i % N] += gap;
                        b.push(t);
                    }
                }
                for by in [0.3, 0.7, 1.4, -0.2] {
                    p.a.push(b.iter().map(|x| std::array::from_fn(|a| x[a] + gap * by * if a == 0 { 1.0 } else { 0.9 })).collect());
                    p.b.push(b.clone());
                }
            }
        }
    }
    p
}
const GENTLE: [Start; 3] = [
    Start { angle: 0.0, axis: 0, t: [0.13, -0.17, 0.06] },
    Start { angle: 0.004, axis: 1, t: [-0.08, 0.11, 0.15] },
    Start { angle: -0.1, axis: 2, t: [0.05, 0.03, -0.1] },
];

/// The trajectory of single iterations from the identity
fn trajectory<T: Fl, const N: usize>(a: &[Point<T, N>], b: &[Point<T, N>], kd: bool, len: usize) -> Result<Vec<State<T, N>>, String>
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let tree = KDTree::from(b);
    let mut st = State::<T, N> { points: a.to_vec(), iso: Isometry::identity(), mse: <T as num_traits::Float>::max_value() };
    let mut v = Vec::with_capacity(len);
    let never = Cfg { kd, max: 1, abs: None, interval: 0.0 };
    for _ in 0..len {
        match st.step(a, b, kd.then_some(&tree), &never) {
            Ok(_) | Err(ICPError::IterationDidNotConverge(_)) => v.push(st.clone()),
            Err(e) => return Err(format!("iteration failed with {e:?}")),
        }
    }
    Ok(v)
}
fn expected<T: Fl, const N: usize>(t: &[State<T, N>], cfg: &Cfg) -> End<N>
where
    IsometryAbstractor<T, N>: Rig<T, N>,
{
    let mut old = <T as num_traits::Float>::max_value();
    for (k, s) in t.iter().enumerate().take(cfg.max) {
        if cfg.converged(old, s.mse) {
            return End::Stopped { iteration: k, m: Mo::of(&s.iso), mse: s.mse.f() };
        }
        old = s.mse;
    }
    assert!(cfg.max <= t.len());
    End::Gave
}

const RUN_CFGS: [(Option<f64>, f64); 7] =
    [(None, 0.01), (None, 1e-3), (Some(0.5), 0.01), (Some(2.3), 1e-3), (None, 0.7), (Some(0.011), 1e-5), (Some(1e6), 1e-4)];

fn runs<T: Fl, const N: usize>(name: &str, a_set: Vec<Vec<V<N>>>, b_set: Vec<Vec<V<N>>>, len: usize) -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    runs_of::<T, N>(name, Pairs::product(a_set, b_set), len)
}
fn runs_of<T: Fl, const N: usize>(name: &str, pairs: Pairs<N>, len: usize) -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let pairs = Arc::new(pairs);
    let p2 = pairs.clone();
    Space::new(
        format!("runs {} {N}D {name} up to {len} iterations", T::NAME),
        pairs.len(),
        move |n| format!("source {:?} target {:?}", p2.nth(n).0, p2.nth(n).1),
        move |n, ctx| {
            let (fa, fb) = pairs.nth(n);
            let a: Vec<Point<T, N>> = fa.iter().map(|p| pt(*p)).collect();
            let b: Vec<Point<T, N>> = fb.iter().map(|p| pt(*p)).collect();
            let scale = size(&[fa, fb]).max(1.0);
            for kd in [false, true] {
                let t = trajectory(&a, &b, kd, len)?;
                for s in &t {
                    ctx.state(s.hash(H::new(kd as u64)));
                }
                ctx.steps(t.len() as u64);
                for (abs, interval) in RUN_CFGS {
                    let mut success: Option<End<N>> = None;
                    for max in (1..=len).chain([len + 1, 256, 1000, 70_000, 1 << 32, usize::MAX]) {
                        if max > len && success.is_none() {
                            break;
                        }
                        let cfg = Cfg { kd, max, abs, interval };
                        let got = run_icp(&a, &b, &cfg)?;
                        ctx.eval();
                        ctx.trace();
                        let want = expected(&t, &cfg);
                        if !same_end::<T, N>(&got, &want, scale) {
                            return Err(format!("{cfg:?} ended with {got:?}, stepping ends with {want:?}").into());
                        }
                        if let End::Stopped { iteration, m, mse } = &got {
                            ctx.outcome(H::new(*iteration as u64).f((mse * 1e6).round()));
                            m.proper(2000.0 * T::EPS)?;
                            if *iteration >= max {
                                return Err(format!("reports iteration {iteration} of {max}").into());
                            }
                            // the reported error is the distance of the transformed source to its matches: at least that to the nearest targets
                            let fb: Vec<V<N>> = b.iter().map(un).collect();
                            let least: f64 =
                                a.iter().map(|p| m.map(&un(p))).map(|p| fb.iter().map(|q| d2(&p, q)).fold(f64::INFINITY, f64::min)).sum();
                            if !(*mse + tol::<T>(scale) * scale >= least) {
                                return Err(format!("reports an error of {mse}, but the nearest targets are at {least}").into());
                            }
                        }
                        if let Some(s) = &success {
                            if !same_end::<T, N>(s, &got, scale) {
                                return Err(format!("raising the maximum to {max} turns {s:?} into {got:?}").into());
                            }
                        }
                        if matches!(got, End::Stopped { .. }) {
                            success = Some(got);
                        }
                    }
                }
            }
            Ok(())
        },
    )
}

fn subsets<const N: usize>(points: &[V<N>], min: u32, max: u32) -> Vec<Vec<V<N>>> {
    let mut v: Vec<Vec<V<N>>> = (0..1u64 << points.len())
        .filter(|m| (min..=max).contains(&m.count_ones()))
        .map(|m| subset(m, points.len()).iter().map(|&i| points[i]).collect())
        .collect();
    v.sort_by_key(|s| s.len());
    v
}
fn fl<const N: usize>(l: Vec<[i64; N]>) -> Vec<V<N>> {
    l.into_iter().map(|p| p.map(|c| c as f64)).collect()
}
/// points in general position, no two pairs at the same distance
const IRREGULAR2: [V<2>; 9] =
    [[0.1, 0.37], [1.93, 0.21], [0.58, 2.11], [3.02, 1.47], [1.37, 1.19], [2.71, 2.93], [0.23, 3.31], [3.67, 0.11], [2.17, 0.83]];
const IRREGULAR3: [V<3>; 8] = [
    [0.1, 0.37, 1.21],
    [1.93, 0.21, 0.17],
    [0.58, 2.11, 0.43],
    [3.02, 1.47, 2.23],
    [1.37, 1.19, 1.71],
    [2.71, 2.93, 0.89],
    [0.23, 3.31, 2.57],
    [2.17, 0.83, 3.03],
];
fn moved<const N: usize>(p: &[V<N>], s: &Start) -> Vec<V<N>>
where
    IsometryAbstractor<f64, N>: Rig<f64, N>,
{
    let m = Mo::<N>::of::<f64>(&start::<f64, N>(s));
    p.iter().map(|x| m.map(x)).collect()
}
/// a cloud sliding slowly along an L shape: convergence takes many iterations
fn slide(k: usize, shift: f64) -> (Vec<V<2>>, Vec<V<2>>) {
    let b: Vec<V<2>> = (0..k).map(|i| [i as f64 * 0.5, 0.003 * (i * i) as f64]).chain((1..k).map(|i| [0.002 * (i * i) as f64, i as f64 * 0.5])).collect();
    let a = b.iter().map(|p| [p[0] + shift, p[1] + shift * 0.7]).collect();
    (a, b)
}

/// a sparse cloud sliding down a finely sampled valley: dozens of iterations with small, irregular progress
fn valley(shift: f64, scale: f64) -> (Vec<V<2>>, Vec<V<2>>) {
    let f = |x: f64| [x * scale, 0.1 * x * x * scale];
    let b = (0..=200).map(|i| f(-10.0 + 0.1 * i as f64)).collect();
    let a = (0..12).map(|i| f(-6.0 + 12.0 / 11.0 * i as f64)).map(|p| [p[0] + shift * scale, p[1] + 0.3 * scale]).collect();
    (a, b)
}

/// Three source points on a comb of targets are pulled along it by a fourth that follows a slightly inclined line of targets: each
/// iteration gains about slope / 4, so `steps` iterations pass before the comb ends, with an error that decreases all the time.
fn marathon(slope: f64, steps: usize) -> (Vec<V<2>>, Vec<V<2>>) {
    let way = slope / 4.0 * steps as f64;
    let tooth = slope / 2.0;
    let span = 10.0 * tooth;
    let comb = ((2.0 * span + way) / tooth) as i64 + 12;
    let mut b: Vec<V<2>> = (-6..comb).map(|i| [-span + i as f64 * tooth, 0.0]).collect();
    let fine = slope / 5.0;
    b.extend((-10..(way / fine) as i64 + 20).map(|i| [i as f64 * fine, 3.0 - slope * i as f64 * fine]));
    // a scattered order, so that the tree does not degenerate
    let n = b.len();
    let stride = (n * 618 / 1000..).find(|s| gcd(*s, n) == 1).unwrap();
    let b = (0..n).map(|i| b[i * stride % n]).collect();
    (vec![[-span, 0.0], [tooth / 3.0, 0.0], [span + tooth * 2.0 / 3.0, 0.0], [0.0, 2.0]], b)
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// long runs: the absolute threshold is chosen so that the run stops at a given iteration, the limit around it
fn long_runs<T: Fl>(slope: f64, steps: usize, kd: bool, stops: Vec<usize>, limits: Vec<Option<usize>>, orders: u64) -> Space
where
    IsometryAbstractor<T, 2>: Rig<T, 2>,
{
    let (nl, ns) = (limits.len() as u64, stops.len() as u64);
    let (a, b) = marathon(slope, steps);
    let a: Vec<Point<T, 2>> = a.iter().map(|p| pt(*p)).collect();
    let b: Vec<Point<T, 2>> = b.iter().map(|p| pt(*p)).collect();
    let walked = std::sync::OnceLock::<Result<Vec<State<T, 2>>, String>>::new();
    let last = *stops.iter().max().unwrap();
    let pick = move |n: u64| -> (usize, usize, Vec<usize>) {
        let stop = stops[(n / nl % ns) as usize];
        let max = match limits[(n % nl) as usize] {
            // relative to the stopping iteration when small
            Some(d) if d < 3 => stop + d,
            Some(m) => m,
            None => usize::MAX,
        };
        (stop, max, perm_nth(4, (n / nl / ns) * if orders < 24 { 7 } else { 1 }))
    };
    let p2 = pick.clone();
    Space::new(
        format!("long runs {} slope {slope} up to {last} iterations", T::NAME),
        ns * nl * orders,
        move |n| {
            let (stop, max, order) = p2(n);
            format!("threshold reached in iteration {stop}, limit {max}, setters in the order {order:?}")
        },
        move |n, ctx| {
            let (stop, max, order) = pick(n);
            let t = walked.get_or_init(|| trajectory::<T, 2>(&a, &b, kd, last + 2)).as_ref().map_err(|e| e.clone())?;
            for k in 1..t.len() {
                assert!(t[k].mse < t[k - 1].mse, "not a descent at {k}");
            }
            let abs = (t[stop - 1].mse.f() + t[stop].mse.f()) / 2.0;
            let least = T::EPS * 4.0;
            let cfg = Cfg { kd, max, abs: Some(abs), interval: least };
            let mut builder = ICPConfiguration::<T>::builder();
            for o in order {
                builder = match o {
                    0 => builder.with_kd_tree(kd),
                    1 => builder.with_max_iterations(max),
                    2 => builder.with_absolute_mse_threshold(Some(T::of(abs))),
                    _ => builder.with_mse_interval_threshold(T::of(least)),
                };
            }
            ctx.eval();
            ctx.trace();
            ctx.steps(1);
            let got = match icp(&a, &b, builder.build()) {
                Ok(s) => End::Stopped { iteration: s.iteration_num, m: Mo::of(&s.transform), mse: s.mse.f() },
                Err(ICPError::AlrogithmDidNotConverge) => End::Gave,
                Err(e) => return Err(format!("failed with {e:?}").into()),
            };
            let want = expected(&t[..=stop], &Cfg { max: max.min(stop + 1), ..cfg });
            ctx.state(t[stop].hash(H::new(0)));
            ctx.outcome(H::new(stop as u64).u(matches!(got, End::Gave) as u64));
            if !same_end::<T, 2>(&got, &want, 1000.0) {
                return Err(format!("{cfg:?} ended with {got:?}, stepping ends with {want:?}").into());
            }
            Ok(())
        },
    )
}

/// thresholds of every magnitude: between any two consecutive errors, and between any two error intervals, of slow descents at many scales
fn ladder<T: Fl>(lo: i32, hi: i32, len: usize) -> Space
where
    IsometryAbstractor<T, 2>: Rig<T, 2>,
{
    Space::new(
        format!("thresholds of every magnitude {} scales 2^{lo}..2^{hi}", T::NAME),
        (hi - lo) as u64 * 3,
        move |n| format!("valley with shift {} at scale 2^{}", 3.8 + 0.2 * (n % 3) as f64, lo + (n / 3) as i32),
        move |n, ctx| {
            let (a, b) = valley(3.8 + 0.2 * (n % 3) as f64, 2f64.powi(lo + (n / 3) as i32));
            let scale = size(&[&a, &b]);
            let a: Vec<Point<T, 2>> = a.iter().map(|p| pt(*p)).collect();
            let b: Vec<Point<T, 2>> = b.iter().map(|p| pt(*p)).collect();
            let t = trajectory::<T, 2>(&a, &b, true, len)?;
            ctx.steps(t.len() as u64);
            let e: Vec<f64> = t.iter().map(|s| s.mse.f()).collect();
            let mut drops: Vec<f64> = (1..len).map(|k| (e[k - 1] - e[k]).abs()).collect();
            drops.sort_by(f64::total_cmp);
            let mut cfgs = Vec::new();
            // far from rounding, and valid
            let gap = 1e3 * T::EPS * scale * scale;
            let base = Cfg { kd: true, max: len, abs: None, interval: 2.0 * T::EPS };
            for k in 1..len {
                if e[k - 1] - e[k] > gap {
                    cfgs.push(Cfg { abs: Some((e[k] + e[k - 1]) / 2.0), ..base });
                }
                if k + 1 < len && drops[k] - drops[k - 1] > gap {
                    cfgs.push(Cfg { interval: (drops[k] + drops[k - 1]) / 2.0, ..base });
                }
            }
            cfgs.push(Cfg { interval: drops[len - 2] * 4.0, ..base });
            cfgs.push(Cfg { abs: Some(e[0] * 4.0), ..base });
            for cfg in cfgs {
                if cfg.interval <= T::EPS || cfg.abs.is_some_and(|a| a <= T::EPS) {
                    continue;
                }
                // not if an interval lies within rounding of the threshold
                if drops.iter().any(|d| (d - cfg.interval).abs() <= gap) && cfg.abs.is_none() {
                    continue;
                }
                let want = expected(&t, &cfg);
                if cfg.abs.is_some() && drops.iter().any(|d| (d - cfg.interval).abs() <= gap) {
                    // the interval rule must not decide
                    match want {
                        End::Stopped { iteration, .. } if (1..=iteration).all(|k| (e[k - 1] - e[k]).abs() > gap) => {}
                        _ => continue,
                    }
                }
                let got = run_icp(&a, &b, &cfg)?;
                ctx.eval();
                ctx.trace();
                ctx.state(H::new(n).f(cfg.interval).f(cfg.abs.unwrap_or(0.0)));
                if !same_end::<T, 2>(&got, &want, scale) {
                    return Err(format!("{cfg:?} ended with {got:?}, stepping ends with {want:?}").into());
                }
                if let End::Stopped { iteration, .. } = got {
                    ctx.outcome(H::new(n).u(iteration as u64));
                }
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------------------------------------------------------
// C12

fn registration<T: Fl, const N: usize>(base: Vec<V<N>>, world: Frame, min: u32, max: u32, orders: u64) -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    IsometryAbstractor<f64, N>: Rig<f64, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let base: Vec<V<N>> = base.iter().map(|p| std::array::from_fn(|i| world.at(p[i], i))).collect();
    let sets = subsets(&base, min, max);
    let k = sets.len() as u64;
    let angles = [0.0, 0.05, -0.05, 0.11, -0.11, 0.3, -0.3, 0.75, -2.0];
    let shifts = [0.0, 0.07, -0.07, 0.2, -0.2, 0.43, -0.43];
    let axes: u64 = if N == 3 { 4 } else { 1 };
    let (na, ns) = (angles.len() as u64, shifts.len() as u64);
    let case = move |n: u64| {
        let mut d = Digits(n);
        let s = Start { angle: angles[d.take(na)], axis: d.take(axes), t: [shifts[d.take(ns)], shifts[d.take(ns)], shifts[(n % ns) as usize] * 0.5] }.within(world);
        let far = d.take(2);
        let order = d.take(orders);
        (s, far, order, d.take(k))
    };
    let sets = Arc::new(sets);
    let sets2 = sets.clone();
    Space::new(
        format!("registration {} {N}D subsets of {} points in {world}", T::NAME, base.len()),
        na * axes * ns * ns * 2 * orders * k,
        move |n| {
            let (s, far, order, c) = case(n);
            format!("source {:?}, displaced by {s:?} about its centre, order {order}, {far} far points", sets2[c])
        },
        move |n, ctx| {
            let (s, far, order, c) = case(n);
            let src = &sets[c];
            // the rotation is about the centroid, so that points move little
            let cen = mean(src);
            let m = Mo::<N>::of::<f64>(&start::<f64, N>(&s));
            let a: Vec<Point<T, N>> = src.iter().map(|p| pt(*p)).collect();
            let dst: Vec<V<N>> = src
                .iter()
                .map(|p| {
                    let q = m.map(&std::array::from_fn(|i| p[i] - cen[i]));
                    un(&pt::<T, N>(std::array::from_fn(|i| q[i] + cen[i])))
                })
                .collect();
            let mut b = dst.clone();
            if far == 1 {
                b.push(un(&pt::<T, N>(std::array::from_fn(|i| world.at(40.0, i)))));
                b.push(un(&pt::<T, N>(std::array::from_fn(|i| world.at(if i == 0 { -35.0 } else { 50.0 }, i)))));
            }
            let mut sep = f64::INFINITY;
            for i in 0..b.len() {
                for j in 0..i {
                    sep = sep.min(d2(&b[i], &b[j]));
                }
            }
            let worst = a.iter().zip(&dst).map(|(p, q)| d2(&un(p), q)).fold(0.0, f64::max);
            if !(worst.sqrt() < 0.499 * sep.sqrt()) {
                ctx.trivial += 1;
                ctx.count("outside the precondition", 1);
                return Ok(());
            }
            let shuffled: Vec<V<N>> = match order {
                0 => b.clone(),
                1 => b.iter().rev().copied().collect(),
                o => (0..b.len()).map(|i| b[(i + o as usize) % b.len()]).collect(),
            };
            let pb: Vec<Point<T, N>> = shuffled.iter().map(|p| pt(*p)).collect();
            let scale = size(&[src, &b]);
            for (kd, max, abs, interval) in [(false, 2, None, 0.01), (true, 2, None, 0.01), (false, 20, Some(1e-3), 1e-5), (true, 7, None, 1e-4)] {
                // not below the rounding errors of the squares
                let unit = world.scale.max(1.0) * world.scale.max(1.0);
                let cfg = Cfg { kd, max, abs: abs.map(|a: f64| a * unit), interval: interval * unit };
                ctx.eval();
                match run_icp(&a, &pb, &cfg)? {
                    End::Gave => return Err(format!("{cfg:?} did not converge").into()),
                    End::Stopped { iteration, m, mse } => {
                        m.proper(2000.0 * T::EPS)?;
                        for (p, q) in a.iter().zip(&dst) {
                            if !(d2(&m.map(&un(p)), q).sqrt() <= tol::<T>(scale)) {
                                return Err(format!("{cfg:?} takes {:?} to {:?} instead of {q:?}", un(p), m.map(&un(p))).into());
                            }
                        }
                        if !(mse.abs() <= tol::<T>(scale) * tol::<T>(scale) * a.len() as f64) {
                            return Err(format!("{cfg:?} reports an error of {mse} after {iteration} iterations").into());
                        }
                        ctx.outcome(m.t.iter().fold(H::new(iteration as u64), |h, c| h.f((c * 1e4).round())));
                    }
                }
            }
            Ok(())
        },
    )
}

/// clouds of every size of the ladder, against themselves displaced and against any number of further targets far away
fn registration_large<T: Fl, const N: usize>(max: usize) -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    IsometryAbstractor<f64, N>: Rig<f64, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let sizes = mc::util::ladder(10, max as u64);
    let cases: Vec<(usize, usize, usize)> = sizes
        .iter()
        .flat_map(|&n| [(n as usize, 0), (n as usize, n as usize), (10, n as usize)])
        .flat_map(|(n, far)| (0..4).map(move |s| (n, far, s)))
        .collect();
    let c2 = cases.clone();
    Space::new(
        format!("registration {} {N}D of large clouds up to {max}", T::NAME),
        cases.len() as u64,
        move |n| format!("(points, further targets, displacement) = {:?}", c2[n as usize]),
        move |n, ctx| {
            let (len, far, s) = cases[n as usize];
            let src = plain::<N>(len);
            let cen = mean(&src);
            let radius = src.iter().map(|p| d2(p, &cen)).fold(0.0, f64::max).sqrt();
            // no point moves by more than 0.38, and no two are closer than 0.78 (0.8 less the displacement's rounding)
            let angle = [0.0, 0.2, -0.2, 0.1][s] / radius;
            let t = [[0.13, -0.17, 0.1], [-0.1, 0.1, -0.1], [0.0; 3], [0.11, 0.2, -0.1]][s];
            let m = Mo::<N>::of::<f64>(&start::<f64, N>(&Start { angle, axis: s % 3, t }));
            let dst: Vec<V<N>> = src
                .iter()
                .map(|p| m.map(&std::array::from_fn(|i| p[i] - cen[i])))
                .map(|q| un(&pt::<T, N>(std::array::from_fn(|i| q[i] + cen[i]))))
                .collect();
            let away = 2.0 * radius + 10.0;
            let mut b: Vec<V<N>> = plain::<N>(far).into_iter().map(|p| std::array::from_fn(|i| p[i] + if i == 0 { away } else { 0.0 })).chain(dst.iter().rev().copied()).collect();
            if s % 2 == 1 {
                b.reverse();
            }
            let a: Vec<Point<T, N>> = src.iter().map(|p| pt(*p)).collect();
            let pb: Vec<Point<T, N>> = b.iter().map(|p| pt(*p)).collect();
            let scale = size(&[&src, &b]);
            for (kd, max, abs, interval) in [(true, 2, None, 0.01), (true, 20, Some(1e-3), 1e-4), (false, 2, None, 0.01)] {
                if !kd && a.len() * b.len() > 6_000_000 {
                    continue;
                }
                let cfg = Cfg { kd, max, abs, interval };
                ctx.eval();
                match run_icp(&a, &pb, &cfg)? {
                    End::Gave => return Err(format!("{cfg:?} did not converge").into()),
                    End::Stopped { iteration, m, mse } => {
                        m.proper(2000.0 * T::EPS)?;
                        for (p, q) in a.iter().zip(&dst) {
                            if !(d2(&m.map(&un(p)), q).sqrt() <= tol::<T>(scale)) {
                                return Err(format!("{cfg:?} takes {:?} to {:?} instead of {q:?}", un(p), m.map(&un(p))).into());
                            }
                        }
                        if !(mse.abs() <= tol::<T>(scale) * tol::<T>(scale) * a.len() as f64) {
                            return Err(format!("{cfg:?} reports an error of {mse} after {iteration} iterations").into());
                        }
                        ctx.outcome(m.t.iter().fold(H::new(iteration as u64), |h, c| h.f((c * 1e4).round())));
                    }
                }
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------------------------------------------------------
// C13

fn searches<T: Fl, const N: usize>(name: &str, a_set: Vec<Vec<V<N>>>, b_set: Vec<Vec<V<N>>>, len: usize) -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    searches_of::<T, N>(name, Pairs::product(a_set, b_set), len)
}
fn searches_of<T: Fl, const N: usize>(name: &str, pairs: Pairs<N>, len: usize) -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let pairs = Arc::new(pairs);
    let p2 = pairs.clone();
    Space::new(
        format!("kd-tree against naive {} {N}D {name} up to {len} iterations", T::NAME),
        pairs.len(),
        move |n| format!("source {:?} target {:?}", p2.nth(n).0, p2.nth(n).1),
        move |n, ctx| {
            let (fa, fb) = pairs.nth(n);
            let a: Vec<Point<T, N>> = fa.iter().map(|p| pt(*p)).collect();
            let b: Vec<Point<T, N>> = fb.iter().map(|p| pt(*p)).collect();
            let fb: Vec<V<N>> = b.iter().map(un).collect();
            let scale = size(&[fa, &fb]).max(1.0);
            let t = trajectory(&a, &b, false, len)?;
            // iterations whose matches are all unique
            let mut unique = 0;
            let mut now: Vec<V<N>> = a.iter().map(un).collect();
            for s in &t {
                if now.iter().any(|p| nearest_options::<T, N>(p, &fb, 4.0 * scale).len() > 1) {
                    break;
                }
                unique += 1;
                now = s.points.iter().map(un).collect();
            }
            if unique == 0 {
                ctx.trivial += 1;
                ctx.count("tied at the first match", 1);
            }
            for (abs, interval) in RUN_CFGS {
                for max in 1..=unique {
                    let c = Cfg { kd: false, max, abs, interval };
                    let naive = run_icp(&a, &b, &c)?;
                    let tree = run_icp(&a, &b, &Cfg { kd: true, ..c })?;
                    ctx.evals(2);
                    if !same_end::<T, N>(&naive, &tree, scale) {
                        return Err(format!("{c:?}: {naive:?} without and {tree:?} with the tree").into());
                    }
                    ctx.outcome(H::new(max as u64).u(matches!(naive, End::Gave) as u64).f(match naive {
                        End::Gave => 0.0,
                        End::Stopped { mse, .. } => (mse * 1e6).round(),
                    }));
                }
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------------------------------------------------------
// C14

#[derive(Clone, Copy, Debug, PartialEq)]
enum Set {
    Kd(bool),
    Max(usize),
    Abs(Option<f64>),
    Interval(f64),
}
const SETTERS: [Set; 11] = [
    Set::Kd(true),
    Set::Kd(false),
    Set::Max(0),
    Set::Max(3),
    Set::Max(27),
    Set::Abs(None),
    Set::Abs(Some(0.05)),
    Set::Abs(Some(2.0)),
    Set::Interval(0.3),
    Set::Interval(1e-4),
    Set::Interval(0.0),
];
/// few enough for longer histories
const FEW: [Set; 8] = [Set::Kd(true), Set::Kd(false), Set::Max(1), Set::Max(20), Set::Abs(None), Set::Abs(Some(0.05)), Set::Interval(0.01), Set::Interval(1e-4)];
const DEFAULT: Cfg = Cfg { kd: false, max: 20, abs: None, interval: 0.01 };
fn model_set(c: &Cfg, s: Set) -> Cfg {
    match s {
        Set::Kd(kd) => Cfg { kd, ..*c },
        Set::Max(max) => Cfg { max, ..*c },
        Set::Abs(abs) => Cfg { abs, ..*c },
        Set::Interval(interval) => Cfg { interval, ..*c },
    }
}
fn real_set<T: Fl>(b: &ICPConfigurationBuilder<T>, s: Set) -> ICPConfigurationBuilder<T> {
    match s {
        Set::Kd(kd) => b.with_kd_tree(kd),
        Set::Max(max) => b.with_max_iterations(max),
        Set::Abs(abs) => b.with_absolute_mse_threshold(abs.map(T::of)),
        Set::Interval(i) => b.with_mse_interval_threshold(T::of(i)),
    }
}

/// cloud pairs whose runs tell configurations apart
struct Probe<T: Fl, const N: usize>
where
    IsometryAbstractor<T, N>: Rig<T, N>,
{
    a: Vec<Point<T, N>>,
    b: Vec<Point<T, N>>,
    /// without and with the tree
    t: [Vec<State<T, N>>; 2],
}
fn probes<T: Fl>() -> Vec<Probe<T, 2>>
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let mut v = Vec::new();
    let mut add = |a: Vec<V<2>>, b: Vec<V<2>>| {
        let a: Vec<Point<T, 2>> = a.iter().map(|p| pt(*p)).collect();
        let b: Vec<Point<T, 2>> = b.iter().map(|p| pt(*p)).collect();
        let t = [false, true].map(|kd| trajectory::<T, 2>(&a, &b, kd, 32).unwrap());
        v.push(Probe { a, b, t });
    };
    // slow convergence, at many scales: the interval and the maximum decide where it stops
    for i in 0..9 {
        let (a, b) = valley(4.0, 0.05 * 2.1f64.powi(i));
        add(a, b);
    }
    // two points facing three with every match tied: the search decides
    add(vec![[0.0, 0.0], [4.0, 0.0]], vec![[0.0, 1.0], [0.0, -1.0], [4.0, 1.0], [4.0, -3.0], [4.0, -1.0]]);
    add(vec![[0.0, 0.0], [3.0, 0.0], [7.0, 1.0]], vec![[0.0, 1.0], [1.0, 0.0], [-1.0, 0.0], [0.0, -1.0], [3.0, 2.0], [3.0, -2.0], [7.0, 3.0], [9.0, 1.0]]);
    add(vec![[0.0, 0.0]], vec![[1.0, 0.0], [-1.0, 0.0]]);
    v
}
fn observe<T: Fl>(p: &[Probe<T, 2>], b: &ICPConfigurationBuilder<T>, c: &Cfg, ctx: &mut Ctx) -> Result<(), String>
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let mut h = H::new(77);
    for (i, p) in p.iter().enumerate() {
        let r = icp(&p.a, &p.b, b.build());
        ctx.eval();
        let got = match r {
            Ok(s) => Ok(End::Stopped { iteration: s.iteration_num, m: Mo::of(&s.transform), mse: s.mse.f() }),
            Err(ICPError::AlrogithmDidNotConverge) => Ok(End::Gave),
            Err(e) => Err(e),
        };
        let want = if c.max == 0 {
            Err(ICPError::IterationNumIsZero)
        } else if T::of(c.interval).f() <= T::EPS {
            Err(ICPError::MSEIntervalThreshold)
        } else {
            Ok(expected(&p.t[c.kd as usize], c))
        };
        let same = match (&got, &want) {
            (Ok(x), Ok(y)) => same_end::<T, 2>(x, y, 100.0),
            (Err(x), Err(y)) => x == y,
            _ => false,
        };
        if !same {
            return Err(format!("probe {i} gave {got:?}, with the settings {c:?} it is {want:?}"));
        }
        h = match got {
            Err(_) => h.u(1),
            Ok(End::Gave) => h.u(2),
            Ok(End::Stopped { iteration, m, .. }) => h.u(iteration as u64).f((m.t[1] * 1e4).round()),
        };
    }
    ctx.outcome(h);
    Ok(())
}

fn setters<T: Fl>(of: &'static [Set], min: u32, max: u32) -> Space
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let k = of.len() as u64;
    let p = probes::<T>();
    Space::new(
        format!("setter histories {} of {k} setters, length {min} to {max}", T::NAME),
        seq_count(k, min, max),
        move |n| format!("{:?}", seq_nth(k, min, max, n).iter().map(|&i| of[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let seq: Vec<Set> = seq_nth(k, min, max, n).iter().map(|&i| of[i]).collect();
            let mut chain = vec![(ICPConfiguration::<T>::builder(), DEFAULT)];
            for &s in &seq {
                let (b, c) = chain.last().unwrap();
                let next = (real_set(b, s), model_set(c, s));
                chain.push(next);
            }
            ctx.steps(seq.len().min(1) as u64);
            ctx.trace();
            let c = &chain.last().unwrap().1;
            ctx.state(H::new(c.kd as u64).u(c.max as u64).f(c.abs.unwrap_or(-1.0)).f(c.interval));
            // the last builder, then its parent after having been branched from
            observe(&p, &chain[seq.len()].0, c, ctx)?;
            if !seq.is_empty() {
                let (b, c) = &chain[seq.len() - 1];
                observe(&p, b, c, ctx).map_err(|e| format!("the builder changed by {:?} being called on it: {e}", seq.last()))?;
            }
            Ok(())
        },
    )
}

/// one builder branched into every pair of setters, all kept alive
fn branching<T: Fl>() -> Space
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let k = SETTERS.len() as u64;
    let p = probes::<T>();
    Space::new(
        format!("branched builders {}", T::NAME),
        k * k * k,
        move |n| format!("{:?}", seq_nth(k, 3, 3, n).iter().map(|&i| SETTERS[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let s: Vec<Set> = seq_nth(k, 3, 3, n).iter().map(|&i| SETTERS[i]).collect();
            let root = real_set(&ICPConfiguration::<T>::builder(), s[0]);
            let rm = model_set(&DEFAULT, s[0]);
            let built = root.build();
            let (x, y) = (real_set(&root, s[1]), real_set(&root, s[2]));
            drop(built);
            let z = x.clone();
            let w = real_set(&z, s[2]);
            ctx.steps(4);
            ctx.trace();
            for (b, c) in [
                (&y, model_set(&rm, s[2])),
                (&x, model_set(&rm, s[1])),
                (&root, rm),
                (&z, model_set(&rm, s[1])),
                (&w, model_set(&model_set(&rm, s[1]), s[2])),
            ] {
                ctx.state(H::new(c.kd as u64).u(c.max as u64).f(c.abs.unwrap_or(-1.0)).f(c.interval));
                observe(&p, b, &c, ctx)?;
            }
            Ok(())
        },
    )
}

/// the documented defaults, pinned by settings just below and above them
fn pinned<T: Fl>() -> Space
where
    usize: AsPrimitive<T>,
    f32: AsPrimitive<T>,
{
    let maxes = [19usize, 20, 21];
    let intervals = [0.009, 0.0099, 0.01, 0.0101, 0.011];
    let steps = 400u64;
    Space::new(
        format!("default settings {} against every threshold scale", T::NAME),
        steps,
        move |n| format!("valley with shift {} at scale {}", 4.0 + (n % 7) as f64 * 0.1, 0.2 * 1.01f64.powi(n as i32)),
        move |n, ctx| {
            let (a, b) = valley(4.0 + (n % 7) as f64 * 0.1, 0.2 * 1.01f64.powi(n as i32));
            let a: Vec<Point<T, 2>> = a.iter().map(|p| pt(*p)).collect();
            let b: Vec<Point<T, 2>> = b.iter().map(|p| pt(*p)).collect();
            let t = [false, true].map(|kd| trajectory::<T, 2>(&a, &b, kd, 32).unwrap());
            let want = expected(&t[0], &DEFAULT);
            let p = [Probe { a, b, t }];
            let def = ICPConfiguration::<T>::builder();
            // right at the threshold rounding decides
            let near = {
                let t = &p[0].t[0];
                (1..t.len()).any(|k| ((t[k - 1].mse - t[k].mse).f().abs() - 0.01).abs() < 1e-6)
            };
            if near {
                ctx.count("too close to the default interval", 1);
                return Ok(());
            }
            observe(&p, &def, &DEFAULT, ctx)?;
            ctx.steps(1);
            ctx.trace();
            ctx.state(H::new(n));
            let differs = |c: Cfg| !same_end::<T, 2>(&expected(&p[0].t[0], &c), &want, 100.0);
            for m in maxes {
                let c = Cfg { max: m, ..DEFAULT };
                observe(&p, &def.with_max_iterations(m), &c, ctx)?;
                if m != 20 {
                    ctx.count("tell 19 or 21 iterations from 20", differs(c) as u64);
                }
            }
            for i in intervals {
                let c = Cfg { interval: i, ..DEFAULT };
                let t = &p[0].t[0];
                if (1..t.len()).any(|k| ((t[k - 1].mse - t[k].mse).f().abs() - i).abs() < 1e-6) {
                    continue;
                }
                observe(&p, &def.with_mse_interval_threshold(T::of(i)), &c, ctx)?;
                ctx.count(if i < 0.01 { "tell a smaller interval from 0.01" } else { "tell a larger interval from 0.01" }, differs(c) as u64);
            }
            Ok(())
        },
    )
}

// ---------------------------------------------------------------------------------------------------------------
// C15

fn check_update<T: Fl, const N: usize>(m: &[V<N>; N], ma: V<N>, mb: V<N>, old: &Start, strict: bool, ctx: &mut Ctx) -> Res
where
    IsometryAbstractor<T, N>: Rig<T, N>,
{
    // the library's matrix couples rows (target) with columns (source)
    let mat = SMatrix::<T, N, N>::from_fn(|i, j| T::of(m[i][j]));
    let before: Iso<T, N> = start::<T, N>(old);
    let after = IsometryAbstractor::<T, N>::update_transform(&before, pt(ma), pt(mb), &mat);
    ctx.eval();
    let (b, a) = (Mo::of(&before), Mo::of(&after));
    let t1 = 2000.0 * T::EPS;
    a.proper(t1)?;
    // the step alone: after = step . before
    let mut r = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            r[i][j] = (0..N).map(|k| a.r[i][k] * b.r[j][k]).sum();
        }
    }
    let bt = b.t;
    let rt: V<N> = std::array::from_fn(|i| (0..N).map(|j| r[i][j] * bt[j]).sum());
    let step = Mo { r, t: std::array::from_fn(|i| a.t[i] - rt[i]) };
    step.proper(2.0 * t1)?;
    let big = m.iter().flatten().fold(0.0f64, |x, c| x.max(c.abs()));
    let got: f64 = (0..N).map(|i| (0..N).map(|j| r[i][j] * m[i][j]).sum::<f64>()).sum();
    let best = best_alignment(m);
    if N == 3 && got < best - 2.0 * t1 * big && got >= best - 1e-2 * big && !strict && short_of_best() {
        ctx.count("3D updates short of the best alignment", 1);
    } else if !(got >= best - 2.0 * t1 * big) {
        return Err(format!("rotation {r:?} aligns to {got}, {best} is possible").into());
    }
    let scale = size(&[&[ma, mb, bt]]).max(1e-30);
    if !(d2(&step.map(&ma), &mb).sqrt() <= 2.0 * t1 * scale) {
        return Err(format!("takes the centroid {ma:?} to {:?} instead of {mb:?}", step.map(&ma)).into());
    }
    ctx.outcome(r.iter().flatten().fold(H::new(5), |h, c| h.f((c * 1e3).round())));
    Ok(())
}

fn updates<T: Fl, const N: usize>(lo: i64, hi: i64, scale: f64, variants: usize) -> Space
where
    IsometryAbstractor<T, N>: Rig<T, N>,
{
    let k = (hi - lo + 1) as u64;
    let mats = k.pow((N * N) as u32);
    let cents: [([f64; 3], [f64; 3]); 4] =
        [([0.0; 3], [0.0; 3]), ([1.0, 2.0, -0.5], [-3.0, 0.25, 4.0]), ([100.0, -7.0, 3.0], [99.0, -7.5, 3.25]), ([0.0; 3], [0.5, 0.0, -2.0])];
    let case = move |n: u64| {
        let mut d = Digits(n);
        let mut m = [[0.0; N]; N];
        for i in 0..N {
            for j in 0..N {
                m[i][j] = (d.take(k) as i64 + lo) as f64 * scale;
            }
        }
        let v = d.take(variants as u64);
        (m, cents[v % 4], STARTS[(v / 2) % 6])
    };
    Space::new(
        format!("updates {} {N}D entries {lo}..={hi} times {scale:e}", T::NAME),
        mats * variants as u64,
        move |n| format!("(matrix, centroids, previous) = {:?}", case(n)),
        move |n, ctx| {
            let (m, (ca, cb), s) = case(n);
            check_update::<T, N>(&m, std::array::from_fn(|i| ca[i]), std::array::from_fn(|i| cb[i]), &s, false, ctx)
        },
    )
}

/// covariance matrices of rotated, possibly degenerate or mirrored shapes: U diag V^T
fn shaped<T: Fl>() -> Space {
    let diag = [[1.0, 1.0, 1.0], [3.0, 2.0, 1.0], [1.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0; 3], [5.0, 5.0, 1e-3], [1.0, 1e-4, 1e-8], [1e6, 1e3, 1.0], [1e-9, 1e-9, 1e-9]];
    let angles: Vec<f64> = (0..16).map(|i| i as f64 * PI / 8.0).collect();
    let size = diag.len() as u64 * 2 * 4 * 16 * 4 * 4 * 2;
    let case = move |n: u64| {
        let mut d = Digits(n);
        let (g, flip) = (diag[d.take(9)], d.take(2) == 1);
        let u = Start { axis: d.take(4), angle: angles[d.take(16)], t: [0.0; 3] };
        let v = Start { axis: d.take(4), angle: [0.0, 0.7, PI / 2.0, -2.1][d.take(4)], t: [0.0; 3] };
        (g, flip, u, v, STARTS[2 + d.take(2)])
    };
    let case2 = case.clone();
    Space::new(
        format!("updates {} 3D rotated diagonals", T::NAME),
        size,
        move |n| format!("(diagonal, mirrored, left, right, previous) = {:?}", case2(n)),
        move |n, ctx| {
            let (g, flip, u, v, old) = case(n);
            let (u, v) = (Mo::<3>::of::<f64>(&start::<f64, 3>(&u)), Mo::<3>::of::<f64>(&start::<f64, 3>(&v)));
            let mut m = [[0.0; 3]; 3];
            for i in 0..3 {
                for j in 0..3 {
                    m[i][j] = (0..3).map(|k| u.r[i][k] * g[k] * if flip && k == 2 { -1.0 } else { 1.0 } * v.r[j][k]).sum();
                    m[i][j] = T::of(m[i][j]).f();
                }
            }
            check_update::<T, 3>(&m, [1.0, 2.0, -0.5], [-3.0, 0.25, 4.0], &old, false, ctx)
        },
    )
}

/// Matrices of low rank, as flat and straight clouds give, with rounding noise in every entry
fn noisy<T: Fl>(magnitudes: u64) -> Space {
    let c = 1.0 / 3.0;
    let bases: [[V<3>; 3]; 5] = [
        [[1.0, 0.0, 0.0], [0.0; 3], [0.0; 3]],
        [[0.2, -0.1, 0.3], [0.4, -0.2, 0.6], [-0.2, 0.1, -0.3]],
        [[c, -c, c], [c, 2.0 * c, c], [c, 2.0 * c, c]],
        [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0; 3]],
        [[0.5, 0.0, 0.0], [0.0, 0.5, 0.0], [0.0, 0.0, 0.25]],
    ];
    let case = move |n: u64| {
        let mut d = Digits(n);
        let (base, mag) = (d.take(5), d.take(magnitudes));
        let e = T::EPS * [1.0, 64.0, 4096.0, 7.0, 0.1, 100.0 / T::EPS.sqrt().recip().sqrt(), 512.0, 1e5][mag];
        let mut m = bases[base];
        for (i, x) in m.iter_mut().flatten().enumerate() {
            *x = T::of(*x + (d.take(3) as f64 - 1.0) * e * [1.0, 0.8, 1.1][i % 3]).f();
        }
        m
    };
    Space::new(
        format!("updates {} 3D low rank with rounding noise", T::NAME),
        5 * magnitudes * 3u64.pow(9),
        move |n| format!("{:?}", case(n)),
        move |n, ctx| {
            check_update::<T, 3>(&case(n), [1.0, 2.0, -0.5], [-3.0, 0.25, 4.0], &STARTS[n as usize % 6], false, ctx).map_err(|e| {
                // listed: an underflow in the decomposition of f32 matrices that are of rank one up to rounding
                if T::EPS > 1e-10 && n % 5 < 2 && e.msg.contains("NaN") {
                    ctx.count("f32 rank one updates that end in NaN", 1);
                    return Failure { key: "svd3-nan".into(), ..e };
                }
                e
            })
        },
    )
}
/// the matrix of the listed finding
fn svd_accuracy() -> Space {
    let m: [V<3>; 3] = [
        [0.025925925925925665, 0.025925925925926768, 0.025925925925924558],
        [-0.025925925925927247, 0.051851851851856694, 0.051851851851852274],
        [0.02592592592592724, 0.02592592592592835, 0.025925925925926137],
    ];
    Space::new(
        "update f64 3D of listed accuracy".to_string(),
        1,
        move |_| format!("{m:?}"),
        move |_, ctx| {
            check_update::<f64, 3>(&m, [0.0; 3], [0.0; 3], &STARTS[0], true, ctx).map_err(|e| Failure { key: "svd3-accuracy".into(), ..e })
        },
    )
}

const MOVES: [Start; 6] = [
    Start { axis: 0, angle: 0.0, t: [0.0; 3] },
    Start { axis: 0, angle: 0.1, t: [0.3, -0.2, 0.1] },
    Start { axis: 3, angle: -0.4, t: [-0.6, 0.1, 0.5] },
    Start { axis: 1, angle: 0.8, t: [0.2, 0.9, -0.3] },
    Start { axis: 2, angle: 2.0, t: [1.0, 0.0, 2.0] },
    Start { axis: 0, angle: PI, t: [3.1, 3.2, 0.0] },
];

fn plan(id: &str, tier: Tier) -> Option<Plan> {
    let th = tier.thorough();
    Some(match id {
        "C09" => {
            let mut p = Plan::new("exploration", "one case per (error class, cloud sizes, iteration count); distinct (arguments class, verdict)");
            p.add(arguments::<f32, 2>());
            p.add(arguments::<f64, 2>());
            p.add(arguments::<f32, 3>());
            p.add(arguments::<f64, 3>());
            p
        }
        "C10" => {
            let mut p = Plan::new("model_checking", "distinct post-states of single iterations (positions rounded to 1/4096) with verdict")
                .assume("rounding: 2000 machine epsilons times the coordinate scale; the verdict is compared exactly on the reported errors; at most 5000 of the 3D steps may miss the best fit by a thousandth, or be NaN in f32 on straight clouds (known findings)");
            let off = Frame::new(1.0, 0.3);
            p.add(step_accuracy());
            p.add(step_no_target::<f32, 2>());
            p.add(step_no_target::<f64, 3>());
            p.add(step_subsets::<f64, 2>(2, off, Frame::UNIT, 6, 5));
            p.add(step_subsets::<f64, 2>(3, Frame::UNIT, Frame::UNIT, tier.pick(2, 6), 4));
            p.add(step_subsets::<f64, 2>(3, off, Frame::UNIT, tier.pick(2, 6), 4));
            p.add(step_subsets::<f32, 2>(3, off, Frame::UNIT, tier.pick(2, 6), 3));
            p.add(step_sequences::<f64, 2>(3, tier.pick(2, 3), Frame::new(1.5, -0.7), Frame::UNIT, tier.pick(6, 2), 4));
            p.add(step_sequences::<f32, 2>(3, 2, Frame::new(0.5, 0.2), Frame::UNIT, 6, 4));
            p.add(step_subsets::<f64, 3>(2, Frame::UNIT, Frame::UNIT, tier.pick(3, 6), 4));
            p.add(step_subsets::<f64, 3>(2, off, Frame::UNIT, tier.pick(3, 6), 4));
            p.add(step_subsets::<f32, 3>(2, off, Frame::UNIT, tier.pick(3, 6), 3));
            p.add(step_sequences::<f64, 3>(2, 2, Frame::new(1.5, -0.7), Frame::UNIT, 6, 4));
            for w in worlds::<f64>() {
                p.add(step_subsets::<f64, 2>(2, off, w, tier.pick(3, 6), 4));
                p.add(step_sequences::<f64, 2>(tier.pick(2, 3), 2, Frame::new(1.5, -0.7), w, tier.pick(3, 6), 4));
                p.add(step_sequences::<f64, 3>(2, tier.pick(1, 2), Frame::new(1.5, -0.7), w, 6, 4));
                p.add(step_subsets::<f64, 3>(2, Frame::new(0.7, 0.3), w, tier.pick(1, 3), 3));
            }
            for w in worlds::<f32>() {
                p.add(step_subsets::<f32, 2>(2, off, w, tier.pick(3, 6), 4));
                p.add(step_sequences::<f32, 2>(tier.pick(2, 3), 2, Frame::new(1.5, -0.7), w, tier.pick(3, 6), 4));
                p.add(step_sequences::<f32, 3>(2, tier.pick(1, 2), Frame::new(1.5, -0.7), w, 6, 4));
                p.add(step_subsets::<f32, 3>(2, Frame::new(0.7, 0.3), w, tier.pick(1, 3), 3));
            }
            p.add(step_large::<f64, 2>(tier.pick(70_001, 131_073), tier.pick(1025, 2001)));
            p.add(step_large::<f64, 3>(tier.pick(1025, 10_001), tier.pick(513, 1025)));
            p.add(step_large::<f32, 2>(tier.pick(1025, 5001), tier.pick(257, 513)));
            p.add(step_pairs::<f64, 2>("heavy ends", heavy_ends()));
            p.add(step_pairs::<f64, 3>("heavy ends", heavy_ends()));
            p.add(step_pairs::<f64, 2>("near twins", twin_pairs(&[6, 40, 140], 20)));
            p.add(step_pairs::<f64, 3>("near twins", twin_pairs(&[6, 40, 140], 20)));
            p.add(step_pairs::<f32, 2>("near twins", twin_pairs(&[6, 40], 12)));
            if th {
                p.add(step_subsets::<f64, 2>(3, Frame::new(64.0, -100.0), Frame::UNIT, 6, 4));
                p.add(step_subsets::<f64, 3>(2, Frame::new(2.5, -0.9), Frame::UNIT, 6, 6));
                p.add(step_subsets::<f64, 2>(3, Frame::new(0.01, 0.9), Frame::UNIT, 6, 6));
            }
            p
        }
        "C11" => {
            let mut p = Plan::new("model_checking", "distinct (stopping iteration, error) of complete runs")
                .assume("the transitions of the model are the single iterations C10 decides; thresholds are compared exactly");
            p.add(runs::<f64, 2>("2x2 lattice subsets, shifted", subsets(&fl(lattice::<2>(2)), 1, 4), subsets(&moved(&fl(lattice::<2>(2)), &MOVES[2]), 1, 4), 6));
            p.add(runs::<f64, 2>("irregular subsets", subsets(&moved(&IRREGULAR2, &MOVES[2]), 3, tier.pick(4, 9)), subsets(&IRREGULAR2, 4, tier.pick(5, 9)), tier.pick(5, 10)));
            p.add(runs::<f32, 2>("irregular subsets", subsets(&moved(&IRREGULAR2[..8], &MOVES[3]), 3, 4), subsets(&IRREGULAR2, 8, 9), 7));
            p.add(runs::<f64, 3>("irregular subsets", subsets(&moved(&IRREGULAR3, &MOVES[2]), 3, tier.pick(4, 8)), subsets(&IRREGULAR3, tier.pick(6, 3), 8), tier.pick(5, 8)));
            p.add(runs::<f32, 3>("irregular subsets", subsets(&moved(&IRREGULAR3, &MOVES[4]), 4, 5), subsets(&IRREGULAR3, 7, 8), 6));
            let slides: Vec<_> = (0..tier.pick(12, 40)).map(|i| slide(8 + i, 0.4 + 0.2 * i as f64)).collect();
            for scale in [0.1, 0.5, 3.0] {
                p.add(runs::<f64, 2>("valley", (0..8).map(|i| valley(3.6 + 0.1 * i as f64, scale).0).collect(), vec![valley(4.0, scale).1], tier.pick(24, 45)));
            }
            // nothing to do: the source already lies on (a part of) the target
            let same2: Vec<Vec<V<2>>> = vec![vec![], IRREGULAR2.to_vec(), vec![[1.0, 2.0]], vec![[-1.0, 0.5]; 3], fl(lattice::<2>(3)), vec![[0.0, 0.0], [1.0, 0.0]]];
            let same3: Vec<Vec<V<3>>> = vec![IRREGULAR3.to_vec(), vec![[1.0, 2.0, -1.0]], fl(lattice::<3>(2)), IRREGULAR3[..3].to_vec()];
            p.add(runs::<f64, 2>("coinciding clouds", same2[1..].to_vec(), same2[1..].to_vec(), 3));
            p.add(runs::<f32, 2>("coinciding clouds", same2[1..].to_vec(), same2[1..].to_vec(), 3));
            p.add(runs::<f64, 3>("coinciding clouds", same3.clone(), same3.clone(), 3));
            p.add(runs::<f32, 3>("coinciding clouds", same3.clone(), same3, 3));
            p.add(runs_of::<f64, 2>("large clouds", large_pairs(tier.pick(70_001, 131_073), tier.pick(513, 1025), &GENTLE), 4));
            p.add(runs_of::<f64, 2>("near twins", twin_pairs(&[6, 40], 20), 4));
            p.add(runs_of::<f64, 3>("near twins", twin_pairs(&[6, 40], 20), 4));
            p.add(runs_of::<f64, 3>("large clouds", large_pairs(tier.pick(1025, 10_001), tier.pick(257, 513), &GENTLE), 4));
            let subs = subsets(&fl(lattice::<2>(2)), 1, 4);
            p.add(runs::<f64, 2>("subsets of one lattice", subs.clone(), subs, 3));
            p.add(long_runs::<f64>(5e-3, 70_000, true, tier.pick(vec![255, 256, 4096, 32_768, 65_536], vec![255, 256, 257, 4095, 4096, 32_767, 32_768, 65_535, 65_536, 65_537, 69_990]), vec![Some(0), Some(1), None], 1));
            for kd in [false, true] {
                p.add(long_runs::<f64>(0.05, 300, kd, (1..300).collect(), vec![Some(0), Some(1), Some(2), None], 1));
                p.add(long_runs::<f32>(0.05, 300, kd, (1..300).collect(), vec![Some(0), Some(1), Some(2), None], 1));
            }
            p.add(ladder::<f64>(-22, 40, tier.pick(24, 45)));
            p.add(ladder::<f32>(-8, 30, tier.pick(20, 30)));
            p.add(runs::<f64, 2>("sliding clouds", slides.iter().map(|s| s.0.clone()).collect(), slides.iter().map(|s| s.1.clone()).collect(), tier.pick(24, 40)));
            p
        }
        "C12" => {
            let mut p = Plan::new("exploration", "distinct (iteration, recovered translation) within the precondition")
                .assume("the condition that every point moves by less than half the smallest target distance is applied with a margin of 0.2 %");
            p.add(registration::<f64, 2>(fl(lattice::<2>(3)), Frame::UNIT, 1, 9, 2));
            p.add(registration::<f32, 2>(IRREGULAR2.to_vec(), Frame::UNIT, 2, tier.pick(5, 9), tier.pick(2, 4)));
            p.add(registration::<f64, 2>(IRREGULAR2.to_vec(), Frame::UNIT, 6, 9, 4));
            p.add(registration::<f64, 3>(fl(lattice::<3>(2)), Frame::UNIT, 1, tier.pick(5, 8), 2));
            p.add(registration::<f32, 3>(IRREGULAR3.to_vec(), Frame::UNIT, tier.pick(4, 2), tier.pick(5, 8), 3));
            p.add(registration::<f64, 3>(IRREGULAR3.to_vec(), Frame::UNIT, 7, 8, 5));
            for w in worlds::<f64>() {
                p.add(registration::<f64, 2>(IRREGULAR2.to_vec(), w, tier.pick(7, 1), 8, tier.pick(1, 2)));
                p.add(registration::<f64, 3>(fl(lattice::<3>(2)), w, tier.pick(8, 1), 8, 1));
            }
            for w in worlds::<f32>() {
                p.add(registration::<f32, 2>(IRREGULAR2.to_vec(), w, tier.pick(7, 1), 8, tier.pick(1, 2)));
                p.add(registration::<f32, 3>(fl(lattice::<3>(2)), w, tier.pick(8, 1), 8, 1));
            }
            p.add(registration_large::<f64, 2>(tier.pick(70_001, 131_073)));
            p.add(registration_large::<f64, 3>(tier.pick(2001, 10_001)));
            p.add(registration_large::<f32, 2>(tier.pick(257, 1025)));
            p
        }
        "C13" => {
            let mut p = Plan::new("exploration", "distinct (maximum, verdict, error) of run pairs without ties");
            for mv in &MOVES[1..tier.pick(4, 6)] {
                p.add(searches::<f64, 2>("irregular subsets", subsets(&moved(&IRREGULAR2, mv), 1, tier.pick(4, 9)), subsets(&IRREGULAR2, tier.pick(7, 1), 9), 6));
                p.add(searches::<f32, 2>("irregular subsets", subsets(&moved(&IRREGULAR2, mv), 3, 3), subsets(&IRREGULAR2, 4, 9), 5));
                p.add(searches::<f64, 3>("irregular subsets", subsets(&moved(&IRREGULAR3, mv), 1, tier.pick(4, 8)), subsets(&IRREGULAR3, tier.pick(6, 1), 8), 6));
                p.add(searches::<f32, 3>("irregular subsets", subsets(&moved(&IRREGULAR3, mv), 3, 3), subsets(&IRREGULAR3, 5, 8), 5));
            }
            // every insertion order of the target shapes the tree differently
            let perms = |n: usize| -> Vec<Vec<V<2>>> { (0..factorial(n as u64)).map(|k| perm_nth(n, k).iter().map(|&i| IRREGULAR2[i]).collect()).collect() };
            p.add(searches::<f64, 2>("orders of the target", MOVES.iter().map(|m| moved(&IRREGULAR2, m)).collect(), perms(tier.pick(6, 8)), 6));
            let perms3 = |n: usize| -> Vec<Vec<V<3>>> { (0..factorial(n as u64)).map(|k| perm_nth(n, k).iter().map(|&i| IRREGULAR3[i]).collect()).collect() };
            p.add(searches::<f64, 3>("orders of the target", MOVES.iter().map(|m| moved(&IRREGULAR3, m)).collect(), perms3(tier.pick(6, 8)), 6));
            // larger clouds
            let jitter = |n: usize, s: u64| -> Vec<V<2>> { strided::<2>(11, n, s).iter().enumerate().map(|(i, p)| [p[0] as f64 + (i * 37 % 101) as f64 * 0.003, p[1] as f64 + (i * 53 % 89) as f64 * 0.004]).collect() };
            let b: Vec<_> = (0..tier.pick(20, 60)).map(|i| jitter(20 + 5 * i as usize % 101, [7, 13, 29, 47][i as usize % 4])).collect();
            let a = b.iter().flat_map(|c| MOVES[1..4].iter().map(move |m| moved(c, m))).collect();
            p.add(searches::<f64, 2>("larger clouds", a, b, 5));
            p.add(searches_of::<f64, 2>("large clouds", large_pairs(tier.pick(70_001, 131_073), tier.pick(1025, 2001), &GENTLE), 4));
            p.add(searches_of::<f64, 3>("large clouds", large_pairs(tier.pick(70_001, 131_073), tier.pick(513, 1025), &GENTLE), 4));
            p.add(searches_of::<f32, 2>("large clouds", large_pairs(tier.pick(1025, 2001), 129, &GENTLE), 4));
            p.add(searches_of::<f64, 2>("near twins", twin_pairs(&[3, 6, 12, 20, 40, 70, 140, 300], tier.pick(20, 40)), 4));
            p.add(searches_of::<f64, 3>("near twins", twin_pairs(&[3, 6, 12, 20, 40, 70, 140, 300], tier.pick(20, 40)), 4));
            p.add(searches_of::<f32, 2>("near twins", twin_pairs(&[3, 6, 12, 20, 40, 70, 140, 300], 14), 4));
            p.add(searches_of::<f32, 3>("near twins", twin_pairs(&[3, 6, 12, 20, 40, 70, 140, 300], 14), 4));
            p
        }
        "C14" => {
            let mut p = Plan::new("model_checking", "distinct observed behaviours of built configurations on the probe clouds");
            p.add(setters::<f64>(&SETTERS, 0, tier.pick(4, 5)));
            p.add(setters::<f32>(&SETTERS, 0, tier.pick(3, 4)));
            p.add(setters::<f64>(&FEW, 4, tier.pick(5, 6)));
            p.add(setters::<f32>(&FEW, 4, tier.pick(4, 5)));
            p.add(branching::<f64>());
            p.add(branching::<f32>());
            p.add(pinned::<f64>());
            p.add(pinned::<f32>());
            let limits: Vec<Option<usize>> = vec![
                Some(0), Some(1), Some(2), Some(1 << 15), Some((1 << 16) - 1), Some(1 << 16), Some((1 << 16) + 5), Some(1 << 31), Some(u32::MAX as usize), Some(1 << 32),
                Some((1 << 32) + 5), Some(1 << 63), Some(i64::MAX as usize), None,
            ];
            p.add(long_runs::<f64>(0.05, 300, true, vec![3, 255, 256, 257, 299], limits.clone(), 24));
            p.add(long_runs::<f32>(0.05, 300, false, vec![3, 255, 256, 257, 299], limits, 24));
            p.add(long_runs::<f64>(5e-3, 70_000, true, vec![66_000], vec![Some(0), Some(1), None], tier.pick(3, 24)));
            p.add(ladder::<f64>(-22, 40, 24));
            p.add(ladder::<f32>(-8, 30, 20));
            p
        }
        "C15" => {
            let mut p = Plan::new("exploration", "distinct resulting rotations (rounded to 1/1000)")
                .assume("optimality up to 4000 machine epsilons times the largest entry; up to a hundredth of it in at most 5000 of the 3D updates (known finding)");
            p.add(updates::<f64, 2>(-3, 3, 1.0, 12));
            p.add(updates::<f32, 2>(-3, 3, 1.0, 12));
            p.add(updates::<f64, 2>(-2, 2, 1e-6, 12));
            p.add(updates::<f32, 2>(-2, 2, 1e5, 12));
            p.add(updates::<f64, 3>(-1, 1, 1.0, 12));
            p.add(updates::<f32, 3>(-1, 1, 1.0, 12));
            p.add(updates::<f64, 3>(-1, 1, 1e-6, 4));
            p.add(updates::<f32, 3>(-1, 1, 1e5, 4));
            p.add(shaped::<f64>());
            p.add(shaped::<f32>());
            p.add(svd_accuracy());
            p.add(noisy::<f64>(tier.pick(4, 8)));
            p.add(noisy::<f32>(tier.pick(4, 8)));
            if th {
                p.add(updates::<f64, 3>(-2, 2, 1.0, 4));
                p.add(updates::<f32, 3>(-2, 2, 1.0, 4));
            }
            p
        }
        _ => return None,
    })
}

fn main() {
    mc::main(plan)
}
