//! C20-C23: point in polygon and polygon extents against exact integer geometry.
use mapping_algorithms::polygons::{are_multiple_points_in_polygon, calculate_polygon_extents, is_single_point_in_polygon};
use mc::{util::*, *};
use nalgebra::{Point, Point2};
use num_traits::AsPrimitive;
use std::sync::Arc;

type Q = [i64; 2];

fn cross(a: Q, b: Q, c: Q) -> i64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}
fn on_boundary(poly: &[Q], q: Q) -> bool {
    (0..poly.len()).any(|i| {
        let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
        cross(a, b, q) == 0 && q[0] >= a[0].min(b[0]) && q[0] <= a[0].max(b[0]) && q[1] >= a[1].min(b[1]) && q[1] <= a[1].max(b[1])
    })
}
/// Even-odd rule off the boundary, as the parity of the winding number; the winding number is counted along a vertical ray.
fn inside(poly: &[Q], q: Q) -> bool {
    let mut w = 0;
    for i in 0..poly.len() {
        let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
        if a[0] <= q[0] && b[0] > q[0] {
            w += (cross(a, b, q) < 0) as i64
        } else if b[0] <= q[0] && a[0] > q[0] {
            w -= (cross(a, b, q) > 0) as i64
        }
    }
    w.rem_euclid(2) == 1
}

/// Polygons are lattice polygons, queries are in steps of 1/DEN of the lattice.
const DEN: i64 = 2;

#[derive(Clone)]
struct Polys {
    name: String,
    count: u64,
    nth: Arc<dyn Fn(u64) -> Vec<Q> + Send + Sync>,
    queries: Vec<Q>,
}

fn queries(lo: i64, hi: i64) -> Vec<Q> {
    let mut v = lattice_range::<2>((lo - 1) * DEN, (hi + 1) * DEN);
    v.extend([[-1000, 1], [1000, 1], [1, -1000], [1, 1000], [999, 999]]);
    v
}

fn sequences(lo: i64, hi: i64, min: u32, max: u32) -> Polys {
    let a = lattice_range::<2>(lo, hi);
    let k = a.len() as u64;
    Polys {
        name: format!("vertices {lo}..={hi} len {min}..={max}"),
        count: seq_count(k, min, max),
        nth: Arc::new(move |n| seq_nth(k, min, max, n).iter().map(|&i| a[i]).collect()),
        queries: queries(lo, hi),
    }
}

/// vertices far apart, queries close to their rows, columns and diagonals
fn spread(max: u32) -> Polys {
    let values = [0i64, 40, 80];
    let near: Vec<i64> = values.iter().flat_map(|v| [v * DEN - 2, v * DEN - 1, v * DEN, v * DEN + 1, v * DEN + 2]).chain([37, 39, 41, 121, 122]).collect();
    let a: Vec<Q> = values.iter().flat_map(|x| values.iter().map(move |y| [*x, *y])).collect();
    Polys {
        name: format!("vertices {values:?} len 3..={max}"),
        count: seq_count(9, 3, max),
        nth: Arc::new(move |n| seq_nth(9, 3, max, n).iter().map(|&i| a[i]).collect()),
        queries: near.iter().flat_map(|x| near.iter().map(move |y| [*x, *y])).collect(),
    }
}

/// combs and zigzags with more edges across a row than sixteen bits count
fn crossings() -> Polys {
    let sizes = [127i64, 128, 129, 255, 256, 257, 16_384, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537];
    let nth = move |n: u64| -> Vec<Q> {
        let m = sizes[(n / 2) as usize];
        if n % 2 == 0 {
            (0..m).flat_map(|i| [[4 * i, 0], [4 * i + 1, 20], [4 * i + 2, 20], [4 * i + 3, 0]]).chain([[4 * m - 1, -2], [0, -2]]).collect()
        } else {
            (0..m + 2).map(|i| [2 * i, if i % 2 == 0 { 0 } else { 6 }]).collect()
        }
    };
    let mut q: Vec<Q> = (-3..24).flat_map(|x| [[x * 2 + 1, 3 * DEN + 1], [x * 2 + 1, 5 * DEN], [x * DEN, 9 * DEN + 1]]).collect();
    // and where the longest end
    for (m, step) in [(16_384, 8), (32_769, 8), (65_534, 4), (65_535, 4), (65_536, 4), (65_537, 8)] {
        q.extend([-9, -5, -3, -1, 1, 3].map(|d| [m * step + d, 2 * DEN + 1]));
    }
    Polys { name: "combs and zigzags across a row more often than sixteen bits count".into(), count: sizes.len() as u64 * 2, nth: Arc::new(nth), queries: q }
}
/// families of large polygons, at every size
fn families(max: u64) -> Polys {
    families_at((1..=max).collect())
}
fn families_at(sizes: Vec<u64>) -> Polys {
    let name = format!("families of large polygons, {} sizes up to {}", sizes.len(), sizes[sizes.len() - 1]);
    let count = sizes.len() as u64 * 9;
    let nth = move |n: u64| -> Vec<Q> {
        let (kind, m) = (n % 9, sizes[(n / 9) as usize] as i64);
        let mut v: Vec<Q> = match kind {
            // combs with m teeth, in both axes
            0 => (0..m).flat_map(|i| [[4 * i, 0], [4 * i + 1, 20], [4 * i + 2, 20], [4 * i + 3, 0]]).chain([[4 * m - 1, -2], [0, -2]]).collect(),
            1 => (0..m).flat_map(|i| [[0, 4 * i], [20, 4 * i + 1], [20, 4 * i + 2], [0, 4 * i + 3]]).chain([[-2, 4 * m - 1], [-2, 0]]).collect(),
            // staircase
            2 => (0..m).flat_map(|i| [[2 * i, 2 * i], [2 * i + 2, 2 * i]]).chain([[2 * m, 2 * m], [0, 2 * m]]).collect(),
            // self-intersecting scribble
            3 => (0..m + 2).map(|i| [i * 7 % 23, i * i * 5 % 19]).collect(),
            // convex, on a parabola
            4 => (-m..=m).map(|x| [x, x * x / 2]).collect(),
            // zigzag triangles sharing the level of a query row
            5 => (0..m + 2).map(|i| [2 * i, if i % 2 == 0 { 0 } else { 6 }]).collect(),
            // a square spiral, there and back
            6 => {
                let mut out = vec![];
                for i in 0..m {
                    let r = 2 * (i / 4 + 1);
                    out.push([[r, -r], [r, r], [-r, r], [-r, -r]][(i % 4) as usize]);
                }
                let back: Vec<Q> = out.iter().rev().map(|p| [p[0] - 1, p[1]]).collect();
                out.extend(back);
                out
            }
            // a square with m vertices on each edge (collinear runs)
            7 => (0..m).map(|i| [i, 0]).chain((0..m).map(|i| [m, i])).chain((0..m).map(|i| [m - i, m])).chain((0..m).map(|i| [0, m - i])).collect(),
            // every vertex repeated
            _ => (0..m + 2).flat_map(|i| [[i * 5 % 17, i * 3 % 13]; 2]).collect(),
        };
        if n / 9 % 2 == 1 {
            v.reverse()
        }
        v
    };
    let mut q: Vec<Q> = lattice_range::<2>(-12, 30).into_iter().map(|p| [p[0] * 2 + 1, p[1] * 3 - 4]).collect();
    q.extend(lattice_range::<2>(-5, 12).into_iter().map(|p| [p[0] * DEN * 2, p[1] * DEN]));
    Polys { name, count, nth: Arc::new(nth), queries: q }
}
impl Polys {
    /// only every k-th query
    fn thin(mut self, k: usize) -> Polys {
        self.queries = self.queries.into_iter().step_by(k).collect();
        self
    }
}

fn subsets_of_ring() -> Polys {
    // every non-empty sub-polygon of a 16-vertex ring around a 5x5 square, which may be concave, flat or degenerate
    let ring: Vec<Q> = vec![[0, 0], [1, 0], [2, 1], [3, 0], [4, 0], [4, 1], [3, 2], [4, 3], [4, 4], [3, 4], [2, 3], [1, 4], [0, 4], [0, 3], [1, 2], [0, 1]];
    Polys {
        name: "sub-polygons of a 16-vertex ring".into(),
        count: 1 << 16,
        nth: Arc::new(move |n| (0..16).filter(|i| n >> i & 1 == 1).map(|i| ring[i]).collect()),
        queries: queries(0, 4),
    }
}

fn poly_of<T: Fl>(p: &[Q], f: &Frame) -> Vec<Point2<T>> {
    p.iter().map(|c| f.pt(c)).collect()
}
fn query_of<T: Fl>(q: &Q, f: &Frame) -> Point2<T> {
    f.ptf(&q.map(|c| c as f64 / DEN as f64))
}

fn space<T: Fl>(what: &str, ps: Polys, f: Frame, run: impl Fn(&[Q], &[Point2<T>], &[(Q, Point2<T>)], &mut Ctx) -> Res + Send + Sync + 'static) -> Space {
    let d = ps.clone();
    let qs: Vec<(Q, Point2<T>)> = ps.queries.iter().map(|q| (*q, query_of(q, &f))).collect();
    Space::new(
        format!("{what} {} {} frame {}", ps.name, T::NAME, f),
        ps.count,
        move |n| format!("polygon {:?}", (d.nth)(n)),
        move |n, ctx| {
            let lattice = (ps.nth)(n);
            let poly = poly_of::<T>(&lattice, &f);
            run(&lattice, &poly, &qs, ctx)
        },
    )
}

fn show(q: &Q) -> String {
    format!("({}, {})", q[0] as f64 / DEN as f64, q[1] as f64 / DEN as f64)
}

fn even_odd<T: Fl>(ps: Polys, f: Frame) -> Space
where
    f32: AsPrimitive<T>,
{
    space::<T>("even-odd", ps, f, |lattice, poly, qs, ctx| {
        let scaled: Vec<Q> = lattice.iter().map(|p| p.map(|c| c * DEN)).collect();
        let mut h = H::new(lattice.len() as u64);
        for (q, p) in qs {
            let want = if lattice.len() < 3 {
                false
            } else if on_boundary(&scaled, *q) {
                continue;
            } else {
                inside(&scaled, *q)
            };
            ctx.eval();
            let got = is_single_point_in_polygon(p, poly);
            if got != want {
                return Err(format!("{} is reported {} the polygon {lattice:?}", show(q), if got { "inside" } else { "outside" }).into());
            }
            if want {
                h = h.i(q[0]).i(q[1]);
            }
        }
        ctx.outcome(h);
        Ok(())
    })
}

fn listing<T: Fl>(ps: Polys, f: Frame) -> Space
where
    f32: AsPrimitive<T>,
{
    space::<T>("listing and cuts", ps, f, |_, poly, qs, ctx| listings_agree(poly, &qs.iter().map(|q| q.1).collect::<Vec<_>>(), ctx))
}

fn listings_agree<T: Fl>(poly: &[Point2<T>], qs: &[Point2<T>], ctx: &mut Ctx) -> Res
where
    f32: AsPrimitive<T>,
{
    let n = poly.len();
    let whole: Vec<bool> = qs.iter().map(|p| is_single_point_in_polygon(p, poly)).collect();
    ctx.evals(qs.len() as u64);
    ctx.outcome(whole.iter().fold(H::new(n as u64), |h, b| h.u(*b as u64)));
    let mut variants: Vec<(String, Vec<Point2<T>>)> = Vec::new();
    for r in (0..n).filter(|r| n <= 24 || [0, 1, 2, 3, 4, n / 2, n - 1].contains(r)) {
        let mut v = poly.to_vec();
        v.rotate_left(r);
        if r > 0 {
            variants.push((format!("starting at vertex {r}"), v.clone()));
        }
        v.reverse();
        variants.push((format!("starting at vertex {r}, reversed"), v));
    }
    for (name, v) in &variants {
        for (p, w) in qs.iter().zip(&whole) {
            ctx.eval();
            if is_single_point_in_polygon(p, v) != *w {
                return Err(format!("{p:?} is reported {} polygon {poly:?} but not so {name}", if *w { "inside" } else { "outside" }).into());
            }
        }
    }
    let far = n > 500 && qs.len() > 10;
    for i in (0..n).step_by(if far { n / 3 } else { 1 }) {
        for j in (i + 2..n).step_by(if far { n / 5 } else { 1 }) {
            if !far && n > 12 && (j - i) * 2 / n != 1 {
                continue;
            }
            let one: Vec<Point2<T>> = poly[i..=j].to_vec();
            let two: Vec<Point2<T>> = poly[j..].iter().chain(&poly[..=i]).copied().collect();
            if two.len() < 3 {
                continue;
            }
            for (p, w) in qs.iter().zip(&whole) {
                ctx.evals(2);
                if is_single_point_in_polygon(p, &one) ^ is_single_point_in_polygon(p, &two) != *w {
                    return Err(format!("cut between vertices {i} and {j}: {p:?} belongs to the whole {poly:?}: {w}, but the pieces disagree").into());
                }
            }
        }
    }
    Ok(())
}

/// Vertices that are no lattice points, so that every difference, product and quotient rounds, and for each polygon queries on
/// and next to every edge and chord, every vertex and the bounding box, to the last bit.
fn rough<T: Fl>(what: &str, alphabet: &[[f64; 2]], min: u32, max: u32, f: Frame, run: impl Fn(&[Point2<T>], &[Point2<T>], &mut Ctx) -> Res + Send + Sync + 'static) -> Space {
    let alphabet: Vec<Point2<T>> = alphabet.iter().map(|p| f.ptf(p)).collect();
    let k = alphabet.len() as u64;
    let a2 = alphabet.clone();
    Space::new(
        format!("{what} rough {alphabet:?} len {min}..={max} {} frame {f}", T::NAME),
        seq_count(k, min, max),
        move |n| format!("polygon {:?}", seq_nth(k, min, max, n).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let poly: Vec<Point2<T>> = seq_nth(k, min, max, n).iter().map(|&i| alphabet[i]).collect();
            let mut qs: Vec<Point2<T>> = vec![];
            for i in 0..poly.len() {
                for j in 0..i {
                    let (a, b) = (poly[i], poly[j]);
                    for t in [0.0625, 1.0 / 3.0, 0.5, 0.8125, 0.999] {
                        let (x, y) = (a.x.f() + (b.x.f() - a.x.f()) * t, a.y.f() + (b.y.f() - a.y.f()) * t);
                        let (x, y) = (T::of(x), T::of(y));
                        qs.extend((-2..=2).map(|d| Point2::new(x.step(d), y)));
                    }
                }
            }
            let bounds = [0, 1].map(|a| (poly.iter().map(|p| p[a]).fold(<T as num_traits::Float>::infinity(), |x, y| if y < x { y } else { x }), poly.iter().map(|p| p[a]).fold(<T as num_traits::Float>::neg_infinity(), |x, y| if y > x { y } else { x })));
            let width = T::of((bounds[0].1 - bounds[0].0).f() * T::EPS / 4.0);
            for v in &poly {
                for y in [v.y.down(), v.y, v.y.up()] {
                    qs.extend((-2..=2).map(|d| Point2::new(v.x.step(d), y)));
                    // just outside the bounding box
                    let (lo, hi) = bounds[0];
                    qs.extend([lo.step(-2), lo.down(), lo - width, lo, hi, hi.up(), hi.step(2), hi + width].map(|x| Point2::new(x, y)));
                }
                let (lo, hi) = bounds[1];
                qs.extend([lo.down(), lo, hi, hi.up()].map(|y| Point2::new(v.x, y)));
            }
            run(&poly, &qs, ctx)
        },
    )
}
const IRREGULAR: [[f64; 2]; 8] = [[0.1, 0.2], [0.3, 0.7], [1.1, 0.1], [0.7, 1.3], [-0.4, 0.9], [0.2, -0.6], [1.7, 0.7], [0.1, 1.9]];
/// coordinates of very different sizes
const MIXED: [[f64; 2]; 7] = [[1e-20, 0.3], [1.0, 0.1], [3.3, 0.9], [-1e-9, -0.7], [2.2, 1e-13], [0.6, 2.1], [-1e-20, 1.7]];
fn rough_frames<T: Fl>() -> Vec<Frame> {
    let e = if T::NAME == "f32" { 15 } else { 150 };
    vec![Frame::UNIT, Frame::new(0.7, 1000.1), Frame::new(10f64.powi(e), 0.0), Frame::new(10f64.powi(-e), 0.0), Frame::stretched(1e-9)]
}

fn batch<T: Fl>(ps: Polys, f: Frame) -> Space
where
    f32: AsPrimitive<T>,
{
    let special: Vec<Point2<T>> = {
        let v = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, <T as num_traits::Float>::max_value().f(), <T as num_traits::Float>::min_value().f(), 1.0];
        v.iter().flat_map(|x| v.iter().map(move |y| pt([*x, *y]))).collect()
    };
    space::<T>("batch", ps, f, move |_, poly, qs, ctx| {
        let all: Vec<Point2<T>> = qs.iter().map(|(_, p)| *p).chain(special.iter().copied()).chain(poly.iter().copied().step_by(if poly.len() > 4000 { poly.len() / 50 } else { 1 })).collect();
        batch_agrees(&all, poly, ctx)?;
        batch_agrees(&[], poly, ctx)?;
        batch_agrees(&all[..1], poly, ctx)?;
        let back: Vec<Point2<T>> = all.iter().rev().flat_map(|p| [*p, *p]).collect();
        batch_agrees(&back, poly, ctx)
    })
}

fn batch_agrees<T: Fl>(pts: &[Point2<T>], poly: &[Point2<T>], ctx: &mut Ctx) -> Res
where
    f32: AsPrimitive<T>,
{
    ctx.eval();
    let got = are_multiple_points_in_polygon(pts, poly);
    if poly.len() < 3 {
        return if got.is_none() { Ok(()) } else { Err(format!("{got:?} for a polygon of {} vertices", poly.len()).into()) };
    }
    let Some(got) = got else { return Err(format!("nothing for the polygon {poly:?}").into()) };
    if got.len() != pts.len() {
        return Err(format!("{} answers for {} points", got.len(), pts.len()).into());
    }
    for (i, p) in pts.iter().enumerate() {
        let single = is_single_point_in_polygon(p, poly);
        if got[i] != single {
            return Err(format!("{p:?} is {} by the batch test, {single} by the single test, in {poly:?}", got[i]).into());
        }
    }
    ctx.outcome(got.iter().fold(H::new(pts.len() as u64), |h, b| h.u(*b as u64)));
    Ok(())
}

/// every number of points
fn batch_counts<T: Fl>(sizes: Vec<i64>) -> Space
where
    f32: AsPrimitive<T>,
{
    let s2 = sizes.clone();
    Space::new(
        format!("batch of {} sizes up to {} {}", sizes.len(), sizes[sizes.len() - 1], T::NAME),
        sizes.len() as u64 * 4,
        move |n| format!("{} points, polygon {}", s2[n as usize / 4], n % 4),
        move |n, ctx| {
            let poly: Vec<Q> = [vec![[0, 0], [6, 0], [6, 6], [0, 6]], vec![[0, 0], [8, 1], [2, 3], [5, 9]], vec![[3, 3], [3, 3], [3, 3]], vec![[-4, 2], [10, 2], [2, -5]]][(n % 4) as usize].clone();
            let poly = poly_of::<T>(&poly, &Frame::UNIT);
            let pts: Vec<Point2<T>> = (0..sizes[n as usize / 4]).map(|i| pt([(i * 7 % 25) as f64 / 2.0 - 2.0, (i * 11 % 31) as f64 / 2.0 - 3.0])).collect();
            ctx.eval();
            let got = are_multiple_points_in_polygon(&pts, &poly).ok_or("nothing")?;
            let want: Vec<bool> = pts.iter().map(|p| is_single_point_in_polygon(p, &poly)).collect();
            ctx.outcome(got.iter().fold(H::new(n), |h, b| h.u(*b as u64)));
            if got != want {
                return Err(format!("{got:?} instead of {want:?}").into());
            }
            Ok(())
        },
    )
}

// ------------------------------------------------------------------------------------------------ C23

fn check_extents<T: Fl, const N: usize>(poly: &[[f64; N]], ctx: &mut Ctx) -> Res {
    let pts: Vec<Point<T, N>> = poly.iter().map(|p| pt(*p)).collect();
    ctx.eval();
    let got = calculate_polygon_extents(&pts);
    if poly.len() < 3 {
        return if got.is_none() { Ok(()) } else { Err(format!("{got:?} for {} vertices", poly.len()).into()) };
    }
    let Some(got) = got else { return Err("no extents".into()) };
    for i in 0..N {
        let lo = pts.iter().map(|p| p[i].f()).fold(f64::INFINITY, f64::min);
        let hi = pts.iter().map(|p| p[i].f()).fold(f64::NEG_INFINITY, f64::max);
        if got[i].start().f() != lo || got[i].end().f() != hi {
            return Err(format!("axis {i} extends over {:?} instead of {lo}..={hi}", got[i]).into());
        }
        ctx.outcome(H::new(i as u64).f(lo).f(hi));
    }
    Ok(())
}

fn extents<T: Fl, const N: usize>(values: Vec<f64>, max: u32) -> Space {
    let values: Vec<f64> = values.into_iter().map(|v| if v == f64::MAX { <T as num_traits::Float>::max_value().f() } else if v == f64::MIN { <T as num_traits::Float>::min_value().f() } else { T::of(v).f() }).collect();
    let alphabet: Vec<[f64; N]> = lattice::<N>(values.len() as i64).into_iter().map(|p| p.map(|c| values[c as usize])).collect();
    let k = alphabet.len() as u64;
    let a2 = alphabet.clone();
    Space::new(
        format!("extents {} {N}D values {values:?} len<={max}", T::NAME),
        seq_count(k, 0, max),
        move |n| format!("{:?}", seq_nth(k, 0, max, n).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| check_extents::<T, N>(&seq_nth(k, 0, max, n).iter().map(|&i| alphabet[i]).collect::<Vec<_>>(), ctx),
    )
}

/// every size, with the extreme at every position
fn extent_positions<T: Fl, const N: usize>(max: u64) -> Space {
    Space::new(
        format!("extents {} {N}D extreme at every position of every size <={max}", T::NAME),
        (max + 1) * max * 2,
        move |n| format!("{} vertices, the {} at position {}", n / 2 / max, if n % 2 == 0 { "largest" } else { "smallest" }, n / 2 % max),
        move |n, ctx| {
            let (len, at) = (n / 2 / max, n / 2 % max);
            if at > len {
                return Ok(());
            }
            let poly: Vec<[f64; N]> = (0..len)
                .map(|i| {
                    std::array::from_fn(|a| {
                        let base = 100.0 * (a as f64 + 1.0);
                        let v = if i == at { 9.0 } else { (i * 3 + a as u64) as f64 % 8.0 };
                        if n % 2 == 0 { base + v } else { -base - v }
                    })
                })
                .collect();
            check_extents::<T, N>(&poly, ctx)
        },
    )
}

/// large sizes, with the extreme at every position of the ladder, from either end
fn extent_large<T: Fl, const N: usize>(max: u64) -> Space {
    let cases: Vec<(u64, u64)> = ladder(64, max).iter().flat_map(|&l| ladder(1, l).into_iter().flat_map(move |p| [(l, p - 1), (l, l - p)])).collect();
    let c2 = cases.clone();
    Space::new(
        format!("extents {} {N}D of up to {max} vertices", T::NAME),
        cases.len() as u64 * 2,
        move |n| format!("(vertices, position) {:?}, the {}", c2[(n / 2) as usize], if n % 2 == 0 { "largest" } else { "smallest" }),
        move |n, ctx| {
            let (len, at) = cases[(n / 2) as usize];
            let poly: Vec<[f64; N]> = (0..len)
                .map(|i| {
                    std::array::from_fn(|a| {
                        let base = 100.0 * (a as f64 + 1.0);
                        let v = if i == at { 9.0 } else { (i * 3 + a as u64) as f64 % 8.0 };
                        if n % 2 == 0 { base + v } else { -base - v }
                    })
                })
                .collect();
            check_extents::<T, N>(&poly, ctx)
        },
    )
}

fn plan(id: &str, tier: Tier) -> Option<Plan> {
    let fine = Frame::new(0.25, -3.0);
    let far = Frame::new(16.0, 1024.0);
    let mut p;
    match id {
        "C20" => {
            p = Plan::new("exploration", "every vertex sequence over a lattice up to a length, families of large polygons at every size, and every sub-polygon of a ring; every query of a half-step lattice off the boundary is compared with the parity of an exact winding number; non-trivial outcome: distinct (space, set of inside queries)")
                .assume("coordinates are dyadic and small, so the only rounding is in the position of a crossing, which is never closer to the query than 1/2000 of a lattice step");
            p.add(even_odd::<f64>(sequences(0, 2, 0, tier.pick(6, 7)), Frame::UNIT));
            p.add(even_odd::<f32>(sequences(0, 2, 0, tier.pick(5, 6)), fine));
            p.add(even_odd::<f64>(sequences(-2, 1, 3, tier.pick(4, 5)), Frame::UNIT));
            p.add(even_odd::<f64>(sequences(-2, 1, 3, 4), far));
            p.add(even_odd::<f32>(sequences(-1, 3, 3, tier.pick(3, 4)), Frame::UNIT));
            p.add(even_odd::<f64>(sequences(0, 6, 3, 3), Frame::UNIT));
            for e in [-40, -12, 12, 40] {
                // axes of very different scales
                let f = Frame::stretched(2f64.powi(e));
                p.add(even_odd::<f64>(sequences(0, 2, 0, 5), f));
                p.add(even_odd::<f32>(sequences(0, 2, 0, 4), f));
                p.add(even_odd::<f64>(spread(4), f));
            }
            // frames in which no coordinate is exact
            for f in [Frame::new(0.1, 0.0), Frame::new(1.0 / 3.0, 0.7), Frame::new(1e-30, 0.0), Frame::new(3e29, 0.0), Frame { stretch: 0.001, ..Frame::new(0.1, -7.3) }] {
                p.add(even_odd::<f64>(sequences(0, 2, 0, 5), f));
                p.add(even_odd::<f64>(sequences(-1, 3, 3, 3), f));
                p.add(even_odd::<f64>(spread(4), f));
                if f.scale > 1e-9 && f.scale < 1e9 {
                    p.add(even_odd::<f32>(sequences(0, 2, 0, 4), f));
                }
            }
            for f in [Frame::UNIT, Frame::TINY, Frame::HUGE] {
                p.add(even_odd::<f64>(spread(tier.pick(5, 6)), f));
                p.add(even_odd::<f32>(spread(4), f));
                p.add(even_odd::<f64>(sequences(-1, 1, 3, 4), f));
            }
            p.add(even_odd::<f64>(subsets_of_ring(), Frame::UNIT));
            p.add(even_odd::<f32>(subsets_of_ring(), fine));
            p.add(even_odd::<f64>(families(tier.pick(60, 200)), Frame::UNIT));
            p.add(even_odd::<f32>(families(tier.pick(12, 14)), Frame::UNIT));
            p.add(even_odd::<f64>(crossings(), Frame::UNIT));
            p.add(even_odd::<f64>(families_at(ladder(60, tier.pick(2001, 10_001))).thin(tier.pick(7, 3)), Frame::UNIT));
        }
        "C21" => {
            p = Plan::new("exploration", "as C20, on every query including those on the boundary: every rotation and reversal of the listing, and every cut between two vertices; non-trivial outcome: distinct (space, answers to all queries)")
                .assume("none: the pieces and listings must agree however coordinates round");
            p.add(listing::<f64>(sequences(0, 2, 0, tier.pick(5, 6)), Frame::UNIT));
            p.add(listing::<f32>(sequences(0, 2, 3, tier.pick(4, 5)), fine));
            p.add(listing::<f64>(sequences(-2, 1, 3, tier.pick(4, 5)), Frame::UNIT));
            p.add(listing::<f32>(sequences(-1, 3, 3, tier.pick(3, 4)), far));
            for e in [-40, -12, 12, 40] {
                let f = Frame::stretched(2f64.powi(e));
                p.add(listing::<f64>(sequences(0, 2, 0, 4), f));
                p.add(listing::<f32>(sequences(-2, 1, 3, 3), f));
            }
            p.add(listing::<f64>(spread(tier.pick(4, 5)), Frame::TINY));
            p.add(listing::<f32>(spread(tier.pick(3, 4)), Frame::HUGE));
            p.add(listing::<f64>(subsets_of_ring(), Frame::UNIT));
            for f in rough_frames::<f64>() {
                p.add(rough::<f64>("listing and cuts", &IRREGULAR, 3, tier.pick(4, 5), f, listings_agree::<f64>));
                p.add(rough::<f64>("listing and cuts", &MIXED, 3, 4, f, listings_agree::<f64>));
            }
            for f in rough_frames::<f32>() {
                p.add(rough::<f32>("listing and cuts", &IRREGULAR, 3, 4, f, listings_agree::<f32>));
                p.add(rough::<f32>("listing and cuts", &MIXED, 3, tier.pick(3, 4), f, listings_agree::<f32>));
            }
            p.add(listing::<f64>(families(tier.pick(20, 60)), Frame::UNIT));
            p.add(listing::<f64>(crossings().thin(tier.pick(5, 1)), Frame::UNIT));
            p.add(listing::<f64>(families_at(ladder(20, tier.pick(129, 257))).thin(97), Frame::UNIT));
        }
        "C22" => {
            p = Plan::new("exploration", "every vertex sequence over a lattice up to a length and families of large polygons, with the batch of all queries of a half-step lattice, all vertices and special values, and batches of every size; non-trivial outcome: distinct (space, vector of answers)");
            p.add(batch::<f64>(sequences(0, 2, 0, tier.pick(5, 6)), Frame::UNIT));
            p.add(batch::<f32>(sequences(0, 2, 0, tier.pick(4, 5)), fine));
            p.add(batch::<f64>(sequences(-2, 1, 3, 4), far));
            p.add(batch::<f32>(sequences(-1, 3, 3, 3), Frame::UNIT));
            for e in [-40, -12, 12, 40] {
                let f = Frame::stretched(2f64.powi(e));
                p.add(batch::<f64>(sequences(0, 2, 0, 4), f));
                p.add(batch::<f32>(sequences(-2, 1, 3, 3), f));
            }
            p.add(batch::<f64>(spread(tier.pick(4, 5)), Frame::TINY));
            p.add(batch::<f32>(spread(4), Frame::HUGE));
            p.add(batch::<f64>(subsets_of_ring(), Frame::UNIT));
            for f in rough_frames::<f64>() {
                p.add(rough::<f64>("batch", &IRREGULAR, 3, tier.pick(4, 5), f, |p, q, c| batch_agrees(q, p, c)));
                p.add(rough::<f64>("batch", &MIXED, 3, 4, f, |p, q, c| batch_agrees(q, p, c)));
            }
            for f in rough_frames::<f32>() {
                p.add(rough::<f32>("batch", &IRREGULAR, 3, 4, f, |p, q, c| batch_agrees(q, p, c)));
                p.add(rough::<f32>("batch", &MIXED, 3, 4, f, |p, q, c| batch_agrees(q, p, c)));
            }
            p.add(batch::<f64>(families(tier.pick(30, 100)), Frame::UNIT));
            p.add(batch::<f64>(families_at(ladder(30, tier.pick(2001, 10_001))).thin(7), Frame::UNIT));
            p.add(batch::<f64>(crossings().thin(tier.pick(3, 1)), Frame::UNIT));
            p.add(batch_counts::<f64>((0..=tier.pick(1100, 5000)).chain(ladder(5001, 131_073).into_iter().map(|l| l as i64)).collect()));
            p.add(batch_counts::<f32>((0..=tier.pick(1100, 5000)).collect()));
        }
        "C23" => {
            p = Plan::new("exploration", "every vertex sequence over an alphabet of values (largest, smallest, signed zero, subnormal included) up to a length, in 1 to 4 dimensions, and every position of the extreme at every size; non-trivial outcome: distinct (space, axis, extent)");
            let ext = vec![f64::MIN, -1.0, -0.0, 0.0, 1e-40, 1.0, f64::MAX];
            p.add(extents::<f64, 1>(ext.clone(), tier.pick(6, 7)));
            p.add(extents::<f32, 1>(ext.clone(), tier.pick(6, 7)));
            p.add(extents::<f64, 2>(vec![-2.0, 0.0, 3.0], tier.pick(6, 7)));
            p.add(extents::<f32, 2>(ext.clone(), tier.pick(3, 4)));
            p.add(extents::<f64, 2>(ext, tier.pick(3, 4)));
            p.add(extents::<f64, 2>(vec![-2.5, -7.0], tier.pick(9, 10)));
            p.add(extents::<f64, 3>(vec![-1.0, 2.0, 5.0], tier.pick(4, 4)));
            p.add(extents::<f32, 3>(vec![1.0, 2.0], tier.pick(6, 7)));
            p.add(extents::<f32, 4>(vec![-1.0, 2.0], tier.pick(4, 5)));
            p.add(extents::<f64, 5>(vec![-1.0, 2.0], tier.pick(3, 4)));
            p.add(extents::<f32, 6>(vec![-3.0, 0.5], 3));
            p.add(extents::<f64, 7>(vec![4.0, 2.0], 3));
            p.add(extents::<f64, 4>(vec![-1.0, 2.0, 5.0], 3));
            p.add(extent_positions::<f64, 4>(tier.pick(60, 150)));
            p.add(extent_positions::<f32, 8>(tier.pick(40, 100)));
            p.add(extent_positions::<f64, 12>(tier.pick(20, 60)));
            p.add(extent_positions::<f64, 2>(tier.pick(300, 600)));
            p.add(extent_positions::<f32, 3>(tier.pick(150, 300)));
            p.add(extent_positions::<f64, 1>(tier.pick(300, 600)));
            p.add(extent_large::<f64, 2>(tier.pick(70_001, 131_073)));
            p.add(extent_large::<f32, 3>(tier.pick(70_001, 131_073)));
            p.add(extent_large::<f64, 5>(tier.pick(70_001, 131_073)));
        }
        _ => return None,
    }
    Some(p)
}

fn main() {
    mc::main(plan)
}
