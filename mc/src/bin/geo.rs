//! C24-C25: haversine distance and bearing against vector geometry in f64.
use mapping_algorithms::geo::{calculate_haversine_distance, calculate_sphere_bearing};
use mc::{util::*, *};
use std::f64::consts::PI;

type V3 = [f64; 3];
fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
/// sine and cosine of an angle in degrees, exact at multiples of 90 degrees
fn sincos(deg: f64) -> (f64, f64) {
    let d = deg.rem_euclid(360.0);
    let q = (d / 90.0).round();
    let r = (d - 90.0 * q).to_radians();
    let (s, c) = (r.sin(), r.cos());
    match q as i64 % 4 {
        0 => (s, c),
        1 => (c, -s),
        2 => (-s, -c),
        _ => (-c, s),
    }
}
fn unit(p: [f64; 2]) -> V3 {
    let ((sp, cp), (sl, cl)) = (sincos(p[0]), sincos(p[1]));
    [cp * cl, cp * sl, sp]
}
/// the angle between two points of the sphere, accurate everywhere
fn angle(a: [f64; 2], b: [f64; 2]) -> f64 {
    let (u, v) = (unit(a), unit(b));
    let c = cross(u, v);
    dot(c, c).sqrt().atan2(dot(u, v))
}

/// Bound on the rounding of the haversine formula at this angle: the error of the haversine is a few epsilon, and the
/// slope of the inverse grows without bound only towards the antipode, where the square root limits it.
fn tolerance(eps: f64, theta: f64) -> f64 {
    let slope = if theta < PI / 2.0 { 1.0 } else { 1.0 / (theta.sin().abs() / 2.0).max(eps.sqrt()) };
    40.0 * eps * slope.min(1.0 / eps.sqrt())
}

/// whole turns added to the longitudes of the two points
const TURNS: [(f64, f64); 10] = [
    (360.0, 0.0),
    (0.0, 360.0),
    (-360.0, 0.0),
    (0.0, -360.0),
    (360.0, 360.0),
    (-360.0, 360.0),
    (720.0, 0.0),
    (0.0, -720.0),
    (-1080.0, 360.0),
    (0.0, 36000.0),
];

fn radius_list() -> [f64; 12] {
    [1.0, 6371.0, 6371000.0, 0.5, 1.0e-9, 3.3e-4, 1737.4, 69_911.0, 1.0000001e7, 6.957e8, 3.3e13, 1.0e25]
}

/// the values of a pair as seen in T
fn seen<T: Fl>(p: [f64; 2]) -> [f64; 2] {
    p.map(|c| T::of(c).f())
}

fn check_distance<T: Fl>(a: [f64; 2], b: [f64; 2], ctx: &mut Ctx) -> Res {
    let (a, b) = (seen::<T>(a), seen::<T>(b));
    let theta = angle(a, b);
    let tol = tolerance(T::EPS, theta);
    let call = |a: [f64; 2], b: [f64; 2], r: f64| calculate_haversine_distance::<T>(pt(a), pt(b), T::of(r)).f();
    let fail = |what: String| -> Res { Err(format!("from {a:?} to {b:?} (true angle {theta}): {what}").into()) };
    let d = call(a, b, 1.0);
    ctx.eval();
    if !d.is_finite() || d < 0.0 || d > PI + 4.0 * T::EPS {
        return fail(format!("{d} is not between zero and half the circumference"));
    }
    if (d - theta).abs() > tol {
        return fail(format!("{d} is off by {} (allowed {tol})", (d - theta).abs()));
    }
    if a == b && d != 0.0 {
        return fail(format!("{d} for coincident points"));
    }
    ctx.evals(3);
    let back = call(b, a, 1.0);
    if !((back - theta).abs() <= tol) {
        return fail(format!("the way back is {back}"));
    }
    for r in radius_list() {
        ctx.eval();
        let dr = call(a, b, r);
        if !((dr - r * d).abs() <= 4.0 * T::EPS * r * d) {
            return fail(format!("{dr} for radius {r}, but {d} for radius 1"));
        }
    }
    if call(a, b, 0.0) != 0.0 {
        return fail("not zero for radius zero".into());
    }
    for (sa, sb) in TURNS {
        let more = 8.0 * (sa.abs() + sb.abs()) / 360.0;
        let (a2, b2) = ([a[0], a[1] + sa], [b[0], b[1] + sb]);
        if seen::<T>(a2) != a2 || seen::<T>(b2) != b2 {
            continue;
        }
        ctx.eval();
        let s = call(a2, b2, 1.0);
        // the longer argument of the sine is rounded more coarsely
        if !((s - theta).abs() <= more * tol) || !s.is_finite() {
            return fail(format!("{s} after turning the longitudes by {sa} and {sb}, but {d} before"));
        }
    }
    ctx.outcome(H::new(1).f((theta * 1e9).round()));
    Ok(())
}

fn check_bearing<T: Fl>(a: [f64; 2], b: [f64; 2], ctx: &mut Ctx) -> Res {
    let (a, b) = (seen::<T>(a), seen::<T>(b));
    let (u, v) = (unit(a), unit(b));
    let ((sp, cp), (sl, cl)) = (sincos(a[0]), sincos(a[1]));
    let north = dot(v, [-sp * cl, -sp * sl, cp]);
    let east = dot(v, [-sl, cl, 0.0]);
    let want = east.atan2(north).rem_euclid(2.0 * PI);
    let size = dot(cross(u, v), cross(u, v)).sqrt();
    let tol = 40.0 * T::EPS / size;
    // undefined for coincident and antipodal points and for a pole as start, ill-conditioned next to them
    let defined = tol < 0.01 && cp.abs() > 1e-12;
    let call = |a: [f64; 2], b: [f64; 2]| calculate_sphere_bearing::<T>(pt(a), pt(b)).f();
    let off = |x: f64| {
        let d = (x - want).rem_euclid(2.0 * PI);
        d.min(2.0 * PI - d)
    };
    let fail = |what: String| -> Res { Err(format!("from {a:?} to {b:?} (true bearing {want}): {what}").into()) };
    let x = call(a, b);
    ctx.eval();
    if !(x >= 0.0 && x <= 2.0 * PI + 4.0 * T::EPS) {
        return fail(format!("{x} is not between zero and two pi"));
    }
    if !defined {
        ctx.count("undefined: range checked only", 1);
        return Ok(());
    }
    if !(off(x) <= tol) {
        return fail(format!("{x} is off by {} (allowed {tol})", off(x)));
    }
    for (sa, sb) in TURNS {
        let more = 8.0 * (sa.abs() + sb.abs()) / 360.0;
        let (a2, b2) = ([a[0], a[1] + sa], [b[0], b[1] + sb]);
        if seen::<T>(a2) != a2 || seen::<T>(b2) != b2 {
            continue;
        }
        ctx.eval();
        let s = call(a2, b2);
        if !(s >= 0.0 && s <= 2.0 * PI + 4.0 * T::EPS && off(s) <= more * tol) {
            return fail(format!("{s} after turning the longitudes by {sa} and {sb}, but {x} before"));
        }
    }
    ctx.outcome(H::new(2).f((want * 1e9).round()));
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Distance,
    Bearing,
}
fn check<T: Fl>(what: What, a: [f64; 2], b: [f64; 2], ctx: &mut Ctx) -> Res {
    match what {
        What::Distance => check_distance::<T>(a, b, ctx),
        What::Bearing => check_bearing::<T>(a, b, ctx),
    }
}

fn pairs<T: Fl>(what: What, step: f64) -> Space {
    let mut lat: Vec<f64> = (0..).map(|i| -90.0 + i as f64 * step).take_while(|l| *l <= 90.0).collect();
    let mut lon: Vec<f64> = (0..).map(|i| -180.0 + i as f64 * step).take_while(|l| *l <= 180.0).collect();
    lat.extend([89.5, -89.5, 89.9990234375, -89.9990234375, 0.0009765625, -0.0009765625]);
    lon.extend([179.5, -179.5, 0.0009765625, -0.0009765625, 179.9990234375, -179.9990234375]);
    let points: Vec<[f64; 2]> = lat.iter().flat_map(|p| lon.iter().map(move |l| [*p, *l])).collect();
    let k = points.len() as u64;
    let p2 = points.clone();
    Space::new(
        format!("pairs on a grid of {step} degrees {}", T::NAME),
        k * k,
        move |n| format!("{:?} to {:?}", p2[(n / k) as usize], p2[(n % k) as usize]),
        move |n, ctx| check::<T>(what, points[(n / k) as usize], points[(n % k) as usize], ctx),
    )
}

/// pairs next to coincident and next to antipodal, everywhere on the sphere
fn close<T: Fl>(what: What, step: f64) -> Space {
    let rows = (180.0 / step) as u64 + 1;
    let cols = (360.0 / step) as u64 + 1;
    let deltas: Vec<f64> = {
        let mut v = vec![0.0];
        for e in [0, 1, 4, 8, 12, 16, 20, 24].into_iter().chain(27..=44) {
            v.extend([2f64.powi(-e), -(2f64.powi(-e))]);
        }
        v
    };
    let m = deltas.len() as u64;
    let case = move |n: u64| {
        let mut d = Digits(n);
        let (i, j, side, axes) = (d.take(rows), d.take(cols), d.take(3), d.take(m * 3));
        let a = [-90.0 + i as f64 * step, -180.0 + j as f64 * step];
        let base = match side {
            0 => a,
            1 => [-a[0], a[1] + 180.0],
            _ => [-a[0], a[1] - 180.0],
        };
        let (dl, axis) = (deltas[axes % m as usize], axes / m as usize);
        let mut b = base;
        if axis != 1 {
            b[0] = (b[0] + dl).clamp(-90.0, 90.0);
        }
        if axis != 0 {
            b[1] += dl;
        }
        (a, b)
    };
    let c2 = case.clone();
    Space::new(
        format!("next to coincident or antipodal, every {step} degrees {}", T::NAME),
        rows * cols * 3 * m * 3,
        move |n| format!("{:?} to {:?}", case(n).0, case(n).1),
        move |n, ctx| {
            let (a, b) = c2(n);
            check::<T>(what, a, b, ctx)
        },
    )
}

/// small moves in every direction from every cell, as used in navigation
fn local<T: Fl>(what: What, step: f64) -> Space {
    let rows = (170.0 / step) as u64 + 1;
    let cols = (360.0 / step) as u64 + 1;
    let case = move |n: u64| {
        let mut d = Digits(n);
        let (i, j, dir, size) = (d.take(rows), d.take(cols), d.take(24), d.take(4));
        let a = [-85.0 + i as f64 * step + 0.123, -180.0 + j as f64 * step + 0.456];
        let s = [4.0, 0.5, 0.03125, 0.001][size];
        let t = dir as f64 * PI / 12.0;
        (a, [a[0] + s * t.cos(), a[1] + s * t.sin()])
    };
    let c2 = case;
    Space::new(
        format!("local moves, every {step} degrees {}", T::NAME),
        rows * cols * 24 * 4,
        move |n| format!("{:?} to {:?}", case(n).0, case(n).1),
        move |n, ctx| check::<T>(what, c2(n).0, c2(n).1, ctx),
    )
}

/// Pairs near the origin, where degrees are a plane and nothing but the result itself limits its precision
fn tiny<T: Fl>(what: What, exponents: Vec<i32>) -> Space {
    let values: Vec<f64> = std::iter::once(0.0).chain(exponents.iter().flat_map(|e| [1.0, -1.0, 3.0, -3.0].map(|m| m * 2f64.powi(-e)))).collect();
    let k = values.len() as u64;
    let v2 = values.clone();
    let case = move |n: u64| {
        let mut d = Digits(n);
        let v: [f64; 4] = std::array::from_fn(|_| v2[d.take(k)]);
        ([v[0], v[1]], [v[2], v[3]])
    };
    let c2 = case.clone();
    Space::new(
        format!("pairs of tiny coordinates {}, {} magnitudes", T::NAME, exponents.len()),
        k * k * k * k,
        move |n| format!("{:?} to {:?}", case(n).0, case(n).1),
        move |n, ctx| {
            let (a, b) = c2(n);
            let (dlat, dlon) = (b[0] - a[0], b[1] - a[1]);
            let (dist, largest) = (dlat.hypot(dlon).to_radians(), a.iter().chain(&b).fold(0.0, |m: f64, c| m.max(c.abs())).to_radians());
            let fail = |what: String| -> Res { Err(format!("from {a:?} to {b:?}: {what}").into()) };
            ctx.eval();
            match what {
                What::Distance => {
                    let d = calculate_haversine_distance::<T>(pt(a), pt(b), T::of(1.0)).f();
                    if !((d - dist).abs() <= 40.0 * T::EPS * (dist + largest)) {
                        return fail(format!("the distance is {d:e} instead of {dist:e}"));
                    }
                    ctx.outcome(H::new(3).f(dist));
                }
                What::Bearing => {
                    let tol = 40.0 * T::EPS * (1.0 + largest / dist);
                    let x = calculate_sphere_bearing::<T>(pt(a), pt(b)).f();
                    let off = (x - dlon.atan2(dlat)).rem_euclid(2.0 * PI);
                    if !(x >= 0.0 && x <= 2.0 * PI + 4.0 * T::EPS) {
                        return fail(format!("the bearing {x} is not between zero and two pi"));
                    }
                    if tol < 0.01 && off.min(2.0 * PI - off) > tol {
                        return fail(format!("the bearing {x} is off by {off}"));
                    }
                    ctx.outcome(H::new(4).f(dlat).f(dlon));
                }
            }
            Ok(())
        },
    )
}

fn plan(id: &str, tier: Tier) -> Option<Plan> {
    let (what, mut p) = match id {
        "C24" => (
            What::Distance,
            Plan::new("exploration", "every pair of points of a latitude/longitude grid (poles, date line and their neighbourhood included), and pairs displaced by powers of two from coincident and antipodal everywhere; each with whole turns of longitude, both directions and four radii, against the angle between unit vectors; non-trivial outcome: distinct (space, angle rounded to 1e-9)"),
        ),
        "C25" => (
            What::Bearing,
            Plan::new("exploration", "every pair of points of a latitude/longitude grid, and pairs displaced by powers of two from coincident and antipodal everywhere, each with whole turns of longitude, against the tangent-plane components of the second point; non-trivial outcome: distinct (space, bearing rounded to 1e-9)"),
        ),
        _ => return None,
    };
    p = p.assume("agreement is up to 40 machine epsilons times the condition of the formula at that pair");
    p.add(pairs::<f64>(what, tier.pick(5.0, 3.0)));
    p.add(pairs::<f32>(what, tier.pick(5.0, 3.0)));
    p.add(pairs::<f64>(what, tier.pick(22.5, 7.5)));
    p.add(close::<f64>(what, tier.pick(3.0, 1.0)));
    p.add(close::<f32>(what, tier.pick(3.0, 1.0)));
    p.add(local::<f64>(what, tier.pick(5.0, 2.0)));
    p.add(local::<f32>(what, tier.pick(5.0, 2.0)));
    p.add(tiny::<f64>(what, tier.pick(vec![20, 26, 30, 36, 40, 45, 50, 60, 100, 200], vec![20, 23, 26, 28, 30, 33, 36, 38, 40, 43, 45, 48, 50, 55, 60, 80, 100, 150, 200])));
    p.add(tiny::<f32>(what, vec![12, 14, 16, 20, 24, 30, 40, 50]));
    Some(p)
}

fn main() {
    mc::main(plan)
}
