//! C01-C04: KD-tree histories and the naive nearest-neighbour search against a plain list of points.
use mapping_algorithms::{kd_tree::KDTree, point_clouds::find_nearest_neighbour_naive};
use mc::{util::*, *};
use nalgebra::Point;

fn d2<const N: usize>(a: &[f64; N], b: &[f64; N]) -> f64 {
    (0..N).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum()
}

/// The reference model: the distinct points, in insertion order.
#[derive(Clone, Default)]
struct Model<const N: usize>(Vec<[f64; N]>);
impl<const N: usize> Model<N> {
    fn insert(&mut self, p: [f64; N]) {
        if !self.0.contains(&p) {
            self.0.push(p)
        }
    }
}

fn contents<T: Fl, const N: usize>(tree: &KDTree<T, N>) -> Vec<[f64; N]> {
    let mut v = Vec::new();
    tree.traverse_tree(|p| v.push(un(p)));
    v
}

fn sorted<const N: usize>(mut v: Vec<[f64; N]>) -> Vec<[f64; N]> {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

/// the multiset of points, by their bits
fn bits<const N: usize>(v: &[[f64; N]]) -> Vec<[u64; N]> {
    let mut v: Vec<[u64; N]> = v.iter().map(|p| p.map(f64::to_bits)).collect();
    v.sort_unstable();
    v
}
fn state_of<T: Fl, const N: usize>(tree: &KDTree<T, N>) -> H {
    contents(tree).iter().fold(H::new(N as u64), |h, p| p.iter().fold(h, |h, c| h.f(*c)))
}

fn check_nearest<T: Fl, const N: usize>(tree: &KDTree<T, N>, m: &Model<N>, queries: &[[f64; N]], ctx: &mut Ctx) -> Res {
    for q in queries {
        ctx.eval();
        let got = tree.nearest(&pt::<T, N>(*q)).map(|p| un(&p));
        let best = m.0.iter().map(|p| d2(p, q)).fold(f64::INFINITY, f64::min);
        match got {
            None if m.0.is_empty() => {}
            None => return Err(format!("nearest({q:?}) is None although the tree holds {:?}", m.0).into()),
            Some(p) => {
                if !m.0.contains(&p) {
                    return Err(format!("nearest({q:?}) = {p:?}, which was never inserted").into());
                }
                if d2(&p, q) != best {
                    return Err(format!("nearest({q:?}) = {p:?} at squared distance {}, but {best} is possible among {:?}", d2(&p, q), m.0).into());
                }
                ctx.outcome(p.iter().chain(q).fold(H::new(1), |h, c| h.f(*c)));
            }
        }
    }
    Ok(())
}

fn check_set<T: Fl, const N: usize>(tree: &KDTree<T, N>, m: &Model<N>, ctx: &mut Ctx) -> Res {
    ctx.eval();
    if tree.len() != m.0.len() {
        return Err(format!("len() = {} for the {} distinct points {:?}", tree.len(), m.0.len(), m.0).into());
    }
    if tree.is_empty() != m.0.is_empty() {
        return Err(format!("is_empty() = {} for {:?}", tree.is_empty(), m.0).into());
    }
    let c = contents(tree);
    if sorted(c.clone()) != sorted(m.0.clone()) {
        return Err(format!("the tree holds {c:?} instead of {:?}", m.0).into());
    }
    ctx.outcome(H::new(2).u(tree.len() as u64).u(state_of(tree).0));
    Ok(())
}

const FRAMES: [Frame; 3] = [Frame::UNIT, Frame::new(0.25, -3.0), Frame::new(1024.0, 65536.0)];

fn half_queries<const N: usize>(side: i64, steps: i64) -> Vec<[f64; N]> {
    // -1 ..= side in steps of 1/steps
    lattice_range::<N>(-steps, side * steps).into_iter().map(|q| q.map(|c| c as f64 / steps as f64)).collect()
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Nearest,
    Set,
}

/// every insertion sequence of length <= max over a lattice
fn sequences<T: Fl, const N: usize>(side: i64, max: u32, steps: i64, frame: Frame, what: What) -> Space {
    let alphabet = lattice::<N>(side);
    let k = alphabet.len() as u64;
    let queries: Vec<[f64; N]> = half_queries::<N>(side, steps).into_iter().map(|q| std::array::from_fn(|i| frame.at(q[i], i))).collect();
    let a2 = alphabet.clone();
    Space::new(
        format!("insertions {} {N}D side {side} len<={max} frame {}", T::NAME, frame),
        seq_count(k, 0, max),
        move |n| format!("insert {:?}", seq_nth(k, 0, max, n).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let pts: Vec<Point<T, N>> = seq_nth(k, 0, max, n).iter().map(|&i| frame.pt(&alphabet[i])).collect();
            let mut tree = KDTree::<T, N>::default();
            let mut m = Model::default();
            for p in &pts {
                tree.insert(*p);
                m.insert(un(p));
            }
            ctx.steps(pts.len().min(1) as u64);
            ctx.trace();
            ctx.state(state_of(&tree));
            match what {
                What::Nearest => check_nearest(&tree, &m, &queries, ctx),
                What::Set => {
                    check_set(&tree, &m, ctx)?;
                    let built = KDTree::from(pts.as_slice());
                    check_set(&built, &m, ctx)?;
                    // duplicates of every stored point change nothing
                    let before = contents(&tree);
                    for p in &m.0 {
                        tree.insert(pt(*p));
                        ctx.steps(1);
                        check_set(&tree, &m, ctx)?;
                        if contents(&tree) != before {
                            return Err(format!("re-inserting {p:?} changed the tree").into());
                        }
                        let near = tree.nearest(&pt(*p)).map(|x| un(&x));
                        if near != Some(*p) && !frame.extreme() {
                            return Err(format!("nearest to the stored point {p:?} is {near:?}").into());
                        }
                    }
                    Ok(())
                }
            }
        },
    )
}

/// Insertions of points whose differences vanish, overflow or are denormal, and signed zeros: the set needs comparisons only
fn special_sets<T: Fl, const N: usize>(values: Vec<f64>, max: u32) -> Space {
    let alphabet: Vec<[f64; N]> = lattice::<N>(values.len() as i64).into_iter().map(|p| p.map(|c| values[c as usize])).collect();
    let k = alphabet.len() as u64;
    let a2 = alphabet.clone();
    Space::new(
        format!("insertions of special values {} {N}D {values:?} len<={max}", T::NAME),
        seq_count(k, 0, max),
        move |n| format!("insert {:?}", seq_nth(k, 0, max, n).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let pts: Vec<Point<T, N>> = seq_nth(k, 0, max, n).iter().map(|&i| pt(alphabet[i])).collect();
            let mut tree = KDTree::<T, N>::default();
            let mut m = Model::default();
            for p in &pts {
                tree.insert(*p);
                m.insert(un(p));
            }
            ctx.steps(pts.len().min(1) as u64);
            ctx.trace();
            ctx.state(state_of(&tree));
            check_set(&tree, &m, ctx)?;
            check_set(&KDTree::from(pts.as_slice()), &m, ctx)?;
            for p in pts.iter().rev() {
                // also with every zero's sign flipped: equal points are the same point
                let flipped = Point::from(std::array::from_fn(|i| if p[i].f() == 0.0 { -p[i] } else { p[i] }));
                for q in [*p, flipped] {
                    tree.insert(q);
                    ctx.steps(1);
                    check_set(&tree, &m, ctx)?;
                }
            }
            Ok(())
        },
    )
}

fn layouts2() -> Vec<(&'static str, Vec<[i64; 2]>)> {
    vec![
        ("general", vec![[3, 6], [17, 15], [13, 12], [6, 11], [9, 1], [2, 7], [10, 19], [12, 5], [7, 14]]),
        ("diagonal", (0..9).map(|i| [2 * i, 2 * i]).collect()),
        ("antidiagonal", (0..9).map(|i| [2 * i, 16 - 2 * i]).collect()),
        ("row", (0..9).map(|i| [2 * i, 4]).collect()),
        ("column", (0..9).map(|i| [4, 2 * i]).collect()),
        ("circle", vec![[10, 5], [9, 8], [8, 9], [5, 10], [2, 9], [1, 8], [0, 5], [1, 2], [5, 0]]),
        ("two columns", vec![[0, 0], [0, 2], [0, 4], [0, 6], [6, 0], [6, 2], [6, 4], [6, 6], [3, 3]]),
        ("clusters", vec![[0, 0], [0, 1], [1, 0], [1, 1], [18, 18], [18, 19], [19, 18], [19, 19], [9, 10]]),
    ]
}
fn layouts3() -> Vec<(&'static str, Vec<[i64; 3]>)> {
    vec![
        ("general", vec![[3, 6, 1], [17, 15, 8], [13, 12, 19], [6, 11, 4], [9, 1, 14], [2, 7, 12], [10, 19, 3], [12, 5, 9]]),
        ("diagonal", (0..8).map(|i| [2 * i, 2 * i, 2 * i]).collect()),
        ("third axis", (0..8).map(|i| [4, 4, 2 * i]).collect()),
        ("cube", lattice::<3>(2).into_iter().map(|p| p.map(|c| c * 6)).collect()),
    ]
}

fn permutations<T: Fl, const N: usize>(name: &str, pts: Vec<[i64; N]>, n: usize, queries: Vec<[f64; N]>, what: What) -> Space {
    let pts: Vec<[i64; N]> = pts.into_iter().take(n).collect();
    let p2 = pts.clone();
    Space::new(
        format!("orders of {n} points {} {N}D {name}", T::NAME),
        factorial(n as u64),
        move |k| format!("insert {:?}", perm_nth(n, k).iter().map(|&i| p2[i]).collect::<Vec<_>>()),
        move |k, ctx| {
            let mut tree = KDTree::<T, N>::default();
            let mut m = Model::default();
            for i in perm_nth(n, k) {
                let p = Frame::UNIT.pt::<T, N>(&pts[i]);
                tree.insert(p);
                m.insert(un(&p));
            }
            ctx.steps(1);
            ctx.trace();
            ctx.state(state_of(&tree));
            if what == What::Nearest {
                check_nearest(&tree, &m, &queries, ctx)
            } else {
                check_set(&tree, &m, ctx)?;
                for p in m.clone().0 {
                    tree.insert(pt(p));
                    check_set(&tree, &m, ctx)?;
                }
                Ok(())
            }
        },
    )
}

/// Large deterministic trees that a short, exhaustively enumerated suffix is appended to
fn preludes<const N: usize>() -> Vec<(String, Vec<[i64; N]>)> {
    let mut v: Vec<(String, Vec<[i64; N]>)> = Vec::new();
    v.push(("scattered 31".into(), strided::<N>(8, 31, 13).into_iter().map(|p| p.map(|c| c * 2)).collect()));
    v.push(("ascending chain 300".into(), (0..300).map(|i| [i - 150; N]).collect()));
    v.push(("descending chain 300".into(), (0..300).map(|i| [150 - i; N]).collect()));
    v.push(("zigzag chain 70".into(), (0..70).map(|i| std::array::from_fn(|a| if a == 0 { (35 - i / 2) * if i % 2 == 0 { 1 } else { -1 } } else { i })).collect()));
    v.push(("far 20".into(), (0..20).map(|i| std::array::from_fn(|a| 40 + ((i * 7 + a as i64 * 3) % 20))).collect()));
    v.push(("line along the last axis 40".into(), (0..40).map(|i| std::array::from_fn(|a| if a == N - 1 { 20 - ((i * 11) % 40) } else { 2 })).collect()));
    v.push(("scattered 150 with repetitions".into(), (0..150i64).map(|i| std::array::from_fn(|a| ((i * 37 + a as i64 * 11) * (i % 7 + 1)) % 12)).collect()));
    v
}

fn with_prelude<T: Fl, const N: usize>(side: i64, len: u32, step: i64, frame: Frame, what: What) -> Space {
    let pre = preludes::<N>();
    let alphabet: Vec<[i64; N]> = lattice::<N>(side).into_iter().map(|p| p.map(|c| c * step + 1)).collect();
    let k = alphabet.len() as u64;
    let per = seq_count(k, 0, len);
    let mut queries: Vec<[f64; N]> = lattice_range::<N>(-1, side + 1).into_iter().map(|q| q.map(|c| c as f64 * step as f64 + 0.5)).collect();
    queries.extend(alphabet.iter().map(|p| p.map(|c| c as f64)));
    for far in [-200.0, 30.0, 170.0] {
        queries.push([far; N]);
    }
    let queries: Vec<[f64; N]> = queries.into_iter().map(|q| std::array::from_fn(|i| frame.at(q[i], i))).collect();
    let (p2, a2) = (pre.clone(), alphabet.clone());
    Space::new(
        format!("large tree + insertions {} {N}D side {side} len<={len} frame {}", T::NAME, frame),
        per * pre.len() as u64,
        move |n| format!("prelude '{}' then insert {:?}", p2[(n % p2.len() as u64) as usize].0, seq_nth(k, 0, len, n / p2.len() as u64).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let prelude = &pre[(n % pre.len() as u64) as usize].1;
            let mut tree = KDTree::<T, N>::default();
            let mut m = Model::default();
            for p in prelude.iter().chain(seq_nth(k, 0, len, n / pre.len() as u64).iter().map(|&i| &alphabet[i])) {
                let p = frame.pt::<T, N>(p);
                tree.insert(p);
                m.insert(un(&p));
            }
            ctx.steps(1);
            ctx.trace();
            ctx.state(state_of(&tree));
            match what {
                What::Nearest => check_nearest(&tree, &m, &queries, ctx),
                What::Set => {
                    check_set(&tree, &m, ctx)?;
                    for p in m.clone().0.iter().step_by(3) {
                        tree.insert(pt(*p));
                    }
                    check_set(&tree, &m, ctx)
                }
            }
        },
    )
}

/// Trees built from every prefix of large deterministic clouds, so that every size is seen
fn sizes<T: Fl, const N: usize>(max: usize, what: What) -> Space {
    let strides = [1u64, 7, 11, 23];
    let side = match N {
        1 => 512,
        2 => 23,
        _ => 8,
    };
    Space::new(
        format!("every size 0..={max} {} {N}D", T::NAME),
        (max as u64 + 1) * strides.len() as u64,
        move |n| format!("from the first {} points of the lattice of side {side} visited with stride {}", n / strides.len() as u64, strides[(n % strides.len() as u64) as usize]),
        move |n, ctx| {
            let cloud = strided::<N>(side, (n / strides.len() as u64) as usize, strides[(n % strides.len() as u64) as usize]);
            let pts: Vec<Point<T, N>> = cloud.iter().map(|p| Frame::UNIT.pt(p)).collect();
            let tree = KDTree::from(pts.as_slice());
            let mut m = Model::default();
            pts.iter().for_each(|p| m.insert(un(p)));
            ctx.steps(1);
            ctx.trace();
            ctx.state(state_of(&tree));
            if what == What::Set {
                return check_set(&tree, &m, ctx);
            }
            let step = if N == 1 { 37.5 } else { side as f64 / 5.0 };
            let queries: Vec<[f64; N]> = lattice_range::<N>(-1, 6).into_iter().map(|q| q.map(|c| (c as f64 * step * 4.0).round() / 4.0)).collect();
            check_nearest(&tree, &m, &queries, ctx)
        },
    )
}

/// trees built from a slice beyond the sixteenth bit
fn whole_slices<T: Fl, const N: usize>(what: What) -> Space {
    const LENS: [u64; 5] = [65_535, 65_536, 65_537, 70_001, 131_073];
    Space::new(
        format!("trees built at once from more than 65 535 points {} {N}D", T::NAME),
        LENS.len() as u64 * 2,
        move |n| format!("{} scattered points{}", LENS[n as usize / 2], ["", ", then each of them again"][n as usize % 2]),
        move |n, ctx| {
            let cloud: Vec<[f64; N]> = scattered::<N>(LENS[n as usize / 2]).into_iter().map(|p| p.map(|c| c as f64)).collect();
            let mut pts: Vec<Point<T, N>> = cloud.iter().map(|p| pt(*p)).collect();
            if n % 2 == 1 {
                pts.extend_from_within(..);
            }
            let tree = KDTree::from(pts.as_slice());
            ctx.eval();
            ctx.trace();
            ctx.state(state_of(&tree));
            if what == What::Set {
                return check_set(&tree, &Model(cloud), ctx);
            }
            // every point is its own nearest, and so is its neighbour off the lattice
            for p in cloud.iter().rev().step_by(3) {
                for q in [*p, p.map(|c| c + 0.25)] {
                    ctx.eval();
                    let got = tree.nearest(&pt::<T, N>(q)).map(|p| un(&p));
                    if got != Some(*p) {
                        return Err(format!("nearest({q:?}) = {got:?} instead of {p:?}").into());
                    }
                }
            }
            Ok(())
        },
    )
}

/// trees of every size of the ladder, grown from one to the next, over scattered points and over a lattice row by row
fn big_trees<T: Fl, const N: usize>(max: u64, what: What) -> Space {
    let sizes = ladder(600, max);
    let s2 = sizes.clone();
    // (a chain is as deep as it is long: every insertion and query recurses through it)
    const KINDS: [&str; 5] = ["scattered", "scattered, ties on every axis", "scattered, doubled", "ascending chain", "zigzag chain"];
    Space::new(
        format!("large trees up to {max} {} {N}D", T::NAME),
        sizes.len() as u64 * KINDS.len() as u64,
        move |n| format!("{} points, {}", s2[(n / KINDS.len() as u64) as usize], KINDS[(n % KINDS.len() as u64) as usize]),
        move |n, ctx| {
            let (len, kind) = (sizes[(n / KINDS.len() as u64) as usize], n % KINDS.len() as u64);
            // coordinates of 10 bits and fewer, so that squared distances are exact in f32 too
            let bits = if N == 1 { 20 } else { 10 };
            let mut seen = std::collections::BTreeSet::new();
            if kind >= 3 && len > 4100 || N > 1 && kind >= 3 && len >> bits > 0 {
                return Ok(());
            }
            let cloud: Vec<[i64; N]> = if kind >= 3 {
                (0..len as i64).map(|i| if kind == 3 || i % 2 == 0 { [i; N] } else { [len as i64 * 2 - i; N] }).collect()
            } else {
                Vec::new()
            };
            let cloud: Vec<[i64; N]> = if kind >= 3 { cloud } else { scattered::<N>(len)
                .into_iter()
                .map(|p| p.map(|c| (c + (1 << 19)) >> (20 - bits)))
                .map(|p| if kind == 1 { p.map(|c| c / 32 * 32) } else { p })
                .collect() };
            let mut m = Model::default();
            let mut tree = KDTree::<T, N>::default();
            for p in &cloud {
                let fresh = seen.insert(*p);
                let f = p.map(|c| c as f64);
                if fresh {
                    m.0.push(f);
                }
                tree.insert(pt(f));
                if kind == 2 {
                    tree.insert(pt(f));
                }
                ctx.eval();
                if what == What::Set && tree.len() != m.0.len() {
                    return Err(format!("len() = {} for {} distinct points", tree.len(), m.0.len()).into());
                }
            }
            ctx.steps(len);
            ctx.trace();
            ctx.state(state_of(&tree));
            if what == What::Set {
                check_set(&tree, &m, ctx)?;
                m.0.iter().for_each(|p| tree.insert(pt(*p)));
                return check_set(&tree, &m, ctx);
            }
            let top = (1 << bits) as f64;
            let mut queries: Vec<[f64; N]> = lattice_range::<N>(-1, 5).into_iter().map(|q| q.map(|c| (c as f64 * top / 4.0 + 3.0).round())).take(120).collect();
            queries.extend(m.0.iter().step_by(m.0.len() / 60 + 1).map(|p| std::array::from_fn(|a| p[a] + [0.0, 1.0, -2.0][a % 3])));
            queries.extend(m.0.iter().rev().take(20));
            // membership is known to hold by construction: look it up rather than searching the list
            for q in &queries {
                ctx.eval();
                let Some(p) = tree.nearest(&pt::<T, N>(*q)).map(|p| un(&p)) else { return Err("no nearest point".into()) };
                let best = m.0.iter().map(|p| d2(p, q)).fold(f64::INFINITY, f64::min);
                if !seen.contains(&p.map(|c| c as i64)) || p.iter().any(|c| *c != c.round()) || d2(&p, q) != best {
                    return Err(format!("nearest({q:?}) = {p:?} at squared distance {}, but {best} is possible", d2(&p, q)).into());
                }
                ctx.outcome(p.iter().chain(q).fold(H::new(1), |h, c| h.f(*c)));
            }
            Ok(())
        },
    )
}

/// A chain of every length, in every direction of the diagonal, with every short sequence of insertions around its end:
/// splits at every depth
fn deep_ends<T: Fl, const N: usize>(lens: Vec<u64>, side: i64, len: u32, what: What) -> Space {
    let alphabet: Vec<[i64; N]> = lattice::<N>(side).into_iter().map(|p| p.map(|c| 2 * c - side + 1)).collect();
    let k = alphabet.len() as u64;
    let per = seq_count(k, 1, len);
    // half steps, none level with the end of the chain
    let steps = [-2.0, -1.0, -0.5, 0.5, 1.0, 2.0];
    let offsets: Vec<[f64; N]> = lattice::<N>(steps.len() as i64).into_iter().map(|q| q.map(|i| steps[i as usize])).collect();
    let l2 = lens.clone();
    Space::new(
        format!("chains with {} lengths up to {} and insertions around their end {} {N}D side {side} len<={len}", lens.len(), lens.last().unwrap(), T::NAME),
        lens.len() as u64 * 2,
        move |n| format!("{} points on an {} diagonal 8 units apart, then up to {len} points around the last", l2[n as usize / 2], ["ascending", "descending"][n as usize % 2]),
        move |n, ctx| {
            let (chain, sign) = (lens[n as usize / 2] as i64, [8, -8][n as usize % 2]);
            let mut tree = KDTree::<T, N>::default();
            let mut m = Model::default();
            for i in 0..chain {
                let p = [(i * sign) as f64; N];
                tree.insert(pt(p));
                m.0.push(p);
            }
            let end = [((chain - 1).max(0) * sign) as f64; N];
            let around = |o: &[f64; N]| -> [f64; N] { std::array::from_fn(|a| end[a] + o[a]) };
            // far points cannot be nearest to these queries
            let near: Vec<[f64; N]> = m.0.iter().rev().take(3).copied().collect();
            for s in 0..per {
                let (mut tree, mut near) = (tree.clone(), Model(near.clone()));
                let tail: Vec<[f64; N]> = seq_nth(k, 1, len, s).iter().map(|&i| around(&alphabet[i].map(|c| c as f64))).collect();
                for p in &tail {
                    tree.insert(pt(*p));
                    near.insert(*p);
                }
                ctx.steps(tail.len() as u64);
                ctx.trace();
                ctx.state(H::new(n).u(s));
                let what = match what {
                    What::Nearest => check_nearest(&tree, &near, &offsets.iter().map(around).collect::<Vec<_>>(), ctx),
                    What::Set => {
                        let mut m = m.clone();
                        tail.iter().for_each(|p| m.insert(*p));
                        check_set(&tree, &m, ctx)?;
                        tail.iter().chain(m.0.iter().rev().take(5)).for_each(|p| tree.insert(pt(*p)));
                        check_set(&tree, &m, ctx)
                    }
                };
                what.map_err(|mut e| {
                    e.msg = format!("after {tail:?}: {}", e.msg);
                    e
                })?;
            }
            Ok(())
        },
    )
}

/// every short insertion history, deep in a tree: below a chain of far points that all lie on one side of the lattice
fn below<T: Fl, const N: usize>(depth: u64, side: i64, len: u32, what: What) -> Space {
    let alphabet = lattice::<N>(side);
    let k = alphabet.len() as u64;
    let queries = half_queries::<N>(side, 2);
    let per = seq_count(k, 1, len);
    let a2 = alphabet.clone();
    let kinds = ["below", "above", "by turns on either side of"];
    Space::new(
        format!("insertions below chains of up to {depth} {} {N}D side {side} len<={len}", T::NAME),
        depth * per * kinds.len() as u64,
        move |n| {
            let (d, kind, s) = (n / 3 / per + 1, n % 3, n / 3 % per);
            format!("{d} points {} the lattice, then {:?}", kinds[kind as usize], seq_nth(k, 1, len, s).iter().map(|&i| a2[i]).collect::<Vec<_>>())
        },
        move |n, ctx| {
            let (d, kind, s) = ((n / 3 / per + 1) as i64, n % 3, n / 3 % per);
            let mut tree = KDTree::<T, N>::default();
            let mut m = Model::default();
            // towards the lattice, so that each next point and the lattice lie on the same side of all before
            let chain = (0..d).map(|i| [[i - 100; N], [100 - i; N], [if i % 2 == 0 { i - 100 } else { 100 - i }; N]][kind as usize]);
            for p in chain.chain(seq_nth(k, 1, len, s).iter().map(|&i| alphabet[i])) {
                let p = p.map(|c| c as f64);
                tree.insert(pt(p));
                m.insert(p);
            }
            ctx.steps(1);
            ctx.trace();
            ctx.state(state_of(&tree));
            match what {
                What::Nearest => check_nearest(&tree, &m, &queries, ctx),
                What::Set => {
                    check_set(&tree, &m, ctx)?;
                    for p in m.clone().0 {
                        tree.insert(pt(p));
                    }
                    check_set(&tree, &m, ctx)
                }
            }
        },
    )
}

/// points that differ from the origin in one coordinate each, in many dimensions
fn axis_letters<const N: usize>() -> Vec<[f64; N]> {
    (0..N).flat_map(|a| [1.0, -2.0].map(|v| std::array::from_fn(|i| if i == a { v } else { 0.0 }))).collect()
}
fn axis_queries<const N: usize>() -> Vec<[f64; N]> {
    (0..N).flat_map(|a| [0.5, 2.0, -1.5, -0.5].map(|v| std::array::from_fn(|i| if i == a { v } else { 0.25 * (i % 2) as f64 }))).collect()
}
fn axes<T: Fl, const N: usize>(len: u32, what: What) -> Space {
    let (letters, queries) = (axis_letters::<N>(), axis_queries::<N>());
    let k = letters.len() as u64;
    Space::new(
        format!("insertions of points on the axes {} {N}D len<={len}", T::NAME),
        seq_count(k, 1, len),
        move |n| format!("{:?}", seq_nth(k, 1, len, n).iter().map(|&i| axis_letters::<N>()[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let mut tree = KDTree::<T, N>::default();
            let mut m = Model::default();
            for i in seq_nth(k, 1, len, n) {
                tree.insert(pt(letters[i]));
                m.insert(letters[i]);
            }
            ctx.steps(1);
            ctx.trace();
            ctx.state(state_of(&tree));
            match what {
                What::Nearest => check_nearest(&tree, &m, &queries, ctx),
                What::Set => check_set(&tree, &m, ctx),
            }
        },
    )
}
fn naive_axes<T: Fl, const N: usize>(len: u32) -> Space {
    let (letters, queries) = (axis_letters::<N>(), axis_queries::<N>());
    let k = letters.len() as u64;
    Space::new(
        format!("slices of points on the axes {} {N}D len<={len}", T::NAME),
        seq_count(k, 1, len),
        move |n| format!("{:?}", seq_nth(k, 1, len, n).iter().map(|&i| axis_letters::<N>()[i]).collect::<Vec<_>>()),
        move |n, ctx| naive_check::<T, N>(&seq_nth(k, 1, len, n).iter().map(|&i| pt(letters[i])).collect::<Vec<_>>(), &queries, ctx),
    )
}

fn add_kd(plan: &mut Plan, tier: Tier, what: What) {
    let t = tier.thorough();
    for f in FRAMES {
        plan.add(sequences::<f64, 2>(3, if f.offset == 0.0 { tier.pick(6, 7) } else { tier.pick(5, 6) }, 2, f, what));
    }
    plan.add(sequences::<f32, 2>(3, tier.pick(4, 6), 2, FRAMES[0], what));
    plan.add(sequences::<f32, 2>(3, 4, 2, FRAMES[1], what));
    plan.add(sequences::<f64, 2>(3, 4, 2, Frame::TINY, what));
    plan.add(sequences::<f32, 2>(3, 4, 2, Frame::TINY, what));
    for e in [20, -20] {
        // axes of very different scales
        plan.add(sequences::<f64, 2>(3, 5, 2, Frame::stretched(2f64.powi(e)), what));
        plan.add(sequences::<f64, 3>(2, 4, 2, Frame::stretched(2f64.powi(e / 2)), what));
        plan.add(sequences::<f32, 2>(3, 4, 2, Frame::stretched(2f64.powi(e / 4)), what));
    }
    plan.add(sequences::<f64, 2>(3, 4, 2, Frame::HUGE, what));
    plan.add(sequences::<f32, 3>(2, 4, 2, Frame::HUGE, what));
    plan.add(sequences::<f64, 1>(5, tier.pick(7, 8), 2, FRAMES[0], what));
    plan.add(sequences::<f32, 1>(4, tier.pick(6, 8), 2, FRAMES[1], what));
    plan.add(sequences::<f64, 2>(4, tier.pick(5, 6), 2, FRAMES[0], what));
    plan.add(sequences::<f64, 3>(2, tier.pick(6, 7), 2, FRAMES[0], what));
    plan.add(sequences::<f64, 3>(3, tier.pick(3, 5), 1, FRAMES[1], what));
    plan.add(sequences::<f32, 3>(2, 4, 2, FRAMES[2], what));
    plan.add(sequences::<f64, 4>(2, tier.pick(4, 5), 1, FRAMES[0], what));
    plan.add(sequences::<f32, 5>(2, tier.pick(2, 4), 1, FRAMES[0], what));
    if what == What::Set {
        for (down, up) in [(-600, 600), (-530, 512), (-1070, 1000)] {
            plan.add(sequences::<f64, 2>(3, 4, 1, Frame::power(down), what));
            plan.add(sequences::<f64, 2>(3, 4, 1, Frame::power(up), what));
            plan.add(sequences::<f64, 3>(2, 4, 1, Frame::power(down), what));
            plan.add(sequences::<f64, 1>(4, 5, 1, Frame::power(up), what));
        }
        for (down, up) in [(-80, 80), (-140, 120)] {
            plan.add(sequences::<f32, 2>(3, 4, 1, Frame::power(down), what));
            plan.add(sequences::<f32, 2>(3, 4, 1, Frame::power(up), what));
            plan.add(sequences::<f32, 3>(2, 4, 1, Frame::power(down), what));
            plan.add(sequences::<f32, 1>(4, 5, 1, Frame::power(up), what));
        }
        // neighbouring values far from the origin
        plan.add(sequences::<f64, 2>(3, 4, 1, Frame::new(f64::EPSILON, 1.0), what));
        plan.add(sequences::<f32, 2>(3, 4, 1, Frame::new(f32::EPSILON as f64, 1.0), what));
        let v64 = [f64::MIN, -1.0, -0.0, 0.0, 5e-324, 1.0 + f64::EPSILON, 1.0, f64::MAX];
        plan.add(special_sets::<f64, 1>(v64.to_vec(), tier.pick(4, 6)));
        plan.add(special_sets::<f64, 2>(v64.to_vec(), tier.pick(2, 3)));
        plan.add(special_sets::<f64, 2>(vec![-0.0, 0.0, 5e-324, -5e-324, f64::MAX], tier.pick(3, 4)));
        plan.add(special_sets::<f64, 3>(vec![-0.0, 0.0, f64::MIN_POSITIVE], tier.pick(3, 4)));
        let v32 = [f32::MIN, -1.0, -0.0, 0.0, 1e-45, 1.0 + f32::EPSILON, 1.0, f32::MAX].map(|v| v as f64);
        plan.add(special_sets::<f32, 1>(v32.to_vec(), tier.pick(4, 6)));
        plan.add(special_sets::<f32, 2>(v32.to_vec(), tier.pick(2, 3)));
    }
    let n = tier.pick(8, 9);
    let q2: Vec<[f64; 2]> = lattice_range::<2>(-1, 10).into_iter().map(|p| p.map(|c| c as f64 * 2.0 - 0.5)).collect();
    let q3: Vec<[f64; 3]> = lattice_range::<3>(-1, 5).into_iter().map(|p| p.map(|c| c as f64 * 3.5)).collect();
    for (name, l) in layouts2() {
        plan.add(permutations::<f64, 2>(name, l, n, q2.clone(), what));
    }
    for (name, l) in layouts3() {
        plan.add(permutations::<f32, 3>(name, l, n.min(8), q3.clone(), what));
    }
    plan.add(with_prelude::<f64, 2>(4, tier.pick(3, 4), 3, FRAMES[0], what));
    plan.add(with_prelude::<f32, 2>(3, 2, 2, FRAMES[1], what));
    plan.add(with_prelude::<f64, 3>(3, tier.pick(2, 2), 3, FRAMES[0], what));
    plan.add(with_prelude::<f64, 1>(9, tier.pick(2, 3), 1, FRAMES[2], what));
    plan.add(sizes::<f64, 2>(if t { 520 } else { 260 }, what));
    plan.add(sizes::<f32, 3>(if t { 400 } else { 140 }, what));
    plan.add(sizes::<f64, 1>(if t { 500 } else { 260 }, what));
    plan.add(below::<f64, 2>(tier.pick(12, 40), 4, 3, what));
    plan.add(below::<f32, 2>(tier.pick(8, 20), 3, 4, what));
    plan.add(below::<f64, 3>(tier.pick(12, 40), 2, 3, what));
    plan.add(below::<f64, 3>(tier.pick(4, 9), 3, tier.pick(2, 3), what));
    plan.add(below::<f64, 1>(tier.pick(12, 40), 6, 3, what));
    plan.add(below::<f64, 4>(tier.pick(9, 30), 2, 2, what));
    plan.add(axes::<f64, 3>(4, what));
    plan.add(axes::<f64, 4>(4, what));
    plan.add(axes::<f32, 5>(3, what));
    plan.add(axes::<f64, 6>(3, what));
    plan.add(axes::<f64, 7>(3, what));
    plan.add(axes::<f64, 8>(tier.pick(3, 4), what));
    plan.add(axes::<f64, 9>(3, what));
    let depths = |dense: u64, max: u64| (0..=dense).chain(ladder(dense + 1, max)).collect::<Vec<_>>();
    plan.add(deep_ends::<f64, 3>(depths(tier.pick(270, 800), 1100), 2, 2, what));
    plan.add(deep_ends::<f64, 2>(depths(tier.pick(270, 800), 1100), 2, tier.pick(3, 4), what));
    plan.add(deep_ends::<f32, 1>(depths(tier.pick(270, 800), 1100), 4, 3, what));
    plan.add(big_trees::<f64, 2>(tier.pick(100_000, 300_000), what));
    plan.add(whole_slices::<f64, 2>(what));
    plan.add(whole_slices::<f64, 1>(what));
    plan.add(big_trees::<f32, 3>(tier.pick(30_000, 100_000), what));
    plan.add(big_trees::<f32, 1>(tier.pick(30_000, 100_000), what));
}

// ------------------------------------------------------------------------------------------------ C03

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Insert(usize),
    Translate,
    Scale,
    Shrink,
    /// flip the sign of every zero, which keeps the order
    Zeros,
    /// continue on a clone, keeping the original as a witness
    Fork,
    /// continue on the original, keeping a clone as a witness
    Snapshot,
    /// rebuild from the traversal
    Rebuild,
    /// mutate without preserving order: only traversals are meaningful afterwards
    Reflect,
    Collapse,
    Number,
}

fn histories<T: Fl, const N: usize>(ops: Vec<Op>, pts: Vec<[f64; N]>, prelude: Vec<[f64; N]>, max: u32) -> Space {
    let k = ops.len() as u64;
    let o2 = ops.clone();
    let tag = format!("histories {} {N}D {} operations len<={max} prelude {}", T::NAME, ops.len(), prelude.len());
    let p2 = pts.clone();
    let npre = prelude.len();
    Space::new(
        tag,
        seq_count(k, 0, max),
        move |n| format!("after {npre} insertions: {:?} over points {p2:?}", seq_nth(k, 0, max, n).iter().map(|&i| o2[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let mut tree = KDTree::<T, N>::default();
            // the model: the multiset of stored points, plus whether the tree order still holds
            let mut m: Vec<[f64; N]> = Vec::new();
            for p in &prelude {
                tree.insert(pt(*p));
                if !m.contains(p) {
                    m.push(*p)
                }
            }
            let mut ordered = true;
            let mut witnesses: Vec<(KDTree<T, N>, Vec<[f64; N]>, usize)> = Vec::new();
            let mutate = |tree: &mut KDTree<T, N>, m: &mut Vec<[f64; N]>, f: &dyn Fn([f64; N], usize) -> [f64; N]| -> Result<(), String> {
                // the closure must see every stored point once, and its writes must stick
                let mut seen = Vec::new();
                let mut written = Vec::new();
                tree.traverse_tree_mut(|p| {
                    let old = un(p);
                    let new = f(old, seen.len());
                    seen.push(old);
                    written.push(new);
                    *p = pt(new);
                });
                if bits(&seen) != bits(m) {
                    return Err(format!("mutating traversal visited {seen:?} instead of {m:?}"));
                }
                *m = written;
                Ok(())
            };
            for &oi in &seq_nth(k, 0, max, n) {
                let op = ops[oi];
                ctx.steps(1);
                match op {
                    Op::Insert(i) => {
                        if !ordered {
                            continue;
                        }
                        tree.insert(pt(pts[i]));
                        if !m.contains(&pts[i]) {
                            m.push(pts[i])
                        }
                    }
                    Op::Translate => mutate(&mut tree, &mut m, &|p, _| p.map(|c| c + 1.0))?,
                    Op::Scale => mutate(&mut tree, &mut m, &|p, _| p.map(|c| c * 2.0))?,
                    Op::Shrink => mutate(&mut tree, &mut m, &|p, _| std::array::from_fn(|i| p[i] * 0.5 - i as f64))?,
                    Op::Zeros => mutate(&mut tree, &mut m, &|p, _| p.map(|c| if c == 0.0 { -c } else { c }))?,
                    Op::Fork => {
                        let c = tree.clone();
                        let old = std::mem::replace(&mut tree, c);
                        let len = m.len();
                        witnesses.push((old, m.clone(), len));
                    }
                    Op::Snapshot => witnesses.push((tree.clone(), m.clone(), m.len())),
                    Op::Rebuild => {
                        if !ordered {
                            continue;
                        }
                        let mut v = Vec::new();
                        tree.traverse_tree(|p| v.push(*p));
                        tree = KDTree::from(v.as_slice());
                    }
                    Op::Reflect => {
                        mutate(&mut tree, &mut m, &|p, _| std::array::from_fn(|i| if i == 0 { -p[i] } else { p[i] }))?;
                        ordered = false;
                    }
                    Op::Collapse => {
                        mutate(&mut tree, &mut m, &|_, _| [1.0; N])?;
                        ordered = false;
                    }
                    Op::Number => {
                        mutate(&mut tree, &mut m, &|_, i| [i as f64; N])?;
                        ordered = false;
                    }
                }
            }
            ctx.trace();
            ctx.state(state_of(&tree).u(ordered as u64));
            ctx.eval();
            let check = |tree: &KDTree<T, N>, m: &Vec<[f64; N]>, len: usize, who: &str| -> Result<(), String> {
                let c = contents(tree);
                if bits(&c) != bits(m) {
                    return Err(format!("{who} traverses {c:?} instead of {m:?}"));
                }
                if tree.len() != len || tree.is_empty() != (len == 0) {
                    return Err(format!("{who} has len {} and is_empty {} with {len} points", tree.len(), tree.is_empty()));
                }
                Ok(())
            };
            let len = m.len();
            check(&tree, &m, len, "the tree")?;
            for (w, wm, wl) in &witnesses {
                check(w, wm, *wl, "a witness copy")?;
            }
            ctx.outcome(state_of(&tree).u(witnesses.len() as u64).u(ordered as u64));
            if ordered {
                let mut queries: Vec<[f64; N]> = Vec::new();
                for p in m.iter().step_by(m.len() / 200 + 1) {
                    queries.push(*p);
                    queries.push(std::array::from_fn(|i| p[i] + if i % 2 == 0 { 0.75 } else { -0.75 }));
                    queries.push(std::array::from_fn(|i| p[i] + if i % 2 == 0 { -1.25 } else { 0.25 }));
                }
                queries.push([0.0; N]);
                queries.push([-50.0; N]);
                check_nearest(&tree, &Model(m.clone()), &queries, ctx)?;
                // duplicates are still recognised
                for p in m.clone() {
                    tree.insert(pt(p));
                }
                check(&tree, &m, len, "after re-inserting every point, the tree")?;
            }
            Ok(())
        },
    )
}

fn add_histories(plan: &mut Plan, tier: Tier) {
    use Op::*;
    let all = |n: usize| -> Vec<Op> { (0..n).map(Insert).chain([Translate, Scale, Shrink, Zeros, Fork, Snapshot, Rebuild, Reflect, Collapse, Number]).collect() };
    let square: Vec<[f64; 2]> = vec![[0.0, 0.0], [2.0, 0.0], [0.0, 2.0], [2.0, 2.0], [1.0, 1.0]];
    let cube: Vec<[f64; 3]> = vec![[0.0, 0.0, 0.0], [2.0, 0.0, 2.0], [0.0, 2.0, 2.0], [-2.0, 2.0, 0.0]];
    let big2: Vec<[f64; 2]> = strided::<2>(6, 33, 7).into_iter().map(|p| p.map(|c| c as f64)).collect();
    let chain3: Vec<[f64; 3]> = (0..40).map(|i| [i as f64; 3]).collect();
    plan.add(histories::<f64, 2>(all(5), square.clone(), vec![], tier.pick(6, 7)));
    plan.add(histories::<f32, 3>(all(4), cube.clone(), vec![], tier.pick(5, 6)));
    plan.add(histories::<f64, 1>(all(3), vec![[0.0], [1.0], [-1.0]], vec![], tier.pick(6, 7)));
    plan.add(histories::<f64, 2>(all(5), square.clone(), vec![[1.0, 1.0], [0.0, 3.0], [4.0, -1.0], [0.5, 0.5], [3.0, 3.0], [-1.0, 2.0], [2.0, 1.0]], tier.pick(5, 6)));
    plan.add(histories::<f32, 2>(all(3), square.clone(), big2, tier.pick(3, 4)));
    plan.add(histories::<f64, 3>(all(4), cube.clone(), chain3, tier.pick(3, 4)));
    for n in [300, 1100, 5000] {
        let large: Vec<[f64; 3]> = scattered::<3>(n).into_iter().map(|p| p.map(|c| (c >> 9) as f64)).collect();
        plan.add(histories::<f64, 3>(all(2), cube[..2].to_vec(), large, if n == 300 { 3 } else { 2 }));
    }
    // degenerate trees: chains to every side and zigzags, of depths around powers of two
    for n in [70i64, 140, 300, 600, 1100, 2100].into_iter().take(tier.pick(5, 6)) {
        let kinds: [Vec<[f64; 2]>; 4] = [
            (0..n).map(|i| [i as f64; 2]).collect(),
            (0..n).map(|i| [-i as f64; 2]).collect(),
            (0..n).map(|i| [if i % 2 == 0 { i - n } else { n - i } as f64; 2]).collect(),
            (0..n).map(|i| [if i % 4 < 2 { i - n } else { n - i } as f64, if i % 2 == 0 { i } else { -i } as f64]).collect(),
        ];
        for c in kinds {
            plan.add(histories::<f64, 2>(all(2), square[..2].to_vec(), c, if n < 400 { 2 } else { 1 }));
        }
    }
}

// ------------------------------------------------------------------------------------------------ inexact coordinates

/// Points whose differences and squares all round: whatever is returned must be stored, and closest up to a few roundings.
fn near_enough<T: Fl, const N: usize>(got: Option<[f64; N]>, m: &[[f64; N]], q: &[f64; N], who: &str, ctx: &mut Ctx) -> Res {
    ctx.eval();
    let best = m.iter().map(|p| d2(p, q)).fold(f64::INFINITY, f64::min);
    match got {
        None if m.is_empty() => Ok(()),
        None => Err(format!("{who}({q:?}) is None among {m:?}").into()),
        Some(p) if !m.contains(&p) => Err(format!("{who}({q:?}) = {p:?} is not one of {m:?}").into()),
        Some(p) if d2(&p, q) > best * (1.0 + (4 * N + 8) as f64 * T::EPS) => Err(format!("{who}({q:?}) = {p:?} at squared distance {}, but {best} is possible among {m:?}", d2(&p, q)).into()),
        Some(p) => Ok(ctx.outcome(p.iter().chain(q).fold(H::new(1), |h, c| h.f(*c)))),
    }
}
fn irregular<const N: usize>(n: usize) -> Vec<[f64; N]> {
    // fractional parts of multiples of irrational numbers, no two alike and no ties
    (1..=n).map(|i| std::array::from_fn(|a| (i as f64 * [0.618_033_988_749_894_9, 0.414_213_562_373_095_1, 0.732_050_807_568_877_2, 0.236_067_977_499_789_7][a % 4]).fract() * [3.0, 1.0, 7.0][a % 3] - 0.7)).collect()
}
fn rough_frames<T: Fl>() -> Vec<Frame> {
    let e = if T::NAME == "f32" { 15 } else { 140 };
    vec![Frame::UNIT, Frame::new(0.7, 1000.1), Frame::new(10f64.powi(e), 0.0), Frame::new(10f64.powi(-e), 0.0), Frame { stretch: 1e-4, ..Frame::new(0.3, 0.1) }]
}
fn rough<T: Fl, const N: usize>(letters: usize, max: u32, frame: Frame, tree: bool) -> Space {
    let alphabet: Vec<Point<T, N>> = irregular::<N>(letters).iter().map(|p| frame.ptf(p)).collect();
    let k = alphabet.len() as u64;
    let mut queries: Vec<Point<T, N>> = lattice_range::<N>(-2, 5).into_iter().map(|q| frame.ptf(&q.map(|c| c as f64 * 0.6 - 0.55))).collect();
    for p in &alphabet {
        queries.extend([-2, -1, 0, 1].map(|d| Point::from(std::array::from_fn(|a| p[a].step(if a % 2 == 0 { d } else { -d })))));
        for q in &alphabet {
            // next to the middle
            queries.push(Point::from(std::array::from_fn(|a| T::of((p[a].f() + q[a].f()) / 2.0))));
        }
    }
    let a2 = alphabet.clone();
    Space::new(
        format!("{} of {letters} irregular points {} {N}D len<={max} frame {frame}", if tree { "insertions" } else { "slices" }, T::NAME),
        seq_count(k, 0, max),
        move |n| format!("{:?}", seq_nth(k, 0, max, n).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let pts: Vec<Point<T, N>> = seq_nth(k, 0, max, n).iter().map(|&i| alphabet[i]).collect();
            rough_check(&pts, &queries, tree, ctx)
        },
    )
}
fn rough_check<T: Fl, const N: usize>(pts: &[Point<T, N>], queries: &[Point<T, N>], tree: bool, ctx: &mut Ctx) -> Res {
    let m: Vec<[f64; N]> = pts.iter().map(un).collect();
    if tree {
        let t = KDTree::from(pts);
        ctx.steps(1);
        ctx.trace();
        ctx.state(state_of(&t));
        for q in queries {
            near_enough::<T, N>(t.nearest(q).map(|p| un(&p)), &m, &un(q), "nearest", ctx)?;
        }
    } else {
        for q in queries {
            near_enough::<T, N>(find_nearest_neighbour_naive(q, pts).map(|p| un(&p)), &m, &un(q), "find_nearest_neighbour_naive", ctx)?;
        }
    }
    Ok(())
}
/// many of them, every size
fn rough_sizes<T: Fl, const N: usize>(max: u64, frame: Frame, tree: bool) -> Space {
    let all: Vec<Point<T, N>> = irregular::<N>(max as usize + 40).iter().map(|p| frame.ptf(p)).collect();
    Space::new(
        format!("{} of every number of irregular points <={max} {} {N}D frame {frame}", if tree { "insertions" } else { "slices" }, T::NAME),
        max + 1,
        move |n| format!("{n} points"),
        move |n, ctx| rough_check(&all[..n as usize], &all[n as usize..n as usize + 40], tree, ctx),
    )
}
fn add_rough(plan: &mut Plan, tier: Tier, tree: bool) {
    for f in rough_frames::<f64>() {
        plan.add(rough::<f64, 2>(6, tier.pick(4, 6), f, tree));
        plan.add(rough::<f64, 3>(5, tier.pick(3, 5), f, tree));
        plan.add(rough_sizes::<f64, 2>(tier.pick(200, 1000), f, tree));
    }
    for f in rough_frames::<f32>() {
        plan.add(rough::<f32, 2>(6, tier.pick(4, 5), f, tree));
        plan.add(rough::<f32, 1>(7, tier.pick(4, 5), f, tree));
        plan.add(rough_sizes::<f32, 3>(tier.pick(200, 1000), f, tree));
    }
}

// ------------------------------------------------------------------------------------------------ C04

fn naive_check<T: Fl, const N: usize>(pts: &[Point<T, N>], queries: &[[f64; N]], ctx: &mut Ctx) -> Res {
    let m: Vec<[f64; N]> = pts.iter().map(un).collect();
    for q in queries {
        ctx.eval();
        let got = find_nearest_neighbour_naive(&pt::<T, N>(*q), pts).map(|p| un(&p));
        let best = m.iter().map(|p| d2(p, q)).fold(f64::INFINITY, f64::min);
        match got {
            None if m.is_empty() => {}
            None => return Err(format!("None for {q:?} among {m:?}").into()),
            Some(p) => {
                if !m.contains(&p) {
                    return Err(format!("{p:?} for {q:?} is not in the slice {m:?}").into());
                }
                if d2(&p, q) != best {
                    return Err(format!("{p:?} for {q:?} is not closest in {m:?}").into());
                }
                ctx.outcome(p.iter().chain(q).fold(H::new(1), |h, c| h.f(*c)));
            }
        }
    }
    Ok(())
}

fn naive_sequences<T: Fl, const N: usize>(side: i64, max: u32, frame: Frame) -> Space {
    let alphabet = lattice::<N>(side);
    let k = alphabet.len() as u64;
    let queries: Vec<[f64; N]> = half_queries::<N>(side, 2).into_iter().map(|q| std::array::from_fn(|i| frame.at(q[i], i))).collect();
    let a2 = alphabet.clone();
    Space::new(
        format!("slices {} {N}D side {side} len<={max} frame {}", T::NAME, frame),
        seq_count(k, 0, max),
        move |n| format!("slice {:?}", seq_nth(k, 0, max, n).iter().map(|&i| a2[i]).collect::<Vec<_>>()),
        move |n, ctx| {
            let pts: Vec<Point<T, N>> = seq_nth(k, 0, max, n).iter().map(|&i| frame.pt(&alphabet[i])).collect();
            naive_check(&pts, &queries, ctx)
        },
    )
}

/// every length and every position of the (unique or doubled) minimum
fn naive_positions<T: Fl, const N: usize>(max: u64) -> Space {
    Space::new(
        format!("position of the minimum {} {N}D len<={max}", T::NAME),
        max * max * 2,
        move |n| format!("{} points, minimum at {} (variant {})", n / 2 / max + 1, n / 2 % max, n % 2),
        move |n, ctx| {
            let (len, at, variant) = (n / 2 / max + 1, n / 2 % max, n % 2);
            if at >= len {
                return Ok(());
            }
            let pts: Vec<Point<T, N>> = (0..len)
                .map(|i| {
                    let v = if i == at || (variant == 1 && i == (at * 7 + 3) % len) { 1.0 } else { 3.0 + ((i * 5 + at) % 11) as f64 };
                    pt(std::array::from_fn(|a| if (i + a as u64) % 2 == 0 { v } else { -v }))
                })
                .collect();
            naive_check(&pts, &[[0.0; N], [0.5; N], [-30.0; N]], ctx)
        },
    )
}

/// large slices: the minimum at every position of the ladder, from either end
fn naive_large<T: Fl, const N: usize>(max: u64) -> Space {
    let sizes = ladder(64, max);
    let cases: Vec<(u64, u64)> = sizes.iter().flat_map(|&l| ladder(1, l).into_iter().flat_map(move |p| [(l, p - 1), (l, l - p)])).collect();
    let c2 = cases.clone();
    Space::new(
        format!("large slices {} {N}D up to {max}", T::NAME),
        cases.len() as u64,
        move |n| format!("{} points, minimum at {}", c2[n as usize].0, c2[n as usize].1),
        move |n, ctx| {
            let (len, at) = cases[n as usize];
            let pts: Vec<Point<T, N>> = (0..len)
                .map(|i| {
                    let v = if i == at { 1.0 } else { 3.0 + ((i * 5 + at) % 11) as f64 };
                    pt(std::array::from_fn(|a| if (i + a as u64) % 2 == 0 { v } else { -v }))
                })
                .collect();
            ctx.eval();
            match find_nearest_neighbour_naive(&pt::<T, N>([0.0; N]), &pts) {
                Some(p) if p == pts[at as usize] => Ok(ctx.outcome(H::new(n))),
                got => Err(format!("{got:?} instead of {:?}", pts[at as usize]).into()),
            }
        },
    )
}

/// ever further away (or ever nearer) points, then the nearest at one place
fn naive_monotone<T: Fl, const N: usize>(max: u64) -> Space {
    let sizes = ladder(2, max);
    let s2 = sizes.clone();
    let what = ["the nearest last", "the nearest in the middle", "the nearest first", "ever nearer", "the second nearest first, the nearest last"];
    Space::new(
        format!("monotone slices {} {N}D up to {max}", T::NAME),
        sizes.len() as u64 * 5,
        move |n| format!("{} points, {}", s2[n as usize / 5], what[n as usize % 5]),
        move |n, ctx| {
            let (len, kind) = (sizes[n as usize / 5], n % 5);
            let at = [len - 1, len / 2, 0, len - 1, len - 1][kind as usize];
            let pts: Vec<Point<T, N>> = (0..len)
                .map(|i| {
                    let far = if kind == 3 { len + 2 - i } else { i + 3 };
                    let far = if kind == 4 && i == 0 { 2 } else { far };
                    pt(std::array::from_fn(|a| if i == at { 1.0 } else if a % 2 == 0 { far as f64 } else { -(far as f64) }))
                })
                .collect();
            ctx.eval();
            match find_nearest_neighbour_naive(&pt::<T, N>([0.0; N]), &pts) {
                Some(p) if p == pts[at as usize] => Ok(ctx.outcome(H::new(n))),
                got => Err(format!("{got:?} instead of {:?}", pts[at as usize]).into()),
            }
        },
    )
}

fn add_naive(plan: &mut Plan, tier: Tier) {
    plan.add(naive_sequences::<f64, 2>(3, tier.pick(5, 7), FRAMES[0]));
    plan.add(naive_sequences::<f32, 2>(3, tier.pick(4, 5), FRAMES[1]));
    plan.add(naive_sequences::<f64, 2>(4, tier.pick(4, 5), FRAMES[2]));
    plan.add(naive_sequences::<f64, 2>(3, 4, Frame::TINY));
    plan.add(naive_sequences::<f32, 2>(3, 4, Frame::TINY));
    for e in [20, -20] {
        plan.add(naive_sequences::<f64, 2>(3, 4, Frame::stretched(2f64.powi(e))));
        plan.add(naive_sequences::<f64, 3>(2, 4, Frame::stretched(2f64.powi(e / 2))));
        plan.add(naive_sequences::<f32, 2>(3, 4, Frame::stretched(2f64.powi(e / 4))));
    }
    plan.add(naive_sequences::<f64, 2>(3, 4, Frame::HUGE));
    plan.add(naive_sequences::<f32, 3>(2, 4, Frame::HUGE));
    plan.add(naive_sequences::<f32, 1>(5, tier.pick(5, 7), FRAMES[0]));
    plan.add(naive_sequences::<f64, 3>(2, tier.pick(5, 6), FRAMES[0]));
    plan.add(naive_sequences::<f32, 3>(3, tier.pick(2, 3), FRAMES[1]));
    plan.add(naive_sequences::<f64, 4>(2, tier.pick(2, 3), FRAMES[0]));
    plan.add(naive_positions::<f64, 2>(tier.pick(80, 300)));
    plan.add(naive_positions::<f32, 3>(tier.pick(80, 300)));
    plan.add(naive_positions::<f32, 1>(tier.pick(300, 600)));
    plan.add(naive_axes::<f32, 5>(3));
    plan.add(naive_axes::<f64, 6>(3));
    plan.add(naive_axes::<f64, 7>(3));
    plan.add(naive_axes::<f64, 8>(3));
    plan.add(naive_axes::<f32, 9>(3));
    plan.add(naive_monotone::<f64, 2>(tier.pick(1_000_001, 1 << 24)));
    plan.add(naive_monotone::<f32, 1>(tier.pick(500_001, 4_000_000)));
    plan.add(naive_large::<f64, 2>(tier.pick(20_001, 1 << 17)));
    plan.add(naive_large::<f32, 3>(tier.pick(20_001, 1 << 17)));
}

// ------------------------------------------------------------------------------------------------ chains

/// points in an order that makes every node the child of the one before
fn chain(len: u64, kind: u64) -> Vec<Point<f64, 2>> {
    let c = |i: u64| pt([i as f64, i as f64]);
    match kind {
        0 => (0..len).map(c).collect(),
        1 => (0..len).rev().map(c).collect(),
        // from both ends inwards
        _ => (0..len).map(|i| if i % 2 == 0 { i / 2 } else { len - 1 - i / 2 }).map(c).collect(),
    }
}
/// in a process of its own, as it may run out of stack; on a thread with the default stack of the standard library
fn chain_child(len: u64, kind: u64) -> i32 {
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let pts = chain(len, kind);
            let tree = KDTree::from(pts.as_slice());
            let ok = tree.len() == pts.len() && pts.iter().step_by(len as usize / 16 + 1).all(|p| tree.nearest(p) == Some(*p));
            drop(tree);
            if ok { 0 } else { 3 }
        })
        .unwrap()
        .join()
        .unwrap_or(4)
}
fn chains() -> Space {
    const LENS: [u64; 3] = [1000, 3000, 30_000];
    Space::new(
        "sorted insertions on a default stack".to_string(),
        9,
        |n| format!("{} points on a diagonal, order {}", LENS[n as usize / 3], n % 3),
        |n, ctx| {
            let (len, kind) = (LENS[n as usize / 3], n % 3);
            ctx.eval();
            ctx.trace();
            ctx.steps(len);
            let st = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["--chain", &len.to_string(), &kind.to_string()])
                .stderr(std::process::Stdio::null())
                .status()
                .map_err(|e| e.to_string())?;
            match st.code() {
                Some(0) => Ok(ctx.outcome(H::new(n))),
                Some(c) => Err(format!("wrong length or nearest point (exit {c})").into()),
                // listed: one stack frame per level
                None => Err(Failure { key: if len > 10_000 { "kd-chain-depth".into() } else { String::new() }, msg: format!("the process died: {st}") }),
            }
        },
    )
}

fn plan(id: &str, tier: Tier) -> Option<Plan> {
    let mut p;
    match id {
        "C01" => {
            p = Plan::new("model_checking", "state: traversal sequence of the tree after an insertion history; transition: one insertion; every history of the space is executed on the real tree and every query of the space compared with the minimum over a list model; non-trivial outcome: distinct (space, query, returned point)");
            add_kd(&mut p, tier, What::Nearest);
            add_rough(&mut p, tier, true);
        }
        "C02" => {
            p = Plan::new("model_checking", "state: traversal sequence of the tree after an insertion history; transition: one insertion, fresh or duplicate; every history is executed on the real tree and compared with a list of distinct points; non-trivial outcome: distinct (space, length, content)");
            add_kd(&mut p, tier, What::Set);
            p.add(chains());
        }
        "C03" => {
            p = Plan::new("model_checking", "state: traversal sequence and orderedness after a history of insertions, mutations, clones and rebuilds; transition: one operation; non-trivial outcome: distinct (space, content, number of copies alive)");
            add_histories(&mut p, tier);
        }
        "C04" => {
            p = Plan::new("exploration", "every slice over a lattice up to a length, every query of a finer lattice; non-trivial outcome: distinct (space, query, returned point)");
            add_naive(&mut p, tier);
            add_rough(&mut p, tier, false);
        }
        _ => return None,
    }
    Some(p.assume("coordinates are lattice points in frames where all squared distances are exact in the tested precision (C02: also frames and values where they are not, without nearest queries), or irregular, where a result within a few roundings of the minimum is accepted").assume("KD-tree nodes are observable through traversal, length and queries only"))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 4 && args[1] == "--chain" {
        std::process::exit(chain_child(args[2].parse().unwrap(), args[3].parse().unwrap()));
    }
    mc::main(plan)
}
