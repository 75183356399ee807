//! Reference geometry in exact integer arithmetic.
pub type P = [i128; 2];

/// > 0: c is to the left of a->b
pub fn cross(a: P, b: P, c: P) -> i128 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}

/// Corners of the convex hull, clockwise from the lexicographically smallest; empty if all points are collinear.
pub fn hull(points: &[P]) -> Vec<P> {
    let mut p = points.to_vec();
    p.sort();
    p.dedup();
    if p.len() < 3 {
        return vec![];
    }
    if p.len() > 6000 {
        return chain(&p);
    }
    // A corner is a point that is not in the convex hull of the others: checked by gift wrapping with exact tie-breaking
    let start = p[0];
    let mut out = vec![start];
    let mut cur = start;
    loop {
        // next corner clockwise: all others are to the right of (or on) cur->next, next is the farthest on ties
        let mut next: Option<P> = None;
        for &q in &p {
            if q == cur {
                continue;
            }
            next = Some(match next {
                None => q,
                Some(n) => {
                    let c = cross(cur, n, q);
                    if c > 0 || (c == 0 && d2(cur, q) > d2(cur, n)) {
                        q
                    } else {
                        n
                    }
                }
            });
        }
        let n = next.unwrap();
        if n == start {
            break;
        }
        out.push(n);
        cur = n;
        assert!(out.len() <= p.len(), "reference hull");
    }
    let out = if out.len() < 3 { vec![] } else { out };
    assert!(p.len() < 100 || out == chain(&p), "the two references disagree");
    out
}

/// The same of sorted, distinct points, by the upper and the lower chain: for clouds too large to wrap
fn chain(p: &[P]) -> Vec<P> {
    let half = |it: &mut dyn Iterator<Item = P>| -> Vec<P> {
        let mut v: Vec<P> = vec![];
        for q in it {
            while v.len() > 1 && cross(v[v.len() - 2], v[v.len() - 1], q) >= 0 {
                v.pop();
            }
            v.push(q);
        }
        v.pop();
        v
    };
    let mut out = half(&mut p.iter().copied());
    out.extend(half(&mut p.iter().rev().copied()));
    if out.len() < 3 { vec![] } else { out }
}

pub fn d2(a: P, b: P) -> i128 {
    (a[0] - b[0]).pow(2) + (a[1] - b[1]).pow(2)
}

/// q on the closed segment ab
pub fn on_segment(a: P, b: P, q: P) -> bool {
    cross(a, b, q) == 0
        && q[0] >= a[0].min(b[0])
        && q[0] <= a[0].max(b[0])
        && q[1] >= a[1].min(b[1])
        && q[1] <= a[1].max(b[1])
}

pub fn on_boundary(poly: &[P], q: P) -> bool {
    (0..poly.len()).any(|i| on_segment(poly[i], poly[(i + 1) % poly.len()], q))
}

/// Even-odd rule for a point off the boundary, by the parity of the winding number. The winding number counts signed
/// crossings of the upward vertical ray (the code under test counts crossings of a horizontal one).
pub fn inside(poly: &[P], q: P) -> bool {
    let mut w = 0i64;
    for i in 0..poly.len() {
        let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
        if a[0] <= q[0] && b[0] > q[0] {
            // left to right: the edge is above q if q is to its right
            if cross(a, b, q) < 0 {
                w += 1
            }
        } else if b[0] <= q[0] && a[0] > q[0] && cross(a, b, q) > 0 {
            w -= 1
        }
    }
    w.rem_euclid(2) == 1
}

/// `walk` is a strictly convex-ish boundary walk of hull `corners`: same clockwise cyclic order, every corner present,
/// every other element on the boundary, no repetition.
pub fn is_boundary_walk(walk: &[P], corners: &[P]) -> Result<(), String> {
    let n = corners.len();
    // position along the boundary: (edge index, squared distance from its first corner)
    let mut pos = Vec::new();
    for &q in walk {
        let mut at = None;
        for e in 0..n {
            if q != corners[(e + 1) % n] && on_segment(corners[e], corners[(e + 1) % n], q) {
                at = Some((e, d2(corners[e], q)));
            }
        }
        match at {
            Some(x) => pos.push(x),
            None => return Err(format!("{q:?} is not on the boundary of the hull")),
        }
    }
    for c in corners {
        if !walk.contains(c) {
            return Err(format!("corner {c:?} is missing"));
        }
    }
    // strictly increasing cyclically: exactly one descent
    let descents = (0..pos.len()).filter(|&i| pos[(i + 1) % pos.len()] <= pos[i]).count();
    if descents != 1 {
        return Err("the walk repeats a point or does not go clockwise around the boundary once".into());
    }
    Ok(())
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn square() {
        let sq: Vec<P> = vec![[1, 0], [2, 2], [0, 0], [2, 0], [0, 2], [1, 1]];
        assert_eq!(hull(&sq), vec![[0, 0], [0, 2], [2, 2], [2, 0]]);
        assert!(inside(&hull(&sq), [1, 1]) && !inside(&hull(&sq), [3, 1]));
        assert!(is_boundary_walk(&[[0, 0], [0, 2], [2, 2], [2, 0], [1, 0]], &hull(&sq)).is_ok());
        assert!(is_boundary_walk(&[[0, 0], [0, 2], [2, 2], [1, 0], [2, 0]], &hull(&sq)).is_err());
        assert_eq!(hull(&[[0, 0], [1, 1], [2, 2]]), Vec::<P>::new());
    }
}
