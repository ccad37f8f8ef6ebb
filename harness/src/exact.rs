//! Exact integer geometry: the oracles for segments, triangles, polygons, hulls.
pub type P = (i64, i64);

pub fn cross(a: P, b: P) -> i128 {
    a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128
}
pub fn dot(a: P, b: P) -> i128 {
    a.0 as i128 * b.0 as i128 + a.1 as i128 * b.1 as i128
}
pub fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}
pub fn add(a: P, b: P) -> P {
    (a.0 + b.0, a.1 + b.1)
}
/// twice the signed area of abc
pub fn orient(a: P, b: P, c: P) -> i128 {
    cross(sub(b, a), sub(c, a))
}
pub fn on_seg(p: P, a: P, b: P) -> bool {
    orient(a, b, p) == 0
        && p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
}

/// A rational point (x/d, y/d), d > 0.
#[derive(Clone, Copy, Debug)]
pub struct Rp {
    pub x: i128,
    pub y: i128,
    pub d: i128,
}
impl Rp {
    pub fn int(p: P) -> Rp {
        Rp { x: p.0 as i128, y: p.1 as i128, d: 1 }
    }
    pub fn new(x: i128, y: i128, d: i128) -> Rp {
        if d < 0 { Rp { x: -x, y: -y, d: -d } } else { Rp { x, y, d } }
    }
    pub fn same(&self, o: &Rp) -> bool {
        self.x * o.d == o.x * self.d && self.y * o.d == o.y * self.d
    }
    pub fn f(&self, unit: f64) -> (f64, f64) {
        // split into integer and fraction for accuracy
        let part = |n: i128| {
            let q = n.div_euclid(self.d);
            let r = n.rem_euclid(self.d);
            (q as f64 + r as f64 / self.d as f64) * unit
        };
        (part(self.x), part(self.y))
    }
}

/// Exactly the isolated/overlap end points shared by two segments (degenerate allowed).
pub fn seg_seg(a: P, b: P, c: P, d: P) -> Vec<Rp> {
    let mut out: Vec<P> = Vec::new();
    for (p, s, t) in [(a, c, d), (b, c, d), (c, a, b), (d, a, b)] {
        if on_seg(p, s, t) && !out.contains(&p) {
            out.push(p);
        }
    }
    if !out.is_empty() {
        return out.into_iter().map(Rp::int).collect();
    }
    let ab = sub(b, a);
    let cd = sub(d, c);
    let den = cross(ab, cd);
    if den == 0 {
        return vec![];
    }
    let ac = sub(c, a);
    let t = cross(ac, cd);
    let u = cross(ac, ab);
    let inside = |n: i128| if den > 0 { n >= 0 && n <= den } else { n <= 0 && n >= den };
    if inside(t) && inside(u) {
        vec![Rp::new(a.0 as i128 * den + ab.0 as i128 * t, a.1 as i128 * den + ab.1 as i128 * t, den)]
    } else {
        vec![]
    }
}
pub fn segs_share_point(a: P, b: P, c: P, d: P) -> bool {
    !seg_seg(a, b, c, d).is_empty()
}

pub fn area2(v: &[P]) -> i128 {
    let mut s = 0;
    for i in 0..v.len() {
        s += cross(v[i], v[(i + 1) % v.len()]);
    }
    s
}

/// Simple in the strict sense: n >= 3, no zero-length edge, adjacent edges share
/// exactly their vertex, other edges share nothing.
pub fn is_simple(v: &[P]) -> bool {
    let n = v.len();
    if n < 3 {
        return false;
    }
    let e = |i: usize| (v[i % n], v[(i + 1) % n]);
    for i in 0..n {
        let (a, b) = e(i);
        if a == b {
            return false;
        }
    }
    for i in 0..n {
        let (a, b) = e(i);
        for j in i + 1..n {
            let (c, d) = e(j);
            let next = (i + 1) % n == j;
            let prev = (j + 1) % n == i;
            if next || prev {
                let (common, x, y) = if next { (b, a, d) } else { (a, b, c) };
                if n == 3 && next && prev {
                    // cannot happen: in a triangle each pair is adjacent on one side only
                }
                // fold back: collinear with both on the same side
                if orient(x, common, y) == 0 && dot(sub(x, common), sub(y, common)) > 0 {
                    return false;
                }
                if n == 3 && orient(x, common, y) == 0 {
                    return false;
                }
            } else if segs_share_point(a, b, c, d) {
                return false;
            }
        }
    }
    true
}

/// Is adding vertex p between v[i] and v[i+1] keeping the polygon simple?
pub fn insertion_ok(v: &[P], i: usize, p: P) -> bool {
    let mut w = v.to_vec();
    w.insert(i + 1, p);
    let n = w.len();
    // only edges (i,i+1) and (i+1,i+2) are new
    for k in [i, i + 1] {
        let (a, b) = (w[k % n], w[(k + 1) % n]);
        if a == b {
            return false;
        }
        for j in 0..n {
            if j == k {
                continue;
            }
            let (c, d) = (w[j], w[(j + 1) % n]);
            if (k + 1) % n == j {
                if orient(a, b, d) == 0 && dot(sub(a, b), sub(d, b)) > 0 {
                    return false;
                }
            } else if (j + 1) % n == k {
                if orient(c, a, b) == 0 && dot(sub(c, a), sub(b, a)) > 0 {
                    return false;
                }
            } else if segs_share_point(a, b, c, d) {
                return false;
            }
        }
    }
    true
}

/// 0 outside, 1 boundary, 2 inside
pub fn point_in_polygon(p: P, v: &[P]) -> u8 {
    let n = v.len();
    let mut inside = false;
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        if on_seg(p, a, b) {
            return 1;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            let o = orient(a, b, p);
            if (o > 0) == (b.1 > a.1) {
                inside = !inside;
            }
        }
    }
    if inside { 2 } else { 0 }
}

/// 0 outside, 1 boundary, 2 inside, non-degenerate triangle
pub fn point_in_triangle(p: P, t: [P; 3]) -> u8 {
    let s = orient(t[0], t[1], t[2]).signum();
    let o: Vec<i128> = (0..3).map(|i| orient(t[i], t[(i + 1) % 3], p) * s).collect();
    if o.iter().any(|x| *x < 0) {
        0
    } else if o.iter().any(|x| *x == 0) {
        1
    } else {
        2
    }
}

/// Strict convex hull, counter-clockwise from the lowest leftmost point.
pub fn hull(pts: &[P]) -> Vec<P> {
    let mut p = pts.to_vec();
    p.sort();
    p.dedup();
    let n = p.len();
    if n <= 2 {
        return p;
    }
    // gift wrapping: independent of the monotone chain under test
    let start = p[0];
    let mut out = vec![start];
    let mut cur = start;
    loop {
        let mut best = if p[0] == cur { p[1] } else { p[0] };
        for &q in &p {
            if q == cur {
                continue;
            }
            let o = orient(cur, best, q);
            if o < 0 || (o == 0 && dot(sub(q, cur), sub(q, cur)) > dot(sub(best, cur), sub(best, cur))) {
                best = q;
            }
        }
        if best == start {
            break;
        }
        out.push(best);
        cur = best;
        if out.len() > n {
            unreachable!("hull oracle");
        }
    }
    out
}

/// No two corners turn in opposite directions.
pub fn convex_by_turns(v: &[P]) -> bool {
    let n = v.len();
    let mut pos = false;
    let mut neg = false;
    for i in 0..n {
        let o = orient(v[i], v[(i + 1) % n], v[(i + 2) % n]);
        pos |= o > 0;
        neg |= o < 0;
    }
    !(pos && neg)
}
