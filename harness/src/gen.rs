//! Structured generators.
use crate::engine::Src;
use crate::exact::*;
use rcgal::kernel::number_type::NumberType;
use rcgal::kernel::{line_segment_2::LineSegment2, point_2::Point2, vector_2::Vector2};

/// Where lattice objects lie in the library's coordinates.
pub trait Place {
    fn point<T: NumberType>(&self, p: P) -> Point2<T>;
    fn length<T: NumberType>(&self, r: i64) -> T;
    fn direction<T: NumberType>(&self, d: P) -> Vector2<T>;
    fn angle(&self, a: f64) -> f64;
}
impl Place for Frame {
    fn point<T: NumberType>(&self, p: P) -> Point2<T> {
        self.t(p)
    }
    fn length<T: NumberType>(&self, r: i64) -> T {
        T::from_f64(r as f64 * self.unit())
    }
    fn direction<T: NumberType>(&self, d: P) -> Vector2<T> {
        Vector2::new(T::from_f64(d.0 as f64), T::from_f64(d.1 as f64))
    }
    fn angle(&self, a: f64) -> f64 {
        a
    }
}

/// Integer lattice with a power-of-two unit and an offset: every generated
/// coordinate is exactly representable, and so are the small products the
/// predicates form from them.
#[derive(Clone, Copy, Debug)]
pub struct Frame {
    pub r: i64,
    pub k: u32,
    pub o: P,
}

impl Frame {
    pub fn unit(&self) -> f64 {
        1.0 / (1u64 << self.k) as f64
    }
    pub fn t<T: NumberType>(&self, p: P) -> Point2<T> {
        let u = self.unit();
        Point2::new(T::from_f64(p.0 as f64 * u), T::from_f64(p.1 as f64 * u))
    }
    pub fn p(&self, p: P) -> Point2<f64> {
        self.t::<f64>(p)
    }
    pub fn fp(&self, p: P) -> (f64, f64) {
        let u = self.unit();
        (p.0 as f64 * u, p.1 as f64 * u)
    }
    pub fn seg(&self, a: P, b: P) -> LineSegment2<f64> {
        LineSegment2::new(self.p(a), self.p(b))
    }
    pub fn pts(&self, v: &[P]) -> Vec<Point2<f64>> {
        v.iter().map(|p| self.p(*p)).collect()
    }
}

/// max: largest absolute coordinate (in real units)
pub fn frame(s: &mut Src, max: i64) -> Frame {
    let k = [0u32, 1, 3, 10][s.weighted(&[10, 2, 2, 1])];
    let rs = [3i64, 2, 5, 10, 30, 100, 1000];
    let mut r = rs[s.weighted(&[6, 3, 6, 5, 4, 3, 2])];
    let lim = max << k.min(10);
    if r > lim {
        r = lim;
    }
    let o = if s.chance(1, 4) && k < 10 {
        let m = lim - r;
        if m > 0 { (s.zig(m), s.zig(m)) } else { (0, 0) }
    } else {
        (0, 0)
    };
    Frame { r, k, o }
}

pub fn pt(s: &mut Src, f: &Frame) -> P {
    (f.o.0 + s.zig(f.r), f.o.1 + s.zig(f.r))
}

/// A point, often related to earlier ones (equal, sharing a coordinate, collinear, midpoint).
pub fn pt_rel(s: &mut Src, f: &Frame, prev: &[P]) -> P {
    if prev.is_empty() || !s.chance(2, 5) {
        return pt(s, f);
    }
    let a = prev[s.idx(prev.len())];
    let b = prev[s.idx(prev.len())];
    match s.upto(5) {
        0 => a,
        1 => (a.0, pt(s, f).1),
        2 => (pt(s, f).0, a.1),
        3 => {
            // on the line ab at an integer parameter
            let d = sub(b, a);
            let g = gcd(d.0, d.1).max(1);
            let st = (d.0 / g, d.1 / g);
            let m = s.zig(2 * g + 2);
            let q = (a.0 + st.0 * m, a.1 + st.1 * m);
            if in_range(q, f) { q } else { a }
        }
        4 => {
            // inside segment ab
            let d = sub(b, a);
            let g = gcd(d.0, d.1).max(1);
            let m = s.upto(g as u64) as i64;
            (a.0 + d.0 / g * m, a.1 + d.1 / g * m)
        }
        _ => {
            let q = (a.0 + s.zig(2), a.1 + s.zig(2));
            if in_range(q, f) { q } else { a }
        }
    }
}

pub fn in_range(q: P, f: &Frame) -> bool {
    (q.0 - f.o.0).abs() <= f.r && (q.1 - f.o.1).abs() <= f.r
}

pub fn gcd(a: i64, b: i64) -> i64 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

pub fn midpoint_on(s: &mut Src, a: P, b: P) -> Option<P> {
    let d = sub(b, a);
    let g = gcd(d.0, d.1);
    if g < 2 {
        return None;
    }
    let m = 1 + s.upto(g as u64 - 2) as i64;
    Some((a.0 + d.0 / g * m, a.1 + d.1 / g * m))
}

/// Ready-made polygons; `r` bounds the coordinates from above (approximately r).
pub fn simple_polygon(s: &mut Src, r: i64, max_n: usize) -> Vec<P> {
    let r = r.max(3);
    let kind = s.weighted(&[2, 6, 4, 4, 3, 3, 2]);
    let mut v = match kind {
        0 => {
            let n = 3 + s.idx(6);
            let pts: Vec<P> = (0..n).map(|_| (s.zig(r), s.zig(r))).collect();
            hull(&pts)
        }
        1 => grow(s, r, max_n),
        2 => star(s, r, max_n),
        3 => two_chains(s, r, max_n),
        4 => histogram(s, r, max_n),
        5 => spiral(s, r, max_n),
        _ => comb(s, r, max_n),
    };
    if v.len() > max_n || !is_simple(&v) {
        v = vec![(0, 0), (r, 0), (0, r)];
    }
    // vertices on straight edges
    if s.chance(1, 3) {
        let tries = 1 + s.idx(4);
        for _ in 0..tries {
            if v.len() >= max_n {
                break;
            }
            let i = s.idx(v.len());
            if let Some(m) = midpoint_on(s, v[i], v[(i + 1) % v.len()]) {
                v.insert(i + 1, m);
            }
        }
    }
    // break axis alignment by an integer shear, keep it simple (affine maps do)
    if s.chance(1, 3) {
        let (a, b) = (s.zig(1), s.zig(2));
        v = v.iter().map(|p| (p.0 + a * p.1, p.1)).collect();
        v = v.iter().map(|p| (p.0, p.1 + b * p.0)).collect();
    }
    orient_and_rotate(s, v)
}

pub fn orient_and_rotate(s: &mut Src, mut v: Vec<P>) -> Vec<P> {
    let t = s.upto(7);
    v = v.iter().map(|p| symmetry(t, *p)).collect();
    if s.chance(1, 2) {
        v.reverse();
    }
    let k = s.idx(v.len());
    v.rotate_left(k);
    v
}

pub fn symmetry(t: u64, p: P) -> P {
    match t {
        0 => p,
        1 => (-p.1, p.0),
        2 => (-p.0, -p.1),
        3 => (p.1, -p.0),
        4 => (-p.0, p.1),
        5 => (p.0, -p.1),
        6 => (p.1, p.0),
        _ => (-p.1, -p.0),
    }
}

fn grow(s: &mut Src, r: i64, max_n: usize) -> Vec<P> {
    let mut v = vec![(0, 0), (r, 0), (0, r)];
    if s.chance(1, 2) {
        let t = [(s.zig(r), s.zig(r)), (s.zig(r), s.zig(r)), (s.zig(r), s.zig(r))];
        if orient(t[0], t[1], t[2]) != 0 {
            v = t.to_vec();
        }
    }
    let tries = s.upto((max_n as u64 * 3).min(120.max(max_n as u64)));
    for _ in 0..tries {
        if v.len() >= max_n {
            break;
        }
        let i = s.idx(v.len());
        let p = if s.chance(1, 2) {
            let a = v[i];
            let b = v[(i + 1) % v.len()];
            let w = (r / 3).max(2);
            ((a.0 + b.0) / 2 + s.zig(w), (a.1 + b.1) / 2 + s.zig(w))
        } else {
            (s.zig(r), s.zig(r))
        };
        if insertion_ok(&v, i, p) {
            v.insert(i + 1, p);
        }
    }
    v
}

fn half(p: P) -> u8 {
    if p.1 > 0 || (p.1 == 0 && p.0 > 0) { 0 } else { 1 }
}
fn angle_cmp(a: &P, b: &P) -> std::cmp::Ordering {
    half(*a).cmp(&half(*b)).then(0.cmp(&cross(*a, *b).signum()))
}

fn star(s: &mut Src, r: i64, max_n: usize) -> Vec<P> {
    let n = 3 + s.idx(max_n.saturating_sub(6).max(1));
    let mut pts = vec![(1, 0), (-1, 1), (-1, -1)];
    for _ in 0..n {
        let p = (s.zig(r), s.zig(r));
        if p != (0, 0) {
            pts.push(p);
        }
    }
    pts.sort_by(angle_cmp);
    let mut out: Vec<P> = Vec::new();
    for p in pts {
        if let Some(l) = out.last() {
            if cross(*l, p) == 0 && dot(*l, p) > 0 {
                continue;
            }
        }
        out.push(p);
    }
    out
}

fn two_chains(s: &mut Src, r: i64, max_n: usize) -> Vec<P> {
    // x-monotone: lower chain below 0, upper chain above 0 (flat runs are common)
    let nl = 1 + s.idx((max_n / 2).saturating_sub(2).max(1));
    let nu = 1 + s.idx((max_n / 2).saturating_sub(2).max(1));
    let xmax = r.max(nl as i64 + 2).max(nu as i64 + 2);
    let hmax = if s.chance(1, 2) { 2 } else { r };
    let chain = |s: &mut Src, n: usize, sign: i64| -> Vec<P> {
        let mut out = Vec::new();
        let mut x = 0;
        for i in 0..n {
            let room = xmax - 1 - x - (n - 1 - i) as i64;
            if room < 1 {
                break;
            }
            x += 1 + s.upto(((room - 1) as u64).min(3)) as i64;
            out.push((x, sign * (1 + s.upto(hmax as u64 - 1) as i64)));
        }
        out
    };
    let lo = chain(s, nl, -1);
    let mut up = chain(s, nu, 1);
    up.reverse();
    let mut v = vec![(0, 0)];
    v.extend(lo);
    v.push((xmax, s.zig(1)));
    v.extend(up);
    v
}

fn histogram(s: &mut Src, r: i64, max_n: usize) -> Vec<P> {
    // columns of varying height on both sides of the x axis
    let cols = 1 + s.idx(((max_n.saturating_sub(2)) / 4).max(1));
    let h = r.clamp(2, 12);
    let mut up = Vec::new();
    let mut lo = Vec::new();
    for c in 0..cols {
        let (x0, x1) = (c as i64 * 2, c as i64 * 2 + 2);
        let a = 1 + s.upto(h as u64 - 1) as i64;
        let b = -1 - s.upto(h as u64 - 1) as i64;
        for (list, y) in [(&mut up, a), (&mut lo, b)] {
            match list.last() {
                Some(&(_, ly)) if ly == y => {
                    list.pop();
                    list.push((x1, y));
                }
                _ => {
                    list.push((x0, y));
                    list.push((x1, y));
                }
            }
        }
    }
    lo.reverse();
    up.extend(lo);
    up.reverse();
    up
}

fn spiral(s: &mut Src, _r: i64, max_n: usize) -> Vec<P> {
    // rectangular spiral corridor of width 1 (or wider gaps)
    let turns = 2 + s.idx((max_n / 2).saturating_sub(2).clamp(1, if max_n > 100 { 60 } else { 14 }));
    let g = 2 + s.idx(2) as i64;
    // centre line
    let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
    let mut p = (0i64, 0i64);
    let mut line = vec![p];
    for t in 0..turns {
        let len = g * (1 + t as i64 / 2) + if t == 0 { 1 } else { 0 };
        let d = dirs[t % 4];
        p = (p.0 + d.0 * len * 2, p.1 + d.1 * len * 2);
        line.push(p);
    }
    // offset by 1 to both sides (units: centre line on even coordinates)
    let n = line.len();
    let dir = |i: usize| dirs[i % 4];
    let left = |d: P| (-d.1, d.0);
    let mut l = Vec::new();
    let mut rr = Vec::new();
    for i in 0..n {
        let (a, b) = if i == 0 {
            (left(dir(0)), (0, 0))
        } else if i == n - 1 {
            (left(dir(n - 2)), (0, 0))
        } else {
            (left(dir(i - 1)), left(dir(i)))
        };
        let off = (a.0 + b.0, a.1 + b.1);
        l.push((line[i].0 + off.0, line[i].1 + off.1));
        rr.push((line[i].0 - off.0, line[i].1 - off.1));
    }
    rr.reverse();
    l.extend(rr);
    l.reverse();
    l
}

fn comb(s: &mut Src, r: i64, max_n: usize) -> Vec<P> {
    // teeth pointing down from a bar; slanted bar and teeth tips on a line are common
    let teeth = 1 + s.idx((max_n / 2).saturating_sub(2).max(1));
    let mut v = Vec::new();
    let deep = s.chance(1, 2);
    for t in 0..teeth {
        let x = 2 * t as i64;
        let base = if deep { -1 } else { -1 - s.upto(2) as i64 };
        let tip = -2 - r.min(20) - if deep { 0 } else { s.upto(r.min(20) as u64) as i64 };
        v.push((x, base.max(tip + 1)));
        v.push((x + 1, tip));
    }
    v.push((2 * teeth as i64, -1));
    let top = 0 + s.upto(3) as i64;
    v.push((2 * teeth as i64 + s.upto(2) as i64, top + s.upto(2) as i64));
    v.push((-(s.upto(2) as i64), top));
    v
}

/// Arbitrary vertex list with frequent coincidences (mostly not simple).
pub fn vertex_list(s: &mut Src, f: &Frame, max_n: usize) -> Vec<P> {
    let n = 3 + s.idx(max_n - 2);
    let mut v: Vec<P> = Vec::new();
    for _ in 0..n {
        let p = pt_rel(s, f, &v);
        v.push(p);
    }
    v
}

/// A simple polygon spoiled in one place (or left alone).
pub fn mutate_polygon(s: &mut Src, v: &[P]) -> Vec<P> {
    let mut w = v.to_vec();
    let n = w.len();
    let i = s.idx(n);
    match s.upto(7) {
        0 => {}
        1 => {
            // a vertex onto another edge
            let j = s.idx(n);
            if let Some(m) = midpoint_on(s, w[j], w[(j + 1) % n]) {
                w[i] = m;
            }
        }
        2 => {
            let j = s.idx(n);
            w[i] = w[j];
        }
        3 => {
            let j = s.idx(n);
            w.swap(i, j);
        }
        4 => {
            // spike: go out and come back
            let p = w[i];
            let q = (p.0 + s.zig(3), p.1 + s.zig(3));
            w.insert(i + 1, q);
            w.insert(i + 2, p);
        }
        5 => {
            // fold back over the next edge
            let (a, b) = (w[i], w[(i + 1) % n]);
            let d = sub(b, a);
            w.insert(i + 1, (b.0 + d.0, b.1 + d.1));
        }
        6 => {
            w[i] = (w[i].0 + s.zig(3), w[i].1 + s.zig(3));
        }
        _ => {
            let j = s.idx(n);
            let p = w[j];
            w.insert(i, p);
        }
    }
    w
}
