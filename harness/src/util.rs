use crate::exact::P;
use rcgal::kernel::number_type::NumberType;
use rcgal::kernel::point_2::Point2;

pub type F2 = (f64, f64);

pub fn xy(p: &Point2<f64>) -> F2 {
    (p.x(), p.y())
}
pub fn xys(v: &[Point2<f64>]) -> Vec<F2> {
    v.iter().map(xy).collect()
}
pub fn dist(a: F2, b: F2) -> f64 {
    ((a.0 - b.0) * (a.0 - b.0) + (a.1 - b.1) * (a.1 - b.1)).sqrt()
}
pub fn near(a: F2, b: F2, tol: f64) -> bool {
    (a.0 - b.0).abs() <= tol && (a.1 - b.1).abs() <= tol
}
pub fn finite(v: &[F2]) -> bool {
    v.iter().all(|p| p.0.is_finite() && p.1.is_finite())
}
/// one-to-one match of the two lists up to order
pub fn same_set(a: &[F2], b: &[F2], tol: f64) -> bool {
    if a.len() != b.len() || !finite(a) || !finite(b) {
        return false;
    }
    let mut used = vec![false; b.len()];
    for p in a {
        let mut best = None;
        for (i, q) in b.iter().enumerate() {
            if !used[i] && near(*p, *q, tol) {
                let d = dist(*p, *q);
                if best.map_or(true, |(_, bd)| d < bd) {
                    best = Some((i, d));
                }
            }
        }
        match best {
            Some((i, _)) => used[i] = true,
            None => return false,
        }
    }
    true
}
pub fn dedup_near(v: &[F2], tol: f64) -> Vec<F2> {
    let mut out: Vec<F2> = Vec::new();
    for p in v {
        if !out.iter().any(|q| near(*p, *q, tol)) {
            out.push(*p);
        }
    }
    out
}
pub fn conv<T: NumberType>(p: &Point2<f64>) -> Point2<T> {
    Point2::new(T::from_f64(p.x()), T::from_f64(p.y()))
}
pub fn mapp(v: &[P], f: impl Fn(P) -> P) -> Vec<P> {
    v.iter().map(|p| f(*p)).collect()
}
