//! C02: equality and sweep order.
use super::prelude::*;
use rcgal::kernel::vertex_2::Vertex2;
use std::cmp::Ordering;

/// Values in increasing order, consecutive ones at least ten tolerances apart.
fn values(s: &mut Src, n: usize, eps: f64, unit: f64) -> Vec<f64> {
    let mut v = vec![s.zig(200) as f64 * unit];
    for _ in 1..n {
        let step = match s.upto(3) {
            0 => unit,
            1 => unit * s.int(1, 50) as f64,
            2 => (12.0 * eps).max(unit / 1e9),
            _ => (100.0 * eps).max(unit / 1e6),
        };
        let last = *v.last().unwrap();
        v.push(last + step);
    }
    v
}

fn order_t<T: NumberType>(c: &mut Ctx, eps: f64, jitter: f64, unit: f64, fine: bool) -> R {
    let s = &mut c.src;
    let nx = 1 + s.idx(4);
    let ny = 1 + s.idx(4);
    let (xs, ys) = if fine {
        (values(s, nx, eps, unit), values(s, ny, eps, unit))
    } else {
        let a = s.zig(50);
        let b = s.zig(50);
        ((0..nx).map(|i| (a + i as i64) as f64 * unit).collect(), (0..ny).map(|i| (b + i as i64) as f64 * unit).collect())
    };
    let n = 2 + s.idx(9);
    let mut ids = Vec::new();
    let mut pts: Vec<Point2<T>> = Vec::new();
    for _ in 0..n {
        let (i, j) = (s.idx(nx), s.idx(ny));
        ids.push((i, j));
        let mut jit = || if jitter > 0.0 && s.chance(1, 3) { (s.f01() - 0.5) * jitter } else { 0.0 };
        let (jx, jy) = (jit(), jit());
        pts.push(Point2::new(T::from_f64(xs[i] + jx), T::from_f64(ys[j] + jy)));
    }
    let perm = s.perm(n);
    c.note(|| format!("points {pts:?}"));
    let vs: Vec<Vertex2<T>> = pts.iter().map(|p| Vertex2::new(p.x(), p.y())).collect();
    let mut same = 0;
    let mut col = 0;
    for i in 0..n {
        for j in 0..n {
            // smaller x is greater; then smaller y is greater
            let want = ids[j].0.cmp(&ids[i].0).then(ids[j].1.cmp(&ids[i].1));
            same += (want == Ordering::Equal && i != j) as u32;
            col += (ids[i].0 == ids[j].0 && ids[i].1 != ids[j].1) as u32;
            let (a, b) = (&pts[i], &pts[j]);
            ensure!(a.cmp(b) == want, "{a:?} cmp {b:?} is {:?}, expected {want:?}", a.cmp(b));
            ensure!(a.partial_cmp(b) == Some(want), "{a:?} partial_cmp {b:?} is {:?}, expected {want:?}", a.partial_cmp(b));
            ensure!((a < b) == (want == Ordering::Less) && (a >= b) == (want != Ordering::Less) && (a > b) == (want == Ordering::Greater), "operators on {a:?} and {b:?} disagree with {want:?}");
            ensure!((a == b) == (want == Ordering::Equal) && a.equals(b) == (a == b), "{a:?} == {b:?} is {}, expected order {want:?}", a == b);
            let (a, b) = (&vs[i], &vs[j]);
            ensure!(a.cmp(b) == want && a.partial_cmp(b) == Some(want), "vertex order of {:?} and {:?} is {:?}, expected {want:?}", pts[i], pts[j], a.cmp(b));
            ensure!((a == b) == (want == Ordering::Equal) && a.equals(b) == (a == b), "vertex equality of {:?} and {:?} is {}", pts[i], pts[j], a == b);
            ensure!(a.to_point() == pts[i], "vertex to_point of {:?}", pts[i]);
        }
    }
    // sorting: same order whatever the arrangement
    let mut ids1: Vec<(usize, usize)> = ids.clone();
    ids1.sort_by(|a, b| b.cmp(a));
    let id_of = |p: &Point2<T>| pts.iter().position(|q| q == p).map(|k| ids[k]);
    let mut a = pts.clone();
    a.sort();
    let mut b: Vec<Point2<T>> = perm.iter().map(|k| pts[*k]).collect();
    b.sort();
    let mut v: Vec<Vertex2<T>> = perm.iter().map(|k| vs[*k].clone()).collect();
    v.sort();
    let v: Vec<Point2<T>> = v.iter().map(|x| x.to_point()).collect();
    for (name, list) in [("points", &a), ("permuted points", &b), ("vertices", &v)] {
        let got: Vec<_> = list.iter().map(id_of).collect();
        ensure!(got == ids1.iter().map(|x| Some(*x)).collect::<Vec<_>>(), "sorting {name} gives {list:?}");
    }
    c.nontrivial = n >= 3 && (same > 0 || col > 0);
    if same > 0 {
        c.label("coinciding points");
    }
    if col > 0 {
        c.label("equal x, different y");
    }
    Ok(())
}

fn exact(c: &mut Ctx) -> R {
    order_t::<f64>(c, 1e-10, 0.0, 0.5, false)
}
fn jittered(c: &mut Ctx) -> R {
    order_t::<f64>(c, 1e-10, 7e-12, 0.5, true)
}
fn single(c: &mut Ctx) -> R {
    order_t::<f32>(c, 1e-6, 0.0, 0.125, false)
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "2-10 points on a small grid of x and y values spaced by at least 12 tolerances, with jitter under a tenth of the tolerance; non-trivial: 3+ points with two that coincide or share x only; further stages: signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; beside: real coordinates, points on a boundary to rounding or 3e-9..1e-6 beside it; small-scale/far-away: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("exact", 30_000, 2_000_000, exact),
            sub_check("jittered", 40_000, 3_000_000, jittered),
            sub_check("f32", 20_000, 1_000_000, single),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[22], 4)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[22], 4)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[22], 4)),
            sub_check("rotated-hundreds", 66666, 4000000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[22], 4))),
            sub_check("beside", 300_000, 20_000_000, crate::probe::equality),
            sub_check("beside-hundreds", 100000, 6666666, |c| crate::curve::large(c, crate::probe::equality)),
            sub_check("small-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[22], 4, crate::nearmiss::Scale::Small)),
            sub_check("far-away", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[22], 4, crate::nearmiss::Scale::Far)),
        ],
    }
}
