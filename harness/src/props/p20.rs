//! C20: ear clipping.
use super::p04::{gen_simple, poly, poly_frame, poly_frame_for, show};
use super::prelude::*;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;

/// Exact validity of a triangulation of the simple polygon v.
pub fn valid(v: &[P], t: &[Vec<usize>]) -> Result<(), String> {
    let n = v.len();
    if t.len() != n - 2 {
        return Err(format!("{} triangles for {n} vertices", t.len()));
    }
    let mut total: i128 = 0;
    let mut edges: Vec<(usize, usize)> = Vec::new();
    for tri in t {
        if tri.len() != 3 || tri.iter().any(|i| *i >= n) || tri[0] == tri[1] || tri[1] == tri[2] || tri[0] == tri[2] {
            return Err(format!("{tri:?} does not name three vertices"));
        }
        let p = [v[tri[0]], v[tri[1]], v[tri[2]]];
        let a = orient(p[0], p[1], p[2]);
        if a == 0 {
            return Err(format!("triangle {tri:?} has no area"));
        }
        total += a.abs();
        for (i, q) in v.iter().enumerate() {
            if !tri.contains(&i) && point_in_triangle(*q, p) != 0 {
                return Err(format!("vertex {i} lies in triangle {tri:?}"));
            }
        }
        let c = (p[0].0 + p[1].0 + p[2].0, p[0].1 + p[1].1 + p[2].1);
        let v3: Vec<P> = v.iter().map(|q| (3 * q.0, 3 * q.1)).collect();
        if point_in_polygon(c, &v3) != 2 {
            return Err(format!("triangle {tri:?} is not inside the polygon"));
        }
        for k in 0..3 {
            let (i, j) = (tri[k].min(tri[(k + 1) % 3]), tri[k].max(tri[(k + 1) % 3]));
            if j - i == 1 || j - i == n - 1 {
                continue;
            }
            for e in 0..n {
                let g = (e + 1) % n;
                if e == i || e == j || g == i || g == j {
                    continue;
                }
                if segs_share_point(v[i], v[j], v[e], v[g]) {
                    return Err(format!("side {i}-{j} of triangle {tri:?} meets edge {e}"));
                }
            }
            if !edges.contains(&(i, j)) {
                edges.push((i, j));
            }
        }
    }
    for x in 0..edges.len() {
        for y in x + 1..edges.len() {
            let ((a, b), (c, d)) = (edges[x], edges[y]);
            if a != c && a != d && b != c && b != d && segs_share_point(v[a], v[b], v[c], v[d]) {
                return Err(format!("diagonals {a}-{b} and {c}-{d} cross"));
            }
        }
    }
    if total != area2(v).abs() {
        return Err(format!("triangles cover twice {total}, the polygon {}", area2(v).abs()));
    }
    Ok(())
}

/// The same where three vertices on a line are only so up to rounding: a triangle without
/// area on the lattice may fill the gap beside a diagonal that grazes a vertex.
pub fn valid_rounded(v: &[P], t: &[Vec<usize>]) -> Result<(), String> {
    let n = v.len();
    if t.len() != n - 2 {
        return Err(format!("{} triangles for {n} vertices", t.len()));
    }
    let turn = area2(v).signum();
    let mut total: i128 = 0;
    // how often each directed side occurs, opposite directions cancelling
    let mut sides: std::collections::HashMap<(usize, usize), i32> = Default::default();
    for tri in t {
        if tri.len() != 3 || tri.iter().any(|i| *i >= n) || tri[0] == tri[1] || tri[1] == tri[2] || tri[0] == tri[2] {
            return Err(format!("{tri:?} does not name three vertices"));
        }
        // in increasing order the corners follow the border
        let mut w = tri.clone();
        w.sort();
        let a = orient(v[w[0]], v[w[1]], v[w[2]]) * turn;
        if a < 0 {
            return Err(format!("triangle {tri:?} lies outside"));
        }
        total += a;
        for k in 0..3 {
            let (i, j) = (w[k], w[(k + 1) % 3]);
            *sides.entry((i.min(j), i.max(j))).or_default() += if i < j { 1 } else { -1 };
        }
    }
    if total != area2(v).abs() {
        return Err(format!("triangles cover twice {total}, the polygon {}", area2(v).abs()));
    }
    for i in 0..n {
        let j = (i + 1) % n;
        let want = if i < j { 1 } else { -1 };
        if sides.remove(&(i.min(j), i.max(j))) != Some(want) {
            return Err(format!("edge {i}-{j} is not a side of exactly one triangle"));
        }
    }
    match sides.iter().find(|(_, k)| **k != 0) {
        Some((e, _)) => Err(format!("diagonal {}-{} is not shared by two triangles", e.0, e.1)),
        None => Ok(()),
    }
}

fn run(c: &mut Ctx, max: usize) -> R {
    let s = &mut c.src;
    let f = poly_frame_for(s, max);
    let v = gen_simple(s, &f, max);
    let n = v.len();
    c.note(|| format!("polygon {}", show(&f, &v)));
    let convex = convex_by_turns(&v);
    c.label(if area2(&v) > 0 { "counter-clockwise" } else { "clockwise" });
    c.label(if convex { "convex" } else { "concave" });
    if (0..n).any(|i| orient(v[i], v[(i + 1) % n], v[(i + 2) % n]) == 0) {
        c.label("straight vertex");
    }
    if n >= 100 {
        c.label("100+ vertices");
    }
    c.nontrivial = n >= 4 && !convex;
    let t = match refused(|| earcut_2(poly(&f, &v))) {
        Ok(t) => t,
        Err(e) => return fail(format!("a simple polygon is refused: {e}; {}", show(&f, &v))),
    };
    if let Err(e) = valid(&v, &t) {
        return fail(format!("{e}; polygon {}, triangles {t:?}", show(&f, &v)));
    }
    Ok(())
}
fn small(c: &mut Ctx) -> R {
    run(c, 9)
}
fn medium(c: &mut Ctx) -> R {
    run(c, 20)
}
fn huge(c: &mut Ctx) -> R {
    run(c, 200)
}
fn large(c: &mut Ctx) -> R {
    run(c, 40)
}

fn refusal(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = poly_frame(s);
    let base = gen_simple(s, &f, 16);
    let v = if s.chance(1, 2) { mutate_polygon(s, &base) } else { vertex_list(s, &f, 12) };
    if v.len() < 3 || is_simple(&v) {
        return discard("simple");
    }
    c.note(|| format!("polygon {}", show(&f, &v)));
    c.nontrivial = true;
    // an empty answer is a refusal too
    if let Ok(t) = refused(|| earcut_2(poly(&f, &v))) {
        ensure!(t.is_empty(), "a polygon that is not simple is triangulated: {} as {t:?}", show(&f, &v));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "simple polygons of 3-40 (huge: up to 200) vertices (hulls, random insertion, stars, chains, histograms, spirals, combs, straight vertices, sheared, both directions), every triangulation validated in exact integers, and polygons spoiled in one spot for the refusal; non-trivial: a concave polygon, or a refused one; further stages: real: real coordinates of any sizes and places in general position, against plain formulas; signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; small-scale: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("small", 30_000, 2_000_000, small),
            sub_check("medium", 10_000, 700_000, medium),
            sub_check("large", 3_000, 200_000, large),
            sub_check("huge", 800, 60_000, huge),
            sub_check("refusal", 8_000, 500_000, refusal),
            sub_check("real", 6000, 300000, crate::real::ears),
            sub_check("near-miss", 12_000, 720_000, |c| crate::nearmiss::check(c, &[19], 12)),
            sub_check("unequal", 10000, 600000, |c| crate::unequal::check(c, &[19], 10)),
            sub_check("rotated", 12000, 720000, |c| crate::rotated::check(c, &[19], 12)),
            sub_check("signed-zero", 6000, 360000, |c| crate::signs::check(c, &[19], 12)),
            sub_check("rotated-hundreds", 4000, 240000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[19], 12))),
            sub_check("rotated-large", 2000, 120000, |c| crate::rotated::check(c, &[19], 30)),
            sub_check("small-scale", 6000, 360000, |c| crate::nearmiss::scaled(c, &[19], 12, crate::nearmiss::Scale::Small)),
            sub_check("minute-scale", 6000, 360000, |c| crate::nearmiss::scaled(c, &[19], 12, crate::nearmiss::Scale::Minute)),
        ],
    }
}
