//! C04: polygon area, edges, convexity.
use super::prelude::*;
use rcgal::kernel::polygon_2::Polygon2;

pub fn poly(f: &Frame, v: &[P]) -> Polygon2<f64> {
    Polygon2::new(f.pts(v))
}

/// a frame wide enough for the ready-made polygons
pub fn poly_frame(s: &mut Src) -> Frame {
    let k = [0u32, 1, 3][s.weighted(&[8, 2, 1])];
    let r = [10i64, 4, 6, 20, 60][s.weighted(&[6, 4, 5, 4, 1])];
    let o = if s.chance(1, 4) { (s.zig(300), s.zig(300)) } else { (0, 0) };
    Frame { r, k, o }
}
/// for polygons of up to max_n vertices
pub fn poly_frame_for(s: &mut Src, max_n: usize) -> Frame {
    if max_n <= 100 {
        return poly_frame(s);
    }
    Frame { r: s.pick(&[60i64, 20, 200, 500]), k: s.pick(&[0u32, 2]), o: if s.chance(1, 4) { (s.zig(300), s.zig(300)) } else { (0, 0) } }
}
/// polygon shifted by the frame's offset
pub fn gen_simple(s: &mut Src, f: &Frame, max_n: usize) -> Vec<P> {
    let v = simple_polygon(s, f.r, max_n);
    v.iter().map(|p| add(*p, f.o)).collect()
}
pub fn show(f: &Frame, v: &[P]) -> String {
    format!("{:?}", v.iter().map(|p| f.fp(*p)).collect::<Vec<_>>())
}

fn edges_area(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 500);
    let n = s.idx(13);
    let mut v: Vec<P> = Vec::new();
    for _ in 0..n {
        let p = pt_rel(s, &f, &v);
        v.push(p);
    }
    let rot = s.idx(n.max(1));
    c.note(|| format!("vertices {}", show(&f, &v)));
    c.nontrivial = n >= 3 && area2(&v) != 0;
    let u = f.unit();
    let area = area2(&v) as f64 * u * u / 2.0;
    let want = if n < 3 { 0.0 } else { area };
    let pl = poly(&f, &v);
    ensure!(xys(&pl.vertices()) == xys(&f.pts(&v)), "vertices {:?}", pl.vertices());
    let e = pl.edges();
    ensure!(e.len() == n, "{} edges for {n} vertices", e.len());
    for i in 0..n {
        ensure!(xy(&e[i].source()) == f.fp(v[i]) && xy(&e[i].target()) == f.fp(v[(i + 1) % n]), "edge {i} is {:?}", e[i]);
    }
    ensure!(pl.area() == want, "area {} expected {want}", pl.area());
    if n > 0 {
        let mut w = v.clone();
        w.rotate_left(rot);
        let g = poly(&f, &w).area();
        ensure!(g == want, "area started at vertex {rot} is {g}, expected {want}");
        w.reverse();
        let g = poly(&f, &w).area();
        ensure!(g == -want, "area of the reversed list is {g}, expected {}", -want);
    }
    Ok(())
}

fn convexity(c: &mut Ctx) -> R {
    convexity_of(c, 24)
}
fn huge(c: &mut Ctx) -> R {
    convexity_of(c, 300)
}
fn convexity_of(c: &mut Ctx, max: usize) -> R {
    let s = &mut c.src;
    let f = poly_frame_for(s, max);
    let mut v = gen_simple(s, &f, max);
    // nearly convex: spoil or straighten a convex polygon in one place
    if s.chance(1, 3) {
        let base = hull(&(0..4 + s.idx(if max > 100 { 300 } else { 8 })).map(|_| pt(s, &f)).collect::<Vec<_>>());
        if base.len() >= 3 {
            let i = s.idx(base.len());
            let mut w = base.clone();
            match s.upto(2) {
                0 => {}
                1 => {
                    if let Some(m) = midpoint_on(s, w[i], w[(i + 1) % w.len()]) {
                        w.insert(i + 1, m);
                    }
                }
                _ => {
                    if let Some(m) = midpoint_on(s, w[i], w[(i + 1) % w.len()]) {
                        let dent = (m.0 + s.zig(1), m.1 + s.zig(1));
                        if insertion_ok(&w, i, dent) {
                            w.insert(i + 1, dent);
                        }
                    }
                }
            }
            if is_simple(&w) {
                v = orient_and_rotate(s, w);
            }
        }
    }
    let n = v.len();
    let rot = s.idx(n);
    c.note(|| format!("polygon {}", show(&f, &v)));
    let want = convex_by_turns(&v);
    c.label(if want { "convex" } else { "not convex" });
    if (0..n).any(|i| orient(v[i], v[(i + 1) % n], v[(i + 2) % n]) == 0) {
        c.label("straight vertex");
    }
    if n >= 100 {
        c.label("100+ vertices");
    }
    c.nontrivial = n >= 4;
    let u = f.unit();
    let area = area2(&v) as f64 * u * u / 2.0;
    let mut w = v.clone();
    w.rotate_left(rot);
    let mut rv = v.clone();
    rv.reverse();
    for (name, list, sign) in [("given", &v, 1.0), ("rotated", &w, 1.0), ("reversed", &rv, -1.0)] {
        let pl = poly(&f, list);
        ensure!(pl.is_convex() == want, "is_convex of the {name} list is {}, expected {want}: {}", pl.is_convex(), show(&f, list));
        ensure!(pl.area() == area * sign, "area of the {name} list is {}, expected {}", pl.area(), area * sign);
    }
    ensure!(area != 0.0, "oracle: simple polygon with zero area");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "any list of 0-12 lattice points (edges, exact shoelace area), and simple polygons of 3-24 (huge: up to 300) vertices incl. convex ones with a straight or dented vertex (convexity against exact corner signs), rotated and reversed; non-trivial: non-zero area / 4+ vertices; further stages: real: real coordinates of any sizes and places in general position, against plain formulas; signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; small-scale/far-away: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("edges-area", 40_000, 3_000_000, edges_area),
            sub_check("convexity", 30_000, 2_000_000, convexity),
            sub_check("huge", 3000, 200_000, huge),
            sub_check("real", 30000, 1500000, crate::real::polygons),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[2], 14)),
            sub_check("unequal", 40000, 2400000, |c| crate::unequal::check(c, &[2], 12)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[2], 14)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[2], 14)),
            sub_check("small-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[2], 14, crate::nearmiss::Scale::Small)),
            sub_check("minute-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[2], 14, crate::nearmiss::Scale::Minute)),
            sub_check("far-away", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[2], 14, crate::nearmiss::Scale::Far)),
        ],
    }
}
