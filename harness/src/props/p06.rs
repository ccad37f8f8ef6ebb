//! C06: point against triangle.
use super::prelude::*;
use rcgal::algorithm::location::location_enum::Point2Triangle2Location as L;
use rcgal::algorithm::location::point_2_triangle_2::*;
use rcgal::kernel::triangle_2::Triangle2;

pub fn want(p: P, t: [P; 3]) -> L {
    match point_in_triangle(p, t) {
        0 => L::Outside,
        1 => L::On,
        _ => L::Inside,
    }
}

fn locate(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 1000);
    let a = pt(s, &f);
    let b = pt_rel(s, &f, &[a]);
    let d = pt_rel(s, &f, &[a, b]);
    if orient(a, b, d) == 0 {
        return discard("degenerate");
    }
    let t = [a, b, d];
    c.note(|| format!("triangle {:?} {:?} {:?}", f.fp(a), f.fp(b), f.fp(d)));
    let m = 1 + c.src.idx(6);
    for _ in 0..m {
        let s = &mut c.src;
        let p = match s.upto(3) {
            0 => pt_rel(s, &f, &[a, b, d]),
            1 => {
                // near the middle of two corners or of all three
                let (i, j, k) = (s.int(0, 4), s.int(0, 4), s.int(0, 4));
                let w = (i + j + k).max(1);
                ((a.0 * i + b.0 * j + d.0 * k).div_euclid(w), (a.1 * i + b.1 * j + d.1 * k).div_euclid(w))
            }
            2 => {
                let e = s.idx(3);
                let (u, v) = (t[e], t[(e + 1) % 3]);
                match midpoint_on(s, u, v) {
                    Some(q) => q,
                    None => (v.0 * 2 - u.0, v.1 * 2 - u.1),
                }
            }
            _ => {
                let q = t[s.idx(3)];
                (q.0 + s.zig(2), q.1 + s.zig(2))
            }
        };
        let w = want(p, t);
        c.note(|| format!("point {:?}", f.fp(p)));
        c.label(match w {
            L::On => if t.contains(&p) { "corner" } else { "edge" },
            L::Inside => "inside",
            L::Outside => {
                if (0..3).any(|i| orient(t[i], t[(i + 1) % 3], p) == 0) { "on an extension" } else { "outside" }
            }
        });
        c.nontrivial |= w != L::Outside || (0..3).any(|i| orient(t[i], t[(i + 1) % 3], p) == 0);
        for k in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]] {
            let tri = Triangle2::new(f.p(t[k[0]]), f.p(t[k[1]]), f.p(t[k[2]]));
            let got = locate_point_2_triangle_2(&f.p(p), &tri);
            ensure!(got == w, "{:?} against {tri:?}: {got:?}, expected {w:?}", f.fp(p));
            let mut tri = tri;
            tri.reverse_orientation();
            let got = locate_point_2_triangle_2(&f.p(p), &tri);
            ensure!(got == w, "{:?} against the reversed {tri:?}: {got:?}, expected {w:?}", f.fp(p));
        }
    }
    Ok(())
}

/// Triangles without an inside: collinear or repeated corners.
fn flat(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 1000);
    let a = pt(s, &f);
    let d = sub(pt_rel(s, &f, &[a]), a);
    let (i, j) = (s.zig(3), s.zig(3));
    let t = [a, (a.0 + d.0 * i, a.1 + d.1 * i), (a.0 + d.0 * j, a.1 + d.1 * j)];
    if t.iter().any(|p| p.0.abs() > 1000 << f.k || p.1.abs() > 1000 << f.k) {
        return discard("far out");
    }
    c.note(|| format!("triangle {:?}", t.map(|p| f.fp(p))));
    for n in 0..4 {
        let s = &mut c.src;
        let p = match n {
            0 => t[s.idx(3)],
            1 => {
                let k = s.zig(4);
                (a.0 + d.0 * k, a.1 + d.1 * k)
            }
            2 => {
                let e = s.idx(3);
                midpoint_on(s, t[e], t[(e + 1) % 3]).unwrap_or(t[e])
            }
            _ => pt_rel(s, &f, &t),
        };
        let on = (0..3).any(|i| on_seg(p, t[i], t[(i + 1) % 3]));
        c.nontrivial |= on;
        c.label(if on { "on a side" } else if orient(t[0], t[1], p) == 0 && orient(t[0], t[2], p) == 0 { "beyond" } else { "beside" });
        let w = if on { L::On } else { L::Outside };
        for k in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]] {
            let tri = Triangle2::new(f.p(t[k[0]]), f.p(t[k[1]]), f.p(t[k[2]]));
            let got = locate_point_2_triangle_2(&f.p(p), &tri);
            ensure!(got == w, "{:?} against {tri:?}: {got:?}, expected {w:?}", f.fp(p));
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "non-degenerate lattice triangles in all six corner orders (and with the orientation reversed), 1-6 related points each; flat triangles of collinear or repeated corners with points on and off their line; non-trivial: a point inside, on the boundary or on an edge's extension; further stages: real: real coordinates of any sizes and places in general position, against plain formulas; signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; beside: real coordinates, points on a boundary to rounding or 3e-9..1e-6 beside it; small-scale/far-away: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("locate", 50_000, 5_000_000, locate),
            sub_check("flat", 50_000, 3_000_000, flat),
            sub_check("real", 150000, 7500000, crate::real::in_triangle),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[5], 4)),
            sub_check("unequal", 40000, 2400000, |c| crate::unequal::check(c, &[5], 4)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[5], 4)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[5], 4)),
            sub_check("rotated-hundreds", 66666, 4000000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[5], 4))),
            sub_check("beside", 300_000, 20_000_000, crate::probe::triangle),
            sub_check("beside-hundreds", 100000, 6666666, |c| crate::curve::large(c, crate::probe::triangle)),
            sub_check("small-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[5], 4, crate::nearmiss::Scale::Small)),
            sub_check("minute-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[5], 4, crate::nearmiss::Scale::Minute)),
            sub_check("far-away", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[5], 4, crate::nearmiss::Scale::Far)),
        ],
    }
}
