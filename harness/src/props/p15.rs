//! C15: circles and arcs against each other.
use super::p14::check_pair;
use super::prelude::*;

fn run(c: &mut Ctx, ka: u64, kb: u64) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let (x, y) = pair(s, &f, ka, kb);
    c.note(|| format!("{} and {}", x.show(&f), y.show(&f)));
    let want = common(&f, &x, &y)?;
    let ((c1, r1), (c2, r2)) = (x.circle().unwrap(), y.circle().unwrap());
    let d = sub(c2, c1);
    let dd = dot(d, d);
    let (sm, df) = (((r1 + r2) as i128).pow(2), ((r1 - r2) as i128).pow(2));
    c.label(if dd == 0 && r1 == r2 {
        "same circle"
    } else if dd == 0 {
        "concentric"
    } else if dd > sm {
        "apart"
    } else if dd < df {
        "nested"
    } else if dd == sm {
        "tangent outside"
    } else if dd == df {
        "tangent inside"
    } else {
        "crossing"
    });
    c.label(match want.len() {
        0 => "0 points",
        1 => "1 point",
        2 => "2 points",
        _ => "3+ points",
    });
    c.nontrivial = (dd >= df && dd <= sm && dd > 0) || !want.is_empty();
    check_pair(&f, &x, &y, &want)?;
    Ok(())
}
fn cc(c: &mut Ctx) -> R {
    run(c, 1, 1)
}
fn ca(c: &mut Ctx) -> R {
    run(c, 1, 2)
}
fn aa(c: &mut Ctx) -> R {
    run(c, 2, 2)
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "lattice circle/circle, circle/arc and arc/arc pairs: apart, nested, tangent inside and outside (axis and 3-4-5 directions), crossing in lattice points, concentric, on the same circle; exact integer case analysis; non-trivial: the circles meet or points are expected; real: two of any sizes at real coordinates in general position; further stages: signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; beside: real coordinates, points on a boundary to rounding or 3e-9..1e-6 beside it; arc-end: crossings placed on or just beside an arc's end; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("circle-circle", 40_000, 3_000_000, cc),
            sub_check("circle-arc", 50_000, 4_000_000, ca),
            sub_check("arc-arc", 60_000, 5_000_000, aa),
            sub_check("circle-circle-large", 20_000, 1_500_000, |c| crate::curve::large(c, cc)),
            sub_check("circle-arc-large", 20_000, 1_500_000, |c| crate::curve::large(c, ca)),
            sub_check("arc-arc-large", 20_000, 1_500_000, |c| crate::curve::large(c, aa)),
            sub_check("real", 300_000, 15_000_000, |c| super::p17::real_pair(c, &[1, 2], &[1, 2])),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[104, 105, 107, 108], 4)),
            sub_check("unequal", 40000, 2400000, |c| crate::unequal::check(c, &[104, 105, 107, 108], 4)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[104, 105, 107, 108], 4)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[104, 105, 107, 108], 4)),
            sub_check("rotated-hundreds", 66666, 4000000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[104, 105, 107, 108], 4))),
            sub_check("beside", 300_000, 20_000_000, crate::probe::circles),
            sub_check("beside-hundreds", 100000, 6666666, |c| crate::curve::large(c, crate::probe::circles)),
            sub_check("arc-end", 300_000, 20_000_000, |c| crate::probe::arc_end(c, true)),
            sub_check("arc-end-hundreds", 100000, 6666666, |c| crate::curve::large(c, |c| crate::probe::arc_end(c, true))),
        ],
    }
}
