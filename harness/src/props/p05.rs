//! C05: point against line segment.
use super::prelude::*;
use rcgal::algorithm::location::location_enum::Point2Segment2Location as L;
use rcgal::algorithm::location::point_2_line_segment_2::*;
use rcgal::kernel::line_segment_2::LineSegment2;

pub fn want(p: P, a: P, b: P) -> L {
    if on_seg(p, a, b) {
        return L::On;
    }
    match orient(a, b, p).signum() {
        1 => L::Left,
        -1 => L::Right,
        _ => L::Collinear,
    }
}
pub fn swap(l: L) -> L {
    match l {
        L::Left => L::Right,
        L::Right => L::Left,
        o => o,
    }
}

fn check(p: &Point2<f64>, s: &LineSegment2<f64>, want: L) -> R {
    let got = locate_point_2_line_segment_2(p, s);
    ensure!(got == want, "{p} against {:?}-{:?}: {got:?}, expected {want:?}", s.source(), s.target());
    let on = is_point_2_on_line_segment_2(p, s);
    ensure!(on == (want == L::On), "{p} on {:?}-{:?}: {on}, located {want:?}", s.source(), s.target());
    let r = LineSegment2::new(s.target(), s.source());
    let got = locate_point_2_line_segment_2(p, &r);
    ensure!(got == swap(want), "{p} against the reversed segment {:?}-{:?}: {got:?}, expected {:?}", r.source(), r.target(), swap(want));
    ensure!(is_point_2_on_line_segment_2(p, &r) == (want == L::On), "{p} on the reversed segment");
    Ok(())
}

fn exact(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 1000);
    let a = pt(s, &f);
    let b = pt_rel(s, &f, &[a]);
    let mut prev = vec![a, b];
    let m = 1 + s.idx(4);
    c.note(|| format!("segment {:?} {:?}", f.fp(a), f.fp(b)));
    if a == b {
        c.label("zero length");
    }
    c.nontrivial = a != b;
    for _ in 0..m {
        let s = &mut c.src;
        let p = if s.chance(1, 6) {
            // off the line by the smallest lattice step
            let q = pt_rel(s, &f, &[a, b]);
            (q.0 + s.zig(1), q.1 + s.zig(1))
        } else {
            pt_rel(s, &f, &prev)
        };
        prev.push(p);
        let w = want(p, a, b);
        c.note(|| format!("point {:?}", f.fp(p)));
        c.label(match w {
            L::On => if p == a || p == b { "on an end" } else { "on the segment" },
            L::Left => "left",
            L::Right => "right",
            L::Collinear => "beyond an end",
        });
        check(&f.p(p), &f.seg(a, b), w)?;
    }
    Ok(())
}

/// Points computed along and beside the segment in f64.
fn rounded(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let m = s.pick(&[1.0, 10.0, 50.0]);
    let mut v = || if s.chance(1, 3) { s.zig(10) as f64 / 10.0 * m } else { (s.f01() * 2.0 - 1.0) * m };
    let (ax, ay, bx, by) = (v(), v(), v(), v());
    let len = (bx - ax).hypot(by - ay);
    c.note(|| format!("segment ({ax}, {ay}) ({bx}, {by})"));
    if len < 1e-2 {
        return discard("short segment");
    }
    let (dx, dy) = (bx - ax, by - ay);
    let s = &mut c.src;
    let (t, w) = match s.upto(4) {
        0 => (s.f01(), L::On),
        1 => (s.pick(&[1.0, 0.0, 0.5, 1.0 / 3.0, 0.1, 0.9]), L::On),
        2 => (1.0 + (1e-3 + s.f01()) / 2.0, L::Collinear),
        3 => (-(1e-3 + s.f01()) / 2.0, L::Collinear),
        _ => (s.f01() * 2.0 - 0.5, if s.chance(1, 2) { L::Left } else { L::Right }),
    };
    let (mut px, mut py) = if t == 1.0 && s.chance(1, 2) { (bx, by) } else { (ax + dx * t, ay + dy * t) };
    if w == L::Left || w == L::Right {
        // offset perpendicular so that the cross product is well above the tolerance
        let k = s.pick(&[1e-8, 1e-6, 1e-3, 1.0]) * (1.0 + s.f01()) / len.min(1.0) / len;
        let k = if w == L::Left { k } else { -k };
        px -= dy * k;
        py += dx * k;
    }
    c.nontrivial = true;
    c.note(|| format!("point ({px}, {py}) expected {w:?}"));
    c.label(match w {
        L::On => "on",
        L::Collinear => "beyond",
        _ => "beside",
    });
    check(&Point2::new(px, py), &LineSegment2::new(Point2::new(ax, ay), Point2::new(bx, by)), w)
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "lattice segments (zero length included) with related points, and doubles with points computed along or beside the segment; non-trivial: positive length; further stages: real: real coordinates of any sizes and places in general position, against plain formulas; signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; beside: real coordinates, points on a boundary to rounding or 3e-9..1e-6 beside it; small-scale/far-away: the same at other magnitudes; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("exact", 60_000, 5_000_000, exact),
            sub_check("rounded", 60_000, 4_000_000, rounded),
            sub_check("real", 150000, 7500000, crate::real::segments),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[4], 4)),
            sub_check("unequal", 40000, 2400000, |c| crate::unequal::check(c, &[4], 4)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[4], 4)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[4], 4)),
            sub_check("rotated-hundreds", 66666, 4000000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[4], 4))),
            sub_check("beside", 300_000, 20_000_000, crate::probe::segment),
            sub_check("beside-hundreds", 100000, 6666666, |c| crate::curve::large(c, crate::probe::segment)),
            sub_check("small-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[4], 4, crate::nearmiss::Scale::Small)),
            sub_check("minute-scale", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[4], 4, crate::nearmiss::Scale::Minute)),
            sub_check("far-away", 20000, 1200000, |c| crate::nearmiss::scaled(c, &[4], 4, crate::nearmiss::Scale::Far)),
        ],
    }
}
