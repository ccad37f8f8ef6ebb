//! C16: any two curve segments, no restriction on the configuration.
use super::prelude::*;

/// Near an arc's end or a tangency the library may go either way, but it has to
/// agree with itself and return points of both.
fn run(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let (ka, kb) = (s.upto(2), s.upto(2));
    let (mut x, mut y) = if s.chance(3, 4) { pair(s, &f, ka, kb) } else { (shape(s, &f, ka), shape(s, &f, kb)) };
    if s.chance(1, 12) {
        // zero length
        if let Shape::Seg(a, _) = x {
            x = Shape::Seg(a, a);
        } else if let Shape::Seg(a, _) = y {
            y = Shape::Seg(a, a);
        }
    }
    if s.chance(1, 12) && x.kind() == y.kind() {
        y = x;
    }
    c.note(|| format!("{} and {}", x.show(&f), y.show(&f)));
    let got = inter(&f, &x, &y);
    c.label(match (x.kind(), y.kind()) {
        (0, 0) => "segment-segment",
        (0, 1) => "segment-circle",
        (0, 2) => "segment-arc",
        (1, 0) => "circle-segment",
        (1, 1) => "circle-circle",
        (1, 2) => "circle-arc",
        (2, 0) => "arc-segment",
        (2, 1) => "arc-circle",
        _ => "arc-arc",
    });
    c.nontrivial = !got.is_empty();
    ensure!(finite(&got), "{} and {}: {got:?} not finite", x.show(&f), y.show(&f));
    for p in &got {
        for sh in [&x, &y] {
            let o = off(&f, sh, *p);
            ensure!(o < 1e-7, "{p:?} is {o} off {}", sh.show(&f));
        }
    }
    let yes = pred(&f, &x, &y);
    ensure!(yes == !got.is_empty(), "{} and {}: query {yes}, points {got:?}", x.show(&f), y.show(&f));
    // exchanging the arguments: skip where a decision hangs on rounding
    let decided = common(&f, &x, &y).is_ok();
    if decided {
        let back = inter(&f, &y, &x);
        let (a, b) = (dedup_near(&got, 1e-7), dedup_near(&back, 1e-7));
        ensure!(same_set(&a, &b, 1e-7), "{} and {}: {got:?}, exchanged {back:?}", x.show(&f), y.show(&f));
        ensure!(pred(&f, &y, &x) == yes, "{} and {}: query {yes}, exchanged differs", x.show(&f), y.show(&f));
    }
    // repeated
    let again = inter(&f, &x, &y);
    ensure!(again == got && pred(&f, &x, &y) == yes, "{} and {}: {got:?}, repeated {again:?}", x.show(&f), y.show(&f));
    Ok(())
}

/// Doubles all over: self-consistency only.
fn general(c: &mut Ctx) -> R {
    use rcgal::kernel::arc_segment_2::ArcSegment2;
    use rcgal::kernel::circle_segment_2::CircleSegment2;
    use rcgal::kernel::line_segment_2::LineSegment2;
    let s = &mut c.src;
    let m = s.pick(&[1.0, 10.0, 100.0]);
    let one = |s: &mut Src| -> (Lib<f64>, String) {
        // a grid fine enough to be general, coarse enough that no pair nearly touches
        let mut v = || s.int(-1000, 1000) as f64 / 1000.0 * m;
        let p = Point2::new(v(), v());
        let mut q = Point2::new(v(), v());
        if p.distance(&q) < 1e-2 * m {
            q = Point2::new(p.x() + m, p.y());
        }
        let r = s.int(50, 1050) as f64 / 1000.0 * m;
        match s.upto(2) {
            0 => (Lib::S(LineSegment2::new(p, q)), format!("segment {p} {q}")),
            1 => (Lib::C(CircleSegment2::new(p, r)), format!("circle {p} r {r}")),
            _ => {
                let a = s.int(0, 6283) as f64 / 1000.0;
                let b = a + s.int(100, 6183) as f64 / 1000.0;
                (Lib::A(ArcSegment2::new(CircleSegment2::new(p, r), a, b)), format!("arc {p} r {r} from {a} to {b}"))
            }
        }
    };
    let (x, dx) = one(s);
    let (y, dy) = one(s);
    c.note(|| format!("{dx} and {dy}"));
    let got = xys(&lib_inter(&x, &y));
    c.nontrivial = !got.is_empty();
    ensure!(finite(&got), "{dx} and {dy}: {got:?} not finite");
    ensure!(lib_pred(&x, &y) == !got.is_empty(), "{dx} and {dy}: query {}, points {got:?}", lib_pred(&x, &y));
    let back = xys(&lib_inter(&y, &x));
    ensure!(same_set(&got, &back, 1e-6 * m), "{dx} and {dy}: {got:?}, exchanged {back:?}");
    ensure!(lib_pred(&y, &x) == lib_pred(&x, &y), "{dx} and {dy}: exchanged query differs");
    for p in &got {
        let o = beside(&x, *p).max(beside(&y, *p));
        ensure!(o < 1e-6 * m, "{dx} and {dy}: {p:?} is {o} off");
    }
    Ok(())
}
/// Distance of a point from a library curve, from the curve's own parts.
fn beside(l: &Lib<f64>, p: F2) -> f64 {
    match l {
        Lib::S(l) => {
            let (a, b) = (xy(&l.source()), xy(&l.target()));
            let d = (b.0 - a.0, b.1 - a.1);
            let t = (((p.0 - a.0) * d.0 + (p.1 - a.1) * d.1) / (d.0 * d.0 + d.1 * d.1)).clamp(0.0, 1.0);
            dist(p, (a.0 + t * d.0, a.1 + t * d.1))
        }
        Lib::C(k) => (dist(xy(&k.center()), p) - k.radius()).abs(),
        Lib::A(k) => {
            let cc = xy(&k.center());
            let phi = (p.1 - cc.1).atan2(p.0 - cc.0);
            let d = wrap(phi - k.source_radian());
            let sp = span(k.source_radian(), k.target_radian());
            let beyond = if d <= sp { 0.0 } else { (d - sp).min(TAU - d) };
            ((dist(cc, p) - k.radius()).abs()).max(beyond * k.radius())
        }
    }
}

/// The second curve is the first, but for rounding: every number differs by at most a
/// few 1e-13, as when a value was computed in another way.
fn coincident(c: &mut Ctx) -> R {
    use rcgal::kernel::arc_segment_2::ArcSegment2;
    use rcgal::kernel::circle_segment_2::CircleSegment2;
    use rcgal::kernel::line_segment_2::LineSegment2;
    let s = &mut c.src;
    let tenth = |s: &mut Src| s.int(-100, 100) as f64 / 10.0;
    let (px, py, qx, qy) = (tenth(s), tenth(s), tenth(s), tenth(s));
    let r = s.int(1, 80) as f64 / 10.0;
    let a = s.int(0, 628) as f64 / 100.0;
    let b = a + s.int(10, 628) as f64 / 100.0;
    let (ka, kb) = if s.chance(1, 4) { (0, 0) } else { (1 + s.upto(1), 1 + s.upto(1)) };
    if ka == 0 && (px - qx).hypot(py - qy) < 0.5 {
        return discard("short segment");
    }
    let mut moved = false;
    // 0, an ulp or two, or some 1e-13
    let mut by = |s: &mut Src, v: f64| -> f64 {
        let w = match s.upto(4) {
            0 | 1 => v,
            2 => v + s.zig(3) as f64 * 1e-13,
            3 => (v + 0.7) - 0.7,
            _ => v * (1.0 + s.zig(2) as f64 * f64::EPSILON),
        };
        moved |= w != v;
        w
    };
    let turn = s.zig(1) as f64 * TAU;
    let (b1, b2) = if s.chance(1, 2) { (a, b) } else { (a + s.int(0, 300) as f64 / 100.0, b) };
    let (b1, b2) = if b2 - b1 < 0.1 { (a, b) } else { (b1, b2) };
    let make = |k: u64, v: [f64; 7]| -> Lib<f64> {
        let centre = Point2::new(v[0], v[1]);
        match k {
            0 => Lib::S(LineSegment2::new(centre, Point2::new(v[2], v[3]))),
            1 => Lib::C(CircleSegment2::new(centre, v[4])),
            _ => Lib::A(ArcSegment2::new(CircleSegment2::new(centre, v[4]), v[5], v[6])),
        }
    };
    let v = [px, py, qx, qy, r, a, b];
    let w = [by(s, px), by(s, py), by(s, qx), by(s, qy), by(s, r), b1 + turn, b2 + turn];
    let (x, y) = (make(ka, v), make(kb, w));
    let tell = || format!("kinds {ka} {kb}, {v:?} and {w:?}");
    c.note(tell);
    c.label(match (ka, kb) {
        (0, _) => "segments",
        (1, 1) => "circles",
        (2, 2) => "arcs",
        _ => "circle and arc",
    });
    c.nontrivial = moved;
    for (x, y) in [(&x, &y), (&y, &x)] {
        let got = xys(&lib_inter(x, y));
        ensure!(finite(&got), "{}: {got:?} not finite", tell());
        ensure!(lib_pred(x, y) == !got.is_empty(), "{}: query {}, points {got:?}", tell(), lib_pred(x, y));
        for p in &got {
            let o = beside(x, *p).max(beside(y, *p));
            ensure!(o < 1e-6, "{}: {p:?} is {o} off", tell());
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "all nine ordered combinations of kinds, lattice pairs in related or independent positions (equal arguments, zero-length segments, tangencies included) and general doubles; non-trivial: at least one point returned; real: two of any sizes at real coordinates in general position; further stages: signed-zero: zeros written -0.0 (non-trivial: the answer is not empty, negative or zero); near-miss: lattice questions whose points are moved by a few fine units, answered in exact integers; rotated: lattice questions turned by any angle, scaled and shifted, every coordinate rounded; there every judged case counts as non-trivial, for it sits on or just beside a decision boundary (rotated: when the answer is not empty/negative/zero)",
        subs: vec![
            sub_check("lattice", 80_000, 6_000_000, run), sub_check("general", 50_000, 4_000_000, general),
            sub_check("coincident", 40_000, 3_000_000, coincident),
            sub_check("lattice-large", 40_000, 3_000_000, |c| crate::curve::large(c, run)),
            sub_check("coincident-large", 20_000, 1_500_000, |c| crate::curve::large(c, coincident)),
            sub_check("real", 300_000, 15_000_000, |c| super::p17::real_pair(c, &[0, 1, 2], &[0, 1, 2])),
            sub_check("near-miss", 40_000, 2_400_000, |c| crate::nearmiss::check(c, &[100, 101, 102, 103, 104, 105, 106, 107, 108], 4)),
            sub_check("unequal", 40000, 2400000, |c| crate::unequal::check(c, &[100, 101, 102, 103, 104, 105, 106, 107, 108], 4)),
            sub_check("rotated", 200_000, 12_000_000, |c| crate::rotated::check(c, &[100, 101, 102, 103, 104, 105, 106, 107, 108], 4)),
            sub_check("signed-zero", 100000, 6000000, |c| crate::signs::check(c, &[100, 101, 102, 103, 104, 105, 106, 107, 108], 4)),
            sub_check("rotated-hundreds", 66666, 4000000, |c| crate::curve::large(c, |c| crate::rotated::check(c, &[100, 101, 102, 103, 104, 105, 106, 107, 108], 4))),
        ],
    }
}
