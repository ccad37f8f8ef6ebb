//! C09: monotone pieces.
use super::prelude::*;
use rcgal::algorithm::location::point_2_arc_segment_2::is_point_2_on_arc_segment_2;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use std::f64::consts::PI;

fn check_pieces(c: &mut Ctx, pieces: &[ArcSegment2<f64>], ctr: F2, r: f64, a: f64, sp: f64) -> R {
    let at = |phi: f64| (ctr.0 + r * phi.cos(), ctr.1 + r * phi.sin());
    let size = ctr.0.abs() + ctr.1.abs() + r;
    let tol = 1e-11 * size.max(1.0);
    ensure!(!pieces.is_empty(), "no pieces");
    ensure!(pieces.len() <= 3, "{} pieces: {pieces:?}", pieces.len());
    let mut total = 0.0;
    let mut here = a;
    for (i, p) in pieces.iter().enumerate() {
        ensure!(xy(&p.center()) == ctr && p.radius() == r, "piece {i} on another circle: {p:?}");
        let (s, t) = (p.source_radian(), p.target_radian());
        let l = span(s, t);
        ensure!(near(xy(&p.source()), at(here), tol), "piece {i} starts at {:?}, expected {:?}; pieces {pieces:?}", p.source(), at(here));
        ensure!(near(xy(&p.target()), at(t), tol), "piece {i} target {:?}", p.target());
        total += l;
        here = t;
        // within the upper or the lower half
        let mid = s + l / 2.0;
        let up = mid.sin() > 0.0;
        ensure!(l <= PI + 1e-9, "piece {i} spans {l}: {p:?}");
        for phi in [s, t] {
            let y = phi.sin();
            ensure!(if up { y > -1e-9 } else { y < 1e-9 }, "piece {i} leaves its half: {p:?}");
        }
        if l > 2e-9 {
            ensure!(p.is_top() == up, "piece {i} is_top {}: {p:?}", p.is_top());
        }
    }
    ensure!((total - sp).abs() < 1e-9, "pieces span {total}, the arc {sp}: {pieces:?}");
    ensure!(near(at(here), at(a + sp), tol), "last piece ends at {:?}, expected {:?}", at(here), at(a + sp));
    // sampled membership through the library's own location
    let m = 1 + c.src.idx(5);
    for _ in 0..m {
        let s = &mut c.src;
        let phi = match s.upto(4) {
            0 => a + sp * s.f01(),
            1 => a + sp + (TAU - sp) * s.f01(),
            2 => s.int(0, 8) as f64 * (PI / 4.0),
            3 => a,
            _ => a + sp,
        };
        let want = match covers(a, a + sp, phi, 1e-12) {
            Cover::Inside | Cover::End => true,
            Cover::Outside => false,
            Cover::Unsure => continue,
        };
        let q = at(phi);
        let q = Point2::new(q.0, q.1);
        let n = pieces.iter().filter(|p| is_point_2_on_arc_segment_2(&q, *p)).count();
        ensure!((n > 0) == want, "the point at angle {phi} is on {n} pieces, on the arc: {want}; pieces {pieces:?}");
        // shared only at the joints
        let joint = pieces.iter().any(|p| near(xy(&p.source()), xy(&q), 1e-6 * size) || near(xy(&p.target()), xy(&q), 1e-6 * size));
        ensure!(n <= 1 || joint, "the point at angle {phi} is on {n} pieces: {pieces:?}");
    }
    Ok(())
}

fn arc_case(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let ctr = pt(s, &f);
    let ctr = f.fp(ctr);
    let r = radius(s, &f) as f64 * f.unit();
    let a = angle(s, false) - if s.chance(1, 4) { TAU } else { 0.0 } + if s.chance(1, 6) { TAU } else { 0.0 };
    let fine = |s: &mut Src, lo: f64| lo * (1e-2 / lo).powf(s.f01());
    let mut a = a;
    let mut sp = match s.upto(6) {
        0 => s.int(1, 24) as f64 * (PI / 12.0),
        1 => 1e-3 + s.f01() * (TAU - 2e-3),
        2 => PI,
        3 => TAU,
        4 => 1e-3 + s.f01() * 0.2,
        // hardly any span
        5 => fine(s, 1e-7),
        // an end hardly past or short of a half turn
        _ => {
            let (k, n) = (s.int(-2, 4) as f64, s.int(1, 2) as f64);
            let (by, at) = (fine(s, 3e-9), s.f01());
            let by = if s.chance(1, 2) { -by } else { by };
            if s.chance(1, 2) {
                a = k * PI + by;
                (n - at) * PI
            } else {
                a = k * PI - (n - 1.0 + at) * PI;
                k * PI + by - a
            }
        }
    };
    if sp < 1e-7 || sp > TAU - 1e-3 && sp != TAU {
        sp = TAU;
    }
    let mut b = a + sp;
    if s.chance(1, 3) {
        b -= TAU; // target below source
        if sp > TAU - 1e-9 {
            b = a + TAU;
        }
    }
    // an end on a half turn computed in another way differs in the last digits
    let ulps = |s: &mut Src, x: f64| {
        let k = (x / PI).round();
        if k == 0.0 || (x - k * PI).abs() > 1e-12 || !s.chance(1, 3) { x } else { f64::from_bits((x.to_bits() as i64 + s.int(-3, 3)) as u64) }
    };
    let (a, b) = (ulps(s, a), ulps(s, b));
    // away from piece boundaries unless exactly there
    for e in [a, b] {
        let d = wrap(e) / PI;
        let d = (d - d.round()).abs() * PI;
        if d > 1e-12 && d < 2e-9 {
            return discard("too close to a half turn");
        }
    }
    c.note(|| format!("arc {ctr:?} r {r} from {a} to {b}"));
    let steps = ((wrap(a) + sp - 1e-9) / PI).floor();
    c.label(match steps as i64 {
        0 => "one piece",
        1 => "two pieces",
        _ => "three pieces",
    });
    if wrap(a) + sp > TAU + 1e-9 {
        c.label("crosses the zero angle");
    }
    c.nontrivial = steps >= 1.0;
    let arc = ArcSegment2::new(CircleSegment2::new(Point2::new(ctr.0, ctr.1), r), a, b);
    // must finish: the same call on the counting number type
    {
        use crate::fuel::Num;
        crate::fuel::reset(20_000);
        let n = |v: f64| Num(v);
        let k = ArcSegment2::new(CircleSegment2::new(Point2::new(n(ctr.0), n(ctr.1)), n(r)), n(a), n(b)).monotone().len();
        crate::fuel::reset(u64::MAX);
        ensure!(k >= 1, "no pieces");
    }
    let pieces = arc.monotone();
    check_pieces(c, &pieces, ctr, r, a, sp)
}

fn circle_case(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let ctr = pt(s, &f);
    let ctr = f.fp(ctr);
    let r = radius(s, &f) as f64 * f.unit();
    c.note(|| format!("circle {ctr:?} r {r}"));
    c.nontrivial = true;
    let pieces = CircleSegment2::new(Point2::new(ctr.0, ctr.1), r).monotone();
    ensure!(!pieces.is_empty(), "no pieces");
    // a circle may be cut starting at either extreme
    let a = pieces[0].source_radian();
    check_pieces(c, &pieces, ctr, r, a, TAU)
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "arcs from -2pi to 4pi with spans from 1e-7 to a full turn (multiples of pi/12, anywhere, ends 3e-9 to 1e-2 beside a half turn, target given above or below the source), circles; non-trivial: an arc of at least two pieces, all circles; signed-zero: zeros written -0.0, same answer",
        subs: vec![sub_check("arc", 60_000, 4_000_000, arc_case), sub_check("circle", 5_000, 200_000, circle_case), sub_check("arc-large", 20_000, 1_200_000, |c| crate::curve::large(c, arc_case)), sub_check("circle-large", 2_000, 100_000, |c| large(c, circle_case)), sub_check("signed-zero", 60_000, 3_600_000, |c| crate::signs::check(c, &[21], 4))],
    }
}
