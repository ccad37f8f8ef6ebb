//! C28: histories on one sweep object.
use super::p17::*;
use super::prelude::*;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;

fn same_list(a: &[F2], b: &[F2]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(p, q)| near(*p, *q, 1e-9))
}

fn history(c: &mut Ctx) -> R {
    run(c, 12)
}
fn long(c: &mut Ctx) -> R {
    run(c, 50)
}
fn run(c: &mut Ctx, most: usize) -> R {
    let s = &mut c.src;
    let curves = s.chance(2, 3);
    let f = if curves {
        curve_frame(s)
    } else {
        let mut f = frame(s, 500);
        f.k = f.k.min(3);
        f
    };
    let kinds: Vec<u64> = if curves { s.pick(&[vec![0u64, 1, 2], vec![0, 2], vec![1, 2]]) } else { vec![0] };
    let steps = 3 + s.idx(most);
    let mut sw = SweepSegment2Intersection::<f64>::new();
    let mut m: Vec<Shape> = Vec::new();
    let (mut asks, mut pushed_after, mut changed) = (0, false, false);
    let mut last: Option<Vec<F2>> = None;
    for i in 0..steps {
        let s = &mut c.src;
        if i + 1 < steps && (m.is_empty() && s.chance(7, 8) || s.chance(3, 5)) {
            let mut x = member(s, &f, &m, &kinds);
            if s.chance(1, 12) {
                if let Shape::Seg(a, b) = x {
                    // a single point, of this member or of an earlier one
                    let p = match m.last() {
                        Some(Shape::Seg(c, _)) if s.chance(1, 2) => *c,
                        _ => a,
                    };
                    x = if s.chance(1, 2) { Shape::Seg(p, p) } else { Shape::Seg(b, b) };
                }
            }
            c.note(|| format!("add {}", x.show(&f)));
            push(&mut sw, &f, &x);
            m.push(x);
            pushed_after |= asks > 0;
        } else {
            c.note(|| "ask".into());
            asks += 1;
            let got = xys(&sw.intersection());
            let fresh = sweep_of(&f, &m);
            ensure!(same_list(&got, &fresh), "question {asks} is answered {got:?}, a fresh sweep answers {fresh:?}; members {}", show_members(&f, &m));
            if let Some(l) = &last {
                changed |= !same_list(l, &got);
            }
            last = Some(got);
        }
    }
    if pushed_after {
        c.label("members added after asking");
    }
    if changed {
        c.label("answer changed between questions");
    }
    c.nontrivial = asks >= 2 && last.map_or(false, |l| !l.is_empty());
    Ok(())
}

/// Real coordinates, members like earlier ones but for a small difference, so that something
/// kept from before and recognised roughly would be used.
fn real(c: &mut Ctx) -> R {
    use rcgal::kernel::arc_segment_2::ArcSegment2;
    use rcgal::kernel::circle_segment_2::CircleSegment2;
    use rcgal::kernel::line_segment_2::LineSegment2;
    let s = &mut c.src;
    let size = s.pick(&[1.0, 10.0, 300.0]);
    let steps = 4 + s.idx(14);
    // (kind, four numbers): two points, or centre, radius; an arc's angles besides
    let mut m: Vec<(u64, [f64; 6])> = Vec::new();
    let add = |w: &mut SweepSegment2Intersection<f64>, (k, v): &(u64, [f64; 6])| {
        let a = Point2::new(v[0], v[1]);
        match k {
            0 => w.push_segment(&LineSegment2::new(a, Point2::new(v[2], v[3]))),
            1 => w.push_segment(&CircleSegment2::new(a, v[2])),
            _ => w.push_segment(&ArcSegment2::new(CircleSegment2::new(a, v[2]), v[4], v[5])),
        }
    };
    let mut sw = SweepSegment2Intersection::<f64>::new();
    let (mut asks, mut after) = (0, false);
    let mut full = false;
    for i in 0..steps {
        let s = &mut c.src;
        if i + 1 < steps && (m.is_empty() || s.chance(3, 5)) {
            let mut v = [0.0; 6];
            let mut k = s.pick(&[0u64, 0, 0, 1, 2]);
            let known = if m.is_empty() { None } else { Some(m[s.idx(m.len())]) };
            match known {
                Some((k0, v0)) if s.chance(1, 2) => {
                    k = k0;
                    v = v0;
                    let d = s.pick(&[1e-3, 1e-4, 0.1]) * size;
                    match s.upto(2) {
                        // one end, the radius or one angle; a little further on as a whole; the other way round
                        0 => {
                            let j = if k == 2 && s.chance(1, 2) { 4 + s.idx(2) } else { 2 };
                            v[j] += if j == 2 { d } else { 0.05 };
                        }
                        1 => {
                            v[0] += d;
                            if k == 0 {
                                v[2] += d * 2.0;
                                v[3] -= d;
                            }
                        }
                        _ => {
                            v[1] -= d;
                            if k == 0 {
                                v.swap(0, 2);
                                v.swap(1, 3);
                                v[0] += d;
                            }
                        }
                    }
                }
                _ => {
                    for x in v.iter_mut().take(4) {
                        *x = (s.f01() * 2.0 - 1.0) * size;
                    }
                    if k > 0 {
                        v[2] = (0.05 + s.f01()) * size;
                    }
                    v[4] = s.f01() * 6.28;
                    v[5] = v[4] + 0.3 + s.f01() * 5.0;
                }
            }
            c.note(|| format!("add {}", match k {
                0 => format!("line segment {:?}", &v[..4]),
                1 => format!("circle {:?}", &v[..3]),
                _ => format!("arc {:?} {:?}", &v[..3], &v[4..]),
            }));
            add(&mut sw, &(k, v));
            m.push((k, v));
            after |= asks > 0;
        } else {
            c.note(|| "ask".into());
            asks += 1;
            let got = xys(&sw.intersection());
            let mut w = SweepSegment2Intersection::<f64>::new();
            m.iter().for_each(|x| add(&mut w, x));
            let fresh = xys(&w.intersection());
            full = !got.is_empty();
            // points closer than this may be one or two
            let clear = (0..fresh.len()).all(|i| (0..i).all(|j| !near(fresh[i], fresh[j], 1e-7 * (1.0 + size))));
            if !clear {
                return discard("two points nearly coincide");
            }
            ensure!(got.len() == fresh.len() && got.iter().zip(&fresh).all(|(p, q)| near(*p, *q, 1e-9 * (1.0 + size))), "question {asks} is answered {got:?}, a fresh sweep answers {fresh:?}");
        }
    }
    if after {
        c.label("members added after asking");
    }
    c.nontrivial = asks >= 2 && full;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "3-14 (long: 3-52) steps adding a (mostly related) segment, circle or arc or asking for the intersections on one object, every answer compared with a fresh sweep over the same members; real: real coordinates, members that differ from earlier ones by little; non-trivial: 2+ questions, the last with a non-empty answer",
        subs: vec![sub_check("history", 30_000, 2_500_000, history), sub_check("long", 300, 20_000, long), sub_check("real", 12_000, 900_000, real), sub_check("large", 10_000, 800_000, |c| crate::curve::large(c, history))],
    }
}
