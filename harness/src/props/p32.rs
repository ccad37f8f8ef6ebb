//! C32: an answer is a function of the arguments alone.
use super::prelude::*;
use crate::battery::*;
use std::collections::BTreeSet;

type Ask = (Frame, Q, bool);

/// The answer down to the last bit, or the refusal.
fn ask(a: &Ask) -> String {
    let (f, q, single) = a;
    match refused(|| if *single { run::<f32>(f, q) } else { run::<f64>(f, q) }) {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("panic: {e}"),
    }
}

fn spots<'a>(x: &'a mut Shape, points: &mut Vec<&'a mut P>, radii: &mut Vec<&'a mut i64>, angles: &mut Vec<&'a mut f64>) {
    match x {
        Shape::Seg(a, b) => points.extend([a, b]),
        Shape::Circle(c, r) => {
            points.push(c);
            radii.push(r);
        }
        Shape::Arc(c, r, a, b) => {
            points.push(c);
            radii.push(r);
            angles.extend([a, b]);
        }
    }
}
/// Almost the same question: one point moved or two exchanged, one radius or angle changed,
/// a list turned round or started elsewhere.  Something kept from the last question and
/// recognised by a part of it would be used.
fn variant(s: &mut Src, q: &Q) -> Option<Q> {
    let mut n = q.clone();
    if let Q::Polygon(v, _) | Q::Simple(v) | Q::Earcut(v) | Q::Hull(v) | Q::PolyLoc(_, v) = &mut n {
        if v.len() > 1 && s.chance(1, 3) {
            if s.chance(1, 2) {
                v.reverse();
            } else {
                let k = s.idx(v.len());
                v.rotate_left(k);
            }
            return Some(n);
        }
    }
    if let Q::Sweep(v) = &mut n {
        if v.len() > 1 && s.chance(1, 3) {
            if s.chance(1, 2) {
                v.reverse();
            } else {
                v.pop();
            }
            return Some(n);
        }
    }
    if let (Q::Pair(a, b), true) = (&n, s.chance(1, 4)) {
        return Some(Q::Pair(*b, *a));
    }
    let (mut points, mut radii, mut angles): (Vec<&mut P>, Vec<&mut i64>, Vec<&mut f64>) = (vec![], vec![], vec![]);
    match &mut n {
        Q::Turn(a, b, c) | Q::Triangle(a, b, c) | Q::SegLoc(a, b, c) | Q::LineLoc(a, b, c) | Q::RayLoc(a, b, c) | Q::ProjLine(a, b, c) | Q::ProjSeg(a, b, c) => points.extend([a, b, c]),
        Q::TriLoc(a, b, c, d) | Q::LineLine(a, b, c, d) | Q::LineRay(a, b, c, d) | Q::SegRay(a, b, c, d) => points.extend([a, b, c, d]),
        Q::Polygon(v, _) | Q::Simple(v) | Q::Earcut(v) | Q::Hull(v) => points.extend(v.iter_mut()),
        Q::PolyLoc(p, v) => {
            points.push(p);
            points.extend(v.iter_mut());
        }
        Q::CircleLoc(p, c, r) => {
            points.extend([p, c]);
            radii.push(r);
        }
        Q::ArcLoc(p, x) => {
            points.push(p);
            spots(x, &mut points, &mut radii, &mut angles);
        }
        Q::Pair(a, b) => {
            spots(a, &mut points, &mut radii, &mut angles);
            spots(b, &mut points, &mut radii, &mut angles);
        }
        Q::Sweep(v) => v.iter_mut().for_each(|x| spots(x, &mut points, &mut radii, &mut angles)),
        Q::Pieces(x) => spots(x, &mut points, &mut radii, &mut angles),
        Q::Vectors(a, b) | Q::Order(a, b) => points.extend([a, b]),
    }
    match s.upto(3) {
        0 if !radii.is_empty() => {
            let k = s.idx(radii.len());
            let r: &mut i64 = &mut *radii[k];
            *r = if *r > 1 && s.chance(1, 2) { *r - 1 } else { *r + 1 };
        }
        1 if !angles.is_empty() => {
            let k = s.idx(angles.len());
            *angles[k] += if s.chance(1, 2) { 0.5 } else { -0.25 };
        }
        2 if points.len() > 1 => {
            let (i, j) = (s.idx(points.len()), s.idx(points.len()));
            let (a, b) = (*points[i], *points[j]);
            *points[i] = b;
            *points[j] = a;
        }
        _ => {
            if points.is_empty() {
                return None;
            }
            let k = s.idx(points.len());
            let d = s.pick(&[(1, 0), (0, 1), (-1, 0), (0, -1)]);
            *points[k] = add(*points[k], d);
        }
    }
    // lines through one point and rays without a direction are no questions
    let fine = match &n {
        Q::LineLoc(_, a, b) | Q::ProjLine(_, a, b) => a != b,
        Q::LineLine(a, b, c, d) => a != b && c != d,
        Q::RayLoc(_, _, d) => *d != (0, 0),
        Q::LineRay(a, b, _, d) | Q::SegRay(a, b, _, d) => a != b && *d != (0, 0),
        Q::ProjSeg(_, a, b) => a != b,
        _ => true,
    };
    fine.then_some(n)
}

fn pool(s: &mut Src, n: usize, max_n: usize) -> Result<Vec<Ask>, Stop> {
    let mut v: Vec<Ask> = Vec::new();
    for _ in 0..n {
        let near = match v.last() {
            Some((f, q, single)) if s.chance(1, 3) => variant(s, q).map(|n| (*f, n, *single)),
            _ => None,
        };
        if let Some((f, q, single)) = near {
            if decided(&f, &q).is_ok() {
                v.push((f, q, single));
            }
            continue;
        }
        let single = s.chance(1, 5);
        let (f, q) = match v.last() {
            // the same kind again, so that something kept from the last one would be used
            Some((_, last, _)) if s.chance(1, 3) => {
                let want = label(last);
                let mut found = None;
                for _ in 0..4 {
                    let x = question(s, if single { Which::Exact } else { Which::All }, max_n);
                    if label(&x.1) == want {
                        found = Some(x);
                        break;
                    }
                    found.get_or_insert(x);
                }
                found.unwrap()
            }
            _ => question(s, if single { Which::Exact } else { Which::All }, max_n),
        };
        if decided(&f, &q).is_err() {
            continue;
        }
        v.push((f, q, single));
    }
    if v.len() < 2 {
        return discard("too few questions left");
    }
    Ok(v)
}

fn notes(c: &mut Ctx, v: &[Ask]) {
    for (i, (f, q, single)) in v.iter().enumerate() {
        c.note(|| format!("question {i}{}: {}", if *single { " in 32 bits" } else { "" }, show(f, q)));
        c.label(label(q));
    }
}

/// Interleaved on one thread.
fn history(c: &mut Ctx) -> R {
    asked(c, 10)
}
fn larger(c: &mut Ctx) -> R {
    asked(c, 80)
}
fn asked(c: &mut Ctx, most: usize) -> R {
    let s = &mut c.src;
    let n = 2 + s.idx(4);
    let v = pool(s, n, most)?;
    let order: Vec<usize> = (0..6 + s.idx(10)).map(|_| s.idx(v.len())).collect();
    notes(c, &v);
    c.note(|| format!("asked in the order {order:?}"));
    let mut first: Vec<Option<String>> = vec![None; v.len()];
    let (mut again, mut between) = (0, false);
    for (step, i) in order.iter().enumerate() {
        let got = ask(&v[*i]);
        match &first[*i] {
            None => first[*i] = Some(got),
            Some(w) => {
                again += 1;
                between |= order[step - 1] != *i;
                ensure!(*w == got, "question {i} ({}) is answered {got} at step {step}, {w} before", show(&v[*i].0, &v[*i].1));
            }
        }
    }
    let kinds: BTreeSet<&String> = first.iter().flatten().collect();
    c.nontrivial = again >= 2 && between && kinds.len() >= 2;
    Ok(())
}

/// Asked by several threads at once, each in its own order, and by a thread that asks nothing else.
fn threads(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let n = 2 + s.idx(4);
    let v = pool(s, n, 16)?;
    let orders: Vec<Vec<usize>> = (0..2 + s.idx(3))
        .map(|_| {
            let mut o = s.perm(v.len());
            o.extend(s.perm(v.len()));
            o
        })
        .collect();
    notes(c, &v);
    c.note(|| format!("orders {orders:?}"));
    let alone: Vec<String> = v.iter().map(|q| std::thread::scope(|t| t.spawn(|| ask(q)).join().unwrap())).collect();
    let gate = std::sync::Barrier::new(orders.len());
    let (gate, v) = (&gate, &v);
    let got: Vec<Vec<String>> = std::thread::scope(|t| {
        let h: Vec<_> = orders
            .iter()
            .map(|o| {
                t.spawn(move || {
                    gate.wait();
                    o.iter().map(|i| ask(&v[*i])).collect::<Vec<_>>()
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (k, (o, g)) in orders.iter().zip(&got).enumerate() {
        for (i, a) in o.iter().zip(g) {
            ensure!(*a == alone[*i], "thread {k}: question {i} ({}) is answered {a}, alone {}", show(&v[*i].0, &v[*i].1), alone[*i]);
        }
    }
    let kinds: BTreeSet<&String> = alone.iter().collect();
    c.nontrivial = kinds.len() >= 2;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C32",
        rule: "2-5 questions of 23 kinds (a fifth of them in 32-bit numbers, a third of the same kind as the one before, a third the one before with one point, radius or angle changed, two points exchanged or a list rearranged); larger: with polygons and point sets of up to 80; history: 6-15 questions drawn from them, every repetition compared bit for bit with the first answer; threads: each asked alone on a fresh thread, then all of them twice by 2-4 threads at once, each in its own order; non-trivial: two or more different answers, and in a history two repetitions with another question in between",
        subs: vec![sub_check("history", 12_000, 1_000_000, history), sub_check("larger", 1_500, 100_000, larger), sub_check("threads", 1_500, 100_000, threads)],
    }
}
