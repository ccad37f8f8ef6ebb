//! C23: the priority queue against a sorted vector.
use super::prelude::*;
use rcgal::verif_hooks::priority_queue::PriorityQueue;

fn ints(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let range = s.pick(&[3i64, 1, 10, 1000]);
    let bias = s.upto(2);
    let max = if s.chance(1, 200) { 3000 } else { s.pick(&[12usize, 60, 200]) };
    let n = 1 + s.idx(max);
    let mut q = PriorityQueue::new();
    let mut model: Vec<i64> = Vec::new();
    let mut pops = 0;
    let mut drain = Vec::new();
    for i in 0..n {
        let s = &mut c.src;
        let w: [u32; 3] = [[6, 4, 1], [8, 2, 1], [4, 6, 1]][bias as usize];
        match s.weighted(&w) {
            0 => {
                let v = s.zig(range);
                c.note(|| format!("push {v}"));
                q.push(v);
                model.push(v);
                model.sort();
            }
            1 => {
                c.note(|| "pop".into());
                let got = q.pop();
                let want = model.pop();
                ensure!(got == want, "step {i}: pop gives {got:?}, expected {want:?}");
                pops += 1;
            }
            _ => {
                if s.chance(1, 4) {
                    c.note(|| "clear".into());
                    c.label("clear");
                    q.clear();
                    model.clear();
                }
            }
        }
        ensure!(q.is_empty() == model.is_empty(), "step {i}: is_empty is {} with {} elements", q.is_empty(), model.len());
    }
    while !model.is_empty() {
        let got = q.pop();
        drain.push(got);
        let want = model.pop();
        ensure!(got == want, "drained {drain:?}, expected {want:?} last");
    }
    ensure!(q.pop().is_none() && q.is_empty(), "the drained queue is not empty");
    c.nontrivial = pops >= 2 && n >= 6;
    Ok(())
}

/// A queue that keeps growing.
fn huge(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let n = s.pick(&[300usize, 1100, 2500, 5000]);
    let range = s.pick(&[20i64, 1000, 1 << 40]);
    let (ups, order) = (s.int(2, 6) as u64, s.upto(3));
    let mut q = PriorityQueue::new();
    let mut model: std::collections::BTreeMap<i64, usize> = std::collections::BTreeMap::new();
    let mut size = 0;
    let mut top = 0;
    let take = |m: &mut std::collections::BTreeMap<i64, usize>| -> Option<i64> {
        let (v, k) = m.iter_mut().next_back().map(|(v, k)| (*v, k))?;
        *k -= 1;
        if *k == 0 {
            m.remove(&v);
        }
        Some(v)
    };
    c.note(|| format!("{n} steps, a pop in {ups}, values below {range}, order {order}"));
    let s = &mut c.src;
    for i in 0..n {
        if s.upto(ups) == 0 {
            let (got, want) = (q.pop(), take(&mut model));
            ensure!(got == want, "step {i}: pop gives {got:?}, expected {want:?} of {size}");
            size -= want.is_some() as usize;
        } else {
            let v = match order {
                0 => i as i64,
                1 => -(i as i64),
                _ => s.zig(range),
            };
            q.push(v);
            *model.entry(v).or_insert(0) += 1;
            size += 1;
            top = top.max(size);
        }
        ensure!(q.is_empty() == (size == 0), "step {i}: is_empty is {} with {size} elements", q.is_empty());
    }
    c.label(if top > 1000 { "above 1000" } else { "up to 1000" });
    c.nontrivial = true;
    while let Some(want) = take(&mut model) {
        let got = q.pop();
        ensure!(got == Some(want), "draining gives {got:?}, expected {want}, {size} left");
        size -= 1;
    }
    ensure!(q.pop().is_none() && q.is_empty(), "the drained queue is not empty");
    Ok(())
}

fn points(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 500);
    let n = 1 + s.idx(30);
    let mut q = PriorityQueue::new();
    let mut model: Vec<P> = Vec::new();
    let mut pops = 0;
    // smallest x first, then smallest y
    let take = |m: &mut Vec<P>| -> Option<P> {
        let i = (0..m.len()).min_by_key(|i| m[*i])?;
        Some(m.swap_remove(i))
    };
    for i in 0..n {
        let s = &mut c.src;
        if s.chance(1, 3) {
            let got = q.pop().map(|p| xy(&p));
            let want = take(&mut model).map(|p| f.fp(p));
            c.note(|| "pop".into());
            ensure!(got == want, "step {i}: pop gives {got:?}, expected {want:?}");
            pops += 1;
        } else {
            let p = pt_rel(s, &f, &model);
            c.note(|| format!("push {:?}", f.fp(p)));
            q.push(f.p(p));
            model.push(p);
        }
        ensure!(q.is_empty() == model.is_empty(), "step {i}: is_empty is {}", q.is_empty());
    }
    c.nontrivial = pops >= 1 && model.len() >= 3;
    while !model.is_empty() {
        let got = q.pop().map(|p| xy(&p));
        let want = take(&mut model).map(|p| f.fp(p));
        ensure!(got == want, "draining gives {got:?}, expected {want:?}");
    }
    ensure!(q.pop().is_none() && q.is_empty(), "the drained queue is not empty");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "1-200 pushes, pops, clears over integers with repetitions, and up to 30 over lattice points sharing coordinates, drained at the end, and queues growing over up to 5000 steps; non-trivial: 6+ steps with 2+ pops, or 1+ pop and 3+ points left to drain",
        subs: vec![sub_check("ints", 50_000, 4_000_000, ints), sub_check("points", 30_000, 3_000_000, points), sub_check("huge", 300, 20_000, huge)],
    }
}
