//! C21: the ordered tree against a sorted vector.
use super::prelude::*;
use rcgal::verif_hooks::avl_tree::{AVLTree, AVLTreeOption};
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug)]
struct Item {
    key: i64,
    tag: u32,
}
impl PartialEq for Item {
    fn eq(&self, o: &Self) -> bool {
        self.key == o.key
    }
}
impl Eq for Item {}
impl Ord for Item {
    fn cmp(&self, o: &Self) -> Ordering {
        self.key.cmp(&o.key)
    }
}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

struct Node {
    left: Option<usize>,
    right: Option<usize>,
    item: Item,
    height: i32,
}
/// Rebuilds the tree from its pre-order listing.
fn build(list: &[(usize, Item, i32, bool, bool)], at: &mut usize, depth: usize, out: &mut Vec<Node>) -> Result<usize, String> {
    let Some(&(d, item, height, l, r)) = list.get(*at) else {
        return Err("listing ends early".into());
    };
    if d != depth {
        return Err(format!("node at depth {d}, expected {depth}"));
    }
    *at += 1;
    let id = out.len();
    out.push(Node { left: None, right: None, item, height });
    if l {
        let c = build(list, at, depth + 1, out)?;
        out[id].left = Some(c);
    }
    if r {
        let c = build(list, at, depth + 1, out)?;
        out[id].right = Some(c);
    }
    Ok(id)
}
fn in_order(n: &[Node], id: usize, out: &mut Vec<(i64, u32)>) {
    if let Some(l) = n[id].left {
        in_order(n, l, out);
    }
    out.push((n[id].item.key, n[id].item.tag));
    if let Some(r) = n[id].right {
        in_order(n, r, out);
    }
}
/// Real height; checks what the nodes record and the balance.
fn shape(n: &[Node], id: usize) -> Result<i32, String> {
    let side = |c: Option<usize>| -> Result<i32, String> {
        match c {
            Some(c) => shape(n, c),
            None => Ok(-1),
        }
    };
    let (l, r) = (side(n[id].left)?, side(n[id].right)?);
    let h = 1 + l.max(r);
    if n[id].height != h {
        return Err(format!("node {} records height {}, it is {h}", n[id].item.key, n[id].height));
    }
    if (l - r).abs() > 1 {
        return Err(format!("node {} is unbalanced: subtrees of height {l} and {r}", n[id].item.key));
    }
    Ok(h)
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Ins(i64),
    Del(i64),
    Clear,
}

fn ops(s: &mut Src, max: usize) -> Vec<Op> {
    let range = s.pick(&[4i64, 2, 8, 20, 60, if max > 1000 { 50_000 } else { 1000 }]);
    let mode = s.upto(5);
    // 0 mixed, 1 ascending fill, 2 descending fill, 3 zigzag fill, then mixed; 4 grow and drain; 5 delete-heavy
    let n = s.idx(max) + 1;
    let mut v = Vec::new();
    let fill = if (1..=4).contains(&mode) { n / 2 } else { 0 };
    for i in 0..fill as i64 {
        v.push(Op::Ins(match mode {
            1 => i,
            2 => -i,
            3 => if i % 2 == 0 { i } else { -i },
            _ => s.zig(range),
        }));
    }
    let span = range.max(fill as i64);
    let mut held: Vec<i64> = v.iter().map(|o| if let Op::Ins(k) = o { *k } else { 0 }).collect();
    for _ in 0..n - fill {
        let k = if !held.is_empty() && s.chance(1, 2) { held[s.idx(held.len())] } else { s.zig(span) };
        let op = match s.weighted(&[if mode == 4 { 1 } else { 6 }, if mode >= 4 { 8 } else { 4 }]) {
            0 => Op::Ins(k),
            _ => if s.chance(1, if max > 1000 { 10_000 } else { 150 }) { Op::Clear } else { Op::Del(k) },
        };
        match op {
            Op::Ins(k) => held.push(k),
            Op::Del(k) => {
                if let Some(i) = held.iter().position(|h| *h == k) {
                    held.swap_remove(i);
                }
            }
            Op::Clear => held.clear(),
        }
        v.push(op);
    }
    v
}

fn run(c: &mut Ctx, max: usize) -> R {
    let s = &mut c.src;
    let keep = s.chance(2, 3);
    let tag_by_key = s.chance(1, 4);
    let v = ops(s, max);
    c.note(|| format!("{} {v:?}", if keep { "equal values kept:" } else { "equal values refused:" }));
    c.label(if keep { "multiset" } else { "set" });
    let mut tree = AVLTree::new(if keep { AVLTreeOption::SameNodeInsertRight } else { AVLTreeOption::DisableSameNode });
    let mut model: Vec<(i64, u32)> = Vec::new();
    let mut hits = 0;
    for (i, op) in v.iter().enumerate() {
        match *op {
            Op::Ins(k) => {
                let tag = if tag_by_key { 0 } else { i as u32 };
                tree.insert(Item { key: k, tag });
                let held = model.iter().any(|m| m.0 == k);
                if held {
                    c.label("insert of an equal value");
                }
                if keep || !held {
                    model.push((k, tag));
                }
            }
            Op::Del(k) => {
                tree.delete(Item { key: k, tag: u32::MAX });
                let equal = model.iter().filter(|m| m.0 == k).count();
                if equal > 0 {
                    hits += 1;
                    if equal > 1 {
                        c.label("delete among equal values");
                    }
                    // whichever of the equal values went is read back below
                    let now: Vec<u32> = tree.mid_order_traversal().iter().filter(|x| x.key == k).map(|x| x.tag).collect();
                    let gone = model.iter().position(|m| m.0 == k && !now.contains(&m.1)).or_else(|| model.iter().position(|m| m.0 == k));
                    model.remove(gone.unwrap());
                } else {
                    c.label("delete of an absent value");
                }
            }
            Op::Clear => {
                tree.clear();
                model.clear();
                c.label("clear");
            }
        }
        // long histories are looked at now and then
        if max > 1000 && i % 16 != 0 && i + 1 < v.len() {
            continue;
        }
        let mut want = model.clone();
        want.sort();
        let listed = tree.mid_order_traversal();
        let keys: Vec<i64> = listed.iter().map(|x| x.key).collect();
        let want_keys: Vec<i64> = want.iter().map(|m| m.0).collect();
        ensure!(keys == want_keys, "after step {i} ({op:?}) the tree lists {keys:?}, expected {want_keys:?}");
        let mut got: Vec<(i64, u32)> = listed.iter().map(|x| (x.key, x.tag)).collect();
        let order = got.clone();
        got.sort();
        ensure!(got == want, "after step {i} ({op:?}) the tree holds {got:?} (value, origin), expected {want:?}");
        // shape
        let pre: Vec<(usize, Item, i32, bool, bool)> = tree.verif_nodes();
        if pre.is_empty() {
            ensure!(model.is_empty(), "after step {i} the tree has no nodes");
            continue;
        }
        let mut nodes = Vec::new();
        let mut at = 0;
        let root = match build(&pre, &mut at, pre[0].0, &mut nodes) {
            Ok(r) => r,
            Err(e) => return fail(format!("after step {i}: {e}")),
        };
        ensure!(at == pre.len() && nodes.len() == model.len(), "after step {i} {} nodes for {} values", nodes.len(), model.len());
        let mut walk = Vec::new();
        in_order(&nodes, root, &mut walk);
        ensure!(walk == order, "after step {i} the nodes in order are {walk:?}, the listing {order:?}");
        if let Err(e) = shape(&nodes, root) {
            return fail(format!("after step {i} ({op:?}): {e}; values {keys:?}"));
        }
    }
    c.nontrivial = hits >= 2 && v.len() >= 8;
    Ok(())
}
fn short(c: &mut Ctx) -> R {
    run(c, 24)
}
fn huge(c: &mut Ctx) -> R {
    run(c, 4000)
}
fn long(c: &mut Ctx) -> R {
    run(c, 300)
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "1-300 (huge: up to 4000, examined every 16 steps) insertions, deletions and clears over key ranges of 5-2000 values with distinguishable equal values, both duplicate policies, random/ascending/descending/zigzag fills and drains; contents, recorded heights and balance checked after every operation; non-trivial: 8+ operations with 2+ deletions of a held value",
        subs: vec![sub_check("short", 60_000, 5_000_000, short), sub_check("long", 4_000, 300_000, long), sub_check("huge", 30, 2_000, huge)],
    }
}
