//! C22: the circular list against a vector.
use super::prelude::*;
use rcgal::verif_hooks::circular_doubly_linked_list::{CircularDoubleLinkedList, ListNode};
use std::cell::RefCell;
use std::rc::Rc;

type N = Rc<RefCell<ListNode<u32>>>;

/// One edit history, always continued on the same list; broken up at the end so
/// that no reference cycle stays behind.
fn run(c: &mut Ctx, max: usize) -> R {
    let mut list = CircularDoubleLinkedList::new();
    let mut all: Vec<N> = Vec::new();
    let r = history(c, max, &mut list, &mut all);
    for n in &all {
        n.borrow_mut().next = None;
        n.borrow_mut().prev = None;
    }
    r
}

fn history(c: &mut Ctx, max: usize, list: &mut CircularDoubleLinkedList<u32>, all: &mut Vec<N>) -> R {
    let mut model: Vec<(N, u32)> = Vec::new();
    let steps = c.src.idx(max) + 1;
    let style = c.src.upto(3);
    let (mut dels, mut refilled, mut next_data) = (0, false, 0u32);
    for i in 0..steps {
        let s = &mut c.src;
        let n = model.len();
        let del = n > 0
            && match style {
                0 => s.chance(2, 5),
                1 => s.chance(1, 5),
                2 => s.chance(1, 2),
                _ => s.chance(if (i / 12) % 2 == 0 { 1 } else { 9 }, 10),
            };
        if del {
            let j = match s.upto(3) {
                0 => 0,
                1 => n - 1,
                _ => s.idx(n),
            };
            c.note(|| format!("delete #{j} of {n}"));
            c.label(if n == 1 {
                "delete the only element"
            } else if j == 0 {
                "delete the head"
            } else if j == n - 1 {
                "delete the tail"
            } else {
                "delete inside"
            });
            list.delete(Some(model[j].0.clone()));
            model.remove(j);
            dels += 1;
        } else {
            // equal data must not confuse the list
            let data = if s.chance(1, 3) { s.upto(2) as u32 } else { next_data };
            next_data += 1;
            if n == 0 {
                c.note(|| format!("insert {data} in the empty list"));
                if dels > 0 {
                    refilled = true;
                }
                let node = list.insert(None, data);
                all.push(node.clone());
                model.push((node, data));
            } else {
                let j = match s.upto(3) {
                    0 => n - 1,
                    1 => 0,
                    _ => s.idx(n),
                };
                c.note(|| format!("insert {data} after #{j} of {n}"));
                let node = list.insert(Some(model[j].0.clone()), data);
                all.push(node.clone());
                model.insert(j + 1, (node, data));
            }
        }
        // deleting nothing changes nothing
        if c.src.chance(1, 40) {
            list.delete(None);
        }
        check(list, &model, i)?;
    }
    if refilled {
        c.label("filled again after emptying");
    }
    c.nontrivial = dels >= 2 && steps >= 6;
    Ok(())
}

fn check(list: &CircularDoubleLinkedList<u32>, model: &[(N, u32)], i: usize) -> R {
    let n = model.len();
    ensure!(list.len() == n, "after step {i} len is {}, expected {n}", list.len());
    if n == 0 {
        ensure!(list.head().is_none() && list.tail().is_none(), "after step {i} the empty list has a head or tail");
        return Ok(());
    }
    let (Some(head), Some(tail)) = (list.head(), list.tail()) else {
        return fail(format!("after step {i} no head or tail with {n} elements"));
    };
    ensure!(Rc::ptr_eq(&head, &model[0].0), "after step {i} the head holds {}, expected {}", head.borrow().data, model[0].1);
    ensure!(Rc::ptr_eq(&tail, &model[n - 1].0), "after step {i} the tail holds {}, expected {}", tail.borrow().data, model[n - 1].1);
    let mut cur = head.clone();
    for (k, (node, data)) in model.iter().enumerate() {
        ensure!(Rc::ptr_eq(&cur, node), "after step {i} element {k} going forward holds {}, expected {data}", cur.borrow().data);
        ensure!(cur.borrow().data == *data, "after step {i} element {k} holds {}, expected {data}", cur.borrow().data);
        let Some(next) = cur.borrow().next.clone() else {
            return fail(format!("after step {i} element {k} has no next"));
        };
        cur = next;
    }
    ensure!(Rc::ptr_eq(&cur, &head), "after step {i} {n} steps forward from the head do not return to it");
    for (k, (node, _)) in model.iter().enumerate().rev() {
        let Some(prev) = cur.borrow().prev.clone() else {
            return fail(format!("after step {i} the element after {k} has no prev"));
        };
        cur = prev;
        ensure!(Rc::ptr_eq(&cur, node), "after step {i} element {k} going backward holds {}", cur.borrow().data);
    }
    ensure!(Rc::ptr_eq(&cur, &head), "after step {i} {n} steps backward from the head do not return to it");
    Ok(())
}
fn short(c: &mut Ctx) -> R {
    run(c, 16)
}
fn huge(c: &mut Ctx) -> R {
    run(c, 3000)
}
fn long(c: &mut Ctx) -> R {
    run(c, 150)
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "1-150 (huge: up to 3000) insertions after a node and deletions of head, tail, only and inner elements (equal data included), the whole ring walked both ways after every step against a vector of nodes; non-trivial: 6+ steps with 2+ deletions",
        subs: vec![sub_check("short", 60_000, 5_000_000, short), sub_check("long", 4_000, 300_000, long), sub_check("huge", 200, 12_000, huge)],
    }
}
