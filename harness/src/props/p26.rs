//! C26: vertex and edge records.
use super::prelude::*;
use rcgal::kernel::edge_2::Edge2;
use rcgal::kernel::util_enum::Edge2Type;
use rcgal::kernel::vertex_2::Vertex2;
use std::cell::RefCell;
use std::rc::Rc;

type V = Rc<RefCell<Vertex2<f64>>>;
type E = Rc<RefCell<Edge2<f64>>>;

#[derive(Clone)]
struct Me {
    s: usize,
    t: usize,
    twin: Option<usize>,
    next: Option<usize>,
    prev: Option<usize>,
    arc: bool,
}

struct World {
    f: Frame,
    pts: Vec<P>,
    vs: Vec<V>,
    inc: Vec<Vec<usize>>,
    es: Vec<E>,
    me: Vec<Me>,
}

impl World {
    fn equal(&self, a: usize, b: usize) -> bool {
        let (x, y) = (&self.me[a], &self.me[b]);
        x.arc == y.arc && self.pts[x.s] == self.pts[y.s] && self.pts[x.t] == self.pts[y.t]
    }
    fn check(&self, i: usize) -> R {
        for (k, v) in self.vs.iter().enumerate() {
            let v = v.borrow();
            ensure!((v.x(), v.y()) == self.f.fp(self.pts[k]), "step {i}: vertex {k} moved");
            ensure!(xy(&v.to_point()) == self.f.fp(self.pts[k]), "step {i}: vertex {k} converts to {:?}", v.to_point());
            let e = v.edges();
            let same = e.len() == self.inc[k].len() && e.iter().zip(&self.inc[k]).all(|(a, b)| Rc::ptr_eq(a, &self.es[*b]));
            let listed: Vec<Option<usize>> = e.iter().map(|a| self.es.iter().position(|b| Rc::ptr_eq(a, b))).collect();
            ensure!(same, "step {i}: vertex {k} has edges {listed:?}, expected {:?}", self.inc[k]);
        }
        for (k, e) in self.es.iter().enumerate() {
            let e = e.borrow();
            let m = &self.me[k];
            ensure!(Rc::ptr_eq(&e.source(), &self.vs[m.s]) && Rc::ptr_eq(&e.target(), &self.vs[m.t]), "step {i}: ends of edge {k}");
            for (name, got, want) in [("twin", e.twin(), m.twin), ("next", e.next(), m.next), ("prev", e.prev(), m.prev)] {
                let ok = match (&got, want) {
                    (None, None) => true,
                    (Some(a), Some(b)) => Rc::ptr_eq(a, &self.es[b]),
                    _ => false,
                };
                let g = got.as_ref().and_then(|a| self.es.iter().position(|b| Rc::ptr_eq(a, b)));
                ensure!(ok, "step {i}: {name} of edge {k} is {g:?}, expected {want:?}");
            }
            ensure!(e.face().is_none(), "step {i}: edge {k} has a face nobody set");
            ensure!(e.edge_type() == if m.arc { Edge2Type::Arc } else { Edge2Type::Segment }, "step {i}: type of edge {k}");
            if !m.arc {
                let g = e.to_segment();
                ensure!(
                    xy(&g.source()) == self.f.fp(self.pts[m.s]) && xy(&g.target()) == self.f.fp(self.pts[m.t]),
                    "step {i}: edge {k} converts to {g:?}"
                );
            }
        }
        Ok(())
    }
}

fn history(c: &mut Ctx) -> R {
    run(c, 28)
}
fn long(c: &mut Ctx) -> R {
    run(c, 250)
}
fn run(c: &mut Ctx, most: usize) -> R {
    let s = &mut c.src;
    let mut f = frame(s, 500);
    f.k = f.k.min(3);
    let nv = 2 + s.idx(4);
    let mut pts: Vec<P> = Vec::new();
    for _ in 0..nv {
        let p = pt_rel(s, &f, &pts);
        pts.push(p);
    }
    c.note(|| format!("vertices {:?}", pts.iter().map(|p| f.fp(*p)).collect::<Vec<_>>()));
    let vs: Vec<V> = pts
        .iter()
        .map(|p| {
            let q = f.fp(*p);
            Rc::new(RefCell::new(Vertex2::new(q.0, q.1)))
        })
        .collect();
    let mut w = World { f, inc: vec![Vec::new(); nv], pts, vs, es: Vec::new(), me: Vec::new() };
    let r = steps(c, &mut w, most);
    // break the reference cycles
    for v in &w.vs {
        let edges = v.borrow().edges();
        drop(edges);
        let fresh = Vertex2::new(0.0, 0.0);
        *v.borrow_mut() = fresh;
    }
    for k in 0..w.es.len() {
        let (a, b) = (w.vs[0].clone(), w.vs[1].clone());
        *w.es[k].borrow_mut() = Edge2::new_segment(a, b);
    }
    r
}

fn steps(c: &mut Ctx, w: &mut World, most: usize) -> R {
    let nv = w.vs.len();
    let n = 4 + c.src.idx(most);
    let (mut adds, mut removes) = (0, 0);
    for i in 0..n {
        let s = &mut c.src;
        let ne = w.es.len();
        match if ne == 0 { 0 } else { s.weighted(&[3, 5, 3, 2, 2, 2, 1, 1]) } {
            0 => {
                let (a, b) = (s.idx(nv), s.idx(nv));
                let arc = s.chance(1, 8);
                let e = if arc { Edge2::new_arc(w.vs[a].clone(), w.vs[b].clone()) } else { Edge2::new_segment(w.vs[a].clone(), w.vs[b].clone()) };
                c.note(|| format!("edge {ne} from {a} to {b}{}", if arc { " (arc)" } else { "" }));
                w.es.push(Rc::new(RefCell::new(e)));
                w.me.push(Me { s: a, t: b, twin: None, next: None, prev: None, arc });
            }
            1 => {
                let (v, e) = (s.idx(nv), s.idx(ne));
                c.note(|| format!("add edge {e} at {v}"));
                let x = w.es[e].clone();
                w.vs[v].borrow_mut().add_edge(x);
                w.inc[v].push(e);
                adds += 1;
            }
            2 => {
                let v = s.idx(nv);
                let e = if !w.inc[v].is_empty() && s.chance(2, 3) { w.inc[v][s.idx(w.inc[v].len())] } else { s.idx(ne) };
                if w.me[e].arc {
                    continue; // comparing two arcs is not implemented by the library
                }
                c.note(|| format!("remove edge {e} at {v}"));
                let before = w.inc[v].len();
                let keep: Vec<usize> = w.inc[v].iter().copied().filter(|x| !w.equal(*x, e)).collect();
                let x = w.es[e].clone();
                w.vs[v].borrow_mut().remove_edge(x);
                w.inc[v] = keep;
                match before - w.inc[v].len() {
                    0 => c.label("removal of an edge not there"),
                    1 => c.label("removal of one edge"),
                    _ => c.label("removal of several equal edges"),
                }
                removes += 1;
            }
            3 => {
                let (a, b) = (s.idx(ne), s.idx(ne));
                c.note(|| format!("twin of {a} = {b}"));
                let x = w.es[b].clone();
                w.es[a].borrow_mut().set_twin(x);
                w.me[a].twin = Some(b);
            }
            4 => {
                let (a, b) = (s.idx(ne), s.idx(ne));
                c.note(|| format!("next of {a} = {b}"));
                let x = w.es[b].clone();
                w.es[a].borrow_mut().set_next(x);
                w.me[a].next = Some(b);
            }
            5 => {
                let (a, b) = (s.idx(ne), s.idx(ne));
                c.note(|| format!("prev of {a} = {b}"));
                let x = w.es[b].clone();
                w.es[a].borrow_mut().set_prev(x);
                w.me[a].prev = Some(b);
            }
            6 => {
                let (a, v) = (s.idx(ne), s.idx(nv));
                c.note(|| format!("source of {a} = {v}"));
                w.es[a].borrow_mut().set_source(w.vs[v].clone());
                w.me[a].s = v;
            }
            _ => {
                let (a, v) = (s.idx(ne), s.idx(nv));
                c.note(|| format!("target of {a} = {v}"));
                w.es[a].borrow_mut().set_target(w.vs[v].clone());
                w.me[a].t = v;
            }
        }
        w.check(i)?;
    }
    // equality of straight edges, and vertices, over all pairs
    for a in 0..w.es.len() {
        for b in 0..w.es.len() {
            if w.me[a].arc && w.me[b].arc {
                continue;
            }
            let got = *w.es[a].borrow() == *w.es[b].borrow();
            ensure!(got == w.equal(a, b), "edges {a} and {b} equal: {got}, expected {}", w.equal(a, b));
        }
    }
    for a in 0..nv {
        for b in 0..nv {
            let (x, y) = (w.vs[a].borrow(), w.vs[b].borrow());
            let want = w.pts[a] == w.pts[b];
            ensure!(x.equals(&y) == want && (*x == *y) == want, "vertices {a} and {b} equal: {}", x.equals(&y));
        }
    }
    c.nontrivial = adds >= 2 && removes >= 1;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "4-31 (long: 4-253) operations (new straight or arc edge, add/remove at a vertex, set twin/next/prev/source/target) over 2-5 vertices some of which coincide, all records compared with a plain model after every step; non-trivial: 2+ edges added and 1+ removal",
        subs: vec![sub_check("history", 60_000, 5_000_000, history), sub_check("long", 800, 60_000, long)],
    }
}
