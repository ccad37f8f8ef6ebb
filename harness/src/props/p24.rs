//! C24: the WebAssembly module against the native library.
//!
//! A case is a program of calls.  It runs in the real module (in node, see
//! tools/wasm_driver.js) and each call's result is compared with the native answer.
use super::p04::{gen_simple, poly, poly_frame};
use super::p17;
use super::prelude::*;
use crate::battery;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::algorithm::location::point_2_arc_segment_2::*;
use rcgal::algorithm::location::point_2_circle_segment_2::*;
use rcgal::algorithm::location::point_2_line_segment_2::*;
use rcgal::algorithm::location::point_2_polygon_2::*;
use rcgal::algorithm::location::point_2_triangle_2::*;
use rcgal::algorithm::projection::point_2_line_segment_2::*;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::triangle_2::Triangle2;
use rcgal::kernel::util_enum::Segment2Type;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Client {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Client {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static CLIENT: RefCell<Option<Client>> = const { RefCell::new(None) };
}
fn ask(line: &str) -> String {
    CLIENT.with(|c| {
        let mut c = c.borrow_mut();
        let k = c.get_or_insert_with(|| {
            let driver = std::env::var("RCGAL_WASM_DRIVER").expect("RCGAL_WASM_DRIVER");
            let mut child = Command::new("node")
                .args(["--disable-wasm-trap-handler", &driver])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("node");
            let to = child.stdin.take().unwrap();
            let from = BufReader::new(child.stdout.take().unwrap());
            Client { child, to, from }
        });
        k.to.write_all(line.as_bytes()).and_then(|_| k.to.write_all(b"\n")).expect("the node process is gone");
        let mut out = String::new();
        k.from.read_line(&mut out).expect("the node process does not answer");
        assert!(out.ends_with('\n'), "the node process ended");
        out.pop();
        out
    })
}

#[derive(Clone, Debug)]
enum A {
    D(f64),
    U(u64),
    B(usize),
    M(usize),
    V(Vec<usize>),
    O(Option<usize>),
}
use A::{B, D, M, O, U, V};
type R = Result<(), Stop>;

#[derive(Clone, Debug)]
enum E {
    Unit,
    Opaque,
    Num(f64, f64),
    Int(u64),
    Obj(Option<Vec<f64>>, f64),
    Objs(Vec<Vec<f64>>, f64),
    Idx(Vec<Vec<usize>>),
    Trap,
}

/// What the native call gave, or a trap if it panicked.
fn native<T>(f: impl FnOnce() -> T, e: impl FnOnce(T) -> E) -> E {
    match refused(f) {
        Ok(v) => e(v),
        Err(_) => E::Trap,
    }
}

#[derive(Default)]
struct Prog {
    ops: Vec<String>,
    want: Vec<E>,
    dead: bool,
}
const EXACT: f64 = 0.0;
const CLOSE: f64 = 1e-9;

impl Prog {
    fn op(&mut self, name: &str, ret: &str, args: &[A], want: E) -> usize {
        if self.dead {
            return 0;
        }
        let mut s = format!("{name} {ret}");
        for a in args {
            s.push(' ');
            s.push_str(&match a {
                D(v) => format!("d{:016x}", v.to_bits()),
                U(v) => format!("u{v}"),
                B(i) => format!("r{i}"),
                M(i) => format!("m{i}"),
                O(None) => "o-".into(),
                O(Some(i)) => format!("o{i}"),
                V(v) => format!("v{}", v.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",")),
            });
        }
        self.dead = matches!(want, E::Trap);
        self.ops.push(s);
        self.want.push(want);
        self.ops.len() - 1
    }
    fn point(&mut self, p: F2) -> usize {
        self.op("point2_new", "O:Point2", &[D(p.0), D(p.1)], E::Obj(Some(vec![p.0, p.1]), EXACT))
    }
    fn points(&mut self, v: &[F2]) -> A {
        V(v.iter().map(|p| self.point(*p)).collect())
    }
    fn vector(&mut self, p: F2) -> usize {
        self.op("vector2_new", "O:Vector2", &[D(p.0), D(p.1)], E::Obj(Some(vec![p.0, p.1]), EXACT))
    }
    fn line(&mut self, a: F2, b: F2) -> usize {
        let (p, q) = (self.point(a), self.point(b));
        self.op("linesegment2_new", "O:LineSegment2", &[M(p), M(q)], E::Obj(Some(vec![a.0, a.1, b.0, b.1]), EXACT))
    }
    fn circle(&mut self, c: F2, r: f64) -> usize {
        let p = self.point(c);
        self.op("circlesegment2_new", "O:CircleSegment2", &[M(p), D(r)], E::Obj(Some(vec![c.0, c.1, r]), EXACT))
    }
    fn arc(&mut self, c: F2, r: f64, s: f64, t: f64) -> usize {
        let k = self.circle(c, r);
        let want = native(
            || ArcSegment2::new(CircleSegment2::new(Point2::new(c.0, c.1), r), s, t),
            |a| E::Obj(Some(vec![a.center().x(), a.center().y(), a.radius(), a.source_radian(), a.target_radian()]), CLOSE),
        );
        self.op("arcsegment2_new", "O:ArcSegment2", &[M(k), D(s), D(t)], want)
    }
    fn curve(&mut self, f: &Frame, x: &Shape) -> usize {
        let u = f.unit();
        match *x {
            Shape::Seg(a, b) => self.line(f.fp(a), f.fp(b)),
            Shape::Circle(c, r) => self.circle(f.fp(c), r as f64 * u),
            Shape::Arc(c, r, s, t) => self.arc(f.fp(c), r as f64 * u, s, t),
        }
    }
    /// the curve in the union type the module's intersection functions take
    fn union(&mut self, f: &Frame, x: &Shape) -> usize {
        let k = self.curve(f, x);
        let mut args = vec![U(type_of(x) as u64), O(None), O(None), O(None)];
        args[1 + x.kind() as usize] = O(Some(k));
        self.op("segment2_new", "O:Segment2", &args, E::Opaque)
    }
    fn polygon(&mut self, v: &[F2]) -> usize {
        let p = self.points(v);
        self.op("polygon2_new", "O:Polygon2", &[p], E::Opaque)
    }

    fn run(self, c: &mut Ctx) -> R {
        c.note(|| self.ops.join("; "));
        let reply = ask(&self.ops.join(";"));
        let got: Vec<&str> = reply.split(';').collect();
        for (i, w) in self.want.iter().enumerate() {
            let g = match got.get(i) {
                Some(g) => *g,
                None => return fail(format!("call {i} of {} has no answer: {reply}", self.ops.join("; "))),
            };
            if !matches(g, w) {
                return fail(format!("call {i} `{}` gives {}, expected {w:?}", self.ops[i], readable(g)));
            }
        }
        if got.len() > self.want.len() {
            return fail(format!("after the last call: {}; program {}", got[self.want.len()], self.ops.join("; ")));
        }
        Ok(())
    }
}

fn unhex(s: &str) -> Option<f64> {
    u64::from_str_radix(s, 16).ok().filter(|_| s.len() == 16).map(f64::from_bits)
}
fn same(a: f64, b: f64, tol: f64) -> bool {
    if tol == EXACT {
        a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
    } else {
        a == b || a.is_nan() && b.is_nan() || rel(a, b, tol)
    }
}
fn fields(g: &str, w: &[f64], tol: f64) -> bool {
    let v: Vec<Option<f64>> = g.split(',').map(unhex).collect();
    v.len() == w.len() && v.iter().zip(w).all(|(a, b)| a.is_some_and(|a| same(a, *b, tol)))
}
fn matches(g: &str, w: &E) -> bool {
    if g.starts_with('?') {
        return false;
    }
    if g == "!" {
        return matches!(w, E::Trap);
    }
    match w {
        E::Trap => false,
        E::Unit | E::Opaque => g == ".",
        E::Num(v, tol) => fields(g, &[*v], *tol),
        E::Int(v) => g == v.to_string(),
        E::Obj(None, _) => g == "-",
        E::Obj(Some(v), tol) => fields(g, v, *tol),
        E::Objs(v, tol) => {
            let l: Vec<&str> = if g.is_empty() { vec![] } else { g.split('|').collect() };
            l.len() == v.len() && l.iter().zip(v).all(|(a, b)| fields(a, b, *tol))
        }
        E::Idx(v) => {
            let l: Vec<&str> = if g.is_empty() { vec![] } else { g.split('|').collect() };
            l.len() == v.len() && l.iter().zip(v).all(|(a, b)| *a == b.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","))
        }
    }
}
fn readable(g: &str) -> String {
    if g == "!" {
        return "a trap".into();
    }
    g.split('|').map(|o| o.split(',').map(|x| unhex(x).map_or(x.to_string(), |v| format!("{v:?}"))).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" | ")
}
fn type_of(x: &Shape) -> Segment2Type {
    match x {
        Shape::Seg(..) => Segment2Type::LineSegment2,
        Shape::Circle(..) => Segment2Type::CircleSegment2,
        Shape::Arc(..) => Segment2Type::ArcSegment2,
    }
}
fn objs(v: &[Point2<f64>], tol: f64) -> E {
    E::Objs(v.iter().map(|p| vec![p.x(), p.y()]).collect(), tol)
}
fn segs(v: &[LineSegment2<f64>]) -> E {
    E::Objs(v.iter().map(|l| vec![l.source().x(), l.source().y(), l.target().x(), l.target().y()]).collect(), EXACT)
}

/// Any double: lattice, fractions, huge, tiny, special.
fn double(s: &mut Src) -> f64 {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => s.zig(10) as f64,
        1 => (s.f01() * 2.0 - 1.0) * 100.0,
        2 => {
            let v = f64::from_bits(s.upto(u64::MAX));
            if v.is_nan() { 0.5 } else { v }
        }
        _ => s.pick(&[-0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::EPSILON]),
    }
}
fn moderate(s: &mut Src) -> f64 {
    match s.upto(2) {
        0 => s.zig(10) as f64,
        1 => s.zig(80) as f64 / 8.0,
        _ => (s.f01() * 2.0 - 1.0) * 100.0,
    }
}

fn points_vectors(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let mut p = Prog::default();
    if s.chance(1, 3) {
        // lossless conversion of any double
        for _ in 0..1 + s.idx(3) {
            let a = (double(s), double(s));
            let i = p.point(a);
            p.op("point2_x", "f", &[B(i)], E::Num(a.0, EXACT));
            p.op("point2_y", "f", &[B(i)], E::Num(a.1, EXACT));
            p.op("point2_get_vector", "O:Vector2", &[B(i)], E::Obj(Some(vec![a.0, a.1]), EXACT));
            let j = p.vector(a);
            p.op("vector2_x", "f", &[B(j)], E::Num(a.0, EXACT));
            p.op("vector2_y", "f", &[B(j)], E::Num(a.1, EXACT));
        }
        c.label("any doubles");
        c.nontrivial = true;
        return p.run(c);
    }
    let (a, b, d) = ((moderate(s), moderate(s)), (moderate(s), moderate(s)), (moderate(s), moderate(s)));
    let b = if s.chance(1, 6) { a } else { b };
    let (na, nb, nd) = (Point2::new(a.0, a.1), Point2::new(b.0, b.1), Point2::new(d.0, d.1));
    let (i, j, k) = (p.point(a), p.point(b), p.point(d));
    let (va, vb) = (Vector2::new(a.0, a.1), Vector2::new(b.0, b.1));
    let (x, y) = (p.vector(a), p.vector(b));
    for _ in 0..3 + s.idx(6) {
        match s.upto(8) {
            0 => p.op("point2_distance", "f", &[B(i), B(j)], E::Num(na.distance(&nb), 1e-13)),
            1 => p.op("point2_equals", "u", &[B(i), B(j)], E::Int(na.equals(&nb) as u64)),
            2 => p.op("point2_turn", "u", &[B(i), B(j), B(k)], E::Int(Point2::turn(&na, &nb, &nd) as u64)),
            3 => p.op("vector2_length", "f", &[B(x)], E::Num(va.length(), 1e-13)),
            4 => {
                let n = va.normalize();
                p.op("vector2_normalize", "O:Vector2", &[B(x)], E::Obj(Some(vec![n.x(), n.y()]), 1e-13))
            }
            5 => p.op("vector2_dot", "f", &[B(x), B(y)], E::Num(va.dot(&vb), 1e-13)),
            6 => p.op("vector2_cross", "f", &[B(x), B(y)], E::Num(va.cross(&vb), 1e-13)),
            7 => p.op("vector2_radian_to", "f", &[B(x), B(y)], E::Num(va.radian_to(&vb), 1e-12)),
            _ => p.op("point2_turn", "u", &[B(k), B(i), B(j)], E::Int(Point2::turn(&nd, &na, &nb) as u64)),
        };
    }
    // the turn of nearly collinear points may hang on nothing here: the arithmetic is the same
    c.label("arithmetic");
    c.nontrivial = true;
    p.run(c)
}

fn curves(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let mut p = Prog::default();
    let kind = s.upto(2);
    let x = shape(s, &f, kind);
    c.label(["line segment", "circle", "arc"][kind as usize]);
    c.nontrivial = true;
    let i = p.curve(&f, &x);
    let ty = type_of(&x) as u64;
    match x.lib::<f64>(&f) {
        Lib::S(l) => {
            p.op("linesegment2_segment_type", "u", &[B(i)], E::Int(ty));
            p.op("linesegment2_source", "O:Point2", &[B(i)], E::Obj(Some(vec![l.source().x(), l.source().y()]), EXACT));
            p.op("linesegment2_target", "O:Point2", &[B(i)], E::Obj(Some(vec![l.target().x(), l.target().y()]), EXACT));
        }
        Lib::C(k) => {
            p.op("circlesegment2_segment_type", "u", &[B(i)], E::Int(ty));
            p.op("circlesegment2_center", "O:Point2", &[B(i)], E::Obj(Some(vec![k.center().x(), k.center().y()]), EXACT));
            p.op("circlesegment2_radius", "f", &[B(i)], E::Num(k.radius(), EXACT));
        }
        Lib::A(k) => {
            p.op("arcsegment2_segment_type", "u", &[B(i)], E::Int(ty));
            p.op("arcsegment2_center", "O:Point2", &[B(i)], E::Obj(Some(vec![k.center().x(), k.center().y()]), EXACT));
            p.op("arcsegment2_radius", "f", &[B(i)], E::Num(k.radius(), EXACT));
            p.op("arcsegment2_source_radian", "f", &[B(i)], E::Num(k.source_radian(), CLOSE));
            p.op("arcsegment2_target_radian", "f", &[B(i)], E::Num(k.target_radian(), CLOSE));
            p.op("arcsegment2_source", "O:Point2", &[B(i)], E::Obj(Some(vec![k.source().x(), k.source().y()]), CLOSE));
            p.op("arcsegment2_target", "O:Point2", &[B(i)], E::Obj(Some(vec![k.target().x(), k.target().y()]), CLOSE));
        }
    }
    p.run(c)
}

const FIELD: [&str; 3] = ["line_segment_2", "circle_segment_2", "arc_segment_2"];
const CLASS: [&str; 3] = ["LineSegment2", "CircleSegment2", "ArcSegment2"];
fn described(f: &Frame, x: &Shape) -> E {
    match x.lib::<f64>(f) {
        Lib::S(l) => E::Obj(Some(vec![l.source().x(), l.source().y(), l.target().x(), l.target().y()]), EXACT),
        Lib::C(k) => E::Obj(Some(vec![k.center().x(), k.center().y(), k.radius()]), EXACT),
        Lib::A(k) => E::Obj(Some(vec![k.center().x(), k.center().y(), k.radius(), k.source_radian(), k.target_radian()]), CLOSE),
    }
}

/// The union type: any combination of type tag and members, read and rewritten; using it
/// with a tag whose member is missing traps.
fn union_type(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let mut p = Prog::default();
    let mut held: [Option<Shape>; 3] = [None; 3];
    let mut args = Vec::new();
    let mut tag = s.upto(2);
    for k in 0..3 {
        if s.chance(if k == tag as usize { 7 } else { 2 }, 8) {
            let x = shape(s, &f, k as u64);
            let i = p.curve(&f, &x);
            held[k] = Some(x);
            args.push(O(Some(i)));
        } else {
            args.push(O(None));
        }
    }
    args.insert(0, U(tag));
    let u = p.op("segment2_new", "O:Segment2", &args, E::Opaque);
    let other = { let k = s.upto(2); shape(s, &f, k) };
    let o = p.union(&f, &other);
    for _ in 0..2 + s.idx(6) {
        match s.upto(4) {
            0 => {
                p.op("__wbg_get_segment2_segment_type", "u", &[B(u)], E::Int(tag));
            }
            1 => {
                let k = s.idx(3);
                let want = held[k].map_or(E::Obj(None, EXACT), |x| described(&f, &x));
                p.op(&format!("__wbg_get_segment2_{}", FIELD[k]), &format!("Q:{}", CLASS[k]), &[B(u)], want);
            }
            2 => {
                tag = s.upto(2);
                p.op("__wbg_set_segment2_segment_type", "n", &[B(u), U(tag)], E::Unit);
            }
            3 => {
                let k = s.idx(3);
                let (x, i) = if s.chance(3, 4) {
                    let x = shape(s, &f, k as u64);
                    (Some(x), Some(p.curve(&f, &x)))
                } else {
                    (None, None)
                };
                held[k] = x;
                p.op(&format!("__wbg_set_segment2_{}", FIELD[k]), "n", &[B(u), O(i)], E::Unit);
            }
            _ => {
                let flip = s.chance(1, 2);
                let args = if flip { [B(o), B(u)] } else { [B(u), B(o)] };
                match held[tag as usize] {
                    None => {
                        c.label("member missing");
                        p.op("segment_2_segment_2_intersection", "V:Point2", &args, E::Trap);
                        break;
                    }
                    Some(x) => {
                        let (a, b) = if flip { (&other, &x) } else { (&x, &other) };
                        if common(&f, a, b).is_err() {
                            continue;
                        }
                        let want = lib_inter::<f64>(&a.lib(&f), &b.lib(&f));
                        p.op("segment_2_segment_2_intersection", "V:Point2", &args, objs(&want, CLOSE));
                        p.op("is_segment_2_segment_2_intersected", "u", &args, E::Int(lib_pred::<f64>(&a.lib(&f), &b.lib(&f)) as u64));
                    }
                }
            }
        }
    }
    c.nontrivial = p.ops.len() > 6;
    p.run(c)
}

fn pairs(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let (ka, kb) = (s.upto(2), s.upto(2));
    let (x, y) = pair(s, &f, ka, kb);
    c.label([["segment-segment", "segment-circle", "segment-arc"], ["circle-segment", "circle-circle", "circle-arc"], ["arc-segment", "arc-circle", "arc-arc"]][ka as usize][kb as usize]);
    common(&f, &x, &y)?;
    let mut p = Prog::default();
    let (i, j) = (p.union(&f, &x), p.union(&f, &y));
    let (a, b) = (x.lib::<f64>(&f), y.lib::<f64>(&f));
    let want = lib_inter(&a, &b);
    c.nontrivial = !want.is_empty();
    p.op("segment_2_segment_2_intersection", "V:Point2", &[B(i), B(j)], objs(&want, CLOSE));
    p.op("is_segment_2_segment_2_intersected", "u", &[B(i), B(j)], E::Int(lib_pred(&a, &b) as u64));
    p.op("is_segment_2_segment_2_intersected", "u", &[B(j), B(i)], E::Int(lib_pred(&b, &a) as u64));
    p.op("segment_2_segment_2_intersection", "V:Point2", &[B(j), B(i)], objs(&lib_inter(&b, &a), CLOSE));
    p.run(c)
}

fn sweeps(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let n = 2 + s.idx(8);
    let kinds = s.pick(&[vec![0u64], vec![0, 1, 2], vec![1, 2], vec![0, 2]]);
    let m = p17::members(s, &f, n, &kinds);
    p17::expected(&f, &m)?;
    let mut p = Prog::default();
    let mut sw = SweepSegment2Intersection::<f64>::new();
    let w = p.op("sweepsegment2intersection_new", "O:SweepSegment2Intersection", &[], E::Opaque);
    let mut last = 0;
    for (k, x) in m.iter().enumerate() {
        let u = p.union(&f, x);
        p.op("sweepsegment2intersection_push_segment", "n", &[B(w), B(u)], E::Unit);
        p17::push(&mut sw, &f, x);
        if k + 1 == m.len() || c.src.chance(1, 6) {
            let v = sw.intersection();
            last = v.len();
            p.op("sweepsegment2intersection_intersection", "V:Point2", &[B(w)], objs(&v, CLOSE));
        }
    }
    c.nontrivial = last > 0;
    c.label(if last > 3 { "more than three points" } else if last > 0 { "one to three points" } else { "no points" });
    p.run(c)
}

fn polygons(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = poly_frame(s);
    let v = match s.upto(2) {
        0 => {
            let n = s.idx(7);
            let mut v: Vec<P> = Vec::new();
            for _ in 0..n {
                let p = pt_rel(s, &f, &v);
                v.push(p);
            }
            v
        }
        1 => gen_simple(s, &f, 14),
        _ => {
            let v = gen_simple(s, &f, 10);
            mutate_polygon(s, &v)
        }
    };
    let g: Polygon2<f64> = poly(&f, &v);
    let mut p = Prog::default();
    let w: Vec<F2> = v.iter().map(|q| f.fp(*q)).collect();
    let i = p.polygon(&w);
    p.op("polygon2_vertices", "V:Point2", &[B(i)], objs(&f.pts(&v), EXACT));
    p.op("polygon2_edges", "V:LineSegment2", &[B(i)], segs(&g.edges()));
    p.op("polygon2_area", "f", &[B(i)], native(|| g.area(), |a| E::Num(a, 1e-13)));
    p.op("polygon2_is_simple", "u", &[B(i)], native(|| g.is_simple(), |a| E::Int(a as u64)));
    p.op("polygon2_is_convex", "u", &[B(i)], native(|| g.is_convex(), |a| E::Int(a as u64)));
    if v.len() >= 3 {
        for _ in 0..s.idx(4) {
            let q = pt_rel(s, &f, &v);
            let k = p.point(f.fp(q));
            p.op("locate_point_2_polygon_2", "u", &[B(k), B(i)], native(|| locate_point_2_polygon_2(&f.p(q), &g), |l| E::Int(l as u64)));
        }
        let t = native(|| earcut_2(poly(&f, &v)), E::Idx);
        c.label(if matches!(t, E::Trap) { "refused" } else { "triangulated" });
        p.op("earcut", "V:Triangle2Indices", &[M(i)], t);
    }
    c.nontrivial = v.len() >= 3;
    p.run(c)
}

fn triangles(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = frame(s, 500);
    let a = pt(s, &f);
    let b = pt_rel(s, &f, &[a]);
    let d = pt_rel(s, &f, &[a, b]);
    let mut t = Triangle2::new(f.p(a), f.p(b), f.p(d));
    let mut p = Prog::default();
    let args: Vec<A> = [a, b, d].iter().map(|q| M(p.point(f.fp(*q)))).collect();
    let i = p.op("triangle2_new", "O:Triangle2", &args, E::Opaque);
    let flat = orient(a, b, d) == 0;
    c.label(if flat { "degenerate" } else { "proper" });
    c.nontrivial = !flat;
    let s = &mut c.src;
    for _ in 0..3 + s.idx(8) {
        match s.upto(8) {
            0 => p.op("triangle2_a", "O:Point2", &[B(i)], objs1(&t.a())),
            1 => p.op("triangle2_b", "O:Point2", &[B(i)], objs1(&t.b())),
            2 => p.op("triangle2_c", "O:Point2", &[B(i)], objs1(&t.c())),
            3 => p.op("triangle2_vertices", "V:Point2", &[B(i)], objs(&t.vertices(), EXACT)),
            4 => p.op("triangle2_edges", "V:LineSegment2", &[B(i)], segs(&t.edges())),
            5 => p.op("triangle2_orientation", "u", &[B(i)], E::Int(t.orientation() as u64)),
            6 => {
                t.reverse_orientation();
                p.op("triangle2_reverse_orientation", "n", &[B(i)], E::Unit)
            }
            7 => p.op("triangle2_area", "f", &[B(i)], E::Num(t.area(), 1e-13)),
            _ => {
                let q = pt_rel(s, &f, &[a, b, d]);
                let k = p.point(f.fp(q));
                p.op("locate_point_2_triangle_2", "u", &[B(k), B(i)], native(|| locate_point_2_triangle_2(&f.p(q), &t), |l| E::Int(l as u64)))
            }
        };
    }
    p.run(c)
}
fn objs1(p: &Point2<f64>) -> E {
    E::Obj(Some(vec![p.x(), p.y()]), EXACT)
}

fn locations(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = curve_frame(s);
    let mut p = Prog::default();
    let kind = s.upto(2);
    let x = shape(s, &f, kind);
    let i = p.curve(&f, &x);
    c.label(["segment", "circle", "arc"][kind as usize]);
    c.nontrivial = true;
    let s = &mut c.src;
    for _ in 0..1 + s.idx(5) {
        let q = match x {
            Shape::Seg(a, b) => pt_rel(s, &f, &[a, b]),
            Shape::Circle(k, r) | Shape::Arc(k, r, ..) => {
                let q = lattice_on_circle(s, k, r);
                if s.chance(1, 3) { (q.0 + s.zig(2), q.1 + s.zig(2)) } else { q }
            }
        };
        // not where a decision hangs on the last digit of the two math libraries
        let probe = match x {
            Shape::Circle(k, r) => battery::Q::CircleLoc(q, k, r),
            Shape::Arc(..) => battery::Q::ArcLoc(q, x),
            Shape::Seg(a, b) => battery::Q::SegLoc(q, a, b),
        };
        battery::decided(&f, &probe)?;
        let k = p.point(f.fp(q));
        let n = f.p(q);
        match x.lib::<f64>(&f) {
            Lib::S(l) => {
                p.op("locate_point_2_line_segment_2", "u", &[B(k), B(i)], E::Int(locate_point_2_line_segment_2(&n, &l) as u64));
                p.op("is_point_2_on_line_segment_2", "u", &[B(k), B(i)], E::Int(is_point_2_on_line_segment_2(&n, &l) as u64));
                let w = point_2_project_line_segment_2(&n, &l);
                p.op("point_2_project_line_segment_2", "Q:Point2", &[B(k), B(i)], E::Obj(w.map(|g| vec![g.x(), g.y()]), CLOSE));
            }
            Lib::C(l) => {
                p.op("locate_point_2_circle_segment_2", "u", &[B(k), B(i)], E::Int(locate_point_2_circle_segment_2(&n, &l) as u64));
                p.op("is_point_2_on_circle_segment_2", "u", &[B(k), B(i)], E::Int(is_point_2_on_circle_segment_2(&n, &l) as u64));
            }
            Lib::A(l) => {
                p.op("locate_point_2_arc_segment_2", "u", &[B(k), B(i)], E::Int(locate_point_2_arc_segment_2(&n, &l) as u64));
                p.op("is_point_2_on_arc_segment_2", "u", &[B(k), B(i)], E::Int(is_point_2_on_arc_segment_2(&n, &l) as u64));
            }
        }
    }
    p.run(c)
}

fn hulls(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let mut f = frame(s, 500);
    f.k = f.k.min(3);
    let n = s.idx(20);
    let mut v: Vec<P> = Vec::new();
    for _ in 0..n {
        let p = pt_rel(s, &f, &v);
        v.push(p);
    }
    let mut p = Prog::default();
    let w: Vec<F2> = v.iter().map(|q| f.fp(*q)).collect();
    let a = p.points(&w);
    let h = p.op("convexhull2_new", "O:ConvexHull2", &[a], E::Opaque);
    let mut k = ConvexHull2::new(f.pts(&v));
    for _ in 0..1 + s.idx(2) {
        let want = native(|| k.convex_hull(), |g| objs(&g, EXACT));
        c.nontrivial = v.len() >= 3;
        p.op("convexhull2_convex_hull", "V:Point2", &[B(h)], want);
    }
    p.run(c)
}

/// Real coordinates: parts come back bit for bit; polygons, triangles, hulls and sweeps of
/// line segments do the same arithmetic on both sides.
fn reals(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let mut p = Prog::default();
    let scale = s.pick(&[1.0, 100.0, 1e-3, 1000.0]);
    let real = |s: &mut Src| (s.f01() * 2.0 - 1.0) * scale;
    let fresh = |s: &mut Src| (real(s), real(s));
    let n = s.pick(&[1usize, 3, 4, 6, 9]);
    let v: Vec<F2> = (0..n).map(|_| fresh(s)).collect();
    let q = fresh(s);
    let np = |a: F2| Point2::new(a.0, a.1);
    c.nontrivial = true;
    match s.upto(5) {
        0 => {
            c.label("circle and arc");
            let s = &mut c.src;
            let r = s.f01() * scale + 1e-9;
            let k = p.circle(v[0], r);
            p.op("circlesegment2_radius", "f", &[B(k)], E::Num(r, EXACT));
            p.op("circlesegment2_center", "O:Point2", &[B(k)], objs1(&np(v[0])));
            // angles within one turn come back as they are
            let a0 = s.f01() * 6.28;
            let a1 = s.f01() * 6.28;
            let l = ArcSegment2::new(CircleSegment2::new(np(v[0]), r), a0, a1);
            let k = p.arc(v[0], r, a0, a1);
            p.op("arcsegment2_radius", "f", &[B(k)], E::Num(l.radius(), EXACT));
            p.op("arcsegment2_center", "O:Point2", &[B(k)], objs1(&l.center()));
            p.op("arcsegment2_source_radian", "f", &[B(k)], E::Num(l.source_radian(), EXACT));
            p.op("arcsegment2_target_radian", "f", &[B(k)], E::Num(l.target_radian(), EXACT));
            p.op("arcsegment2_source", "O:Point2", &[B(k)], E::Obj(Some(vec![l.source().x(), l.source().y()]), 1e-12));
            p.op("arcsegment2_target", "O:Point2", &[B(k)], E::Obj(Some(vec![l.target().x(), l.target().y()]), 1e-12));
        }
        1 => {
            c.label("line segment");
            let s = &mut c.src;
            let i = p.line(v[0], q);
            let l = LineSegment2::new(np(v[0]), np(q));
            p.op("linesegment2_source", "O:Point2", &[B(i)], objs1(&l.source()));
            p.op("linesegment2_target", "O:Point2", &[B(i)], objs1(&l.target()));
            for _ in 0..3 {
                let w = if s.chance(1, 2) {
                    let t = s.f01() * 1.4 - 0.2;
                    (v[0].0 + (q.0 - v[0].0) * t, v[0].1 + (q.1 - v[0].1) * t)
                } else {
                    fresh(s)
                };
                let k = p.point(w);
                p.op("locate_point_2_line_segment_2", "u", &[B(k), B(i)], E::Int(locate_point_2_line_segment_2(&np(w), &l) as u64));
                p.op("is_point_2_on_line_segment_2", "u", &[B(k), B(i)], E::Int(is_point_2_on_line_segment_2(&np(w), &l) as u64));
                let g = point_2_project_line_segment_2(&np(w), &l);
                p.op("point_2_project_line_segment_2", "Q:Point2", &[B(k), B(i)], E::Obj(g.map(|g| vec![g.x(), g.y()]), 1e-12));
            }
        }
        2 => {
            c.label("polygon");
            let g = Polygon2::new(v.iter().map(|a| np(*a)).collect());
            let i = p.polygon(&v);
            p.op("polygon2_vertices", "V:Point2", &[B(i)], objs(&g.vertices(), EXACT));
            p.op("polygon2_edges", "V:LineSegment2", &[B(i)], segs(&g.edges()));
            p.op("polygon2_area", "f", &[B(i)], native(|| g.area(), |a| E::Num(a, 1e-12)));
            p.op("polygon2_is_simple", "u", &[B(i)], native(|| g.is_simple(), |a| E::Int(a as u64)));
            p.op("polygon2_is_convex", "u", &[B(i)], native(|| g.is_convex(), |a| E::Int(a as u64)));
            let k = p.point(q);
            p.op("locate_point_2_polygon_2", "u", &[B(k), B(i)], native(|| locate_point_2_polygon_2(&np(q), &g), |l| E::Int(l as u64)));
        }
        3 => {
            c.label("triangle");
            let s = &mut c.src;
            let (b, d) = (fresh(s), fresh(s));
            let mut t = Triangle2::new(np(v[0]), np(b), np(d));
            let args: Vec<A> = [v[0], b, d].iter().map(|a| M(p.point(*a))).collect();
            let i = p.op("triangle2_new", "O:Triangle2", &args, E::Opaque);
            let k = p.point(q);
            for round in 0..2 {
                p.op("triangle2_a", "O:Point2", &[B(i)], objs1(&t.a()));
                p.op("triangle2_b", "O:Point2", &[B(i)], objs1(&t.b()));
                p.op("triangle2_c", "O:Point2", &[B(i)], objs1(&t.c()));
                p.op("triangle2_vertices", "V:Point2", &[B(i)], objs(&t.vertices(), EXACT));
                p.op("triangle2_edges", "V:LineSegment2", &[B(i)], segs(&t.edges()));
                p.op("triangle2_orientation", "u", &[B(i)], E::Int(t.orientation() as u64));
                p.op("triangle2_area", "f", &[B(i)], E::Num(t.area(), 1e-12));
                p.op("locate_point_2_triangle_2", "u", &[B(k), B(i)], native(|| locate_point_2_triangle_2(&np(q), &t), |l| E::Int(l as u64)));
                if round == 0 {
                    t.reverse_orientation();
                    p.op("triangle2_reverse_orientation", "n", &[B(i)], E::Unit);
                }
            }
        }
        4 => {
            c.label("hull");
            let a = p.points(&v);
            let h = p.op("convexhull2_new", "O:ConvexHull2", &[a], E::Opaque);
            let mut k = ConvexHull2::new(v.iter().map(|a| np(*a)).collect());
            let want = native(|| k.convex_hull(), |g| objs(&g, EXACT));
            p.op("convexhull2_convex_hull", "V:Point2", &[B(h)], want);
        }
        _ => {
            c.label("line segments meeting");
            let s = &mut c.src;
            let w = p.op("sweepsegment2intersection_new", "O:SweepSegment2Intersection", &[], E::Opaque);
            let mut sw = SweepSegment2Intersection::<f64>::new();
            let mut last: Option<(LineSegment2<f64>, usize)> = None;
            for a in &v {
                let b = fresh(s);
                let l = LineSegment2::new(np(*a), np(b));
                let i = p.line(*a, b);
                let u = p.op("segment2_new", "O:Segment2", &[U(0), O(Some(i)), O(None), O(None)], E::Opaque);
                p.op("sweepsegment2intersection_push_segment", "n", &[B(w), B(u)], E::Unit);
                if let Some((m, k)) = &last {
                    let (x, y) = (Lib::S(m.clone()), Lib::S(l.clone()));
                    p.op("segment_2_segment_2_intersection", "V:Point2", &[B(*k), B(u)], objs(&lib_inter(&x, &y), 1e-12));
                    p.op("is_segment_2_segment_2_intersected", "u", &[B(*k), B(u)], E::Int(lib_pred(&x, &y) as u64));
                }
                sw.push_segment(&l);
                last = Some((l, u));
            }
            p.op("sweepsegment2intersection_intersection", "V:Point2", &[B(w)], objs(&sw.intersection(), 1e-12));
        }
    }
    p.run(c)
}

/// Lists of hundreds: polygons, their triangulation's indices, hulls and sweeps.
fn lists(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let mut p = Prog::default();
    c.nontrivial = true;
    match s.upto(2) {
        0 => {
            c.label("polygon");
            let s = &mut c.src;
            let mut f = poly_frame(s);
            f.r = f.r.max(60);
            let v = gen_simple(s, &f, 320);
            let n = v.len();
            c.label(if n > 256 { "above 256 vertices" } else if n > 64 { "65 to 256 vertices" } else { "up to 64 vertices" });
            let g: Polygon2<f64> = poly(&f, &v);
            let i = p.polygon(&v.iter().map(|q| f.fp(*q)).collect::<Vec<_>>());
            p.op("polygon2_vertices", "V:Point2", &[B(i)], objs(&f.pts(&v), EXACT));
            p.op("polygon2_edges", "V:LineSegment2", &[B(i)], segs(&g.edges()));
            p.op("polygon2_area", "f", &[B(i)], native(|| g.area(), |a| E::Num(a, 1e-13)));
            p.op("polygon2_is_simple", "u", &[B(i)], native(|| g.is_simple(), |a| E::Int(a as u64)));
            p.op("polygon2_is_convex", "u", &[B(i)], native(|| g.is_convex(), |a| E::Int(a as u64)));
            p.op("earcut", "V:Triangle2Indices", &[M(i)], native(|| earcut_2(poly(&f, &v)), E::Idx));
        }
        1 => {
            c.label("hull");
            let s = &mut c.src;
            let n = 20 + s.idx(380);
            // on or near a circle, so that the hull is long
            let v: Vec<F2> = (0..n)
                .map(|_| {
                    let a = s.f01() * 6.3;
                    let r = if s.chance(4, 5) { 100.0 } else { s.f01() * 100.0 };
                    (r * a.cos(), r * a.sin())
                })
                .collect();
            let a = p.points(&v);
            let h = p.op("convexhull2_new", "O:ConvexHull2", &[a], E::Opaque);
            let mut k = ConvexHull2::new(v.iter().map(|a| Point2::new(a.0, a.1)).collect());
            let want = native(|| k.convex_hull(), |g| objs(&g, EXACT));
            p.op("convexhull2_convex_hull", "V:Point2", &[B(h)], want);
        }
        _ => {
            c.label("sweep");
            let s = &mut c.src;
            let n = 10 + s.idx(50);
            let w = p.op("sweepsegment2intersection_new", "O:SweepSegment2Intersection", &[], E::Opaque);
            let mut sw = SweepSegment2Intersection::<f64>::new();
            let real = |s: &mut Src| (s.f01() * 2.0 - 1.0) * 100.0;
            for _ in 0..n {
                let (a, b) = ((real(s), real(s)), (real(s), real(s)));
                let i = p.line(a, b);
                let u = p.op("segment2_new", "O:Segment2", &[U(0), O(Some(i)), O(None), O(None)], E::Opaque);
                p.op("sweepsegment2intersection_push_segment", "n", &[B(w), B(u)], E::Unit);
                sw.push_segment(&LineSegment2::new(Point2::new(a.0, a.1), Point2::new(b.0, b.1)));
            }
            p.op("sweepsegment2intersection_intersection", "V:Point2", &[B(w)], objs(&sw.intersection(), 1e-12));
        }
    }
    p.run(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "programs of 3-40 calls on the real wasm32 module (built from the working tree, run in node) over every exported class and function: any doubles, related lattice points, all curve kinds and pairs, sweeps asked between additions, the union type with every tag/member combination (traps expected where the native code panics), polygons refused and triangulated; every result compared with the native call's, conversions bit for bit (reals: of real coordinates); lists: of hundreds of points, vertices, members and triangles; non-trivial: a non-empty answer or a multi-call program",
        subs: vec![
            sub_check("points-vectors", 2_000, 100_000, points_vectors),
            sub_check("curves", 1_500, 60_000, curves),
            sub_check("union-type", 2_000, 100_000, union_type),
            sub_check("pairs", 4_000, 300_000, pairs),
            sub_check("sweeps", 1_500, 80_000, sweeps),
            sub_check("polygons", 2_500, 100_000, polygons),
            sub_check("triangles", 2_000, 80_000, triangles),
            sub_check("locations", 2_000, 100_000, locations),
            sub_check("hulls", 1_500, 60_000, hulls),
            sub_check("reals", 8_000, 240_000, reals),
            sub_check("lists", 1_500, 30_000, lists),
        ],
    }
}
