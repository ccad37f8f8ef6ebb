//! One question to the library, over any number type, and its answer as plain data.
//! Used where answers are compared with each other: between number types (C25) and
//! between coordinate frames (C27).
use crate::curve::*;
use crate::engine::*;
use crate::exact::*;
use crate::fuel::Num;
use crate::gen::*;
use crate::props::{p04, p17};
use crate::util::*;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::line_2_line_2::*;
use rcgal::algorithm::intersection::line_2_ray_2::*;
use rcgal::algorithm::intersection::line_segment_2_ray_2::*;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::algorithm::location::location_enum::*;
use rcgal::algorithm::location::point_2_arc_segment_2::*;
use rcgal::algorithm::location::point_2_circle_segment_2::*;
use rcgal::algorithm::location::point_2_line_2::*;
use rcgal::algorithm::location::point_2_line_segment_2::*;
use rcgal::algorithm::location::point_2_polygon_2::*;
use rcgal::algorithm::location::point_2_ray_2::*;
use rcgal::algorithm::location::point_2_triangle_2::*;
use rcgal::algorithm::projection::point_2_line_2::*;
use rcgal::algorithm::projection::point_2_line_segment_2::*;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::number_type::NumberType;
use rcgal::kernel::point_2::Point2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::segment_2::Segment2;
use rcgal::kernel::triangle_2::Triangle2;
use rcgal::kernel::util_enum::*;

pub trait Real: NumberType {
    fn f(self) -> f64;
}
impl Real for f64 {
    fn f(self) -> f64 {
        self
    }
}
impl Real for f32 {
    fn f(self) -> f64 {
        self as f64
    }
}
impl Real for Num {
    fn f(self) -> f64 {
        self.0
    }
}

#[derive(Clone, Debug)]
pub enum Q {
    Turn(P, P, P),
    Triangle(P, P, P),
    /// area; with the flag, also convexity (simple polygons only)
    Polygon(Vec<P>, bool),
    Simple(Vec<P>),
    SegLoc(P, P, P),
    TriLoc(P, P, P, P),
    PolyLoc(P, Vec<P>),
    CircleLoc(P, P, i64),
    ArcLoc(P, Shape),
    LineLoc(P, P, P),
    LineLine(P, P, P, P),
    /// point, origin, direction
    RayLoc(P, P, P),
    /// line through two points; origin, direction
    LineRay(P, P, P, P),
    SegRay(P, P, P, P),
    ProjLine(P, P, P),
    ProjSeg(P, P, P),
    Pair(Shape, Shape),
    Sweep(Vec<Shape>),
    Hull(Vec<P>),
    Earcut(Vec<P>),
    /// two directions
    Vectors(P, P),
    Pieces(Shape),
    Order(P, P),
}
pub const KINDS: u64 = 23;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Yes(bool),
    Code(i32),
    /// 1 left, -1 right
    Side(i32),
    /// 1 counter-clockwise
    Orient(i32),
    /// points in any order
    Pts(Vec<F2>),
    /// closed path
    Path(Vec<F2>),
    Area(f64),
    Num(f64),
    Tris(Vec<Vec<usize>>),
}
use Val::*;

fn xyt<T: Real>(p: &Point2<T>) -> F2 {
    (p.x().f(), p.y().f())
}
fn pts<T: Real>(v: &[Point2<T>]) -> Vec<F2> {
    v.iter().map(xyt).collect()
}
fn opt<T: Real>(p: Option<Point2<T>>) -> Val {
    Pts(p.iter().map(xyt).collect())
}
fn seg_side(l: Point2Segment2Location) -> Val {
    match l {
        Point2Segment2Location::On => Code(1),
        Point2Segment2Location::Collinear => Code(2),
        Point2Segment2Location::Left => Side(1),
        Point2Segment2Location::Right => Side(-1),
    }
}
fn ray_side(l: Point2Ray2Location) -> Val {
    match l {
        Point2Ray2Location::On => Code(1),
        Point2Ray2Location::Collinear => Code(2),
        Point2Ray2Location::Left => Side(1),
        Point2Ray2Location::Right => Side(-1),
    }
}

pub fn run<T: Real>(f: &impl Place, q: &Q) -> Vec<Val> {
    let p = |a: &P| f.point::<T>(*a);
    let seg = |a: &P, b: &P| LineSegment2::new(p(a), p(b));
    let dir = |d: &P| f.direction::<T>(*d);
    let poly = |v: &Vec<P>| Polygon2::new(v.iter().map(p).collect());
    match q {
        Q::Turn(a, b, c) => vec![match Point2::turn(&p(a), &p(b), &p(c)) {
            TurnDirection::Left => Side(1),
            TurnDirection::Right => Side(-1),
            TurnDirection::Collinear => Code(0),
        }],
        Q::Triangle(a, b, c) => {
            let mut t = Triangle2::new(p(a), p(b), p(c));
            let o = |t: &Triangle2<T>| {
                Orient(match t.orientation() {
                    Orientation::CounterClockwise => 1,
                    Orientation::Clockwise => -1,
                })
            };
            let mut out = vec![o(&t), Area(t.area().f()), Path(pts(&t.vertices()))];
            t.reverse_orientation();
            out.extend([o(&t), Area(t.area().f())]);
            out
        }
        Q::Polygon(v, convex) => {
            let g = poly(v);
            let mut out = vec![Area(g.area().f())];
            if *convex {
                out.push(Yes(g.is_convex()));
            }
            out
        }
        Q::Simple(v) => vec![Yes(poly(v).is_simple())],
        Q::SegLoc(a, s, t) => {
            let s = seg(s, t);
            vec![seg_side(locate_point_2_line_segment_2(&p(a), &s)), Yes(is_point_2_on_line_segment_2(&p(a), &s))]
        }
        Q::TriLoc(a, b, c, d) => {
            let t = Triangle2::new(p(b), p(c), p(d));
            vec![Code(match locate_point_2_triangle_2(&p(a), &t) {
                Point2Triangle2Location::On => 1,
                Point2Triangle2Location::Inside => 2,
                Point2Triangle2Location::Outside => 0,
            })]
        }
        Q::PolyLoc(a, v) => {
            let (g, a) = (poly(v), p(a));
            vec![
                Code(match locate_point_2_polygon_2(&a, &g) {
                    Point2Polygon2Location::On => 1,
                    Point2Polygon2Location::Inside => 2,
                    Point2Polygon2Location::Outside => 0,
                }),
                Yes(is_point_2_on_polygon_2(&a, &g)),
                Yes(is_point_2_inside_polygon_2(&a, &g)),
                Yes(is_point_2_outside_polygon_2(&a, &g)),
            ]
        }
        Q::CircleLoc(a, c, r) => {
            let Lib::C(k) = Shape::Circle(*c, *r).lib::<T>(f) else { unreachable!() };
            vec![
                Code(match locate_point_2_circle_segment_2(&p(a), &k) {
                    Point2Circle2Location::On => 1,
                    Point2Circle2Location::Inside => 2,
                    Point2Circle2Location::Outside => 0,
                }),
                Yes(is_point_2_on_circle_segment_2(&p(a), &k)),
            ]
        }
        Q::ArcLoc(a, x) => {
            let Lib::A(k) = x.lib::<T>(f) else { unreachable!() };
            vec![
                Code((locate_point_2_arc_segment_2(&p(a), &k) == Point2ArcSegment2Location::On) as i32),
                Yes(is_point_2_on_arc_segment_2(&p(a), &k)),
            ]
        }
        Q::LineLoc(a, s, t) => {
            let l = Line2::from_points(&p(s), &p(t));
            vec![Code((locate_point_2_line_2(&p(a), &l) == Point2Line2Location::On) as i32), Yes(is_point_2_on_line_2(&p(a), &l))]
        }
        Q::LineLine(a, b, c, d) => {
            let (l, m) = (Line2::from_points(&p(a), &p(b)), Line2::from_points(&p(c), &p(d)));
            vec![opt(line_2_line_2_intersection(&l, &m)), Yes(is_line_2_line_2_intersected(&l, &m)), Yes(l == m)]
        }
        Q::RayLoc(a, o, d) => {
            let r = Ray2::new(p(o), dir(d));
            vec![ray_side(locate_point_2_ray_2(&p(a), &r)), Yes(is_point_2_on_ray_2(&p(a), &r))]
        }
        Q::LineRay(a, b, o, d) => {
            let (l, r) = (Line2::from_points(&p(a), &p(b)), Ray2::new(p(o), dir(d)));
            vec![opt(line_2_ray_2_intersection(&l, &r)), Yes(is_line_2_ray_2_intersected(&l, &r))]
        }
        Q::SegRay(a, b, o, d) => {
            let (l, r) = (seg(a, b), Ray2::new(p(o), dir(d)));
            vec![Pts(pts(&line_segment_2_ray_2_intersection(&l, &r))), Yes(is_line_segment_2_ray_2_intersected(&l, &r))]
        }
        Q::ProjLine(a, b, c) => vec![Pts(vec![xyt(&point_2_project_line_2(&p(a), &Line2::from_points(&p(b), &p(c))))])],
        Q::ProjSeg(a, b, c) => vec![opt(point_2_project_line_segment_2(&p(a), &seg(b, c)))],
        Q::Pair(x, y) => {
            let (x, y) = (x.lib::<T>(f), y.lib::<T>(f));
            vec![Pts(pts(&lib_inter(&x, &y))), Yes(lib_pred(&x, &y))]
        }
        Q::Sweep(m) => {
            let mut sw = SweepSegment2Intersection::<T>::new();
            for x in m {
                p17::push(&mut sw, f, x);
            }
            vec![Pts(pts(&sw.intersection()))]
        }
        Q::Hull(v) => vec![Path(pts(&ConvexHull2::new(v.iter().map(p).collect()).convex_hull()))],
        Q::Earcut(v) => vec![Tris(earcut_2(poly(v)))],
        Q::Vectors(a, b) => {
            let (a, b) = (dir(a), dir(b));
            let n = a.normalize();
            let sum = (a + b) * T::from_f64(2.0);
            let dif = (a - b) / T::from_f64(4.0);
            [a.length(), a.dot(&b), a.cross(&b), a.radian_to(&b), n.x(), n.y(), sum.x(), sum.y(), dif.x(), dif.y()].iter().map(|v| Val::Num(v.f())).collect()
        }
        Q::Pieces(x) => {
            let v = match x.lib::<T>(f) {
                Lib::C(k) => k.monotone(),
                Lib::A(k) => k.monotone(),
                _ => vec![],
            };
            let mut out = Vec::new();
            for a in &v {
                out.extend([Val::Num(a.source_radian().f()), Val::Num(a.target_radian().f()), Yes(a.is_top()), Pts(vec![xyt(&a.source())]), Pts(vec![xyt(&a.target())])]);
            }
            out
        }
        Q::Order(a, b) => vec![Code(p(a).cmp(&p(b)) as i32), Yes(p(a) == p(b)), Val::Num(p(a).distance(&p(b)).f())],
    }
}

pub fn show(f: &Frame, q: &Q) -> String {
    match q {
        Q::Pair(x, y) => format!("{} and {}", x.show(f), y.show(f)),
        Q::Sweep(m) => format!("sweep of {}", p17::show_members(f, m)),
        Q::Pieces(x) => format!("pieces of {}", x.show(f)),
        Q::ArcLoc(p, x) => format!("{:?} against {}", f.fp(*p), x.show(f)),
        o => format!("{o:?} (in units of {})", f.unit()),
    }
}

pub fn label(q: &Q) -> &'static str {
    match q {
        Q::Turn(..) => "turn",
        Q::Triangle(..) => "triangle",
        Q::Polygon(..) => "polygon",
        Q::Simple(..) => "simple",
        Q::SegLoc(..) => "locate-segment",
        Q::TriLoc(..) => "locate-triangle",
        Q::PolyLoc(..) => "locate-polygon",
        Q::CircleLoc(..) => "locate-circle",
        Q::ArcLoc(..) => "locate-arc",
        Q::LineLoc(..) => "locate-line",
        Q::LineLine(..) => "line-line",
        Q::RayLoc(..) => "locate-ray",
        Q::LineRay(..) => "line-ray",
        Q::SegRay(..) => "segment-ray",
        Q::ProjLine(..) => "project-line",
        Q::ProjSeg(..) => "project-segment",
        Q::Pair(..) => "pair",
        Q::Sweep(..) => "sweep",
        Q::Hull(..) => "hull",
        Q::Earcut(..) => "earcut",
        Q::Vectors(..) => "vectors",
        Q::Pieces(..) => "pieces",
        Q::Order(..) => "order",
    }
}

/// Which kinds of question to draw.
#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    All,
    /// exact arithmetic also in 32-bit floats
    Exact,
    /// covered by the frame property
    Framed,
}

/// max_n: polygon and collection size
pub fn question(s: &mut Src, which: Which, max_n: usize) -> (Frame, Q) {
    let kinds: &[u64] = match which {
        Which::All => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16, 16, 17, 17, 17, 18, 19, 19, 20, 21, 22],
        Which::Exact => &[0, 1, 2, 4, 5, 6, 7, 18],
        Which::Framed => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16, 16, 17, 17, 17, 18, 19, 19],
    };
    let kind = s.pick(kinds);
    question_of(s, kind, which, max_n)
}
pub fn question_of(s: &mut Src, kind: u64, which: Which, max_n: usize) -> (Frame, Q) {
    let f = match kind {
        2 | 3 | 6 | 19 => p04::poly_frame(s),
        7 | 8 | 16 | 17 | 21 => curve_frame(s),
        _ => {
            let mut f = frame(s, 100);
            f.k = f.k.min(3);
            f.r = f.r.min(100);
            let m = (100i64 << f.k) - f.r;
            f.o = (f.o.0.clamp(-m, m), f.o.1.clamp(-m, m));
            f
        }
    };
    let f = if which == Which::Exact {
        let lim = 60;
        Frame { r: f.r.min(20), k: f.k.min(1), o: (f.o.0.clamp(-lim, lim), f.o.1.clamp(-lim, lim)) }
    } else {
        f
    };
    let three = |s: &mut Src| {
        let a = pt(s, &f);
        let b = pt_rel(s, &f, &[a]);
        let c = pt_rel(s, &f, &[a, b]);
        (a, b, c)
    };
    let direction = |s: &mut Src, o: P, k: P| {
        let d = match s.upto(2) {
            0 => (s.zig(3), s.zig(3)),
            1 => symmetry(s.upto(7), (1, 0)),
            _ => sub(k, o),
        };
        if d == (0, 0) { (1, 0) } else { d }
    };
    let q = match kind {
        0 => {
            let (a, b, c) = three(s);
            Q::Turn(a, b, c)
        }
        1 => {
            let (a, b, c) = three(s);
            Q::Triangle(a, b, c)
        }
        2 => {
            if s.chance(1, 3) {
                let n = s.idx(max_n.min(10));
                let mut v: Vec<P> = Vec::new();
                for _ in 0..n {
                    let p = pt_rel(s, &f, &v);
                    v.push(p);
                }
                Q::Polygon(v, false)
            } else {
                Q::Polygon(p04::gen_simple(s, &f, max_n), true)
            }
        }
        3 => {
            let v = p04::gen_simple(s, &f, max_n);
            Q::Simple(if s.chance(1, 2) { mutate_polygon(s, &v) } else { v })
        }
        4 => {
            let (a, b, c) = three(s);
            let p = if s.chance(1, 3) { pt_rel(s, &f, &[a, b, c]) } else { c };
            Q::SegLoc(p, a, b)
        }
        5 => {
            let (a, b, c) = three(s);
            let p = pt_rel(s, &f, &[a, b, c]);
            Q::TriLoc(p, a, b, c)
        }
        6 => {
            let v = p04::gen_simple(s, &f, max_n);
            let p = pt_rel(s, &f, &v);
            let p = if s.chance(1, 2) { (p.0, v[s.idx(v.len())].1) } else { p };
            Q::PolyLoc(p, v)
        }
        7 => {
            let c = pt(s, &f);
            let r = radius(s, &f);
            let p = lattice_on_circle(s, c, r);
            let p = if s.chance(1, 2) { (p.0 + s.zig(2), p.1 + s.zig(2)) } else { p };
            Q::CircleLoc(p, c, r)
        }
        8 => {
            let c = pt(s, &f);
            let r = radius(s, &f);
            let x = arc(s, c, r);
            let p = lattice_on_circle(s, c, r);
            let p = if s.chance(1, 6) { (p.0 + s.zig(1), p.1 + s.zig(1)) } else { p };
            Q::ArcLoc(p, x)
        }
        9 => {
            let (a, b, c) = three(s);
            Q::LineLoc(c, a, if a == b { (a.0 + 1, a.1) } else { b })
        }
        10 => {
            let (a, b, c) = three(s);
            let d = pt_rel(s, &f, &[a, b, c]);
            Q::LineLine(a, if a == b { (a.0 + 1, a.1) } else { b }, c, if c == d { (c.0, c.1 + 1) } else { d })
        }
        11 => {
            let (a, b, c) = three(s);
            let d = direction(s, a, b);
            Q::RayLoc(c, a, d)
        }
        12 | 13 => {
            let (a, b, c) = three(s);
            let e = pt_rel(s, &f, &[a, b, c]);
            let d = direction(s, a, e);
            let (b, c) = if b == c { (b, (b.0 + 1, b.1 + 1)) } else { (b, c) };
            if kind == 12 { Q::LineRay(b, c, a, d) } else { Q::SegRay(b, c, a, d) }
        }
        14 | 15 => {
            let (a, b, c) = three(s);
            let (b, c) = if b == c { (b, (b.0 + 1, b.1 + 1)) } else { (b, c) };
            if kind == 14 { Q::ProjLine(a, b, c) } else { Q::ProjSeg(a, b, c) }
        }
        16 => {
            let (ka, kb) = (s.upto(2), s.upto(2));
            let (x, y) = pair(s, &f, ka, kb);
            Q::Pair(x, y)
        }
        17 => {
            let n = 2 + s.idx(max_n.max(3) - 2);
            let kinds = s.pick(&[vec![0u64], vec![0, 1, 2], vec![1, 2], vec![0, 2]]);
            Q::Sweep(p17::members(s, &f, n, &kinds))
        }
        18 => {
            let n = s.idx(max_n + 1);
            let w = s.pick(&[2i64, 5, f.r]);
            let mut v: Vec<P> = Vec::new();
            for _ in 0..n {
                let p = if s.chance(1, 4) { pt_rel(s, &f, &v) } else { (f.o.0 + s.zig(w), f.o.1 + s.zig(w)) };
                v.push(p);
            }
            Q::Hull(v)
        }
        19 => Q::Earcut(p04::gen_simple(s, &f, max_n)),
        20 => Q::Vectors((s.zig(20), s.zig(20)), (s.zig(20), s.zig(20))),
        21 => {
            let c = pt(s, &f);
            let r = radius(s, &f);
            Q::Pieces(if s.chance(1, 4) { Shape::Circle(c, r) } else { arc(s, c, r) })
        }
        _ => {
            let (a, b, _) = three(s);
            Q::Order(a, b)
        }
    };
    (f, q)
}

/// Slope form of steep lines loses more than the library's tolerance.
fn steep(f: &Frame, a: P, b: P) -> bool {
    let d = sub(b, a);
    if d.0 == 0 || d.1 == 0 {
        return false;
    }
    let m = (d.1 as f64 / d.0 as f64).abs();
    let c = f.fp(a).1.abs() + m * f.fp(a).0.abs();
    m * 200.0 > 3e4 || (1.0 + m) * c > 5e4
}

/// Stops where the answer hangs on rounding or the question has no single right answer.
pub fn decided(f: &Frame, q: &Q) -> R {
    match q {
        Q::LineLoc(_, a, b) | Q::ProjLine(_, a, b) | Q::LineRay(a, b, ..) if steep(f, *a, *b) => discard("too steep for the tolerance"),
        Q::LineLine(a, b, c, d) if steep(f, *a, *b) || steep(f, *c, *d) => discard("too steep for the tolerance"),
        Q::TriLoc(_, a, b, c) | Q::Triangle(a, b, c) if orient(*a, *b, *c) == 0 => discard("degenerate triangle"),
        Q::LineRay(a, b, _, d) if cross(sub(*b, *a), *d) == 0 => discard("parallel line and ray"),
        Q::CircleLoc(p, c, r) => {
            let g = sub(*p, *c);
            let v = dot(g, g) - *r as i128 * *r as i128;
            if v != 0 && v.unsigned_abs() as f64 / (2.0 * *r as f64 + 1.0) * f.unit() < 1e-8 {
                return discard("near the circle");
            }
            Ok(())
        }
        Q::ArcLoc(p, x) => {
            let Shape::Arc(c, r, s, t) = *x else { return Ok(()) };
            let g = sub(*p, c);
            let v = dot(g, g) - r as i128 * r as i128;
            if v != 0 && v.unsigned_abs() as f64 / (2.0 * r as f64 + 1.0) * f.unit() < 1e-8 {
                return discard("near the circle");
            }
            if v == 0 && covers_within(s, t, (g.1 as f64).atan2(g.0 as f64), 2e-13, r as f64 * f.unit()) == Cover::Unsure {
                return discard("too close to an arc end");
            }
            Ok(())
        }
        Q::Pair(x, y) => common(f, x, y).map(|_| ()),
        Q::Sweep(m) => p17::expected(f, m).map(|_| ()),
        _ => Ok(()),
    }
}

/// Is the answer's size or position interesting?
pub fn weighty(v: &[Val]) -> bool {
    v.iter().any(|x| match x {
        Yes(b) => *b,
        Code(c) => *c != 0,
        Side(_) | Orient(_) => true,
        Pts(p) => !p.is_empty(),
        Path(p) => p.len() >= 3,
        Area(a) => *a != 0.0,
        Val::Num(_) => true,
        Tris(t) => t.len() >= 2,
    })
}
