//! C31: answers of different parts of the library fit together.
use super::p04::{gen_simple, poly_frame};
use super::p17::*;
use super::prelude::*;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::line_2_line_2::*;
use rcgal::algorithm::intersection::line_2_ray_2::*;
use rcgal::algorithm::intersection::line_segment_2_ray_2::*;
use rcgal::algorithm::location::location_enum::*;
use rcgal::algorithm::location::point_2_arc_segment_2::*;
use rcgal::algorithm::location::point_2_circle_segment_2::*;
use rcgal::algorithm::location::point_2_line_2::*;
use rcgal::algorithm::location::point_2_line_segment_2::*;
use rcgal::algorithm::location::point_2_polygon_2::*;
use rcgal::algorithm::location::point_2_ray_2::*;
use rcgal::algorithm::location::point_2_triangle_2::*;
use rcgal::algorithm::projection::point_2_line_2::*;
use rcgal::algorithm::projection::point_2_line_segment_2::*;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::triangle_2::Triangle2;

/// Does the library locate the point on the shape?
fn on(l: &Lib<f64>, p: &Point2<f64>) -> bool {
    match l {
        Lib::S(a) => is_point_2_on_line_segment_2(p, a),
        Lib::C(a) => is_point_2_on_circle_segment_2(p, a),
        Lib::A(a) => is_point_2_on_arc_segment_2(p, a),
    }
}
/// Do the two shapes cross at the point at a clear angle?
fn crossing(f: &Frame, x: &Shape, y: &Shape, p: F2) -> bool {
    let (a, b) = (direction(f, x, p), direction(f, y, p));
    (a.0 * b.1 - a.1 * b.0).abs() > 0.05
}

fn usual(s: &mut Src) -> Frame {
    let mut f = curve_frame(s);
    f.r = f.r.min(20);
    f
}
/// Coordinates and radii in the hundreds.
fn large(s: &mut Src) -> Frame {
    let r = s.pick(&[100i64, 200, 400, 600]);
    Frame { r, k: 0, o: (0, 0) }
}

fn meeting(c: &mut Ctx) -> R {
    let f = usual(&mut c.src);
    meeting_in(c, f, 6)
}
fn meeting_large(c: &mut Ctx) -> R {
    let f = large(&mut c.src);
    meeting_in(c, f, 6)
}
fn meeting_many(c: &mut Ctx) -> R {
    let f = usual(&mut c.src);
    meeting_in(c, f, 30)
}
fn meeting_in(c: &mut Ctx, f: Frame, most: usize) -> R {
    let s = &mut c.src;
    let kinds: Vec<u64> = s.pick(&[vec![0u64, 1, 2], vec![0], vec![0, 2], vec![1, 2], vec![2]]);
    let n = if most > 6 { 8 + s.idx(most - 6) } else { 2 + s.idx(most) };
    let m = members(s, &f, n, &kinds);
    c.note(|| show_members(&f, &m));
    expected(&f, &m)?;
    if f.r >= 100 {
        clear_crossings(&f, &m)?;
    }
    let lib: Vec<Lib<f64>> = m.iter().map(|x| x.lib(&f)).collect();
    let found = sweep_of(&f, &m);
    let mut pairs = 0;
    for i in 0..m.len() {
        for j in 0..i {
            for p in lib_inter(&lib[i], &lib[j]) {
                if !crossing(&f, &m[i], &m[j], xy(&p)) {
                    continue;
                }
                pairs += 1;
                for k in [i, j] {
                    ensure!(on(&lib[k], &p), "{} and {} meet in {p}, located off {}", m[i].show(&f), m[j].show(&f), m[k].show(&f));
                }
                ensure!(
                    found.iter().any(|q| Point2::new(q.0, q.1) == p),
                    "{} and {} meet in {p}, which the sweep over {} does not report: {found:?}",
                    m[i].show(&f),
                    m[j].show(&f),
                    show_members(&f, &m)
                );
            }
        }
    }
    c.nontrivial = pairs >= 1;
    for (i, q) in found.iter().enumerate() {
        let p = Point2::new(q.0, q.1);
        let through: Vec<usize> = (0..m.len()).filter(|k| off(&f, &m[*k], *q) < 1e-7).collect();
        if through.iter().any(|k| through.iter().any(|l| crossing(&f, &m[*k], &m[*l], *q))) {
            let n = lib.iter().filter(|l| on(l, &p)).count();
            ensure!(n >= 2, "the sweep reports {p}, located on {n} of {}", show_members(&f, &m));
        }
        for r in &found[i + 1..] {
            let r = Point2::new(r.0, r.1);
            ensure!(p != r && p < r, "the sweep reports {p} before {r}, compared {:?}", p.cmp(&r));
        }
    }
    Ok(())
}

fn lines(c: &mut Ctx) -> R {
    let mut f = frame(&mut c.src, 40);
    f.k = f.k.min(3);
    lines_in(c, f)
}
fn lines_large(c: &mut Ctx) -> R {
    let f = large(&mut c.src);
    lines_in(c, f)
}
fn lines_in(c: &mut Ctx, f: Frame) -> R {
    let s = &mut c.src;
    let mut v = Vec::new();
    for _ in 0..5 {
        let p = pt_rel(s, &f, &v);
        v.push(p);
    }
    if v[0] == v[1] || v[2] == v[3] {
        return discard("equal points");
    }
    let p: Vec<Point2<f64>> = f.pts(&v);
    c.note(|| format!("points {p:?}"));
    let (d, e) = (sub(v[1], v[0]), sub(v[3], v[2]));
    let sin = cross(d, e) as f64 / ((dot(d, d) as f64).sqrt() * (dot(e, e) as f64).sqrt());
    let (l, k) = (Line2::from_points(&p[0], &p[1]), Line2::from_points(&p[2], &p[3]));
    let steep = |d: P| d.0 != 0 && d.1.abs() > 50 * d.0.abs();
    // the slope form rounds more than the library's tolerance
    let loss = |l: &Line2<f64>| (1.0 + l.a().abs()) * (1.0 + l.c().abs()) > 5e4;
    if steep(d) || steep(e) || loss(&l) || loss(&k) || (sin != 0.0 && sin.abs() < 0.05) {
        return discard("ill-conditioned");
    }
    c.nontrivial = sin != 0.0 && cross(d, sub(v[2], v[0])) != 0;
    for (q, m) in [(0, &l), (1, &l), (2, &k), (3, &k)] {
        ensure!(is_point_2_on_line_2(&p[q], m), "{:?} is not located on the line {m:?} through it", p[q]);
    }
    ensure!((l == k) == (sin == 0.0 && is_point_2_on_line_2(&p[2], &l)), "lines {l:?} and {k:?}: equal is {}", l == k);
    let w = line_2_line_2_intersection(&l, &k);
    if let Some(w) = w {
        ensure!(is_point_2_on_line_2(&w, &l) && is_point_2_on_line_2(&w, &k), "{l:?} and {k:?} meet in {w}, located off one");
    }
    // projections
    let foot = point_2_project_line_2(&p[4], &l);
    ensure!(is_point_2_on_line_2(&foot, &l), "the projection {foot} of {} is located off {l:?}", p[4]);
    let seg = f.seg(v[0], v[1]);
    let ray = Ray2::new(p[2], p[3] - p[2]);
    match point_2_project_line_segment_2(&p[4], &seg) {
        Some(q) => {
            ensure!(is_point_2_on_line_segment_2(&q, &seg), "the projection {q} of {} is located off {seg:?}", p[4]);
            ensure!(q.distance(&foot) < 1e-9, "projections on the line {foot} and the segment {q} of {}", p[4]);
        }
        None => ensure!(!is_point_2_on_line_segment_2(&p[4], &seg), "{} is on {seg:?} yet has no projection", p[4]),
    }
    // rays
    if sin != 0.0 {
        let hit = line_2_ray_2_intersection(&l, &ray);
        if let Some(h) = hit {
            ensure!(is_point_2_on_ray_2(&h, &ray) && is_point_2_on_line_2(&h, &l), "{l:?} and the ray meet in {h}, located off one");
            ensure!(w.map_or(false, |w| w.distance(&h) < 1e-8), "ray and line meet in {h}, their lines in {w:?}");
        }
        let hits = line_segment_2_ray_2_intersection(&seg, &ray);
        for h in &hits {
            ensure!(is_point_2_on_ray_2(h, &ray) && is_point_2_on_line_segment_2(h, &seg), "{seg:?} and the ray meet in {h}, located off one");
            ensure!(hit.map_or(false, |w| w.distance(h) < 1e-8), "segment and ray meet in {h}, line and ray in {hit:?}");
        }
        if let Some(h) = hit {
            ensure!(hits.len() == is_point_2_on_line_segment_2(&h, &seg) as usize, "line and ray meet in {h}, segment and ray in {hits:?}");
        }
    }
    // turns, triangles and sides
    let turn = Point2::turn(&p[0], &p[1], &p[4]);
    let side = locate_point_2_line_segment_2(&p[4], &seg);
    use rcgal::kernel::util_enum::{Orientation, TurnDirection};
    let t = Triangle2::new(p[0], p[1], p[4]);
    let fits = match side {
        Point2Segment2Location::Left => turn == TurnDirection::Left && t.orientation() == Orientation::CounterClockwise && t.area() > 0.0,
        Point2Segment2Location::Right => turn == TurnDirection::Right && t.orientation() == Orientation::Clockwise && t.area() < 0.0,
        _ => turn == TurnDirection::Collinear && t.area().abs() < 1e-9 && is_point_2_on_line_2(&p[4], &l),
    };
    ensure!(fits, "{} is {side:?} of {seg:?}, the turn is {turn:?} and the triangle {t:?}", p[4]);
    Ok(())
}

fn polygons(c: &mut Ctx) -> R {
    polygons_in(c, 16)
}
fn polygons_many(c: &mut Ctx) -> R {
    polygons_in(c, 90)
}
fn polygons_in(c: &mut Ctx, most: usize) -> R {
    let s = &mut c.src;
    let mut f = poly_frame(s);
    if most > 16 {
        f.r = f.r.max(30);
    }
    let v = gen_simple(s, &f, most);
    let q: Vec<P> = {
        let mut q = v.clone();
        for _ in 0..6 {
            let i = s.idx(v.len());
            let (a, b) = (v[i], v[(i + 1) % v.len()]);
            q.push(match s.upto(3) {
                0 => pt(s, &f),
                1 => ((a.0 + b.0) / 2 + s.zig(1), (a.1 + b.1) / 2 + s.zig(1)),
                2 => midpoint_on(s, a, b).unwrap_or(a),
                _ => {
                    let j = s.idx(v.len());
                    ((a.0 + b.0 + v[j].0) / 3, (a.1 + b.1 + v[j].1) / 3)
                }
            });
        }
        q
    };
    let p = f.pts(&v);
    c.note(|| format!("polygon {p:?}, points {:?}", f.pts(&q[v.len()..])));
    let g = Polygon2::new(p.clone());
    ensure!(g.is_simple(), "a polygon whose edges only meet at corners is reported not simple: {p:?}");
    let tris = match refused(|| earcut_2(Polygon2::new(p.clone()))) {
        Ok(t) => t,
        Err(e) => return fail(format!("reported simple, yet not triangulated: {e}: {p:?}")),
    };
    let tris: Vec<Triangle2<f64>> = tris.iter().map(|t| Triangle2::new(p[t[0]], p[t[1]], p[t[2]])).collect();
    let area: f64 = tris.iter().map(|t| t.area().abs()).sum();
    ensure!(rel(area, g.area().abs(), 1e-9), "triangles of area {area}, polygon of area {}: {p:?}", g.area());
    let mut hull = ConvexHull2::new(p.clone());
    let h = Polygon2::new(hull.convex_hull());
    ensure!(h.is_convex() && h.is_simple() && h.area() > 0.0, "hull {:?} of {p:?}: area {}", h.vertices(), h.area());
    let bigger = h.area() - g.area().abs();
    ensure!(bigger > -1e-9 * h.area(), "hull of area {}, polygon of area {}", h.area(), g.area());
    ensure!(g.is_convex() == (bigger < 1e-9 * h.area()), "hull of area {}, polygon of area {}, convex is {}: {p:?}", h.area(), g.area(), g.is_convex());
    c.nontrivial = !g.is_convex();
    for x in &q {
        let x = f.p(*x);
        let w = locate_point_2_polygon_2(&x, &g);
        let ins: Vec<_> = tris.iter().map(|t| locate_point_2_triangle_2(&x, t)).collect();
        let inside = ins.iter().filter(|i| **i == Point2Triangle2Location::Inside).count();
        let edge = ins.iter().filter(|i| **i == Point2Triangle2Location::On).count();
        let fits = match w {
            Point2Polygon2Location::Inside => (inside == 1 && edge == 0) || (inside == 0 && edge >= 2),
            Point2Polygon2Location::On => inside == 0 && edge >= 1,
            Point2Polygon2Location::Outside => inside == 0 && edge == 0,
        };
        ensure!(fits, "{x} is {w:?} the polygon {p:?}, and in its triangles {ins:?}");
        let on_edges = g.edges().iter().filter(|e| is_point_2_on_line_segment_2(&x, *e)).count();
        ensure!((on_edges > 0) == (w == Point2Polygon2Location::On), "{x} is {w:?} the polygon {p:?}, on {on_edges} edges");
        if w != Point2Polygon2Location::Outside {
            ensure!(locate_point_2_polygon_2(&x, &h) != Point2Polygon2Location::Outside, "{x} is {w:?} {p:?} and outside its hull {:?}", h.vertices());
        }
    }
    Ok(())
}

/// The pieces of a circle or arc against its own location and intersections.
fn pieces(c: &mut Ctx) -> R {
    let f = usual(&mut c.src);
    pieces_in(c, f)
}
fn pieces_large(c: &mut Ctx) -> R {
    let f = large(&mut c.src);
    pieces_in(c, f)
}
fn pieces_in(c: &mut Ctx, f: Frame) -> R {
    let s = &mut c.src;
    let kind = s.int(1, 2) as u64;
    let x = shape(s, &f, kind);
    let (ct, r) = x.circle().unwrap();
    let y = seg_near(s, &f, ct, r);
    c.note(|| format!("{} and {}", x.show(&f), y.show(&f)));
    expected(&f, &[x, y])?;
    let lib = x.lib::<f64>(&f);
    let seg = y.lib::<f64>(&f);
    let parts: Vec<Lib<f64>> = match &lib {
        Lib::C(a) => a.monotone(),
        Lib::A(a) => a.monotone(),
        _ => unreachable!(),
    }
    .into_iter()
    .map(Lib::A)
    .collect();
    let whole = xys(&lib_inter(&lib, &seg));
    let mut some: Vec<F2> = Vec::new();
    for a in &parts {
        some.extend(xys(&lib_inter(a, &seg)));
        if let Lib::A(a) = a {
            for e in [a.source(), a.target()] {
                ensure!(on(&lib, &e), "piece {a:?} of {} ends in {e}, located off it", x.show(&f));
            }
        }
    }
    let some = dedup_near(&some, 1e-8);
    c.nontrivial = !whole.is_empty();
    c.label(if parts.len() > 2 { "3+ pieces" } else { "1-2 pieces" });
    ensure!(same_set(&whole, &some, 1e-8), "{} meets {} in {whole:?}, its pieces in {some:?}", y.show(&f), x.show(&f));
    for p in &whole {
        let p = Point2::new(p.0, p.1);
        if !crossing(&f, &x, &y, xy(&p)) {
            continue;
        }
        let n = parts.iter().filter(|a| on(a, &p)).count();
        ensure!(n >= 1, "{p} is on {} and on none of its pieces", x.show(&f));
    }
    Ok(())
}

/// Every yes/no question about a point agrees with the location, whatever the figure:
/// vertices in any order, repeated, collinear, one or two of them; flat triangles.
fn questions(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let f = poly_frame(s);
    let n = 1 + s.idx(10);
    let mut v = vec![pt(s, &f)];
    while v.len() < n {
        let last = v.len() - 1;
        v.push(if s.chance(1, 10) { v[last] } else { pt_rel(s, &f, &v[last.saturating_sub(3)..]) });
    }
    let p = f.pts(&v);
    let g = Polygon2::new(p.clone());
    let mut q = Vec::new();
    for _ in 0..4 {
        let i = s.idx(v.len());
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        q.push(match s.upto(3) {
            0 => pt(s, &f),
            1 => a,
            2 => midpoint_on(s, a, b).unwrap_or(a),
            _ => pt_rel(s, &f, &[a, b]),
        });
    }
    c.note(|| format!("vertices {p:?}, points {:?}", f.pts(&q)));
    c.label(if n < 3 { "fewer than 3 vertices" } else { "3-10 vertices" });
    for x in &q {
        let on = (0..n).any(|i| on_seg(*x, v[i], v[(i + 1) % n]));
        c.nontrivial |= on;
        let x = f.p(*x);
        let w = locate_point_2_polygon_2(&x, &g);
        let asked = (is_point_2_on_polygon_2(&x, &g), is_point_2_inside_polygon_2(&x, &g), is_point_2_outside_polygon_2(&x, &g));
        let fits = asked == (w == Point2Polygon2Location::On, w == Point2Polygon2Location::Inside, w == Point2Polygon2Location::Outside);
        ensure!(fits, "{x} is {w:?} {p:?}, and (on, inside, outside) are {asked:?}");
        ensure!(on == (w == Point2Polygon2Location::On), "{x} is {w:?} {p:?}, on an edge: {on}");
        for (i, e) in g.edges().iter().enumerate() {
            let here = locate_point_2_line_segment_2(&x, e) == Point2Segment2Location::On;
            ensure!(here == is_point_2_on_line_segment_2(&x, e), "{x} located on {e:?}: {here}, and asked otherwise");
            let t = Triangle2::new(p[i], p[(i + 1) % n], x);
            let l = locate_point_2_triangle_2(&x, &t);
            ensure!(l == Point2Triangle2Location::On, "the corner {x} is {l:?} {t:?}");
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C31",
        rule: "collections of 2-7 (many: 8-31) lattice segments, circles and arcs (pairwise points located on both members and reported by the sweep), lines/rays/segments through 5 related points, simple polygons of up to 16 (many: 90) vertices with 6+ query points (triangulation, hull, convexity, area and location against each other), curves against their own pieces, any 1-10 points as a polygon with points on and off its edges (each question against the location); the same with coordinates and radii in the hundreds (-large); non-trivial: a clear crossing / sloped lines meeting / a concave polygon / a met curve / a point on an edge",
        subs: vec![
            sub_check("meeting", 12_000, 800_000, meeting),
            sub_check("lines", 60_000, 4_000_000, lines),
            sub_check("polygons", 12_000, 800_000, polygons),
            sub_check("meeting-many", 1_500, 100_000, meeting_many),
            sub_check("polygons-many", 1_200, 80_000, polygons_many),
            sub_check("questions", 60_000, 4_000_000, questions),
            sub_check("pieces", 40_000, 2_500_000, pieces),
            sub_check("meeting-large", 12_000, 800_000, meeting_large),
            sub_check("lines-large", 30_000, 2_000_000, lines_large),
            sub_check("pieces-large", 20_000, 1_200_000, pieces_large),
        ],
    }
}
