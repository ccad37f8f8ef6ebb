//! C30: values give back what they were built from, compare by it, and print it.
use super::prelude::*;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::triangle_2::Triangle2;
use rcgal::kernel::util_enum::{Orientation, Segment2Type};

/// Seen through f64 and f32 alike.
trait Both: NumberType + 'static {
    fn f(self) -> f64;
    const EPS: f64;
}
impl Both for f64 {
    fn f(self) -> f64 {
        self
    }
    const EPS: f64 = 1e-10;
}
impl Both for f32 {
    fn f(self) -> f64 {
        self as f64
    }
    const EPS: f64 = 1e-6;
}

/// Components on a grid the type holds exactly.
fn comp<T: Both>(s: &mut Src, r: i64) -> T {
    T::from_f64(s.zig(r) as f64 / s.pick(&[1.0, 1.0, 2.0, 8.0]))
}
fn comps<T: Both>(s: &mut Src, n: usize) -> Vec<T> {
    let r = s.pick(&[2i64, 5, 30]);
    (0..n).map(|_| comp(s, r)).collect()
}
/// A copy with none or some components moved clear of the tolerance, and which were.
fn variant<T: Both>(s: &mut Src, v: &[T]) -> (Vec<T>, Vec<bool>) {
    let mut w = v.to_vec();
    let mut moved = vec![false; v.len()];
    if s.chance(1, 4) {
        // the same numbers or points in another order
        let by = if v.len() > 2 && s.chance(2, 3) { 2 } else { 1 };
        if s.chance(1, 2) {
            w.rotate_left(by);
        } else {
            let (i, j) = (s.idx(v.len() / by) * by, s.idx(v.len() / by) * by);
            for k in 0..by.min(v.len() - i.max(j)) {
                w.swap(i + k, j + k);
            }
        }
        for (i, m) in moved.iter_mut().enumerate() {
            *m = w[i].f() != v[i].f();
        }
        return (w, moved);
    }
    let n = s.weighted(&[3, 5, 1]);
    for _ in 0..n {
        let i = s.idx(v.len());
        let d = s.pick(&[1.0, -1.0, 0.125, -0.125, 7.5, 64.0, -0.0001220703125, 0.0001220703125]);
        w[i] = T::from_f64(v[i].f() + d);
        moved[i] = true;
    }
    (w, moved)
}
/// A copy with components nudged far below the tolerance.
fn nudged<T: Both>(s: &mut Src, v: &[T]) -> Vec<T> {
    v.iter().map(|x| if s.chance(1, 2) { T::from_f64(x.f() + s.zig(1) as f64 * T::EPS * 0.02) } else { *x }).collect()
}
fn numbers(text: &str) -> Vec<f64> {
    let mut out = Vec::new();
    for w in text.split(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-' || c == 'e')) {
        if let Ok(x) = w.parse::<f64>() {
            out.push(x);
        }
    }
    out
}
fn fs<T: Both>(v: &[T]) -> Vec<f64> {
    v.iter().map(|x| x.f()).collect()
}
fn pts<T: Both>(v: &[T]) -> Vec<Point2<T>> {
    v.chunks(2).map(|c| Point2::new(c[0], c[1])).collect()
}
fn at<T: Both>(p: &Point2<T>) -> [f64; 2] {
    [p.x().f(), p.y().f()]
}

fn values<T: Both>(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let v: Vec<T> = comps(s, 6);
    let what = s.upto(6);
    let n = [2usize, 2, 4, 6, 4, 3, 6][what as usize];
    let v = &v[..n];
    let (w, moved) = variant(s, v);
    let near = nudged(s, v);
    let same = !moved.iter().any(|m| *m);
    let names = ["point", "vector", "line segment", "triangle", "ray", "line", "polygon"];
    c.label(names[what as usize]);
    c.note(|| format!("{} {:?} and {:?}", names[what as usize], fs(v), fs(&w)));
    c.nontrivial = v.iter().any(|x| x.f() != 0.0) && !same;
    let name = names[what as usize];
    let equal = |got: bool, ne: bool, want: bool, a: &[T], b: &[T]| -> R {
        ensure!(got == want && ne != want, "{name} {:?} == {name} {:?} is {got} (and != {ne})", fs(a), fs(b));
        Ok(())
    };
    match what {
        0 => {
            let (p, q, r) = (Point2::new(v[0], v[1]), Point2::new(w[0], w[1]), Point2::new(near[0], near[1]));
            ensure!(at(&p) == [v[0].f(), v[1].f()], "point {:?} hands back {:?}", fs(v), at(&p));
            let g = p.get_vector();
            ensure!((g.x().f(), g.y().f()) == (v[0].f(), v[1].f()), "point {:?} as a vector is {g:?}", fs(v));
            equal(p == q, p != q, same, v, &w)?;
            equal(p == r, p != r, true, v, &near)?;
            for text in [format!("{p}"), format!("{p:?}")] {
                let got = numbers(&text);
                ensure!(got.len() >= 2 && got[got.len() - 2..] == fs(v)[..], "point {:?} is printed as {text:?}", fs(v));
            }
        }
        1 => {
            let (p, q, r) = (Vector2::new(v[0], v[1]), Vector2::new(w[0], w[1]), Vector2::new(near[0], near[1]));
            ensure!((p.x().f(), p.y().f()) == (v[0].f(), v[1].f()), "vector {:?} hands back {p:?}", fs(v));
            equal(p == q, p != q, same, v, &w)?;
            equal(p == r, p != r, true, v, &near)?;
        }
        2 => {
            let mk = |v: &[T]| {
                let p = pts(v);
                LineSegment2::new(p[0], p[1])
            };
            let (p, q, r) = (mk(v), mk(&w), mk(&near));
            ensure!([at(&p.source()), at(&p.target())].concat() == fs(v), "segment {:?} hands back {p:?}", fs(v));
            ensure!(p.segment_type() == Segment2Type::LineSegment2, "type of segment {p:?}");
            equal(p == q, p != q, same, v, &w)?;
            equal(p == r, p != r, true, v, &near)?;
            for (name, e) in [
                ("centre", refused(|| p.center().x().f())),
                ("radius", refused(|| p.radius().f())),
                ("source angle", refused(|| p.source_radian().f())),
                ("target angle", refused(|| p.target_radian().f())),
            ] {
                ensure!(e.is_err(), "a line segment has the {name} {e:?}");
            }
        }
        3 => {
            let p = pts(v);
            let mk = |v: &[T]| {
                let p = pts(v);
                Triangle2::new(p[0], p[1], p[2])
            };
            let mut t = mk(v);
            let back: Vec<f64> = [t.a(), t.b(), t.c()].iter().flat_map(|p| at(p)).collect();
            let list: Vec<f64> = t.vertices().iter().flat_map(|p| at(p)).collect();
            ensure!(back == fs(v) && list == fs(v), "triangle {:?} hands back {back:?} and {list:?}", fs(v));
            for (i, e) in t.edges().iter().enumerate() {
                let ends = [at(&e.source()), at(&e.target())];
                ensure!(ends == [at(&p[i]), at(&p[(i + 1) % 3])], "edge {i} of triangle {:?} is {ends:?}", fs(v));
            }
            let u = mk(&w);
            // moving a corner may turn it round as well: unequal either way
            equal(t == u, t != u, same, v, &w)?;
            let same_t = mk(v);
            let before = t.orientation();
            t.reverse_orientation();
            equal(t == same_t, t != same_t, false, v, v)?;
            ensure!(before != t.orientation(), "reversed, still {before:?}");
            ensure!([Orientation::Clockwise, Orientation::CounterClockwise].contains(&t.orientation()), "orientation");
            let mut u = mk(v);
            u.reverse_orientation();
            equal(t == u, t != u, true, v, v)?;
            let copy = t.clone();
            equal(t == copy, t != copy, true, v, v)?;
        }
        4 => {
            if v[2].f() == 0.0 && v[3].f() == 0.0 {
                return discard("no direction");
            }
            let r = Ray2::new(Point2::new(v[0], v[1]), Vector2::new(v[2], v[3]));
            ensure!(at(&r.origin()) == [v[0].f(), v[1].f()], "ray {:?} starts at {:?}", fs(v), at(&r.origin()));
            let d = r.direction();
            let (x, y) = (d.x().f(), d.y().f());
            let l = (v[2].f() * v[2].f() + v[3].f() * v[3].f()).sqrt();
            let tol = T::EPS * 4.0;
            ensure!((x - v[2].f() / l).abs() < tol && (y - v[3].f() / l).abs() < tol, "ray {:?} points along {d:?}", fs(v));
        }
        5 => {
            let l = Line2::new(v[0], v[1], v[2]);
            ensure!([l.a().f(), l.b().f(), l.c().f()].to_vec() == fs(v), "line {:?} hands back {l:?}", fs(v));
        }
        _ => {
            let p = pts(v);
            let k = c.src.int(0, 3) as usize;
            let g = Polygon2::new(p[..k].to_vec());
            let back: Vec<[f64; 2]> = g.vertices().iter().map(at).collect();
            let want: Vec<[f64; 2]> = p[..k].iter().map(at).collect();
            ensure!(back == want && g.edges().len() == k, "polygon {want:?} hands back {back:?} and {} edges", g.edges().len());
            for (i, e) in g.edges().iter().enumerate() {
                ensure!([at(&e.source()), at(&e.target())] == [want[i], want[(i + 1) % k]], "edge {i} of polygon {want:?} is {e:?}");
            }
        }
    }
    Ok(())
}

fn curves<T: Both>(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let v: Vec<T> = comps(s, 2);
    let r = T::from_f64(s.int(1, 80) as f64 / 8.0);
    let (a, b) = (angle(s, true), angle(s, true));
    let (ta, tb) = (T::from_f64(a), T::from_f64(b));
    let center = Point2::new(v[0], v[1]);
    let circle = CircleSegment2::new(center, r);
    let x = ArcSegment2::new(circle, ta, tb);
    let show = format!("circle {:?} r {} and its arc {} to {}", fs(&v), r.f(), ta.f(), tb.f());
    c.note(|| show.clone());
    ensure!(at(&circle.center()) == [v[0].f(), v[1].f()] && circle.radius().f() == r.f(), "{show}: the circle hands back {circle:?}");
    ensure!(at(&x.center()) == [v[0].f(), v[1].f()] && x.radius().f() == r.f(), "{show}: the arc hands back {x:?}");
    ensure!(circle.segment_type() == Segment2Type::CircleSegment2, "type of {circle:?}");
    ensure!(x.segment_type() == Segment2Type::ArcSegment2, "type of {x:?}");
    for (name, e) in [
        ("source", refused(|| circle.source().x().f())),
        ("target", refused(|| circle.target().x().f())),
        ("source angle", refused(|| circle.source_radian().f())),
        ("target angle", refused(|| circle.target_radian().f())),
    ] {
        ensure!(e.is_err(), "a circle has the {name} {e:?}");
    }
    // the angles, up to full turns
    let tol = 100.0 * T::EPS;
    let apart = |x: f64, y: f64| {
        let d = wrap(x - y);
        d.min(TAU - d)
    };
    let (ga, gb) = (x.source_radian().f(), x.target_radian().f());
    let full = apart(a, b) < tol;
    if full {
        let sp = gb - ga;
        c.label("equal angles");
        ensure!(apart(sp, 0.0) < tol, "{show}: runs from {ga} to {gb}");
    } else {
        c.nontrivial = true;
        ensure!(apart(ga, a) < tol && apart(gb, b) < tol, "{show}: runs from {ga} to {gb}");
        ensure!(ga <= 4.0 * std::f64::consts::PI + tol && gb <= 4.0 * std::f64::consts::PI + tol, "{show}: runs from {ga} to {gb}");
        let p = [(x.source(), a), (x.target(), b)];
        for (got, phi) in p {
            let w = (v[0].f() + r.f() * phi.cos(), v[1].f() + r.f() * phi.sin());
            let g = at(&got);
            ensure!((g[0] - w.0).abs() < tol && (g[1] - w.1).abs() < tol, "{show}: end {g:?}, expected {w:?}");
        }
    }
    // equality
    let on_turn = |x: f64| apart(x, 0.0) < tol;
    let s = &mut c.src;
    let what = s.upto(9);
    let d = s.pick(&[0.125f64, -0.0625, 0.5, 2.0]);
    let t = |x: T, d: f64| T::from_f64(x.f() + d);
    let rr = if r.f() + d > 0.0 { t(r, d) } else { t(r, d.abs()) };
    let y = match what {
        0 => ArcSegment2::new(CircleSegment2::new(Point2::new(t(v[0], d), v[1]), r), ta, tb),
        1 => ArcSegment2::new(CircleSegment2::new(Point2::new(v[0], t(v[1], d)), r), ta, tb),
        2 => ArcSegment2::new(CircleSegment2::new(center, rr), ta, tb),
        3 => ArcSegment2::new(circle, T::from_f64(a + d), tb),
        4 => ArcSegment2::new(circle, ta, T::from_f64(b + d)),
        5 => ArcSegment2::new(circle, T::from_f64(a + d), T::from_f64(b + d)),
        // the rest of the circle, and the arc's image in its chord
        7 => ArcSegment2::new(circle, tb, ta),
        8 => {
            let (p, q) = (x.source(), x.target());
            let image = Point2::new(p.x() + q.x() - center.x(), p.y() + q.y() - center.y());
            let half = |x: f64| T::from_f64(x + std::f64::consts::PI);
            ArcSegment2::new(CircleSegment2::new(image, r), half(b), half(a))
        }
        // every part far below the tolerance away
        9 => {
            let mut n = |x: T| T::from_f64(x.f() + s.zig(1) as f64 * T::EPS * 0.02);
            ArcSegment2::new(CircleSegment2::new(Point2::new(n(v[0]), n(v[1])), n(r)), n(ta), n(tb))
        }
        _ => ArcSegment2::new(circle, ta, tb),
    };
    let equal_ends = |x: f64, y: f64| apart(x, y) < tol;
    if what >= 3 && what <= 5 && (full || equal_ends(a + d, b) || equal_ends(a, b + d)) {
        // a full circle is the same from wherever it starts
        return Ok(());
    }
    if what == 9 && (T::EPS > 1e-9 || on_turn(a) || on_turn(b)) {
        return Ok(());
    }
    if (what == 7 || what == 8) && full {
        return Ok(());
    }
    if what == 8 && dist((y.center().x().f(), y.center().y().f()), (v[0].f(), v[1].f())) < 0.01 {
        return Ok(());
    }
    let want = what == 6 || what == 9;
    c.label(if want { "equal arcs" } else { "different arcs" });
    ensure!((x == y) == want && (y == x) == want && (x != y) != want, "arcs {x:?} and {y:?}: == is {}", x == y);
    Ok(())
}

/// Any finite number whatever, printed: the text reads back as the very same number.
fn print<T: Both + std::str::FromStr>(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let num = |s: &mut Src| -> T {
        let frac = s.int(-(1 << 53), 1 << 53) as f64;
        let k = match s.weighted(&[3, 3, 1]) {
            0 => -s.int(40, 60),
            1 => -s.int(60, 120),
            _ => s.int(-40, 60),
        };
        T::from_f64(frac * (k as f64).exp2())
    };
    let (x, y) = (num(s), num(s));
    c.nontrivial = x.f().fract() != 0.0 && y.f().fract() != 0.0;
    c.note(|| format!("({:e}, {:e})", x.f(), y.f()));
    let p = Point2::new(x, y);
    for text in [format!("{p}"), format!("{p:?}")] {
        let got: Vec<f64> = text
            .split(|c: char| !(c.is_ascii_digit() || ".-eE".contains(c)))
            .filter_map(|w| w.parse::<T>().ok())
            .map(|x| x.f())
            .collect();
        ensure!(got.len() >= 2 && got[got.len() - 2..] == [x.f(), y.f()], "point ({:e}, {:e}) is printed as {text:?}", x.f(), y.f());
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        rule: "points, vectors, segments, triangles, rays, lines, polygons, circles and arcs from grid components (f64 and f32): every accessor against the components, equality against a copy with some components moved by 1e-4 or more or nudged far below the tolerance, parts a shape lacks, printing (numbers of any magnitude and precision read back exactly); non-trivial: a component differs / is no whole number / the arc is not a full circle",
        subs: vec![
            sub_check("values", 40_000, 2_500_000, values::<f64>),
            sub_check("values-32", 30_000, 1_500_000, values::<f32>),
            sub_check("print", 20_000, 1_000_000, print::<f64>),
            sub_check("print-32", 20_000, 1_000_000, print::<f32>),
            sub_check("curves", 40_000, 2_500_000, curves::<f64>),
            sub_check("curves-32", 30_000, 1_500_000, curves::<f32>),
        ],
    }
}
