//! C01: vectors, points, scalars.
use super::prelude::*;

/// value, exactly representable, magnitude 2^-10 .. 1e4
fn exact(s: &mut Src) -> f64 {
    let k = [0u32, 2, 10][s.weighted(&[4, 2, 1])];
    let r = s.pick(&[3i64, 10, 100, 10_000]);
    s.zig(r) as f64 / (1u64 << k) as f64
}
fn general(s: &mut Src) -> f64 {
    let m = s.pick(&[1.0, 10.0, 1000.0, 1e4, 0.05]);
    let v = (s.f01() * 2.0 - 1.0) * m;
    if v.abs() < 1e-3 { 0.0 } else { v }
}
fn component(s: &mut Src, general_too: bool) -> f64 {
    if general_too && s.chance(1, 2) { general(s) } else { exact(s) }
}

fn algebra_t<T: NumberType>(c: &mut Ctx, get: impl Fn(T) -> f64, tol: f64, exact_ok: bool) -> R {
    let s = &mut c.src;
    let gen = !exact_ok && s.chance(1, 2);
    let a = (component(s, gen), component(s, gen));
    let b = match s.upto(6) {
        0 => (-a.1, a.0),
        1 => (-a.0, -a.1),
        2 => (a.0, -a.1),
        // next to it, in one component or both
        3 => {
            let d = if exact_ok { 1.0 / 1024.0 } else { s.pick(&[1.0 / 1024.0, 1.0 / 65536.0, 1.0 / 1048576.0, 1.0 / 1073741824.0]) };
            (a.0 + s.zig(3) as f64 * d, a.1 + s.zig(3) as f64 * d)
        }
        _ => (component(s, gen), component(s, gen)),
    };
    let k = if exact_ok { s.pick(&[2.0, 0.5, -1.0, 4.0, 0.25, -8.0]) } else { component(s, true) };
    // all of it small or large: nothing here has a length scale but the tolerance
    let z = if s.chance(1, 3) { s.pick(&if tol > 1e-9 { [0.125, 1.0 / 256.0, 64.0] } else { [1.0 / 1024.0, 1.0 / 1048576.0, 1024.0] }) } else { 1.0 };
    let (a, b) = ((a.0 * z, a.1 * z), (b.0 * z, b.1 * z));
    let t = |v: f64| T::from_f64(v);
    // what the type really holds
    let hold = |v: f64| get(t(v));
    let a = (hold(a.0), hold(a.1));
    let b = (hold(b.0), hold(b.1));
    let k = hold(k);
    c.note(|| format!("a={a:?} b={b:?} k={k}"));
    let va = Vector2::new(t(a.0), t(a.1));
    let vb = Vector2::new(t(b.0), t(b.1));
    let eq = |x: T, want: f64, scale: f64, what: &str| -> R {
        let x = get(x);
        let ok = if exact_ok { x == want } else { (x - want).abs() <= tol * scale.abs().max(want.abs()) };
        ensure!(ok, "{what}: got {x}, expected {want}");
        Ok(())
    };
    eq(va.x(), a.0, 0.0, "vector x")?;
    eq(va.y(), a.1, 0.0, "vector y")?;
    let v = va + vb;
    let mag = |i: f64, j: f64| i.abs() + j.abs();
    eq(v.x(), a.0 + b.0, mag(a.0, b.0), "sum x")?;
    eq(v.y(), a.1 + b.1, mag(a.1, b.1), "sum y")?;
    let v = va - vb;
    eq(v.x(), a.0 - b.0, mag(a.0, b.0), "difference x")?;
    eq(v.y(), a.1 - b.1, mag(a.1, b.1), "difference y")?;
    let v = va * t(k);
    eq(v.x(), a.0 * k, 0.0, "scaled x")?;
    eq(v.y(), a.1 * k, 0.0, "scaled y")?;
    if k != 0.0 {
        let v = va / t(k);
        eq(v.x(), a.0 / k, 0.0, "divided x")?;
        eq(v.y(), a.1 / k, 0.0, "divided y")?;
    }
    eq(va.dot(&vb), a.0 * b.0 + a.1 * b.1, mag(a.0 * b.0, a.1 * b.1), "dot")?;
    eq(va.cross(&vb), a.0 * b.1 - a.1 * b.0, mag(a.0 * b.1, a.1 * b.0), "cross")?;

    let pa = Point2::new(t(a.0), t(a.1));
    let pb = Point2::new(t(b.0), t(b.1));
    let v = pa - pb;
    eq(v.x(), a.0 - b.0, mag(a.0, b.0), "point difference x")?;
    eq(v.y(), a.1 - b.1, mag(a.1, b.1), "point difference y")?;
    let v = pa + pb;
    eq(v.x(), a.0 + b.0, mag(a.0, b.0), "point sum x")?;
    eq(v.y(), a.1 + b.1, mag(a.1, b.1), "point sum y")?;
    let v = pa.get_vector();
    eq(v.x(), a.0, 0.0, "position vector x")?;
    eq(v.y(), a.1, 0.0, "position vector y")?;
    eq(pa.x(), a.0, 0.0, "point x")?;
    eq(pa.y(), a.1, 0.0, "point y")?;

    // irrational results: always by tolerance
    let near = |x: T, want: f64, scale: f64, what: &str| -> R {
        let x = get(x);
        ensure!((x - want).abs() <= tol * 8.0 * scale.abs().max(want.abs()), "{what}: got {x}, expected {want}");
        Ok(())
    };
    let d = (a.0 - b.0).hypot(a.1 - b.1);
    let m = mag(a.0, b.0) + mag(a.1, b.1);
    near(pa.distance(&pb), d, m, "distance")?;
    near(pb.distance(&pa), d, m, "distance reversed")?;
    let la = a.0.hypot(a.1);
    let lb = b.0.hypot(b.1);
    near(va.length(), la, 0.0, "length")?;
    let n = va.normalize();
    let n = (get(n.x()), get(n.y()));
    if la == 0.0 {
        ensure!(n == (0.0, 0.0), "zero vector normalised to {n:?}");
    } else {
        ensure!((n.0 - a.0 / la).abs() <= tol * 8.0 && (n.1 - a.1 / la).abs() <= tol * 8.0, "normalised {n:?} of {a:?}");
    }
    if la > 0.0 && lb > 0.0 {
        let r = get(va.radian_to(&vb));
        ensure!(r >= 0.0 && r <= TAU + 8.0 * tol, "directed angle {r} not in one turn");
        let cos = (a.0 * b.0 + a.1 * b.1) / (la * lb);
        let sin = (a.0 * b.1 - a.1 * b.0) / (la * lb);
        ensure!(
            (r.cos() - cos).abs() <= 16.0 * tol && (r.sin() - sin).abs() <= 16.0 * tol,
            "directed angle {r}: cosine {} expected {cos}, sine {} expected {sin}",
            r.cos(),
            r.sin()
        );
        c.nontrivial = a.0 != 0.0 && a.1 != 0.0 && b.0 != 0.0 && b.1 != 0.0;
        if sin < 0.0 {
            c.label("clockwise pair");
        }
        if cos < 0.0 {
            c.label("obtuse pair");
        }
    } else {
        c.label("zero vector");
    }
    Ok(())
}

fn algebra_exact(c: &mut Ctx) -> R {
    algebra_t::<f64>(c, |v| v, 1e-13, true)
}
fn algebra_f64(c: &mut Ctx) -> R {
    algebra_t::<f64>(c, |v| v, 1e-13, false)
}
fn algebra_f32(c: &mut Ctx) -> R {
    algebra_t::<f32>(c, |v| v as f64, 1e-6, false)
}

fn equality(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let a = (component(s, true), component(s, true));
    let near = s.chance(1, 2);
    let d = if near {
        ((s.f01() - 0.5) * 1e-11, (s.f01() - 0.5) * 1e-11)
    } else {
        let m = s.pick(&[1e-9, 1e-6, 1e-3, 1.0]) * (1.0 + s.f01());
        let sg = if s.chance(1, 2) { -m } else { m };
        let other = if s.chance(1, 2) { 0.0 } else { (s.f01() - 0.5) * 10.0 };
        if s.chance(1, 2) { (sg, other) } else { (other, sg) }
    };
    // keep the sums representable well below the tolerance
    let a = if near { (a.0.clamp(-1000.0, 1000.0), a.1.clamp(-1000.0, 1000.0)) } else { a };
    let b = (a.0 + d.0, a.1 + d.1);
    c.note(|| format!("a={a:?} b={b:?} near={near}"));
    c.nontrivial = true;
    let (va, vb) = (Vector2::new(a.0, a.1), Vector2::new(b.0, b.1));
    ensure!((va == vb) == near && (vb == va) == near, "vectors {a:?} and {b:?}: equality is not {near}");
    let (pa, pb) = (Point2::new(a.0, a.1), Point2::new(b.0, b.1));
    ensure!((pa == pb) == near && pa.equals(&pb) == near && pb.equals(&pa) == near, "points {a:?} and {b:?}: equality is not {near}");
    let s0 = NumberType::equals(a.0, b.0) && NumberType::equals(a.1, b.1);
    ensure!(s0 == near, "scalars of {a:?} and {b:?}: equality is not {near}");
    ensure!(NumberType::equals(b.0, a.0) == NumberType::equals(a.0, b.0), "scalar equality not symmetric");
    Ok(())
}

fn scalars(c: &mut Ctx) -> R {
    let s = &mut c.src;
    let x = component(s, true);
    let y = component(s, true);
    let u = s.f01() * 2.0 - 1.0;
    c.note(|| format!("x={x} y={y} u={u}"));
    c.nontrivial = x != 0.0;
    macro_rules! check {
        ($t:ty, $tol:expr) => {{
            let (x, y, u) = (x as $t, y as $t, u as $t);
            let eq = |got: $t, want: f64, what: &str| -> R {
                ensure!((got as f64 - want).abs() <= $tol * want.abs().max(1.0), "{what} of {x}, {y}, {u}: got {got}, expected {want}");
                Ok(())
            };
            let (fx, fy, fu) = (x as f64, y as f64, u as f64);
            eq(NumberType::sqrt(x.abs()), fx.abs().sqrt(), "sqrt")?;
            eq(NumberType::abs(x), fx.abs(), "abs")?;
            eq(NumberType::sin(x), fx.sin(), "sin")?;
            eq(NumberType::cos(x), fx.cos(), "cos")?;
            eq(NumberType::acos(u), fu.acos(), "acos")?;
            eq(NumberType::atan(x), fx.atan(), "atan")?;
            if fx != 0.0 || fy != 0.0 {
                eq(NumberType::atan2(y, x), fy.atan2(fx), "atan2")?;
            }
            eq(<$t as DefaultNumberValueTrait>::from_f64(fx), fx, "from_f64")?;
            eq(<$t as DefaultNumberValueTrait>::pi(), std::f64::consts::PI, "pi")?;
            eq(<$t as DefaultNumberValueTrait>::zero(), 0.0, "zero")?;
            let e = <$t as DefaultNumberValueTrait>::default_eps();
            ensure!(e > 0.0 && NumberType::equals(0.0 as $t, e / 4.0) && !NumberType::equals(0.0 as $t, e * 4.0), "tolerance comparison is not at the tolerance {e}");
            ensure!(!NumberType::equals(1.0 as $t, 1.0 + e * 8.0) && NumberType::equals(x, x), "tolerance comparison is not at the tolerance {e}");
        }};
    }
    check!(f64, 1e-14);
    check!(f32, 1e-5);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "components are exact dyadic numbers or general doubles up to 1e4 (related pairs: perpendicular, opposite, mirrored); non-trivial: all four components non-zero (algebra), always (equality), x non-zero (scalars), answer not empty, negative or zero (signed-zero: zeros written -0.0)",
        subs: vec![
            sub_check("algebra-exact", 60_000, 4_000_000, algebra_exact),
            sub_check("algebra-f64", 60_000, 4_000_000, algebra_f64),
            sub_check("algebra-f32", 30_000, 2_000_000, algebra_f32),
            sub_check("equality", 30_000, 2_000_000, equality),
            sub_check("scalars", 20_000, 1_000_000, scalars),
            sub_check("signed-zero", 60_000, 3_600_000, |c| crate::signs::check(c, &[20], 4)),
        ],
    }
}
