use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::precision_model::{PrecisionModel as Pm, PrecisionModelType as Ty};
use crate::src::{Meta, S};
use crate::util::*;

fn ty(s: &mut S) -> Ty { match s.int(0, 2) { 0 => Ty::Floating, 1 => Ty::Fixed, _ => Ty::FloatingSingle } }
/// any model as the constructors build it: type, scale given, the model
fn model(s: &mut S) -> (Ty, f64, Pm) {
    match s.int(0, 4) {
        0 => { let t = ty(s); (t, if t == Ty::Fixed { 1.0 } else { f64::NAN }, Pm::new_with_type(t)) }
        1 => (Ty::Floating, f64::NAN, Pm::default()),
        _ => { let k = scale(s); (Ty::Fixed, k, Pm::new_with_scale(k)) }
    }
}
fn scale(s: &mut S) -> f64 {
    match s.int(0, 4) {
        // far from one: grids of 10^-30 to 10^30
        4 => s.int(1, 9) as f64 * 10f64.powi(s.int(-30, 30) as i32) * if s.bool() { 1.0 } else { -1.0 },
        0 => s.int(1, 1000) as f64,
        1 => [1.0, 10.0, 100.0, 1000.0, 1e4, 1e6, 1e9, 0.1, 0.5, 2.0, 4.0, 1024.0][s.below(12)],
        2 => -(s.int(1, 1000) as f64),
        _ => -[0.25, 0.5, 0.001, 0.1, 10.0, 1000.0, 2.0, 1e6][s.below(8)],
    }
}
fn value(s: &mut S, k: f64) -> f64 {
    // around ties of the grid, integers, general
    let g = if k.is_nan() { 1.0 } else if k < 0.0 { -k } else { 1.0 / k };
    let n = s.int(-100000, 100000) as f64;
    match s.int(0, 4) {
        0 => (n + 0.5) * g,
        1 => crate::src::nudge((n + 0.5) * g, s.int(-2, 2)),
        2 => n * g,
        3 if (n / g).abs() < 1e15 => n,
        4 => { let v = s.real(1e6, 3); if (v / g).abs() < 1e15 { v } else { (n + v.fract()) * g } }
        _ => (n + 0.25) * g,
    }
}
/// floor(x + 1/2), exactly
fn round(x: f64) -> f64 { let r = x.round(); if r - x == 0.5 && x < 0.0 { r } else if x < 0.0 && x - r == 0.5 { r + 1.0 } else { r } }

contracts! {
    { f: "PrecisionModel::new_with_type, PrecisionModel::default, PrecisionModel::new_with_scale, PrecisionModel::from_precision_model, PrecisionModel::get_type, PrecisionModel::is_floating, PrecisionModel::get_scale, PrecisionModel::grid_size, PrecisionModel::set_scale", tier: "native" }
    fn queries_agree_with_the_construction(s) {
        let (t, k, m) = model(s);
        let c = Pm::from_precision_model(m);
        for m in [m, c] {
            ck!(m.get_type() == t, "type: as constructed");
            ck!(m.is_floating() == (t != Ty::Fixed), "is_floating: both floating types");
            if t == Ty::Fixed {
                let (want, grid) = if k < 0.0 { (1.0 / -k, -k) } else { (k, 1.0 / k) };
                ck!(m.get_scale() == want, "scale: as given, the reciprocal of the grid size for a negative one");
                ck!(m.grid_size() == grid, "grid size: the reciprocal of the scale, as given when negative");
            } else {
                ck!(m.get_scale().is_nan() && m.grid_size().is_nan(), "floating models: neither scale nor grid size");
            }
        }
    }
    { f: "PrecisionModel::make_precise, PrecisionModel::round", tier: "native" }
    fn make_precise_is_the_nearest_grid_value(s) {
        let (t, k, mut m) = model(s);
        let v = value(s, k);
        let r = m.make_precise(v);
        match t {
            Ty::Floating => ck!(r.to_bits() == v.to_bits(), "floating: unchanged"),
            Ty::FloatingSingle => {
                ck!(r == v as f32 as f64, "single: nearest single");
                let (a, b) = if v == 0.0 { (-1e-300, 1e-300) } else { (crate::src::nudge(v, -1), crate::src::nudge(v, 1)) };
                let (a, b) = (a.min(b), a.max(b));
                ck!(m.make_precise(a) <= r && r <= m.make_precise(b), "single: monotone");
            }
            Ty::Fixed => {
                let want = if k < 0.0 { round(v / -k) * -k } else { round(v * k) / k };
                ck!(r == want, "fixed: the value scaled, rounded with ties upward, unscaled");
                let g = if k < 0.0 { -k } else { 1.0 / k };
                ck!((r - v).abs() <= g / 2.0 + v.abs() * 1e-15 + g * 1e-9, "fixed: at most half a grid step away");
                let w = value(s, k);
                let q = m.make_precise(w);
                ck!(if v <= w { r <= q } else { r >= q }, "fixed: monotone");
                let n = (r / g).round();
                ck!(near(r, n * g, r.abs().max(g)), "fixed: on the grid");
            }
        }
        ck!(m.make_precise(r) == r, "idempotent");
        ck!(m.get_type() == t && same(m.get_scale(), Pm::from_precision_model(m).get_scale()), "the model is not changed");
        ck!(m.make_precise(f64::NAN).is_nan(), "NaN stays NaN");
    }
    { f: "PrecisionModel::make_precise, PrecisionModel::round", tier: "native" }
    fn whole_numbers(s) {
        let v = if s.int(0, 1) == 0 { s.fin() } else { s.int(-9, 9) as f64 / 4.0 };
        let mut m = Pm::new_with_type(Ty::Fixed);
        let r = m.make_precise(v);
        ck!(r == round(v), "scale one: the nearest whole number, ties upward");
        ck!(m.make_precise(f64::INFINITY) == f64::INFINITY && m.make_precise(f64::NEG_INFINITY) == f64::NEG_INFINITY, "infinity stays");
    }
    { f: "PrecisionModel::make_precise_coordinate", tier: "native" }
    fn coordinate(s) {
        let (_, k, mut m) = model(s);
        let c0 = Coordinate::new_xyzm(value(s, k), value(s, k), s.num(), s.num());
        let mut c = c0;
        m.make_precise_coordinate(&mut c);
        ck!(same(c.x, m.make_precise(c0.x)) && same(c.y, m.make_precise(c0.y)), "coordinate: x and y made precise");
        ck!(same(c.z, c0.z) && same(c.m, c0.m), "coordinate: z and m left alone");
    }
    { f: "PrecisionModel::equals, PrecisionModel::compare_to, PrecisionModel::get_maximum_significant_digits", tier: "native" }
    fn comparison(s) {
        let (t, k, a) = model(s);
        let (u, l, b) = if s.int(0, 3) == 0 { (t, k, Pm::from_precision_model(a)) } else { model(s) };
        let (_, _, c) = model(s);
        let sc = |m: &Pm| m.get_scale();
        ck!(a.equals(b) == (t == u && (t != Ty::Fixed || sc(&a) == sc(&b))), "equals: same type, and same scale when fixed");
        ck!(a.equals(a) && a.equals(b) == b.equals(a) && !(a.equals(b) && b.equals(c) && !a.equals(c)), "equals: an equivalence");
        let _ = l;
        for (t, m) in [(t, &a), (u, &b)] {
            let d = m.get_maximum_significant_digits();
            match t {
                Ty::Floating => ck!(d == 16, "digits: sixteen for doubles"),
                Ty::FloatingSingle => ck!(d == 6, "digits: six for singles"),
                Ty::Fixed => { let x = m.get_scale().log10(); ck!((d - 1) as f64 >= x - 1e-9 && ((d - 1) as f64) < x + 1.0 + 1e-9, "digits: one more than the digits after the point"); }
            }
        }
        let (d, e, f) = (a.get_maximum_significant_digits(), b.get_maximum_significant_digits(), c.get_maximum_significant_digits());
        ck!(sgn(a.compare_to(&b)) == sgn(d - e) && sgn(a.compare_to(&c)) == sgn(d - f), "compare: by significant digits");
        ck!(a.compare_to(&b) == -b.compare_to(&a) && a.compare_to(&a) == 0, "compare: antisymmetric");
        if a.equals(b) { ck!(a.compare_to(&b) == 0, "compare: zero on equal models"); }
    }
}
