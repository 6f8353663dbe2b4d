//! Spec-level helpers shared by the contracts.  Nothing here restates repository code:
//! these are constructors of arbitrary values and mathematical predicates.
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
use crate::src::S;

pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
pub fn min2(a: f64, b: f64) -> f64 {
    if a <= b { a } else { b }
}
pub fn max2(a: f64, b: f64) -> f64 {
    if a >= b { a } else { b }
}
pub fn lo(a: f64, b: f64) -> f64 {
    min2(a, b)
}
pub fn hi(a: f64, b: f64) -> f64 {
    max2(a, b)
}
/// any XY coordinate with non-NaN ordinates (infinities allowed)
pub fn num_xy(s: &mut S) -> Coordinate {
    let x = s.num();
    let y = s.num();
    Coordinate::new_xy(x, y)
}
pub fn fin_xy(s: &mut S) -> Coordinate {
    let x = s.fin();
    let y = s.fin();
    Coordinate::new_xy(x, y)
}
pub fn grid_xy(s: &mut S, k: i8) -> Coordinate {
    let x = s.grid(k);
    let y = s.grid(k);
    Coordinate::new_xy(x, y)
}
/// any coordinate whatsoever: NaN ordinates included
pub fn any_c(s: &mut S) -> Coordinate {
    let x = s.f64();
    let y = s.f64();
    let z = s.f64();
    let m = s.f64();
    Coordinate::new_xyzm(x, y, z, m)
}
/// all four ordinates the same, NaN equal to NaN
pub fn same_c(a: &Coordinate, b: &Coordinate) -> bool {
    same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z) && same(a.m, b.m)
}
pub fn same_xyz(a: &Coordinate, b: &Coordinate) -> bool {
    same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z)
}
pub fn same_xy(a: &Coordinate, b: &Coordinate) -> bool {
    a.x == b.x && a.y == b.y
}
/// An arbitrary well-formed envelope: null, or built from two arbitrary non-NaN corners.
pub fn any_env(s: &mut S) -> Envelope {
    if s.bool() {
        Envelope::default()
    } else {
        let a = s.num();
        let b = s.num();
        let c = s.num();
        let d = s.num();
        Envelope::new_xy(a, b, c, d)
    }
}
pub fn some_env(s: &mut S) -> Envelope {
    let a = s.num();
    let b = s.num();
    let c = s.num();
    let d = s.num();
    Envelope::new_xy(a, b, c, d)
}
/// The set of points an envelope denotes.
pub fn denotes(e: &Envelope, x: f64, y: f64) -> bool {
    let null = e.get_max_x() < e.get_min_x();
    !null && e.get_min_x() <= x && x <= e.get_max_x() && e.get_min_y() <= y && y <= e.get_max_y()
}
pub fn wf(e: &Envelope) -> bool {
    e.is_null() || (e.get_min_x() <= e.get_max_x() && e.get_min_y() <= e.get_max_y())
}
pub fn bounds(e: &Envelope, a: f64, b: f64, c: f64, d: f64) -> bool {
    e.get_min_x() == a && e.get_max_x() == b && e.get_min_y() == c && e.get_max_y() == d
}
pub fn same_env(a: &Envelope, b: &Envelope) -> bool {
    (a.is_null() && b.is_null())
        || (!a.is_null() && !b.is_null()
            && bounds(a, b.get_min_x(), b.get_max_x(), b.get_min_y(), b.get_max_y()))
}
/// the overlap test of two closed intervals
pub fn meet(a0: f64, a1: f64, b0: f64, b1: f64) -> bool {
    max2(a0, b0) <= min2(a1, b1)
}
pub fn sgn(v: i32) -> i32 {
    if v > 0 { 1 } else if v < 0 { -1 } else { 0 }
}
/// Assumed contract on the external function f64::hypot (libm): the bounds every
/// correctly working hypot satisfies, exact on the axes, and a function of its arguments.
#[cfg(kani)]
static mut HYP: Option<(f64, f64, f64)> = None;
#[cfg(kani)]
pub fn hypot_contract(x: f64, y: f64) -> f64 {
    let (a, b) = (x.abs(), y.abs());
    unsafe {
        if let Some((p, q, r)) = HYP {
            if p == a && q == b {
                return r;
            }
        }
    }
    let r: f64 = kani::any();
    if x.is_infinite() || y.is_infinite() {
        kani::assume(r == f64::INFINITY);
    } else if x.is_nan() || y.is_nan() {
        kani::assume(r.is_nan());
    } else {
        kani::assume(r >= a && r >= b && r <= a + b);
    }
    unsafe {
        HYP = Some((a, b, r));
    }
    r
}
/// |a-b| small relative to the magnitude m
pub fn near(a: f64, b: f64, m: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1.0 + m.abs())
}
pub fn near_ulp(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 4e-16 * (a.abs() + b.abs()) || (a - b).abs() < 1e-320
}
/// one of six planar points, with some z and m
pub fn some_pt(s: &mut S) -> Coordinate { Coordinate::new_xyzm(s.int(0, 2) as f64, s.int(0, 1) as f64, s.int(0, 9) as f64 / 10.0, s.int(0, 9) as f64 / 10.0) }
pub fn some_pts(s: &mut S) -> Vec<Coordinate> {
    let n = s.many(7);
    // long ones often walk off to one side
    let d = if n > 7 { s.int(-1, 1) as f64 } else { 0.0 };
    (0..n).map(|i| { let mut p = some_pt(s); p.x += d * i as f64; p.y += d * (i / 2) as f64; p }).collect()
}
pub fn eq_pts(a: &[Coordinate], b: &[Coordinate]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(p, q)| same_c(p, q)) }
