use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::coordinates::Coordinates;
use crate::core::util::number_util::NumberUtil;
use crate::src::{Meta, S};
use crate::util::*;

fn has(c: &Coordinate, x: f64, y: f64, z: f64, m: f64) -> bool {
    same(c.x, x) && same(c.y, y) && same(c.z, z) && same(c.m, m)
}
fn sign(a: f64, b: f64) -> i32 { if a < b { -1 } else if a > b { 1 } else { 0 } }
/// x, y a small integer; z either missing or one
fn small(s: &mut S) -> Coordinate {
    let (x, y) = (s.grid(4), s.grid(4));
    let z = if s.bool() { f64::NAN } else { s.grid(4) };
    Coordinate::new_xyz(x, y, z)
}

contracts! {
    { f: "Coordinate::equals_2d, Coordinate::compare_to" }
    fn equality_is_planar_and_agrees_with_the_order(s) {
        let (a, b) = (any_c(s), any_c(s));
        ck!(a.equals_2d(&b) == (a.x == b.x && a.y == b.y), "planar equality compares x and y");
        if !a.x.is_nan() && !a.y.is_nan() && !b.x.is_nan() && !b.y.is_nan() {
            let w = if a.x != b.x { sign(a.x, b.x) } else { sign(a.y, b.y) };
            ck!(sgn(a.compare_to(&b)) == w, "comparison is by x, then by y");
            ck!((a.compare_to(&b) == 0) == a.equals_2d(&b), "comparison is zero exactly for planar-equal coordinates");
            ck!(sgn(a.compare_to(&b)) == -sgn(b.compare_to(&a)), "comparison is antisymmetric");
        }
    }
    { f: "Coordinate::compare_to" }
    fn comparison_is_transitive(s) {
        let (a, b, c) = (num_xy(s), num_xy(s), num_xy(s));
        ck!(!(a.compare_to(&b) <= 0 && b.compare_to(&c) <= 0) || a.compare_to(&c) <= 0, "comparison is transitive");
        ck!(!(a.compare_to(&b) < 0 && b.compare_to(&c) <= 0) || a.compare_to(&c) < 0, "comparison is transitive (strict)");
    }
    { f: "Coordinate::equals_3d" }
    fn spatial_equality(s) {
        let (a, b) = (any_c(s), any_c(s));
        ck!(a.equals_3d(&b) == (a.x == b.x && a.y == b.y && (a.z == b.z || (a.z.is_nan() && b.z.is_nan()))), "3D equality compares x, y and z, two missing z values being equal");
        ck!(a.equals_3d(&b) == b.equals_3d(&a), "3D equality is symmetric");
    }
    { f: "Coordinate::default, Coordinate::create, Coordinate::new_xy, Coordinate::new_xyz, Coordinate::new_xym, Coordinate::new_xyzm, Coordinate::from_coordinate, Coordinate::new_coordinatexy_default, Coordinate::new_coordinatexym_default, Coordinate::new_coordinatexyzm_default, Coordinate::new_coordinatexy, Coordinate::new_coordinatexym, Coordinate::new_coordinatexyzm" }
    fn constructors(s) {
        let n = f64::NAN;
        let (x, y, z, m) = (s.f64(), s.f64(), s.f64(), s.f64());
        ck!(has(&Coordinate::default(), 0.0, 0.0, n, n) && has(&Coordinate::create(), 0.0, 0.0, n, n), "default: origin without z and m");
        ck!(has(&Coordinate::new_xy(x, y), x, y, n, n) && has(&Coordinate::new_coordinatexy(x, y), x, y, n, n), "new_xy");
        ck!(has(&Coordinate::new_xyz(x, y, z), x, y, z, n), "new_xyz");
        ck!(has(&Coordinate::new_xym(x, y, m), x, y, n, m) && has(&Coordinate::new_coordinatexym(x, y, m), x, y, n, m), "new_xym");
        ck!(has(&Coordinate::new_xyzm(x, y, z, m), x, y, z, m) && has(&Coordinate::new_coordinatexyzm(x, y, z, m), x, y, z, m), "new_xyzm");
        ck!(has(&Coordinate::new_coordinatexy_default(), 0.0, 0.0, n, n), "default XY");
        ck!(has(&Coordinate::new_coordinatexym_default(), 0.0, 0.0, n, 0.0), "default XYM");
        ck!(has(&Coordinate::new_coordinatexyzm_default(), 0.0, 0.0, 0.0, 0.0), "default XYZM");
        ck!(has(&Coordinate::from_coordinate(&Coordinate::new_xyzm(x, y, z, m)), x, y, z, m), "copying carries over all ordinates");
    }
    { f: "Coordinate::get_x, Coordinate::get_y, Coordinate::get_z, Coordinate::get_m, Coordinate::set_x, Coordinate::set_y, Coordinate::set_z, Coordinate::set_m, Coordinate::set_coordinate" }
    fn named_access(s) {
        let a = any_c(s);
        let v = s.f64();
        ck!(same(a.get_x(), a.x) && same(a.get_y(), a.y) && same(a.get_z(), a.z) && same(a.get_m(), a.m), "getters read their ordinate");
        let mut b = a; b.set_x(v); ck!(has(&b, v, a.y, a.z, a.m), "set_x writes x only");
        let mut b = a; b.set_y(v); ck!(has(&b, a.x, v, a.z, a.m), "set_y writes y only");
        let mut b = a; b.set_z(v); ck!(has(&b, a.x, a.y, v, a.m), "set_z writes z only");
        let mut b = a; b.set_m(v); ck!(has(&b, a.x, a.y, a.z, v), "set_m writes m only");
        let o = any_c(s);
        let mut b = a; b.set_coordinate(&o); ck!(same_xyz(&b, &o), "assigning carries over x, y and z");
    }
    { f: "Coordinate::get_ordinate, Coordinate::set_ordinate" }
    fn index_access(s) {
        let a = any_c(s);
        let (i, v) = (s.i32(), s.f64());
        match a.get_ordinate(i) {
            Some(g) => ck!((i == 0 && same(g, a.x)) || (i == 1 && same(g, a.y)) || (i == 2 && same(g, a.z)) || (i == 3 && same(g, a.m)), "an ordinate is read by its index"),
            None => ck!(i < 0 || i > 2, "x, y and z are readable by index"),
        }
        let mut b = a;
        b.set_ordinate(i, v);
        if 0 <= i && i <= 2 {
            ck!(has(&b, if i == 0 { v } else { a.x }, if i == 1 { v } else { a.y }, if i == 2 { v } else { a.z }, a.m), "an ordinate is written by its index, the others stay");
        } else if i != 3 {
            ck!(same_c(&b, &a), "an index out of range writes nothing");
        } else {
            ck!(same_xyz(&b, &a), "writing index 3 leaves x, y and z");
        }
    }
    { f: "Coordinate::is_valid, Coordinate::is_xy, Coordinate::is_xym, Coordinate::is_xyzm" }
    fn kinds(s) {
        let a = any_c(s);
        let p = !a.x.is_nan() && !a.y.is_nan();
        ck!(a.is_valid() == (a.x.is_finite() && a.y.is_finite()), "valid: finite x and y");
        ck!(a.is_xy() == (p && a.z.is_nan() && a.m.is_nan()), "XY: no z, no m");
        ck!(a.is_xym() == (p && a.z.is_nan() && !a.m.is_nan()), "XYM: m without z");
        ck!(a.is_xyzm() == (p && !a.z.is_nan() && !a.m.is_nan()), "XYZM: both");
    }
    { f: "Coordinates::create_dim, Coordinates::create_dim_measures, Coordinates::dimension, Coordinates::measures" }
    fn created_by_dimension(s) {
        let (d, m) = (s.i32(), s.i32());
        let a = Coordinates::create_dim_measures(d, m);
        ck!(a.x == 0.0 && a.y == 0.0, "a created coordinate is at the origin");
        let known = d == 2 || (d == 3 && m == 1) || (d == 4 && m == 1);
        if d == 2 { ck!(Coordinates::dimension(&a) == 2 && Coordinates::measures(&a) == 0, "created as XY"); }
        if d == 3 && m == 1 { ck!(Coordinates::dimension(&a) == 3 && Coordinates::measures(&a) == 1, "created as XYM"); }
        if d == 4 && m == 1 { ck!(Coordinates::dimension(&a) == 4 && Coordinates::measures(&a) == 1, "created as XYZM"); }
        if !known { ck!(has(&a, 0.0, 0.0, f64::NAN, f64::NAN), "otherwise the default coordinate"); }
        let b = Coordinates::create_dim(d);
        ck!(has(&b, 0.0, 0.0, f64::NAN, f64::NAN), "by dimension alone: no measures");
        let c = any_c(s);
        if !c.x.is_nan() && !c.y.is_nan() {
            let (z, q) = (!c.z.is_nan(), !c.m.is_nan());
            ck!(Coordinates::dimension(&c) == if !z && !q { 2 } else if z && q { 4 } else { 3 }, "dimension counts the ordinates present");
            ck!(Coordinates::measures(&c) == if q { 1 } else { 0 }, "measures counts m");
        }
    }
    { f: "Coordinate::equals_2d_with_tolerance, Coordinate::equal_in_z, Coordinate::equal_in_coordinate_z, NumberUtil::equals_with_tolerance, Coordinates::equal", tier: "native" }
    fn tolerance(s) {
        let k = 1i64 << s.int(1, 40);
        let v: Vec<i64> = (0..6).map(|_| s.int(-k, k)).collect();
        let t = match s.int(0, 5) { 0 => 0, 1 => (v[0] - v[3]).abs(), 2 => (v[1] - v[4]).abs(), 3 => (v[2] - v[5]).abs(), 4 => ((v[1] - v[4]).abs() - 1).max(0), _ => s.int(0, 2 * k) };
        let mut f: Vec<f64> = v.iter().map(|i| *i as f64).collect();
        let tf = t as f64;
        let near = |i: usize| (v[i] - v[i + 3]).abs() <= t;
        let a = Coordinate::new_xyz(f[0], f[1], f[2]);
        let b = Coordinate::new_xyz(f[3], f[4], f[5]);
        for (a, b) in [(&a, &b), (&b, &a)] {
            ck!(a.equals_2d_with_tolerance(b, tf) == (near(0) && near(1)), "tolerance equality: both ordinates differ by at most the tolerance");
            ck!(a.equal_in_z(b, tf) == near(2) && a.equal_in_coordinate_z(b, tf) == near(2), "tolerance equality in z");
            ck!(NumberUtil::equals_with_tolerance(a.x, b.x, tf) == near(0), "tolerance equality of numbers");
        }
        let (dx, dy) = ((v[0] - v[3]) as i128, (v[1] - v[4]) as i128);
        let (d2, t2) = (dx * dx + dy * dy, t as i128 * t as i128);
        // away from the limit: hypot rounds
        if t == 0 { ck!(Coordinates::equal(&a, &b, 0.0) == (d2 == 0), "zero tolerance is planar equality"); }
        else if d2 > t2 + t2 / 1000000 + 1 { ck!(!Coordinates::equal(&a, &b, tf), "coordinates farther apart than the tolerance are not equal"); }
        else if d2 < t2 - t2 / 1000000 - 1 || dx == 0 || dy == 0 { ck!(Coordinates::equal(&a, &b, tf) == (d2 <= t2), "coordinates within the tolerance are equal"); }
    }
    { f: "Coordinate::distance, Coordinate::distance_3d", tier: "native" }
    fn distances(s) {
        let k = 1i64 << s.int(1, 30);
        let v: Vec<i64> = (0..6).map(|_| s.int(-k, k)).collect();
        let f: Vec<f64> = v.iter().map(|i| *i as f64).collect();
        let a = Coordinate::new_xyz(f[0], f[1], f[2]);
        let mut b = Coordinate::new_xyz(f[3], f[4], f[5]);
        match s.int(0, 5) { 0 => b = a, 1 => b.x = a.x, 2 => b.y = a.y, 3 => { b.x = a.x; b.y = a.y } _ => {} }
        let (dx, dy, dz) = (a.x - b.x, a.y - b.y, a.z - b.z);
        let sq = |d: f64| (d as i128 * d as i128) as f64;
        let (d2, d3) = (a.distance(&b), a.distance_3d(&b));
        ck!(d2 == b.distance(&a) && d3 == b.distance_3d(&a), "distance is symmetric");
        ck!((d2 == 0.0) == a.equals_2d(&b) && d2 >= 0.0, "distance is zero exactly for planar-equal coordinates");
        ck!((d3 == 0.0) == a.equals_3d(&b) && d3 >= 0.0, "spatial distance is zero exactly for equal coordinates");
        let (w2, w3) = ((sq(dx) + sq(dy)).sqrt(), (sq(dx) + sq(dy) + sq(dz)).sqrt());
        ck!(near_ulp(d2, w2) && near_ulp(d3, w3), "distance is the Euclidean one");
    }
}
