use crate::core::algorithm::angle::Angle;
use crate::core::geom::coordinate::Coordinate;
use crate::poly::*;
use crate::src::{Meta, S};
use crate::util::*;
use std::f64::consts::PI;

fn ang(s: &mut S, turns: i64) -> f64 {
    let b = turns as f64 * 2.0 * PI;
    match s.int(0, 5) {
        0 => { let k = s.int(-8 * turns, 8 * turns); k as f64 * (PI / 4.0) }
        1 => { let k = s.int(-4 * turns, 4 * turns); let e = s.int(-2, 2); let v = k as f64 * (PI / 2.0); v + e as f64 * 4.5e-16 * (1.0 + v.abs()) }
        2 => { let m = s.int(1, 300); let g = if s.bool() { 1.0 } else { -1.0 }; g * 10f64.powi(-(m as i32)) }
        _ => s.real(b, 3),
    }
}
/// the same angle up to whole turns
fn alike(a: f64, b: f64) -> bool { (a.sin() - b.sin()).abs() < 1e-9 && (a.cos() - b.cos()).abs() < 1e-9 }
fn tri(s: &mut S, bits: i64) -> [P; 3] {
    let k = 1i64 << s.int(1, bits);
    let mut v = [(s.int(-k, k), s.int(-k, k)), (s.int(-k, k), s.int(-k, k)), (s.int(-k, k), s.int(-k, k))];
    match s.int(0, 4) {
        0 => { let d = (v[0].0 - v[1].0, v[0].1 - v[1].1); v[2] = (v[1].0 - d.1, v[1].1 + d.0); }
        1 => { let d = (v[0].0 - v[1].0, v[0].1 - v[1].1); v[2] = (v[1].0 + d.1 + s.int(-1, 1), v[1].1 - d.0 + s.int(-1, 1)); }
        2 => v[2].0 = v[1].0,
        _ => {}
    }
    v
}
fn dotp(p: &[P; 3]) -> i128 { (p[0].0 - p[1].0) as i128 * (p[2].0 - p[1].0) as i128 + (p[0].1 - p[1].1) as i128 * (p[2].1 - p[1].1) as i128 }

contracts! {
    { f: "Angle::PI_TIMES_2, Angle::PI_OVER_2, Angle::PI_OVER_4, Angle::COUNTERCLOCKWISE, Angle::CLOCKWISE, Angle::NONE", tier: "native" }
    fn constants(_s) {
        ck!(Angle::PI_TIMES_2 == 2.0 * PI && Angle::PI_OVER_2 * 2.0 == PI && Angle::PI_OVER_4 * 4.0 == PI, "the named fractions of a turn");
        ck!(Angle::COUNTERCLOCKWISE == 1 && Angle::CLOCKWISE == -1 && Angle::NONE == 0, "the named turns");
    }
    { f: "Angle::normalize, Angle::normalize_positive", tier: "native" }
    fn normalised(s) {
        let a = ang(s, 300);
        let r = Angle::normalize(a);
        ck!(-PI < r && r <= PI, "a normalised angle lies in (-pi, pi]");
        ck!(alike(r, a), "a normalised angle differs by whole turns");
        ck!(!(-PI < a && a <= PI) || r == a, "an angle in the range is left as it is");
        ck!(Angle::normalize(r) == r, "normalising is idempotent");
        let r = Angle::normalize_positive(a);
        ck!(0.0 <= r && r < 2.0 * PI, "a positively normalised angle lies in [0, 2 pi)");
        ck!(alike(r, a), "a positively normalised angle differs by whole turns");
        ck!(!(0.0 <= a && a < 2.0 * PI) || r == a, "an angle in the positive range is left as it is");
    }
    { f: "Angle::diff", tier: "native" }
    fn difference(s) {
        let (a, b) = (Angle::normalize(ang(s, 3)), Angle::normalize(ang(s, 3)));
        let d = Angle::diff(a, b);
        ck!(d == Angle::diff(b, a), "the difference of two angles is symmetric");
        ck!(0.0 <= d && d <= PI, "the difference of two angles is in [0, pi]");
        let e = (a - b).abs();
        ck!((d - if e <= PI { e } else { 2.0 * PI - e }).abs() < 1e-14, "the difference is the smaller of the two arcs");
        ck!(a != b || d == 0.0, "an angle does not differ from itself");
    }
    { f: "Angle::is_acute, Angle::is_obtuse", tier: "native" }
    fn acute_obtuse(s) {
        let p = tri(s, 25);
        let (a, b, d) = (c(p[0]), c(p[1]), c(p[2]));
        ck!(Angle::is_acute(&a, &b, &d) == (dotp(&p) > 0), "an angle is acute exactly when the dot product is positive");
        ck!(Angle::is_obtuse(&a, &b, &d) == (dotp(&p) < 0), "an angle is obtuse exactly when the dot product is negative");
    }
    { f: "Angle::get_turn", tier: "native" }
    fn turn(s) {
        let (a, b) = (ang(s, 3), ang(s, 3));
        let t = Angle::get_turn(a, b);
        ck!(t == -Angle::get_turn(b, a), "turns are antisymmetric");
        let x = (b - a).sin();
        if x.abs() > 1e-9 { ck!(t == if x > 0.0 { Angle::COUNTERCLOCKWISE } else { Angle::CLOCKWISE }, "the turn is counterclockwise exactly when the second angle is ahead"); }
        if a == b { ck!(t == Angle::NONE, "equal angles need no turn"); }
        ck!(Angle::COUNTERCLOCKWISE == 1 && Angle::CLOCKWISE == -1 && Angle::NONE == 0, "turn codes");
    }
    { f: "Angle::interior_angle, Angle::angle_between, Angle::angle_between_oriented, Angle::bisector", tier: "native" }
    fn three_points(s) {
        let p = tri(s, 9);
        s.assume(p[0] != p[1] && p[2] != p[1]);
        let (a, b, d) = (c(p[0]), c(p[1]), c(p[2]));
        let x = det(p[1], p[0], p[2]);
        let (la, lb) = (a.distance(&b), d.distance(&b));
        let i = Angle::interior_angle(&a, &b, &d);
        ck!(0.0 <= i && i < 2.0 * PI, "the interior angle is in [0, 2 pi)");
        ck!(x == 0 || (i < PI) == (x > 0), "the interior angle is below a straight angle exactly when the ring turns right");
        ck!((i.cos() * la * lb - dotp(&p) as f64).abs() < 1e-9 * la * lb && (i.sin() * la * lb - x as f64).abs() < 1e-9 * la * lb, "the interior angle turns the first side onto the second");
        let e = Angle::angle_between(&a, &b, &d);
        ck!(0.0 <= e && e <= PI && e == Angle::angle_between(&d, &b, &a), "the angle between vectors is symmetric and in [0, pi]");
        ck!((e.cos() * la * lb - dotp(&p) as f64).abs() < 1e-9 * la * lb, "the angle between vectors has the dot product's cosine");
        let o = Angle::angle_between_oriented(&a, &b, &d);
        ck!(-PI < o && o <= PI, "the oriented angle is in (-pi, pi]");
        ck!(x == 0 || (o > 0.0) == (x > 0), "the oriented angle has the sign of the orientation");
        ck!((o.cos() * la * lb - dotp(&p) as f64).abs() < 1e-9 * la * lb && (o.sin() * la * lb - x as f64).abs() < 1e-9 * la * lb, "the oriented angle turns the first side onto the second");
        let h = Angle::bisector(&a, &b, &d);
        ck!(-PI < h && h <= PI, "the bisector is in (-pi, pi]");
        ck!(alike(h, Angle::angle_coordinates(&b, &a) + o / 2.0), "the bisector halves the oriented angle");
    }
    { f: "Angle::angle_coordinates, Angle::angle_coordinate", tier: "native" }
    fn directions(s) {
        let (p, q) = (fin_xy(s), fin_xy(s));
        s.assume(p.x.abs() < 1e150 && p.y.abs() < 1e150 && q.x.abs() < 1e150 && q.y.abs() < 1e150);
        let a = Angle::angle_coordinates(&p, &q);
        ck!(same(a, f64::atan2(q.y - p.y, q.x - p.x)), "angle of the vector from the first to the second point");
        ck!(same(Angle::angle_coordinate(&p), f64::atan2(p.y, p.x)), "angle of a point seen from the origin");
        ck!(-PI <= a && a <= PI, "directions are in [-pi, pi]");
    }
    { f: "Angle::to_degrees, Angle::to_radians", tier: "native" }
    fn degrees(s) {
        let a = s.real(1e9, 3);
        let d = Angle::to_degrees(a);
        ck!((d * PI - a * 180.0).abs() <= 2e-15 * a.abs() * 180.0 + 1e-320, "180 degrees are pi radians");
        let r = Angle::to_radians(a);
        ck!((r * 180.0 - a * PI).abs() <= 2e-15 * a.abs() * PI + 1e-320, "pi radians are 180 degrees");
        ck!((Angle::to_radians(d) - a).abs() <= 1e-15 * a.abs() + 1e-320 && (Angle::to_degrees(r) - a).abs() <= 1e-15 * a.abs() + 1e-320, "degrees and radians convert back");
    }
    { f: "Angle::sin_snap, Angle::cos_snap, Angle::project", tier: "native" }
    fn snapping(s) {
        let a = ang(s, 2);
        let (x, y) = (Angle::cos_snap(a), Angle::sin_snap(a));
        ck!((x - a.cos()).abs() < 5e-16 && (y - a.sin()).abs() < 5e-16, "snapped sine and cosine");
        ck!((x == 0.0) == (a.cos().abs() < 5e-16) && (y == 0.0) == (a.sin().abs() < 5e-16), "only values next to zero are snapped");
        let p = Coordinate::new_xy(s.int(-99, 99) as f64, s.int(-99, 99) as f64);
        let d = s.int(-99, 99) as f64;
        let q = Angle::project(&p, a, d);
        ck!(near(q.x, p.x + d * x, 99.0) && near(q.y, p.y + d * y, 99.0), "a point projected along an angle");
    }
    { f: "Angle::is_acute, Angle::is_obtuse, Angle::angle_between, Angle::angle_between_oriented, Angle::interior_angle, Angle::bisector, Angle::angle_coordinates", tier: "native" }
    fn scaled(s) {
        // ordinates that are not whole: angles do not depend on the scale
        let p = tri(s, 20);
        let f = pow2(s);
        let (a, b, d) = (c(p[0]), c(p[1]), c(p[2]));
        let (x, y, z) = (cf(p[0], f), cf(p[1], f), cf(p[2], f));
        ck!(Angle::is_acute(&x, &y, &z) == (dotp(&p) > 0), "an angle is acute exactly when the dot product is positive, at every scale");
        ck!(Angle::is_obtuse(&x, &y, &z) == (dotp(&p) < 0), "an angle is obtuse exactly when the dot product is negative, at every scale");
        ck!(close(Angle::angle_coordinates(&a, &b), Angle::angle_coordinates(&x, &y)) && close(Angle::angle_coordinate(&a), Angle::angle_coordinate(&x)), "directions do not depend on the scale");
        if p[0] != p[1] && p[2] != p[1] {
            ck!(close(Angle::angle_between(&a, &b, &d), Angle::angle_between(&x, &y, &z)) && close(Angle::angle_between_oriented(&a, &b, &d), Angle::angle_between_oriented(&x, &y, &z)), "the angle between vectors does not depend on the scale");
            ck!(close(Angle::interior_angle(&a, &b, &d), Angle::interior_angle(&x, &y, &z)) && close(Angle::bisector(&a, &b, &d), Angle::bisector(&x, &y, &z)), "interior angle and bisector do not depend on the scale");
        }
    }
}
