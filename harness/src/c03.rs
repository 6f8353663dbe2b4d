use crate::core::algorithm::cg_algorithms_dd::CGAlgorithmsDD;
use crate::core::algorithm::orientation::Orientation;
use crate::core::geom::coordinate::Coordinate;
use crate::core::math::dd::DD;
use crate::src::{Meta, S};
use crate::util::*;

fn c(x: f64, y: f64) -> Coordinate {
    Coordinate::new_xy(x, y)
}
/// sign of the exact cross product of three integer points
fn exact(p: &[i64; 6]) -> i32 {
    let d = |a: i64, b: i64| a as i128 - b as i128;
    let v = d(p[2], p[0]) * d(p[5], p[3]) - d(p[3], p[1]) * d(p[4], p[2]);
    if v > 0 { 1 } else if v < 0 { -1 } else { 0 }
}
/// three integer points of magnitude at most b, nearly collinear half the time
fn tri(s: &mut S, b: i64) -> [i64; 6] {
    let (ax, ay, bx, by) = (s.int(-b, b), s.int(-b, b), s.int(-b, b), s.int(-b, b));
    if s.bool() {
        [ax, ay, bx, by, s.int(-b, b), s.int(-b, b)]
    } else {
        // a point near the line a-b
        let k = s.int(1, 16) as i128;
        let t = s.int(-16, 16) as i128;
        let x = ax as i128 + (bx as i128 - ax as i128) * t / k + s.int(-1, 1) as i128;
        let y = ay as i128 + (by as i128 - ay as i128) * t / k + s.int(-1, 1) as i128;
        s.assume(x.abs() <= b as i128 && y.abs() <= b as i128);
        [ax, ay, bx, by, x as i64, y as i64]
    }
}
fn pts(p: &[i64; 6], e: i32) -> [Coordinate; 3] {
    let f = 2f64.powi(e);
    [c(p[0] as f64 * f, p[1] as f64 * f), c(p[2] as f64 * f, p[3] as f64 * f), c(p[4] as f64 * f, p[5] as f64 * f)]
}
fn all_agree(p: &[Coordinate; 3], want: i32) {
    let [a, b, q] = p;
    ck!(Orientation::index(a, b, q) == want, "Orientation::index: sign of the exact cross product");
    ck!(CGAlgorithmsDD::orientation_index_coordinates(a, b, q) == want, "orientation_index (coordinates): sign of the exact cross product");
    ck!(CGAlgorithmsDD::orientation_index_xy(a.x, a.y, b.x, b.y, q.x, q.y) == want, "orientation_index (ordinates): sign of the exact cross product");
    let f = CGAlgorithmsDD::orientation_index_filter(a.x, a.y, b.x, b.y, q.x, q.y);
    ck!(f == want || f > 1, "filter: never the wrong sign");
    ck!(Orientation::index(b, q, a) == want && Orientation::index(q, a, b) == want, "rotating the three points keeps the index");
    ck!(Orientation::index(b, a, q) == -want && Orientation::index(a, q, b) == -want && Orientation::index(q, b, a) == -want, "swapping two points negates the index");
}

contracts! {
    { f: "CGAlgorithmsDD::signum" }
    fn signum_of_double(s) {
        let x = s.f64();
        let r = CGAlgorithmsDD::signum(x);
        ck!(r == if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 }, "signum: sign of the value");
    }
    { f: "Orientation::index, CGAlgorithmsDD::orientation_index_xy, CGAlgorithmsDD::orientation_index_coordinates, CGAlgorithmsDD::orientation_index_filter", tier: "native" }
    fn integers_to_2_24(s) {
        let p = tri(s, 1 << 24);
        all_agree(&pts(&p, 0), exact(&p));
    }
    { f: "Orientation::index, CGAlgorithmsDD::orientation_index_xy", tier: "native" }
    fn scaled_integers(s) {
        let p = tri(s, 1 << 24);
        let e = s.int(-180, 180) as i32;
        all_agree(&pts(&p, e), exact(&p));
    }
    { f: "Orientation::index, CGAlgorithmsDD::orientation_index_xy, CGAlgorithmsDD::orientation_index_filter", tier: "native" }
    fn wide_integers(s) {
        let sh = s.int(25, 45);
        let p = tri(s, 1 << sh);
        all_agree(&pts(&p, 0), exact(&p));
    }
    { f: "CGAlgorithmsDD::orientation_index_filter", tier: "native" }
    fn filter_on_wide_integers(s) {
        let p = tri(s, 1 << 53);
        let q = pts(&p, 0);
        let f = CGAlgorithmsDD::orientation_index_filter(q[0].x, q[0].y, q[1].x, q[1].y, q[2].x, q[2].y);
        ck!(f == exact(&p) || f > 1, "filter: never the wrong sign");
    }
    { f: "CGAlgorithmsDD::sign_of_det2x2_f64, CGAlgorithmsDD::sign_of_det2x_2dd", tier: "native" }
    fn det_sign(s) {
        let sh = s.int(3, 50);
        let b = 1i64 << sh;
        let v = [s.int(-b, b), s.int(-b, b), s.int(-b, b), s.int(-b, b)];
        let d = v[0] as i128 * v[3] as i128 - v[1] as i128 * v[2] as i128;
        let want = if d > 0 { 1 } else if d < 0 { -1 } else { 0 };
        ck!(CGAlgorithmsDD::sign_of_det2x2_f64(v[0] as f64, v[1] as f64, v[2] as f64, v[3] as f64) == want, "sign of det2x2");
        let x = |i: usize| DD::new_x(v[i] as f64);
        ck!(CGAlgorithmsDD::sign_of_det2x_2dd(&x(0), &x(1), &x(2), &x(3)) == want, "sign of det2x2 of extended numbers");
        // entries of two words: (a + b/2^60) scaled
        let e = 2f64.powi(-60);
        let k = [s.int(-9, 9), s.int(-9, 9), s.int(-9, 9), s.int(-9, 9)];
        let l = [s.int(-9, 9), s.int(-9, 9), s.int(-9, 9), s.int(-9, 9)];
        let y = |i: usize| { let mut d = DD::new_x(k[i] as f64); d.self_add_f64(l[i] as f64 * e); d };
        let hi = k[0] * k[3] - k[1] * k[2];
        let lo = k[0] * l[3] + l[0] * k[3] - k[1] * l[2] - l[1] * k[2];
        let want = if hi != 0 { hi.signum() } else { lo.signum() };
        if hi != 0 || lo != 0 { ck!(CGAlgorithmsDD::sign_of_det2x_2dd(&y(0), &y(1), &y(2), &y(3)) as i64 == want, "sign of det2x2 of two-word numbers"); }
    }
}
