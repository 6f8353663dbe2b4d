use crate::core::algorithm::cg_algorithms_dd::CGAlgorithmsDD;
use crate::core::algorithm::hcoordinate::HCoordinate;
use crate::core::algorithm::intersection::Intersection;
use crate::core::geom::coordinate::Coordinate;
use crate::poly::*;
use crate::src::{Meta, S};
use crate::util::*;

/// four points; often parallel, identical, degenerate or axis-parallel lines
fn four(s: &mut S, bits: i64) -> [P; 4] {
    let k = 1i64 << s.int(1, bits);
    let h = (k / 8).max(1);
    let mut v = [(0, 0); 4];
    for p in v.iter_mut() { *p = (s.int(-k, k), s.int(-k, k)); }
    match s.int(0, 7) {
        0 => { let (d, e) = (s.int(-h, h), s.int(-h, h)); let (m, n) = (s.int(-3, 3), s.int(-3, 3)); for (i, t) in [(1, m), (3, n)] { v[i] = (v[i - 1].0 / 2 + d * t, v[i - 1].1 / 2 + e * t); v[i - 1] = (v[i - 1].0 / 2, v[i - 1].1 / 2); } }
        1 => v[1].0 = v[0].0,
        2 => v[3].1 = v[2].1,
        3 => { v[1].0 = v[0].0; v[3].1 = v[2].1; }
        4 => v[2] = v[s.int(0, 1) as usize],
        5 => v[1] = v[0],
        _ => {}
    }
    v
}
fn hom(v: &[P; 4]) -> (i128, i128, i128) {
    let [a, b, p, q] = v.map(|t| (t.0 as i128, t.1 as i128));
    let (px, py, pw) = (a.1 - b.1, b.0 - a.0, a.0 * b.1 - b.0 * a.1);
    let (qx, qy, qw) = (p.1 - q.1, q.0 - p.0, p.0 * q.1 - q.0 * p.1);
    (py * qw - qy * pw, qx * pw - px * qw, px * qy - qx * py)
}
fn quo(n: i128, d: i128) -> f64 { n as f64 / d as f64 }
fn right(n: i128, d: i128, got: f64, slack: f64) -> bool {
    if n % d == 0 && got == (n / d) as f64 { return true; }
    if n % d == 0 { return false; }
    let w = quo(n, d);
    (got - w).abs() <= slack + 7e-16 * w.abs()
}
const ORD: [[usize; 4]; 8] = [[0, 1, 2, 3], [1, 0, 2, 3], [0, 1, 3, 2], [1, 0, 3, 2], [2, 3, 0, 1], [3, 2, 0, 1], [2, 3, 1, 0], [3, 2, 1, 0]];
fn judge(v: [P; 4], how: &dyn Fn(&Coordinate, &Coordinate, &Coordinate, &Coordinate) -> Option<Coordinate>, slack: f64) { judge_at(v, how, slack, 1.0) }
/// all points scaled by a power of two, and the answer scaled back
fn judge_at(v: [P; 4], how: &dyn Fn(&Coordinate, &Coordinate, &Coordinate, &Coordinate) -> Option<Coordinate>, slack: f64, f: f64) {
    let (x, y, w) = hom(&v);
    for o in ORD {
        let r = how(&cf(v[o[0]], f), &cf(v[o[1]], f), &cf(v[o[2]], f), &cf(v[o[3]], f));
        ck!(r.is_none() == (w == 0), "no point exactly for parallel, identical or degenerate lines");
        if let Some(r) = r {
            ck!(right(x, w, r.x / f, slack) && right(y, w, r.y / f, slack), "the crossing point of the two lines, exact where it is an integer point");
        }
    }
}
fn width(v: &[P; 4]) -> f64 { v.iter().map(|p| p.0.abs().max(p.1.abs())).max().unwrap() as f64 }

contracts! {
    { f: "CGAlgorithmsDD::intersection, Intersection::intersection, DD::self_divide_dd, DD::multiply_dd", tier: "native" }
    fn extended_precision(s) {
        let v = four(s, 22);
        judge(v, &|a, b, p, q| CGAlgorithmsDD::intersection(a, b, p, q), 0.0);
        judge(v, &|a, b, p, q| Intersection::intersection(a, b, p, q), 0.0);
    }
    { f: "Intersection::intersection_fp", tier: "native" }
    fn conditioned(s) {
        let v = four(s, 14);
        // the answer is shifted back by the midpoint: an error of its own ulp
        let k = width(&v);
        judge(v, &|a, b, p, q| Intersection::intersection_fp(a, b, p, q), k * 1e-15);
    }
    { f: "Intersection::intersection_fp, Intersection::intersection, CGAlgorithmsDD::intersection, HCoordinate::intersection, Intersection::line_segment", tier: "native" }
    fn wide_ordinates(s) {
        // ordinates of up to 32 bits, lines far from parallel
        let k = 1i64 << s.int(16, 32);
        let mut v = [(0, 0); 4];
        for p in v.iter_mut() { *p = (s.int(-k, k), s.int(-k, k)); }
        let (x, y, w) = hom(&v);
        s.assume(w.abs() >= (k as i128) * (k as i128) / 16);
        let (x, y) = (quo(x, w), quo(y, w));
        let t = k as f64 * 1e-10;
        for o in ORD {
            let u = o.map(|i| c(v[i]));
            let good = |r: Option<Coordinate>, t: f64| if let Some(r) = r { (r.x - x).abs() <= t + x.abs() * 1e-10 && (r.y - y).abs() <= t + y.abs() * 1e-10 } else { false };
            ck!(good(Intersection::intersection_fp(&u[0], &u[1], &u[2], &u[3]), t), "the crossing of wide lines: conditioned");
            ck!(good(HCoordinate::intersection(&u[0], &u[1], &u[2], &u[3]), t), "the crossing of wide lines: homogeneous");
            ck!(good(CGAlgorithmsDD::intersection(&u[0], &u[1], &u[2], &u[3]), t * 1e-5), "the crossing of wide lines: extended precision");
            ck!(good(Intersection::intersection(&u[0], &u[1], &u[2], &u[3]), t * 1e-5), "the crossing of wide lines");
        }
        let [a, b, p, q] = v;
        let (d, e) = (det(a, b, p), det(a, b, q));
        let r = Intersection::line_segment(&c(a), &c(b), &c(p), &c(q));
        ck!(r.is_none() == (d.signum() * e.signum() > 0), "wide line and segment: no point exactly when the segment is strictly on one side of the line");
        if let Some(r) = r { ck!((r.x - x).abs() <= t * 1e-5 + x.abs() * 1e-15 && (r.y - y).abs() <= t * 1e-5 + y.abs() * 1e-15, "the crossing of a wide line and segment"); }
    }
    { f: "Intersection::intersection_fp, Intersection::intersection, CGAlgorithmsDD::intersection", tier: "native" }
    fn far_from_the_origin(s) {
        // small lines at a large distance: conditioning keeps the answer exact up to one rounding
        let (m, n) = (1i64 << s.int(0, 40), 1i64 << s.int(0, 40));
        let o = (s.int(-m, m), s.int(-n, n));
        let v = four(s, 10).map(|p| (p.0 + o.0, p.1 + o.1));
        let (k, near) = (width(&v), v.iter().all(|p| p.0.abs() < (1 << 24) && p.1.abs() < (1 << 24)));
        judge(v, &|a, b, p, q| Intersection::intersection_fp(a, b, p, q), k * 3e-16);
        if near {
            judge(v, &|a, b, p, q| CGAlgorithmsDD::intersection(a, b, p, q), 0.0);
            judge(v, &|a, b, p, q| Intersection::intersection(a, b, p, q), 0.0);
        }
    }
    { f: "HCoordinate::intersection, HCoordinate::new_with_coordinates_4, HCoordinate::new_with_coordinates, HCoordinate::new_with_hcoordinates, HCoordinate::get_x, HCoordinate::get_y, HCoordinate::get_coordinate", tier: "native" }
    fn homogeneous(s) {
        let v = four(s, 16);
        judge(v, &|a, b, p, q| HCoordinate::intersection(a, b, p, q), 0.0);
        let of = |h: HCoordinate| { let r = h.get_coordinate(); ck!(r.x.is_nan() == r.y.is_nan() && (r.x.is_nan() || (r.x == h.get_x() && r.y == h.get_y())), "a homogeneous point reads its ordinates"); if r.x.is_nan() { None } else { Some(r) } };
        judge(v, &|a, b, p, q| of(HCoordinate::new_with_coordinates_4(a, b, p, q)), 0.0);
        judge(v, &|a, b, p, q| of(HCoordinate::new_with_hcoordinates(&HCoordinate::new_with_coordinates(a, b), &HCoordinate::new_with_coordinates(p, q))), 0.0);
        judge(v.map(|p| (p.0 / 8, p.1 / 8)), &|a, b, p, q| {
            let h = HCoordinate::new_with_coordinate;
            of(HCoordinate::new_with_hcoordinates(&HCoordinate::new_with_hcoordinates(&h(a), &h(b)), &HCoordinate::new_with_hcoordinates(&h(p), &h(q))))
        }, 0.0);
        let t = HCoordinate::default();
        ck!(t.get_x() == 0.0 && t.get_y() == 0.0, "a point made of nothing is the origin");
        let t = HCoordinate::new_with_xy(v[0].0 as f64, v[0].1 as f64);
        ck!(t.get_x() == v[0].0 as f64 && t.get_y() == v[0].1 as f64, "a point with weight one is the point itself");
        let t = HCoordinate::new_with_xyw(v[0].0 as f64 * 4.0, v[0].1 as f64 * 4.0, 4.0);
        ck!(t.get_x() == v[0].0 as f64 && t.get_y() == v[0].1 as f64, "homogeneous ordinates are divided by the weight");
    }
    { f: "Intersection::line_segment", tier: "native" }
    fn line_against_segment(s) {
        let v = four(s, 22);
        let [a, b, p, q] = v;
        for (a, b, p, q) in [(a, b, p, q), (b, a, p, q), (a, b, q, p)] {
            let r = Intersection::line_segment(&c(a), &c(b), &c(p), &c(q));
            let (o, e) = (det(a, b, p).signum(), det(a, b, q).signum());
            ck!(r.is_none() == (o * e > 0), "no point exactly when the segment is strictly on one side of the line");
            if let Some(r) = r {
                let (x, y, w) = hom(&[a, b, p, q]);
                if o == 0 { ck!(same_xy(&r, &c(p)), "an end of the segment on the line is reported exactly: first end"); }
                else if e == 0 { ck!(same_xy(&r, &c(q)), "an end of the segment on the line is reported exactly: second end"); }
                else { ck!(right(x, w, r.x, 0.0) && right(y, w, r.y, 0.0), "the crossing point of line and segment"); }
            }
        }
    }
    { f: "Intersection::intersection, Intersection::intersection_fp, CGAlgorithmsDD::intersection, HCoordinate::intersection, Intersection::line_segment", tier: "native" }
    fn scaled(s) {
        // points that are not whole
        let v = four(s, 14);
        let f = pow2(s);
        let k = width(&v);
        judge_at(v, &|a, b, p, q| CGAlgorithmsDD::intersection(a, b, p, q), 0.0, f);
        judge_at(v, &|a, b, p, q| Intersection::intersection(a, b, p, q), 0.0, f);
        judge_at(v, &|a, b, p, q| Intersection::intersection_fp(a, b, p, q), k * 1e-15, f);
        judge_at(v, &|a, b, p, q| HCoordinate::intersection(a, b, p, q), 0.0, f);
        let [a, b, p, q] = v;
        let r = Intersection::line_segment(&cf(a, f), &cf(b, f), &cf(p, f), &cf(q, f));
        let (o, e) = (det(a, b, p).signum(), det(a, b, q).signum());
        ck!(r.is_none() == (o * e > 0), "no point exactly when the segment is strictly on one side of the line, at every scale");
        if let (Some(r), true) = (r, o * e < 0) {
            let (x, y, w) = hom(&v);
            ck!(right(x, w, r.x / f, 0.0) && right(y, w, r.y / f, 0.0), "the crossing point of line and segment at every scale");
        }
    }
}
