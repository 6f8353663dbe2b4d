use crate::core::algorithm::cg_algorithms_3d::CGAlgorithms3D as G3;
use crate::core::algorithm::distance::Distance as D;
use crate::core::geom::coordinate::Coordinate;
use crate::poly::*;
use crate::src::{Meta, S};
use crate::util::*;

type Q = [i64; 3];
/// four points: random, coincident, collinear, parallel, touching or crossing
fn pts(s: &mut S, bits: i64) -> [P; 4] {
    let k = 1i64 << s.int(1, bits);
    let mut v = [(0, 0); 4];
    for p in v.iter_mut() { *p = (s.int(-k, k), s.int(-k, k)); }
    let h = (k / 32).max(1);
    match s.int(0, 12) {
        0 => v[1] = v[0],
        1 => { v[1] = v[0]; v[3] = v[2]; }
        2 => { v[1].0 = v[0].0; v[3].1 = v[2].1; }
        3 => v[2 + s.int(0, 1) as usize] = v[s.int(0, 1) as usize],
        4 => { let (u, w) = (s.int(-9, 9), s.int(-9, 9)); for p in v.iter_mut() { let t = s.int(-h, h); *p = (u * t, w * t); } }
        5 => { // parallel, one shifted
            let (u, w) = (s.int(-9, 9), s.int(-9, 9)); let o = (s.int(-3, 3), s.int(-3, 3));
            for (i, p) in v.iter_mut().enumerate() { let t = s.int(-h, h); *p = (u * t + if i > 1 { o.0 } else { 0 }, w * t + if i > 1 { o.1 } else { 0 }); } }
        6 => { // an end of one inside the other
            let (u, w) = (s.int(-9, 9), s.int(-9, 9)); let (a, b) = (s.int(1, h), s.int(1, h)); v[1] = (v[0].0 + u * (a + b), v[0].1 + w * (a + b)); v[2] = (v[0].0 + u * a, v[0].1 + w * a); }
        7 => { // foot exactly at an end
            let (dx, dy) = (v[1].0 - v[0].0, v[1].1 - v[0].1); let e = v[s.int(0, 1) as usize]; v[2] = ((e.0 - dy).clamp(-k, k), (e.1 + dx).clamp(-k, k)); }
        8 => { // nearly touching
            let (u, w) = (s.int(-9, 9), s.int(-9, 9)); v[1] = (v[0].0 + u * h, v[0].1 + w * h); let t = s.int(0, h); v[2] = (v[0].0 + u * t + s.int(-1, 1), v[0].1 + w * t + s.int(-1, 1)); }
        _ => {}
    }
    for p in v.iter_mut() { *p = (p.0.clamp(-(1 << 24), 1 << 24), p.1.clamp(-(1 << 24), 1 << 24)); }
    if s.bool() { v.swap(0, 2); v.swap(1, 3); }
    v
}
fn factor(a: P, b: P, p: P) -> (i128, i128) {
    let (dx, dy) = ((b.0 - a.0) as i128, (b.1 - a.1) as i128);
    ((p.0 - a.0) as i128 * dx + (p.1 - a.1) as i128 * dy, dx * dx + dy * dy)
}
fn e(p: P, q: P) -> f64 { (((p.0 - q.0) as f64).powi(2) + ((p.1 - q.1) as f64).powi(2)).sqrt() }
/// true distance from p to the segment
fn truth(a: P, b: P, p: P) -> f64 {
    let (n, d) = factor(a, b, p);
    if d == 0 || n <= 0 { e(a, p) } else if n >= d { e(b, p) } else { det(a, b, p).abs() as f64 / (d as f64).sqrt() }
}
fn cl(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-12 * b.abs() }
fn min4(v: [f64; 4]) -> f64 { v.iter().cloned().fold(f64::INFINITY, f64::min) }

fn pts3(s: &mut S, k: i64) -> [Q; 4] {
    let mut v = [[0i64; 3]; 4];
    for p in v.iter_mut() { for x in p.iter_mut() { *x = s.int(-k, k); } }
    match s.int(0, 10) {
        0 => v[1] = v[0],
        1 => v[3] = v[2],
        2 => v[2 + s.int(0, 1) as usize] = v[s.int(0, 1) as usize],
        3 => { let u = [s.int(-3, 3), s.int(-3, 3), s.int(-3, 3)]; for p in v.iter_mut() { let t = s.int(-k, k) / 3; for i in 0..3 { p[i] = u[i] * t; } } }
        4 => { let u = [s.int(-3, 3), s.int(-3, 3), s.int(-3, 3)]; let o = v[3]; for (j, p) in v.iter_mut().enumerate() { let t = s.int(-k, k) / 3; for i in 0..3 { p[i] = u[i] * t + if j > 1 { o[i] } else { 0 }; } } }
        5 => for p in v.iter_mut() { p[2] = 0; },
        6 => { for i in 0..3 { v[2][i] = (v[0][i] + v[1][i]) / 2; } }
        7 => { v[1] = v[0]; v[1][2] += s.int(1, k); } // vertical: equal in the plane
        _ => {}
    }
    if s.bool() { v.swap(0, 2); v.swap(1, 3); }
    v
}
fn c3(p: Q) -> Coordinate { Coordinate::new_xyz(p[0] as f64, p[1] as f64, p[2] as f64) }
fn sub(a: Q, b: Q) -> [i128; 3] { [(a[0] - b[0]) as i128, (a[1] - b[1]) as i128, (a[2] - b[2]) as i128] }
fn dot(a: [i128; 3], b: [i128; 3]) -> i128 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn crs(a: [i128; 3], b: [i128; 3]) -> [i128; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn e3(a: Q, b: Q) -> f64 { (dot(sub(a, b), sub(a, b)) as f64).sqrt() }
fn truth3(a: Q, b: Q, p: Q) -> f64 {
    let (u, w) = (sub(b, a), sub(p, a));
    let (n, d) = (dot(u, w), dot(u, u));
    if d == 0 || n <= 0 { e3(a, p) } else if n >= d { e3(b, p) } else { let c = crs(u, w); (dot(c, c) as f64 / d as f64).sqrt() }
}
fn truth4(a: Q, b: Q, c: Q, d: Q) -> f64 {
    let (u, v, w) = (sub(b, a), sub(d, c), sub(c, a));
    let ends = min4([truth3(a, b, c), truth3(a, b, d), truth3(c, d, a), truth3(c, d, b)]);
    let n = crs(u, v);
    let nn = dot(n, n);
    if nn == 0 { return ends; }
    // w = s u - t v + h n
    let (sn, tn) = (dot(crs(w, v), n), dot(crs(w, u), n));
    if 0 <= sn && sn <= nn && 0 <= tn && tn <= nn { dot(w, n).abs() as f64 / (nn as f64).sqrt() } else { ends }
}
fn near3(a: f64, b: f64, m: f64) -> bool { (a - b).abs() <= 1e-10 * (m + b) }

contracts! {
    { f: "Distance::point_to_segment", tier: "native" }
    fn to_segment(s) {
        let [a, b, p, _] = pts(s, 24);
        let r = D::point_to_segment(&c(p), &c(a), &c(b));
        ck!(r >= 0.0 && cl(r, truth(a, b, p)), "distance to a segment: perpendicular where the foot is inside, else to the nearer end");
        ck!((r == 0.0) == on(p, a, b), "distance to a segment is zero exactly on it");
        ck!(cl(r, D::point_to_segment(&c(p), &c(b), &c(a))), "distance to a segment ignores its direction");
        ck!(r <= e(p, a) * (1.0 + 1e-12) && r <= e(p, b) * (1.0 + 1e-12), "a segment is no farther than its ends");
        ck!(same(D::point_to_segment(&c(p), &c(a), &c(a)), c(p).distance(&c(a))), "a degenerate segment behaves as its point");
    }
    { f: "Distance::point_to_line_perpendicular, Distance::point_to_line_perpendicular_signed", tier: "native" }
    fn to_line(s) {
        let [a, b, p, _] = pts(s, 24);
        s.assume(a != b);
        let (t, d) = (det(a, b, p), factor(a, b, p).1);
        let w = t as f64 / (d as f64).sqrt();
        let (r, g) = (D::point_to_line_perpendicular(&c(p), &c(a), &c(b)), D::point_to_line_perpendicular_signed(&c(p), &c(a), &c(b)));
        ck!(r >= 0.0 && cl(r, w.abs()) && (r == 0.0) == (t == 0), "distance to a line: zero exactly on it");
        ck!(g.abs() == r && (g > 0.0) == (t < 0) && (g < 0.0) == (t > 0), "signed distance to a line: positive to the right");
        ck!(D::point_to_line_perpendicular(&c(p), &c(b), &c(a)) == r, "distance to a line ignores its direction");
        ck!(D::point_to_line_perpendicular_signed(&c(p), &c(b), &c(a)) == -g, "signed distance changes sign with the direction");
    }
    { f: "Distance::point_to_segment_string", tier: "native" }
    fn to_string(s) {
        let n = s.many(7) as usize;
        let k = 1i64 << s.int(1, 20);
        let mut v: Vec<P> = (0..n).map(|_| (s.int(-k, k), s.int(-k, k))).collect();
        if n > 2 && s.bool() { let i = s.int(1, n as i64 - 1) as usize; v[i] = v[i - 1]; }
        let p = if n > 0 && s.int(0, 3) == 0 { v[s.int(0, n as i64 - 1) as usize] } else { (s.int(-k, k), s.int(-k, k)) };
        let r = D::point_to_segment_string(&c(p), &cs(&v));
        if n == 0 { ck!(r.is_nan(), "distance to an empty string is undefined"); }
        else if n == 1 { ck!(cl(r, e(p, v[0])), "distance to a single point"); }
        else {
            let w = v.windows(2).map(|q| truth(q[0], q[1], p)).fold(f64::INFINITY, f64::min);
            ck!(r >= 0.0 && cl(r, w), "distance to a segment string is the least of those to its segments");
            ck!((r == 0.0) == v.windows(2).any(|q| on(p, q[0], q[1])), "distance to a segment string is zero exactly on it");
            let mut u = v.clone(); u.reverse();
            ck!(cl(D::point_to_segment_string(&c(p), &cs(&u)), r), "distance to a segment string ignores its direction");
        }
    }
    { f: "Distance::segment_to_segment, Distance::point_to_segment, Envelope::intersects_4, MathUtil::min", tier: "native" }
    fn segments(s) {
        let v = pts(s, 24);
        let [a, b, p, q] = v;
        let w = if meets(a, b, p, q) { 0.0 } else { min4([truth(a, b, p), truth(a, b, q), truth(p, q, a), truth(p, q, b)]) };
        let r = D::segment_to_segment(&c(a), &c(b), &c(p), &c(q));
        ck!(r >= 0.0 && cl(r, w), "distance of two segments is that of their nearest points");
        ck!((r == 0.0) == meets(a, b, p, q), "distance of two segments is zero exactly when they touch");
        for t in [[b, a, p, q], [a, b, q, p], [b, a, q, p], [p, q, a, b], [q, p, a, b], [p, q, b, a], [q, p, b, a]] {
            ck!(cl(D::segment_to_segment(&c(t[0]), &c(t[1]), &c(t[2]), &c(t[3])), r), "distance of two segments is the same in every order");
        }
        for x in [a, b] { for y in [p, q] { ck!(r <= e(x, y) * (1.0 + 1e-12), "two segments are no farther apart than any of their points"); } }
    }
    { f: "CGAlgorithms3D::distance", tier: "native" }
    fn points_3d(s) {
        let k = 1i64 << s.int(1, 24);
        let [a, b, ..] = pts3(s, k);
        let r = G3::distance(&c3(a), &c3(b));
        ck!(r >= 0.0 && cl(r, e3(a, b)) && (r == 0.0) == (a == b), "distance in space");
        ck!(same(r, G3::distance(&c3(b), &c3(a))), "distance in space is symmetric");
        let (p, q) = (Coordinate::new_xy(a[0] as f64, a[1] as f64), Coordinate::new_xy(b[0] as f64, b[1] as f64));
        ck!(same(G3::distance(&p, &c3(b)), p.distance(&q)) && same(G3::distance(&c3(a), &q), p.distance(&q)) && same(G3::distance(&p, &q), p.distance(&q)), "without a z on both sides the planar distance");
    }
    { f: "CGAlgorithms3D::distance_point_segment", tier: "native" }
    fn segment_3d(s) {
        let k = 1i64 << s.int(1, 12);
        let [a, b, p, _] = pts3(s, k);
        let r = G3::distance_point_segment(&c3(p), &c3(a), &c3(b));
        ck!(r >= 0.0 && near3(r, truth3(a, b, p), k as f64), "distance to a segment in space");
        let (u, w) = (sub(b, a), sub(p, a));
        if dot(u, u) == 0 || dot(u, w) <= 0 || dot(u, w) >= dot(u, u) { ck!(cl(r, truth3(a, b, p)) && (r == 0.0) == (truth3(a, b, p) == 0.0), "beyond its ends the distance to the end point"); }
        ck!(near3(G3::distance_point_segment(&c3(p), &c3(b), &c3(a)), r, k as f64), "distance to a segment in space ignores its direction");
        let f = Coordinate::new_xy(a[0] as f64, a[1] as f64);
        if a != b { ck!(G3::distance_point_segment(&c3(p), &f, &c3(b)).is_nan(), "a segment without z has no distance in space"); }
    }
    { f: "CGAlgorithms3D::distance_segment_segment, Vector3D::dot_4", tier: "native" }
    fn segments_3d(s) {
        let k = 1i64 << s.int(1, 9);
        let [a, b, p, q] = pts3(s, k);
        let w = truth4(a, b, p, q);
        let r = G3::distance_segment_segment(&c3(a), &c3(b), &c3(p), &c3(q));
        ck!(r >= 0.0 && near3(r, w, k as f64), "distance of two segments in space");
        for t in [[b, a, p, q], [a, b, q, p], [b, a, q, p], [p, q, a, b], [q, p, a, b], [p, q, b, a], [q, p, b, a]] {
            ck!(near3(G3::distance_segment_segment(&c3(t[0]), &c3(t[1]), &c3(t[2]), &c3(t[3])), r, k as f64), "distance of two segments in space is the same in every order");
        }
    }
    { f: "CGAlgorithms3D::distance, CGAlgorithms3D::distance_point_segment, CGAlgorithms3D::distance_segment_segment, Vector3D::dot_4", tier: "native" }
    fn wide_3d(s) {
        // ordinates of up to 21 bits, lines far from parallel: the interior solution to 1e-9 of the extent
        let k = 1i64 << s.int(10, 21);
        let [a, b, p, q] = pts3(s, k);
        let (u, w) = (sub(b, a), sub(q, p));
        let (uu, uw, ww) = (dot(u, u) as f64, dot(u, w) as f64, dot(w, w) as f64);
        s.assume(uu >= (k * k) as f64 / 64.0 && ww >= (k * k) as f64 / 64.0 && uw * uw <= 0.9 * uu * ww);
        let r = G3::distance_segment_segment(&c3(a), &c3(b), &c3(p), &c3(q));
        ck!((r - truth4(a, b, p, q)).abs() <= k as f64 * 1e-9, "distance of two wide segments in space");
        let r = G3::distance_point_segment(&c3(p), &c3(a), &c3(b));
        ck!((r - truth3(a, b, p)).abs() <= k as f64 * 1e-9, "distance to a wide segment in space");
    }
    { f: "Distance::point_to_segment, Distance::segment_to_segment, Distance::point_to_line_perpendicular, Distance::point_to_line_perpendicular_signed, Distance::point_to_segment_string", tier: "native" }
    fn scaled(s) {
        // ordinates that are not whole: distances scale along
        let [a, b, p, q] = pts(s, 24);
        let f = pow2(s);
        let k = |p: P| cf(p, f);
        let r = D::point_to_segment(&k(p), &k(a), &k(b));
        ck!(cl(r / f, truth(a, b, p)) && (r == 0.0) == on(p, a, b), "distance to a segment at every scale");
        let w = if meets(a, b, p, q) { 0.0 } else { min4([truth(a, b, p), truth(a, b, q), truth(p, q, a), truth(p, q, b)]) };
        let r = D::segment_to_segment(&k(a), &k(b), &k(p), &k(q));
        ck!(cl(r / f, w) && (r == 0.0) == meets(a, b, p, q), "distance of two segments at every scale");
        let r = D::point_to_segment_string(&k(q), &vec![k(a), k(b), k(p)]);
        ck!(cl(r / f, truth(a, b, q).min(truth(b, p, q))), "distance to a segment string at every scale");
        if a != b {
            let w = det(a, b, p) as f64 / (factor(a, b, p).1 as f64).sqrt();
            ck!(cl(D::point_to_line_perpendicular(&k(p), &k(a), &k(b)) / f, w.abs()), "distance to a line at every scale");
            ck!(cl(D::point_to_line_perpendicular_signed(&k(p), &k(a), &k(b)) / f, -w), "signed distance to a line at every scale");
        }
    }
    { f: "CGAlgorithms3D::distance, CGAlgorithms3D::distance_point_segment, CGAlgorithms3D::distance_segment_segment", tier: "native" }
    fn scaled_3d(s) {
        let m = 1i64 << s.int(1, 9);
        let [a, b, p, q] = pts3(s, m);
        let f = 2f64.powi(s.int(-40, 30) as i32);
        let k = |p: Q| Coordinate::new_xyz(p[0] as f64 * f, p[1] as f64 * f, p[2] as f64 * f);
        ck!(cl(G3::distance(&k(a), &k(b)) / f, e3(a, b)), "distance in space at every scale");
        ck!(near3(G3::distance_point_segment(&k(p), &k(a), &k(b)) / f, truth3(a, b, p), m as f64), "distance to a segment in space at every scale");
        ck!(near3(G3::distance_segment_segment(&k(a), &k(b), &k(p), &k(q)) / f, truth4(a, b, p, q), m as f64), "distance of two segments in space at every scale");
    }
}
