use crate::core::algorithm::robust_line_intersector::RobustLineIntersector as Rli;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
use crate::poly::*;
use crate::src::{Meta, S};
use crate::util::*;

fn four(s: &mut S) -> [P; 4] {
    let k = s.int(1, 6);
    let e = s.int(0, 20);
    let mut v: Vec<P> = (0..4).map(|_| (s.int(-k, k), s.int(-k, k))).collect();
    match s.int(0, 4) {
        // collinear: points of one line
        0 | 1 => {
            let (ux, uy) = (s.int(-3, 3), s.int(-3, 3));
            for p in v.iter_mut() { let t = p.0; *p = (t * ux, t * uy); }
        }
        // an end on the other segment
        2 => { let (a, b) = (v[0], v[1]); v[0] = (a.0 * 2, a.1 * 2); v[1] = (b.0 * 2, b.1 * 2); v[2] = (a.0 + b.0, a.1 + b.1); }
        _ => {}
    }
    let (ox, oy) = if e < 18 { (s.int(-1000000, 1000000), s.int(-1000000, 1000000)) } else { (0, 0) };
    let e = e.min(16);
    let f = |p: P| ((p.0 << e) + ox, (p.1 << e) + oy);
    [f(v[0]), f(v[1]), f(v[2]), f(v[3])]
}
fn wide(s: &mut S) -> [P; 4] {
    let k = 1i64 << s.int(3, 24);
    let mut v = [(0, 0); 4];
    for p in v.iter_mut() { *p = (s.int(-k, k), s.int(-k, k)); }
    v
}
fn cz(p: P, z: f64) -> Coordinate { Coordinate::new_xyz(p.0 as f64, p.1 as f64, z) }
fn is(a: &Coordinate, p: P) -> bool { a.x == p.0 as f64 && a.y == p.1 as f64 }
/// num/den as a double, to about 2 ulp
fn quo(num: i128, den: i128) -> f64 { let q = num.div_euclid(den); q as f64 + num.rem_euclid(den) as f64 / den as f64 }

fn decide(v: [P; 4], r: i32, i0: &Coordinate, i1: &Coordinate) {
    let [a, b, p, q] = v;
    let hit = meets(a, b, p, q);
    ck!((r != 0) == hit, "segments intersect exactly when they share a point");
    if !hit { return; }
    let ends: Vec<P> = [a, b, p, q].into_iter().filter(|e| on(*e, a, b) && on(*e, p, q)).collect();
    let col = det(a, b, p) == 0 && det(a, b, q) == 0 && det(p, q, a) == 0 && det(p, q, b) == 0;
    if a != b && p != q {
        let mut d = ends.clone();
        d.sort();
        d.dedup();
        if d.len() == 2 {
            ck!(r == 2, "an overlap of positive length is a collinear intersection");
            ck!((is(i0, d[0]) && is(i1, d[1])) || (is(i0, d[1]) && is(i1, d[0])), "a collinear overlap is reported by its two end points");
        } else {
            ck!(r == 1, "a single common point is a point intersection");
            if d.len() == 1 { ck!(is(i0, d[0]), "an end point on the other segment is reported exactly"); }
        }
    } else {
        ck!(ends.iter().any(|e| is(i0, *e)), "a degenerate segment meets at its point");
        if r == 2 { ck!(ends.iter().any(|e| is(i1, *e)), "a degenerate segment meets at its point"); }
    }
    for (i, t) in [i0, i1].iter().enumerate() {
        if i < r as usize {
            ck!(Envelope::intersects_3(&c(a), &c(b), t) && Envelope::intersects_3(&c(p), &c(q), t), "an intersection point lies in both segments' envelopes");
        }
    }
    if ends.is_empty() && !col {
        // a + (b-a) * n/d, n = cross(a-p, q-p) ...
        let d = (b.0 - a.0) as i128 * (q.1 - p.1) as i128 - (b.1 - a.1) as i128 * (q.0 - p.0) as i128;
        let n = (p.0 - a.0) as i128 * (q.1 - p.1) as i128 - (p.1 - a.1) as i128 * (q.0 - p.0) as i128;
        let (nx, ny) = ((b.0 - a.0) as i128 * n, (b.1 - a.1) as i128 * n);
        let (n2, d2) = if d < 0 { ((-nx, -ny), -d) } else { ((nx, ny), d) };
        for (num, o, got) in [(n2.0, a.0, i0.x), (n2.1, a.1, i0.y)] {
            let want = quo(num + o as i128 * d2, d2);
            ck!(got == want || (got - want).abs() <= 4e-16 * (1.0 + want.abs()), "a proper intersection is the crossing point of the two lines");
        }
    }
}
fn run(v: [P; 4], z: bool) -> (i32, Coordinate, Coordinate) {
    let mut li = Rli::default();
    let n = f64::NAN;
    li.compute_intersection_4(&cz(v[0], if z { 1.0 } else { n }), &cz(v[1], if z { 5.0 } else { n }), &cz(v[2], if z { 2.0 } else { n }), &cz(v[3], if z { 9.0 } else { n }));
    let mut l2 = Rli::default();
    l2.compute_intersection_4(&cz(v[0], n), &cz(v[1], n), &cz(v[2], n), &cz(v[3], n));
    let r = l2.compute_intersect(&c(v[0]), &c(v[1]), &c(v[2]), &c(v[3]));
    ck!(li.has_intersection() == (r != 0), "has_intersection reports the result");
    (r, li.get_intersection(0), li.get_intersection(1))
}
fn judge(v: [P; 4]) {
    for z in [false, true] {
        let (r, i0, i1) = run(v, z);
        decide(v, r, &i0, &i1);
        let [a, b, p, q] = v;
        for w in [[b, a, p, q], [a, b, q, p], [b, a, q, p], [p, q, a, b], [q, p, b, a]] {
            let (r2, j0, j1) = run(w, z);
            ck!(r2 == r, "the kind of intersection does not depend on order or direction");
            decide(w, r2, &j0, &j1);
        }
    }
}

contracts! {
    { f: "RobustLineIntersector::compute_intersection_4, RobustLineIntersector::compute_intersect, RobustLineIntersector::compute_collinear_intersection, RobustLineIntersector::intersection, RobustLineIntersector::get_intersection, RobustLineIntersector::has_intersection, Envelope::intersects_4", tier: "native" }
    fn two_segments(s) { let v = four(s); judge(v); }
    { f: "RobustLineIntersector::compute_intersection_4, RobustLineIntersector::intersection", tier: "native" }
    fn two_long_segments(s) { let v = wide(s); judge(v); }
    { f: "RobustLineIntersector::compute_intersection_4", tier: "native" }
    fn one_intersector_reused(s) {
        let (v, w) = (four(s), four(s));
        let mut li = Rli::default();
        li.compute_intersection_4(&c(v[0]), &c(v[1]), &c(v[2]), &c(v[3]));
        li.compute_intersection_4(&c(w[0]), &c(w[1]), &c(w[2]), &c(w[3]));
        let (r, i0, i1) = run(w, false);
        ck!(li.has_intersection() == (r != 0), "an intersector can be used again");
        ck!(r < 1 || same_xy(&li.get_intersection(0), &i0), "an intersector can be used again: first point");
        ck!(r < 2 || same_xy(&li.get_intersection(1), &i1), "an intersector can be used again: second point");
    }
    { f: "RobustLineIntersector::compute_intersection_3", tier: "native" }
    fn point_and_segment(s) {
        let v = four(s);
        let p = match s.int(0, 3) { 0 => v[2], 1 => v[0], 2 => v[1], _ => ((v[0].0 + v[1].0).div_euclid(2), (v[0].1 + v[1].1).div_euclid(2)) };
        let mut li = Rli::default();
        li.compute_intersection_3(&c(p), &c(v[0]), &c(v[1]));
        ck!(li.has_intersection() == on(p, v[0], v[1]), "a point intersects a segment exactly when it is on it");
        li.compute_intersection_3(&c(v[2]), &c(v[0]), &c(v[1]));
        ck!(li.has_intersection() == on(v[2], v[0], v[1]), "a point intersects a segment exactly when it is on it (intersector used again)");
    }
    { f: "Envelope::intersects_4, Envelope::intersects_3" }
    fn envelopes_of_segments(s) {
        let (a, b, p, q) = (num_xy(s), num_xy(s), num_xy(s), num_xy(s));
        ck!(Envelope::intersects_4(&a, &b, &p, &q) == (lo(a.x, b.x) <= hi(p.x, q.x) && lo(p.x, q.x) <= hi(a.x, b.x) && lo(a.y, b.y) <= hi(p.y, q.y) && lo(p.y, q.y) <= hi(a.y, b.y)), "segment envelopes intersect exactly when their intervals do");
    }
    { f: "RobustLineIntersector::compute_intersection_4, RobustLineIntersector::compute_intersection_3, RobustLineIntersector::intersection", tier: "native" }
    fn scaled(s) {
        // ordinates that are not whole
        let v = if s.bool() { four(s) } else { wide(s) };
        let f = pow2(s);
        let mut li = Rli::default();
        li.compute_intersection_4(&cf(v[0], f), &cf(v[1], f), &cf(v[2], f), &cf(v[3], f));
        let mut l2 = Rli::default();
        let r = l2.compute_intersect(&cf(v[0], f), &cf(v[1], f), &cf(v[2], f), &cf(v[3], f));
        ck!(li.has_intersection() == (r != 0), "has_intersection reports the result at every scale");
        let back = |q: Coordinate| Coordinate::new_xy(q.x / f, q.y / f);
        decide(v, r, &back(li.get_intersection(0)), &back(li.get_intersection(1)));
        li.compute_intersection_3(&cf(v[2], f), &cf(v[0], f), &cf(v[1], f));
        ck!(li.has_intersection() == on(v[2], v[0], v[1]), "a point intersects a segment exactly when it is on it, at every scale");
    }
    { f: "RobustLineIntersector::nearest_endpoint, Distance::point_to_segment", tier: "native" }
    fn nearest_end(s) {
        let v = if s.bool() { four(s) } else { wide(s) };
        let [a, b, p, q] = v;
        let r = Rli::default().nearest_endpoint(&c(a), &c(b), &c(p), &c(q));
        let far = |e: P, a: P, b: P| {
            let (dx, dy) = ((b.0 - a.0) as i128, (b.1 - a.1) as i128);
            let (n, d) = ((e.0 - a.0) as i128 * dx + (e.1 - a.1) as i128 * dy, dx * dx + dy * dy);
            let h = |q: P| ((e.0 - q.0) as f64).hypot((e.1 - q.1) as f64);
            if d == 0 || n <= 0 { h(a) } else if n >= d { h(b) } else { det(a, b, e).abs() as f64 / (d as f64).sqrt() }
        };
        let all = [(a, far(a, p, q)), (b, far(b, p, q)), (p, far(p, a, b)), (q, far(q, a, b))];
        let least = all.iter().map(|x| x.1).fold(f64::INFINITY, f64::min);
        ck!(all.iter().any(|x| is(&r, x.0) && x.1 <= least * (1.0 + 1e-12)), "the end point standing in is one nearest to the other segment");
    }
}
