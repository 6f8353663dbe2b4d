use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::line_segment::LineSegment as Ls;
use crate::poly::*;
use crate::src::{Meta, S};
use crate::util::*;

fn any_seg(s: &mut S) -> Ls { let (a, b) = (any_c(s), any_c(s)); Ls { p0: a, p1: b } }
fn num_seg(s: &mut S) -> Ls { let (a, b) = (num_xy(s), num_xy(s)); Ls { p0: a, p1: b } }
fn rev(a: &Ls) -> Ls { Ls { p0: a.p1, p1: a.p0 } }
/// three or four points, often collinear, coincident or axis-parallel
fn pts(s: &mut S, bits: i64) -> [P; 4] {
    let k = 1i64 << s.int(1, bits);
    let mut v = [(0, 0); 4];
    for p in v.iter_mut() { *p = (s.int(-k, k), s.int(-k, k)); }
    match s.int(0, 9) {
        0 => v[1] = v[0],
        1 => v[1].0 = v[0].0,
        2 => v[1].1 = v[0].1,
        3 => v[2] = v[s.int(0, 1) as usize],
        4 => { v[3] = v[2]; }
        5 => { let (u, w) = (s.int(-9, 9), s.int(-9, 9)); let h = (k / 32).max(1); for (i, p) in v.iter_mut().enumerate() { let t = s.int(-h, h); *p = (u * t, w * t); } }
        6 => { // foot exactly at an end
            let (dx, dy) = (v[1].0 - v[0].0, v[1].1 - v[0].1); let e = v[s.int(0, 1) as usize]; v[2] = (e.0 - dy, e.1 + dx); }
        _ => {}
    }
    v
}
fn seg(a: P, b: P) -> Ls { Ls::new_from_coordinates(&c(a), &c(b)) }
fn factor(a: P, b: P, p: P) -> (i128, i128) {
    let (dx, dy) = ((b.0 - a.0) as i128, (b.1 - a.1) as i128);
    ((p.0 - a.0) as i128 * dx + (p.1 - a.1) as i128 * dy, dx * dx + dy * dy)
}
fn dist(a: &Coordinate, b: &Coordinate) -> f64 { ((a.x - b.x).powi(2) + (a.y - b.y).powi(2)).sqrt() }
fn within(a: P, b: P, p: &Coordinate) -> bool { (a.0.min(b.0) as f64) <= p.x && p.x <= a.0.max(b.0) as f64 && (a.1.min(b.1) as f64) <= p.y && p.y <= a.1.max(b.1) as f64 }
/// true distance from p to the segment
fn truth(a: P, b: P, p: P) -> f64 {
    let (n, d) = factor(a, b, p);
    let e = |q: P| (((p.0 - q.0) as f64).powi(2) + ((p.1 - q.1) as f64).powi(2)).sqrt();
    if d == 0 || n <= 0 { e(a) } else if n >= d { e(b) } else { det(a, b, p).abs() as f64 / (d as f64).sqrt() }
}

contracts! {
    { f: "LineSegment::new_from_coordinates, LineSegment::new_from_line_segment, LineSegment::new_from_xy, LineSegment::get_coordinate, LineSegment::set_coordinates, LineSegment::set_coordinates_from_line_segment, LineSegment::reverse" }
    fn end_points(s) {
        let a = any_seg(s);
        let b = Ls::new_from_coordinates(&a.p0, &a.p1);
        ck!(same_c(&b.p0, &a.p0) && same_c(&b.p1, &a.p1), "a segment keeps its end points in order");
        let b = Ls::new_from_line_segment(&a);
        ck!(same_c(&b.p0, &a.p0) && same_c(&b.p1, &a.p1), "a copied segment has the same end points");
        let b = Ls::default();
        ck!(same_xy(&b.p0, &Coordinate::new_xy(0.0, 0.0)) && same_xy(&b.p1, &b.p0), "a segment made of nothing is at the origin");
        let b = Ls::new_from_xy(a.p0.x, a.p0.y, a.p1.x, a.p1.y);
        ck!(same(b.p0.x, a.p0.x) && same(b.p0.y, a.p0.y) && same(b.p1.x, a.p1.x) && same(b.p1.y, a.p1.y), "a segment from four ordinates");
        ck!(same_c(&a.get_coordinate(0), &a.p0) && same_c(&a.get_coordinate(1), &a.p1), "end points by index");
        let mut c = any_seg(s);
        c.set_coordinates(&a.p0, &a.p1);
        ck!(same(c.p0.x, a.p0.x) && same(c.p0.y, a.p0.y) && same(c.p1.x, a.p1.x) && same(c.p1.y, a.p1.y), "setting the end points");
        let mut c = b;
        c.set_coordinates_from_line_segment(rev(&a));
        ck!(same(c.p0.x, a.p1.x) && same(c.p0.y, a.p1.y) && same(c.p1.x, a.p0.x) && same(c.p1.y, a.p0.y), "setting the end points from a segment");
        let mut r = a;
        r.reverse();
        ck!(same_c(&r.p0, &a.p1) && same_c(&r.p1, &a.p0), "reversing swaps the end points");
    }
    { f: "LineSegment::normalize, Coordinate::compare_to" }
    fn normal_form(s) {
        let a = num_seg(s);
        let mut n = a;
        n.normalize();
        let le = |p: &Coordinate, q: &Coordinate| p.x < q.x || (p.x == q.x && p.y <= q.y);
        ck!(le(&n.p0, &n.p1), "normal form starts at the lesser end point");
        ck!((same_c(&n.p0, &a.p0) && same_c(&n.p1, &a.p1)) || (same_c(&n.p0, &a.p1) && same_c(&n.p1, &a.p0)), "normalising keeps the end points");
        let mut m = rev(&a);
        m.normalize();
        ck!(same_xy(&m.p0, &n.p0) && same_xy(&m.p1, &n.p1), "a segment and its reverse have the same normal form");
    }
    { f: "LineSegment::equals, LineSegment::equals_topo, LineSegment::compare_to" }
    fn equality_and_order(s) {
        let (a, b) = (num_seg(s), num_seg(s));
        let eq = same_xy(&a.p0, &b.p0) && same_xy(&a.p1, &b.p1);
        let op = same_xy(&a.p0, &b.p1) && same_xy(&a.p1, &b.p0);
        ck!(a.equals(&b) == eq, "exact equality respects direction");
        ck!(a.equals_topo(&b) == (eq || op), "topological equality ignores direction");
        let w = |p: &Coordinate, q: &Coordinate| if p.x < q.x { -1 } else if p.x > q.x { 1 } else if p.y < q.y { -1 } else if p.y > q.y { 1 } else { 0 };
        let o = if w(&a.p0, &b.p0) != 0 { w(&a.p0, &b.p0) } else { w(&a.p1, &b.p1) };
        ck!(sgn(a.compare_to(&b)) == o, "comparison is by first, then by second end point");
    }
    { f: "LineSegment::min_x, LineSegment::max_x, LineSegment::min_y, LineSegment::max_y, LineSegment::is_horizontal, LineSegment::is_vertical" }
    fn extent(s) {
        let a = num_seg(s);
        ck!(a.min_x() == lo(a.p0.x, a.p1.x) && a.max_x() == hi(a.p0.x, a.p1.x), "extent in x");
        ck!(a.min_y() == lo(a.p0.y, a.p1.y) && a.max_y() == hi(a.p0.y, a.p1.y), "extent in y");
        ck!(a.is_horizontal() == (a.p0.y == a.p1.y), "horizontal: equal y");
        ck!(a.is_vertical() == (a.p0.x == a.p1.x), "vertical: equal x");
    }
    { f: "LineSegment::orientation_index_coordinate, LineSegment::orientation_index_line_segment", tier: "native" }
    fn orientation(s) {
        let [a, b, p, q] = pts(s, 24);
        let g = seg(a, b);
        let (o, e) = (sg(det(a, b, p)), sg(det(a, b, q)));
        ck!(g.orientation_index_coordinate(&c(p)) == o, "orientation of a point follows the orientation index");
        ck!(g.orientation_index_line_segment(&seg(p, q)) == if o * e < 0 { 0 } else { (o + e).signum() }, "orientation of a segment: its side, zero when it is collinear or crosses");
    }
    { f: "LineSegment::get_length, LineSegment::mid_point, LineSegment::mid_point_coordinates, LineSegment::point_along, LineSegment::angle", tier: "native" }
    fn along(s) {
        let [a, b, ..] = pts(s, 24);
        let g = seg(a, b);
        let (dx, dy) = ((b.0 - a.0) as f64, (b.1 - a.1) as f64);
        ck!(near_ulp(g.get_length(), (dx * dx + dy * dy).sqrt()), "length is the distance of the end points");
        let m = Coordinate::new_xy((a.0 + b.0) as f64 / 2.0, (a.1 + b.1) as f64 / 2.0);
        ck!(same_xy(&g.mid_point(), &m) && same_xy(&Ls::mid_point_coordinates(&c(a), &c(b)), &m) && same_xy(&rev(&g).mid_point(), &m), "mid point is half way");
        ck!(same_xy(&g.point_along(0.0), &c(a)) && same_xy(&g.point_along(1.0), &c(b)) && same_xy(&g.point_along(0.5), &m), "points along: start, end, middle");
        let f = s.int(0, 1 << 20) as f64 / (1i64 << 20) as f64;
        let p = g.point_along(f);
        ck!(within(a, b, &p), "a point along the segment lies within its envelope");
        ck!((p.x - (a.0 as f64 + f * dx)).abs() <= 1e-15 * 3e7 && (p.y - (a.1 as f64 + f * dy)).abs() <= 1e-15 * 3e7, "a point along the segment divides it in the given ratio");
        ck!(g.angle() == dy.atan2(dx), "angle is that of the direction");
    }
    { f: "LineSegment::point_along_offset, LineSegment::offset", tier: "native" }
    fn offsets(s) {
        let [a, b, ..] = pts(s, 12);
        s.assume(a != b);
        let g = seg(a, b);
        let o = s.int(-4000, 4000) as f64 / 4.0;
        let f = s.int(0, 64) as f64 / 64.0;
        let (dx, dy) = ((b.0 - a.0) as f64, (b.1 - a.1) as f64);
        let len = (dx * dx + dy * dy).sqrt();
        let w = |f: f64| Coordinate::new_xy(a.0 as f64 + f * dx - o * dy / len, a.1 as f64 + f * dy + o * dx / len);
        let ok = |p: &Coordinate, q: &Coordinate| near(p.x, q.x, 1e4) && near(p.y, q.y, 1e4);
        ck!(ok(&g.point_along_offset(f, o), &w(f)), "an offset point is at the offset distance, left for positive offsets");
        let t = g.offset(o);
        ck!(ok(&t.p0, &w(0.0)) && ok(&t.p1, &w(1.0)), "an offset segment is parallel at the offset distance, left for positive offsets");
        ck!(same_xy(&g.point_along_offset(f, 0.0), &g.point_along(f)), "offset zero is the point along");
    }
    { f: "LineSegment::projection_factor, LineSegment::segment_fraction, LineSegment::project_coordinate, LineSegment::project_coordinate_with_projection_factor", tier: "native" }
    fn projection(s) {
        let [a, b, p, _] = pts(s, 24);
        let g = seg(a, b);
        let (n, d) = factor(a, b, p);
        let r = g.projection_factor(&c(p));
        let f = g.segment_fraction(&c(p));
        ck!(0.0 <= f && f <= 1.0, "a segment fraction is in [0, 1]");
        if p == a { ck!(r == 0.0 && f == 0.0, "the start projects to 0"); }
        else if p == b { ck!(r == 1.0 && f == 1.0, "the end projects to 1"); }
        else if d == 0 { ck!(r.is_nan() && f == 1.0, "a degenerate segment has no projection factor"); }
        else {
            let w = n as f64 / d as f64;
            ck!(near_ulp(r, w), "the projection factor is the ratio of the dot products");
            ck!((r <= 0.0) == (n <= 0) && (r >= 1.0) == (n >= d), "the projection factor tells before, on and after the segment");
            ck!(f == if n <= 0 { 0.0 } else if n >= d { 1.0 } else { r }, "the segment fraction is the clamped factor");
        }
        if d > 0 {
            let q = g.project_coordinate(&c(p));
            let (x, y) = (a.0 as f64 + (n as f64 / d as f64) * (b.0 - a.0) as f64, a.1 as f64 + (n as f64 / d as f64) * (b.1 - a.1) as f64);
            ck!(near(q.x, x, 1e2 + x.abs()) && near(q.y, y, 1e2 + y.abs()), "the projected point is the foot of the perpendicular");
        }
    }
    { f: "LineSegment::closest_point, LineSegment::distance_coordinate, LineSegment::distance_perpendicular, LineSegment::distance_perpendicular_oriented", tier: "native" }
    fn closest(s) {
        let [a, b, p, _] = pts(s, 20);
        let g = seg(a, b);
        let q = g.closest_point(&c(p));
        let w = truth(a, b, p);
        let tol = 1e-9 * (1.0 + w);
        ck!(within(a, b, &q), "the closest point lies in the segment's envelope");
        ck!((dist(&q, &c(p)) - w).abs() <= tol, "the closest point is at the distance of the segment");
        ck!((g.distance_coordinate(&c(p)) - w).abs() <= tol, "distance to a point is that of the nearest point of the segment");
        if on(p, a, b) { ck!(dist(&q, &c(p)) <= 1e-9, "a point on the segment is its own closest point"); ck!(g.distance_coordinate(&c(p)) == 0.0, "a point on the segment is at distance zero"); }
        let (n, d) = factor(a, b, p);
        let pd = if d == 0 { w } else { det(a, b, p).abs() as f64 / (d as f64).sqrt() };
        ck!((g.distance_perpendicular(&c(p)) - pd).abs() <= tol, "perpendicular distance is that of the line");
        let o = if d == 0 { 1.0 } else { sg(det(a, b, p)) as f64 };
        ck!((g.distance_perpendicular_oriented(&c(p)) - o * pd).abs() <= tol, "oriented perpendicular distance: positive on the left");
    }
    { f: "LineSegment::project_line_segment", tier: "native" }
    fn project_a_segment(s) {
        let [a, b, p, q] = pts(s, 20);
        s.assume(a != b);
        let g = seg(a, b);
        let ((n0, d), (n1, _)) = (factor(a, b, p), factor(a, b, q));
        let r = g.project_line_segment(&seg(p, q));
        ck!(r.is_none() == ((n0 <= 0 && n1 <= 0) || (n0 >= d && n1 >= d)), "no projection exactly when the other segment projects wholly on or beyond one end");
        if let Some(r) = r {
            for (n, e) in [(n0, r.p0), (n1, r.p1)] {
                let t = (n as f64 / d as f64).clamp(0.0, 1.0);
                let (x, y) = (a.0 as f64 + t * (b.0 - a.0) as f64, a.1 as f64 + t * (b.1 - a.1) as f64);
                ck!(near(e.x, x, 1.0) && near(e.y, y, 1.0), "the projected segment is clipped to the segment");
                ck!(within(a, b, &e), "the projected segment lies in the segment's envelope");
            }
        }
    }
    { f: "LineSegment::reflect", tier: "native" }
    fn reflection(s) {
        let wide = s.int(0, 3) == 0;
        let [a, b, p, _] = pts(s, if wide { 25 } else { 10 });
        s.assume(a != b);
        let r = seg(a, b).reflect(&c(p));
        let (n, d) = factor(a, b, p);
        if wide {
            // wide ordinates: to 1e-9 of the extent, for a segment that is not short against it
            let k = [a, b, p].iter().map(|p| p.0.abs().max(p.1.abs())).max().unwrap() as f64;
            s.assume(d as f64 >= k * k / 64.0);
            let f = 2.0 * (n as f64 / d as f64);
            ck!((r.x - (2 * a.0 - p.0) as f64 - f * (b.0 - a.0) as f64).abs() <= k * 1e-9 && (r.y - (2 * a.1 - p.1) as f64 - f * (b.1 - a.1) as f64).abs() <= k * 1e-9, "the reflected point is opposite the foot of the perpendicular, for wide ordinates");
            return;
        }
        let (fx, fy) = (a.0 as f64 + (n as f64 / d as f64) * (b.0 - a.0) as f64, a.1 as f64 + (n as f64 / d as f64) * (b.1 - a.1) as f64);
        ck!(near(r.x, 2.0 * fx - p.0 as f64, fx) && near(r.y, 2.0 * fy - p.1 as f64, fy), "the reflected point is opposite the foot of the perpendicular");
    }
    { f: "LineSegment::closest_points, LineSegment::intersection, LineSegment::line_intersection, LineSegment::distance_line_segment", tier: "native" }
    fn two_segments(s) {
        let [a, b, p, q] = pts(s, 16);
        let (g, h) = (seg(a, b), seg(p, q));
        let hit = meets(a, b, p, q);
        let i = g.intersection(&h);
        ck!(i.is_some() == hit, "segments intersect exactly when they share a point");
        if let Some(i) = i { ck!(within(a, b, &i) && within(p, q, &i), "the intersection lies in both envelopes"); }
        let w = if hit { 0.0 } else { truth(a, b, p).min(truth(a, b, q)).min(truth(p, q, a)).min(truth(p, q, b)) };
        let d = g.distance_line_segment(&h);
        ck!((d - w).abs() <= 1e-9 * (1.0 + w) && (d == 0.0) == hit, "distance of two segments: zero exactly on contact, otherwise that of the nearest end point");
        let v = g.closest_points(&h);
        if hit { ck!(v.len() == 1, "segments in contact have one closest point"); }
        else {
            ck!(v.len() == 2 && within(a, b, &v[0]) && within(p, q, &v[1]), "closest points lie on their segments");
            ck!((dist(&v[0], &v[1]) - w).abs() <= 1e-9 * (1.0 + w), "closest points are at the distance of the segments");
        }
        let par = (b.0 - a.0) as i128 * (q.1 - p.1) as i128 == (b.1 - a.1) as i128 * (q.0 - p.0) as i128;
        ck!(g.line_intersection(h).is_none() == par, "lines intersect exactly when they are not parallel");
    }
    { f: "LineSegment::projection_factor, LineSegment::segment_fraction, LineSegment::project_coordinate, LineSegment::closest_point, LineSegment::distance_coordinate, LineSegment::distance_perpendicular, LineSegment::distance_line_segment, LineSegment::orientation_index_coordinate, LineSegment::get_length, LineSegment::mid_point, LineSegment::project_line_segment, LineSegment::reflect, LineSegment::intersection, LineSegment::closest_points", tier: "native" }
    fn scaled(s) {
        // ordinates that are not whole: every answer scales along
        let [a, b, p, q] = pts(s, 18);
        let f = pow2(s);
        let (g, h) = (seg(a, b), Ls::new_from_coordinates(&cf(a, f), &cf(b, f)));
        let (cp, dp) = (c(p), cf(p, f));
        let m = [a, b, p, q].iter().map(|p| p.0.abs().max(p.1.abs())).max().unwrap() as f64;
        ck!(h.orientation_index_coordinate(&dp) == sg(det(a, b, p)), "orientation of a point at every scale");
        ck!(same(g.projection_factor(&cp), h.projection_factor(&dp)) && same(g.segment_fraction(&cp), h.segment_fraction(&dp)), "projection factor and segment fraction do not depend on the scale");
        ck!(close(g.get_length() * f, h.get_length()) && close(g.angle(), h.angle()), "length scales along, angle does not");
        ck!(times(&g.mid_point(), f, &h.mid_point(), m) && times(&g.closest_point(&cp), f, &h.closest_point(&dp), m), "mid point and closest point scale along");
        ck!(close(g.distance_coordinate(&cp) * f, h.distance_coordinate(&dp)) && close(g.distance_perpendicular(&cp) * f, h.distance_perpendicular(&dp)) && close(g.distance_perpendicular_oriented(&cp) * f, h.distance_perpendicular_oriented(&dp)), "distances to a point scale along");
        let (t, u) = (seg(p, q), Ls::new_from_coordinates(&cf(p, f), &cf(q, f)));
        ck!(h.orientation_index_line_segment(&u) == g.orientation_index_line_segment(&t), "orientation of a segment at every scale");
        ck!(close(g.distance_line_segment(&t) * f, h.distance_line_segment(&u)), "the distance of segments scales along");
        ck!(h.intersection(&u).is_some() == meets(a, b, p, q), "segments intersect exactly when they share a point, at every scale");
        let (v, w) = (g.closest_points(&t), h.closest_points(&u));
        ck!(v.len() == w.len() && v.iter().zip(&w).all(|(x, y)| times(x, f, y, m)), "closest points scale along");
        if a != b {
            let e = g.project_coordinate(&cp);
            ck!(times(&e, f, &h.project_coordinate(&dp), m + e.x.abs() + e.y.abs()), "a projected point scales along");
            let e = g.reflect(&cp);
            ck!(times(&e, f, &h.reflect(&dp), 1e3 * (m + e.x.abs() + e.y.abs())), "a reflected point scales along");
            let (x, y) = (g.project_line_segment(&t), h.project_line_segment(&u));
            ck!(x.is_some() == y.is_some(), "a segment projects or not at every scale");
            if let (Some(x), Some(y)) = (x, y) { ck!(times(&x.p0, f, &y.p0, m) && times(&x.p1, f, &y.p1, m), "a projected segment scales along"); }
            let (x, y) = (g.line_intersection(t), h.line_intersection(u));
            ck!(x.is_some() == y.is_some(), "lines intersect or not at every scale");
            let (x, y) = (g.offset(m / 2.0), h.offset(m / 2.0 * f));
            ck!(times(&x.p0, f, &y.p0, 2.0 * m) && times(&x.p1, f, &y.p1, 2.0 * m), "an offset segment scales along");
        }
    }
}
