use crate::core::algorithm::centroid::Centroid;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::line_string::LineString;
use crate::core::geom::linear_ring::LinearRing;
use crate::core::geom::multi_polygon::MultiPolygon;
use crate::core::geom::point::Point;
use crate::core::geom::polygon::Polygon;
use crate::core::geom::precision_model::{PrecisionModel, PrecisionModelType};
use crate::core::geom::geometry_factory::GeometryFactory as Fac;
use crate::poly::*;
use crate::src::{Meta, S};
use crate::util::*;

type Q = (i128, i128, i128); // (sum of x, sum of y, weight): the weighted mean is sum / weight
fn ring(v: &[P], hole: bool) -> Q {
    // v is an open vertex list; three times the first moments and the area of the ring, positive for a shell
    let n = v.len();
    let (mut x, mut y, mut a) = (0i128, 0i128, 0i128);
    for i in 0..n {
        let (p, q) = (v[i], v[(i + 1) % n]);
        let k = p.0 as i128 * q.1 as i128 - q.0 as i128 * p.1 as i128;
        x += k * (p.0 + q.0) as i128;
        y += k * (p.1 + q.1) as i128;
        a += k;
    }
    let s = if (a < 0) != hole { -1 } else { 1 };
    (s * x, s * y, s * 3 * a)
}
fn add(a: Q, b: Q) -> Q { (a.0 + b.0, a.1 + b.1, a.2 + b.2) }
fn is(c: &Option<Coordinate>, q: Q, tol: f64) -> bool {
    match c {
        None => q.2 == 0,
        Some(c) => q.2 != 0 && (c.x - q.0 as f64 / q.2 as f64).abs() <= tol && (c.y - q.1 as f64 / q.2 as f64).abs() <= tol,
    }
}
fn same_rings(a: &Polygon, b: &Polygon) -> bool { a.equals_exact(b, 0.0) }
fn lr(v: &[P]) -> LinearRing { LinearRing::new_with_coordinates(&cs(v)) }
fn poly(shell: &[P], holes: &[Vec<P>]) -> Polygon {
    let h: Vec<LinearRing> = holes.iter().map(|h| lr(h)).collect();
    Polygon::new_with_linear_ring_vec(&lr(shell), &h)
}
/// close the ring at any vertex, in either direction
fn any_closed(s: &mut S, v: &[P], repeats: bool) -> Vec<P> {
    let mut r = closed(s, v, repeats);
    if s.int(0, 1) == 1 { r.reverse(); }
    r
}
/// a valid polygon: a big shell with a hole or two well inside
fn some_poly(s: &mut S) -> (Vec<P>, Vec<Vec<P>>) {
    let shell = simple_ring(s, 6, 12);
    if s.int(0, 1) == 0 { return (shell, vec![]); }
    // now and then a frame around many triangles
    let n = s.many(2);
    if n > 2 { return (vec![(-2000, -2000), (2000, -2000), (2000, 2000), (-2000, 2000)], (0..n).map(|i| { let (x, y) = (-1500 + 100 * (i % 30), -1500 + 100 * (i / 30)); vec![(x, y), (x + 1 + i % 7, y), (x, y + 9)] }).collect()); }
    // a frame around small rings
    let (w, h) = (s.int(40, 60), s.int(40, 60));
    let frame = vec![(-w, -h), (w + s.int(0, 9), -h), (w, h), (-w, h + s.int(0, 9))];
    let a = simple_ring(s, 5, 9);
    let a: Vec<P> = a.iter().map(|p| (p.0 - 20, p.1 + 10)).collect();
    if s.int(0, 1) == 0 { return (frame, vec![a]); }
    let b: Vec<P> = shell.iter().map(|p| (p.0 + 20, p.1 - 10)).collect();
    (frame, vec![a, b])
}
fn moved(v: &[P], a: i64, b: i64) -> Vec<P> { v.iter().map(|p| (p.0 + a, p.1 + b)).collect() }
fn hyp(a: P, b: P) -> f64 { ((a.0 - b.0) as f64).hypot((a.1 - b.1) as f64) }
fn line(vs: &[Vec<P>]) -> Option<(f64, f64)> {
    let (mut x, mut y, mut l) = (0.0, 0.0, 0.0);
    for v in vs {
        for i in 1..v.len() {
            let d = hyp(v[i - 1], v[i]);
            x += d * (v[i - 1].0 + v[i].0) as f64 / 2.0;
            y += d * (v[i - 1].1 + v[i].1) as f64 / 2.0;
            l += d;
        }
    }
    if l == 0.0 { None } else { Some((x / l, y / l)) }
}
fn at(c: &Option<Coordinate>, w: Option<(f64, f64)>, tol: f64) -> bool {
    match (c, w) { (None, None) => true, (Some(c), Some(w)) => (c.x - w.0).abs() <= tol && (c.y - w.1).abs() <= tol, _ => false }
}

contracts! {
    { f: "Centroid::new_from_polygon, Centroid::add_polygon, Centroid::add_shell, Centroid::add_hole, Centroid::add_triangle, Centroid::centroid3, Centroid::area2, Centroid::get_centroid, Centroid::get_centroid_from_polygon, Polygon::get_centroid", tier: "native" }
    fn polygon_centroid(s) {
        let (shell, holes) = some_poly(s);
        let (a, b) = (s.int(-500, 500), s.int(-500, 500));
        let (shell, holes) = (moved(&shell, a, b), holes.iter().map(|h| moved(h, a, b)).collect::<Vec<_>>());
        let mut want = ring(&shell, false);
        for h in &holes { want = add(want, ring(h, true)); }
        let c = { let h: Vec<Vec<P>> = holes.iter().map(|h| any_closed(s, h, true)).collect(); poly(&any_closed(s, &shell, true), &h) };
        ck!(is(&Centroid::get_centroid_from_polygon(&c), want, 1e-9), "polygon centroid: area centroid with the holes taken out, whatever the orientation and start vertex");
        let p = c.get_centroid();
        ck!(is(&p.get_coordinate(), want, 1e-9), "polygon centroid point: the centroid");
        ck!(c.get_exterior_ring().get_num_points() > 3 && c.get_num_interior_ring() == holes.len(), "polygon centroid: the polygon is left alone");
    }
    { f: "Centroid::add_shell, Centroid::get_centroid", tier: "native" }
    fn convex_inside(s) {
        let n = s.int(3, 7);
        let k = 1i64 << s.int(1, 9);
        let pts: Vec<P> = (0..n).map(|_| (s.int(-k, k), s.int(-k, k))).collect();
        // convex hull of the points
        let mut v = pts.clone(); v.sort(); v.dedup();
        s.assume(v.len() >= 3);
        let half = |it: Vec<P>| { let mut h: Vec<P> = vec![]; for p in it { while h.len() >= 2 && det(h[h.len() - 2], h[h.len() - 1], p) <= 0 { h.pop(); } h.push(p); } h.pop(); h };
        let mut hull = half(v.clone()); v.reverse(); hull.extend(half(v));
        s.assume(hull.len() >= 3);
        let r = any_closed(s, &hull, false);
        let c = Centroid::get_centroid_from_polygon(&poly(&r, &[])).unwrap();
        let (x0, x1) = (hull.iter().map(|p| p.0).min().unwrap() as f64, hull.iter().map(|p| p.0).max().unwrap() as f64);
        let (y0, y1) = (hull.iter().map(|p| p.1).min().unwrap() as f64, hull.iter().map(|p| p.1).max().unwrap() as f64);
        ck!(x0 <= c.x && c.x <= x1 && y0 <= c.y && c.y <= y1, "polygon centroid: inside the envelope of a convex polygon");
        ck!(is(&Some(c), ring(&hull, false), 1e-8), "polygon centroid: area centroid of a convex polygon");
    }
    { f: "Centroid::new_from_multi_polygon, Centroid::get_centroid_from_multi_polygon, MultiPolygon::get_centroid", tier: "native" }
    fn multi_polygon_centroid(s) {
        let n = s.many(3);
        let mut want = (0, 0, 0);
        let (mut lines, mut first) = (vec![], vec![]);
        let mut ps = vec![];
        for i in 0..n {
            if s.int(0, 3) == 0 {
                // a flat or pointlike or empty part
                let p = (s.int(-9, 9) + 1000 * i, s.int(-9, 9));
                let r = match s.int(0, 2) { 0 => vec![], 1 => vec![p, p, p, p], _ => { let q = (p.0 + s.int(1, 9), p.1 + s.int(0, 9)); vec![p, q, q, p] } };
                if r.len() > 0 && hyp(r[0], r[1]) == 0.0 { first.push(r[0]); }
                lines.push(r.clone());
                ps.push(poly(&r, &[]));
                continue;
            }
            let (shell, holes) = some_poly(s);
            let (shell, holes) = (moved(&shell, 1000 * i, 0), holes.iter().map(|h| moved(h, 1000 * i, 0)).collect::<Vec<_>>());
            want = add(want, ring(&shell, false));
            for h in &holes { want = add(want, ring(h, true)); }
            let h: Vec<Vec<P>> = holes.iter().map(|h| any_closed(s, h, false)).collect();
            ps.push(poly(&any_closed(s, &shell, false), &h));
        }
        let m = Fac::create_multi_polygon(&ps);
        let c = Centroid::get_centroid_from_multi_polygon(&m);
        if want.2 != 0 {
            ck!(is(&c, want, 1e-7), "multi polygon centroid: area centroid of all parts, flat parts do not count");
        } else if let Some(w) = line(&lines) {
            ck!(at(&c, Some(w), 1e-7), "multi polygon centroid: without area the segments count, isolated points do not");
        } else if first.len() > 0 {
            let k = first.len() as i128;
            ck!(is(&c, (first.iter().map(|p| p.0 as i128).sum(), first.iter().map(|p| p.1 as i128).sum(), k), 1e-7), "multi polygon centroid: without area and length the points count");
        } else {
            ck!(c.is_none(), "multi polygon centroid: none when empty");
        }
        let p = m.get_centroid();
        ck!(p.is_empty() == (m.is_empty()), "multi polygon centroid point: empty exactly for the empty geometry");
        if let (Some(a), Some(b)) = (c, p.get_coordinate()) { ck!(same_xy(&a, &b), "multi polygon centroid point: the centroid"); }
    }
    { f: "Polygon::get_centroid, MultiPolygon::get_centroid, Polygon::new_with_linear_ring_precision_model, Polygon::new_with_linear_ring_vec_precision_model, MultiPolygon::new_with_polygons_precision_model, Polygon::copy, Polygon::reverse, MultiPolygon::copy, MultiPolygon::reverse", tier: "native" }
    fn centroid_on_the_grid(s) {
        let scale = [1.0, 10.0, 0.5, 100.0, 8.0, -2.0, -5.0][s.below(7)];
        let pm = match s.int(0, 4) { 0 => PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle), 1 => PrecisionModel::default(), _ => PrecisionModel::new_with_scale(scale) };
        let (shell, holes) = if s.int(0, 8) == 0 { (vec![], vec![]) } else { some_poly(s) };
        let (shell, holes) = if shell.is_empty() { (vec![], vec![]) } else { (closed(s, &shell, false), holes.iter().map(|h| closed(s, h, false)).collect::<Vec<_>>()) };
        let g = if holes.is_empty() && s.int(0, 1) == 0 { Polygon::new_with_linear_ring_precision_model(&lr(&shell), pm) } else { Polygon::new_with_linear_ring_vec_precision_model(&lr(&shell), &holes.iter().map(|h| lr(h)).collect(), pm) };
        ck!(same_rings(&g, &poly(&shell, &holes)), "a polygon with a precision model holds the same rings");
        let mut q = pm;
        let mut want = |c: Option<Coordinate>| c.map(|mut c| { q.make_precise_coordinate(&mut c); c });
        let here = |p: &Point, c: &Option<Coordinate>| match (p.get_coordinate(), c) { (Some(a), Some(b)) => same_xy(&a, b), (None, None) => true, _ => false };
        for h in [&g, &g.copy(), &g.reverse()] {
            let w = want(Centroid::get_centroid_from_polygon(h));
            ck!(here(&h.get_centroid(), &w), "polygon centroid point: the centroid made precise by the polygon's model, which copies and reversals keep");
        }
        let m = MultiPolygon::new_with_polygons_precision_model(&vec![g.copy(), poly(&[], &[])], pm);
        ck!(m.get_num_polygons() == 2 && same_rings(&m.get_polygon_at_index(0), &g) && m.get_polygon_at_index(1).is_empty(), "a multi polygon with a precision model holds the same polygons");
        for h in [&m, &m.copy(), &m.reverse()] {
            let w = want(Centroid::get_centroid_from_multi_polygon(h));
            ck!(here(&h.get_centroid(), &w), "multi polygon centroid point: the centroid made precise by its model, which copies and reversals keep");
        }
    }
    { f: "Centroid::new_from_line_string, Centroid::add_line_segments, Centroid::get_centroid", tier: "native" }
    fn line_centroid(s) {
        let n = s.many(6);
        let k = if s.int(0, 2) == 0 { 0 } else { s.int(1, 1000) };
        let (a, b) = (s.int(-500, 500), s.int(-500, 500));
        let mut v: Vec<P> = (0..n).map(|_| (a + s.int(-k, k), b + s.int(-k, k))).collect();
        if n > 1 && s.int(0, 2) == 0 { let i = s.below(n as usize - 1); v[i + 1] = v[i]; }
        let f = |v: &[P]| Centroid::new_from_line_string(&LineString::new_from_coordinate_sequence(crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence::new_with_coordinates(&cs(v)))).get_centroid();
        let c = f(&v);
        match line(&[v.clone()]) {
            Some(w) => ck!(at(&c, Some(w), 1e-8), "line centroid: length-weighted mean of the segment midpoints"),
            None if v.len() > 0 => ck!(at(&c, Some((v[0].0 as f64, v[0].1 as f64)), 0.0), "line centroid: a line without length is its point"),
            _ => ck!(c.is_none(), "line centroid: none when empty"),
        }
        v.reverse();
        let d = f(&v);
        ck!(at(&d, c.map(|c| (c.x, c.y)), 1e-8), "line centroid: same for the reversed line");
    }
    { f: "Centroid::new_from_point, Centroid::get_centroid_from_point, Centroid::add_point, Centroid::add_line_segments, Centroid::default", tier: "native" }
    fn point_centroid(s) {
        let n = s.many(6);
        let mut c = Centroid::default();
        ck!(c.get_centroid().is_none(), "centroid: none of nothing");
        let (mut x, mut y) = (0i128, 0i128);
        let mut any_line = None;
        for _ in 0..n {
            let p = (s.int(-1000, 1000), s.int(-1000, 1000));
            if s.int(0, 6) == 0 && any_line.is_none() {
                let q = (p.0 + s.int(1, 8), p.1 + s.int(-8, 8));
                c.add_line_segments(&cs(&[p, q]));
                any_line = Some(vec![p, q]);
            } else {
                x += p.0 as i128; y += p.1 as i128;
                c.add_point(&cs(&[p])[0]);
            }
        }
        if let Some(l) = any_line {
            ck!(at(&c.get_centroid(), line(&[l]), 1e-8), "centroid: points do not count beside a line");
        } else {
            ck!(is(&c.get_centroid(), (x, y, n as i128), 1e-12), "point centroid: mean of the points");
        }
        let p = num_xy(s);
        let g = Point::new_with_coordinate(&p, None);
        if let Some(q) = Centroid::get_centroid_from_point(&g) { if p.x.is_finite() && p.y.is_finite() { ck!(same_xy(&p, &q) || (p.x == q.x && p.y == q.y), "point centroid: of one point, the point"); } }
        else { ck!(false, "point centroid: of one point, the point"); }
        ck!(Centroid::get_centroid_from_point(&Point::default()).is_none(), "point centroid: none when empty");
    }
    { f: "Centroid::new_from_polygon, Centroid::new_from_line_string, Centroid::add_point, Centroid::get_centroid", tier: "native" }
    fn scaled(s) {
        // ordinates that are not whole: the centroid scales along
        let f = pow2(s);
        let (shell, holes) = some_poly(s);
        let mut want = ring(&shell, false);
        for h in &holes { want = add(want, ring(h, true)); }
        let lf = |v: &[P]| LinearRing::new_with_coordinates(&csf(v, f));
        let back = |c: Option<Coordinate>| c.map(|c| Coordinate::new_xy(c.x / f, c.y / f));
        let h: Vec<LinearRing> = holes.iter().map(|h| lf(&any_closed(s, h, true))).collect();
        let g = Polygon::new_with_linear_ring_vec(&lf(&any_closed(s, &shell, true)), &h);
        ck!(is(&back(Centroid::get_centroid_from_polygon(&g)), want, 1e-9), "polygon centroid: the area centroid at every scale");
        let v = any_closed(s, &shell, false);
        let l = LineString::new_from_coordinate_sequence(crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence::new_with_coordinates(&csf(&v, f)));
        ck!(at(&back(Centroid::new_from_line_string(&l).get_centroid()), line(&[v.clone()]), 1e-9), "line centroid: the mean of the segment midpoints at every scale");
        let mut m = Centroid::default();
        for p in &shell { m.add_point(&cf(*p, f)); }
        let n = shell.len() as i128;
        ck!(is(&back(m.get_centroid()), (shell.iter().map(|p| p.0 as i128).sum(), shell.iter().map(|p| p.1 as i128).sum(), n), 1e-9), "point centroid: the mean of the points at every scale");
    }
}
