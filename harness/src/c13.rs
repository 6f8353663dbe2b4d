use crate::core::algorithm::orientation::Orientation;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::coordinate_sequence_comparator::CoordinateSequenceComparator as Cmp;
use crate::core::geom::geometry::Geometry;
use crate::core::geom::geometry_factory::GeometryFactory as Fac;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as Seq;
use crate::core::geom::line_string::LineString;
use crate::core::geom::linear_ring::LinearRing;
use crate::core::geom::multi_line_string::MultiLineString;
use crate::core::geom::multi_point::MultiPoint;
use crate::core::geom::multi_polygon::MultiPolygon;
use crate::core::geom::point::Point;
use crate::core::geom::polygon::Polygon;
use crate::core::geom::precision_model::PrecisionModel;
use crate::poly::{self, P};
use crate::src::{Meta, S};
use crate::util::*;

type V = Vec<Coordinate>;
fn pts(s: &mut S) -> V {
    let mut v = some_pts(s);
    // lines that read alike from both ends, and closed ones
    match s.int(0, 3) {
        0 => { let mut w = v.clone(); w.reverse(); if s.int(0, 1) == 1 { w.insert(0, some_pt(s)); } v.extend(w); if !v.is_empty() && s.int(0, 1) == 1 { let p = some_pt(s); let i = s.below(v.len()); v[i] = p; } }
        1 => if let Some(f) = v.first().cloned() { v.push(f); },
        _ => {}
    }
    v
}
fn seq(v: &V) -> Seq { Seq::new_with_coordinates(v) }
fn ls(v: &V) -> LineString { LineString::new_from_coordinate_sequence(seq(v)) }
fn lr(v: &V) -> LinearRing { LinearRing::new_with_coordinates(v) }
fn xyz(a: &V, b: &V) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(p, q)| same_xyz(p, q)) }
fn xy(a: &V, b: &V) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(p, q)| same_xy(p, q)) }
fn back(v: &V) -> V { v.iter().rev().cloned().collect() }
fn cmp(a: &V, b: &V) -> i32 {
    for i in 0..a.len().min(b.len()) {
        let (p, q) = (&a[i], &b[i]);
        if (p.x, p.y) < (q.x, q.y) { return -1; }
        if (p.x, p.y) > (q.x, q.y) { return 1; }
    }
    if a.len() > b.len() { 1 } else if a.len() < b.len() { -1 } else { 0 }
}
fn cmp_poly(a: &(V, Vec<V>), b: &(V, Vec<V>)) -> i32 {
    let k = cmp(&a.0, &b.0);
    if k != 0 { return k; }
    for i in 0..a.1.len().min(b.1.len()) { let k = cmp(&a.1[i], &b.1[i]); if k != 0 { return k; } }
    if a.1.len() > b.1.len() { 1 } else if a.1.len() < b.1.len() { -1 } else { 0 }
}
/// does the envelope hold exactly the bounds of the points
fn env_of(e: &Envelope, v: &V) -> bool {
    if v.is_empty() { return e.is_null(); }
    let f = |g: fn(f64, f64) -> f64, k: fn(&Coordinate) -> f64| v.iter().map(k).fold(k(&v[0]), g);
    e.get_min_x() == f(f64::min, |c| c.x) && e.get_max_x() == f(f64::max, |c| c.x) && e.get_min_y() == f(f64::min, |c| c.y) && e.get_max_y() == f(f64::max, |c| c.y)
}
fn change(s: &mut S, v: &V) -> V {
    let mut w = v.clone();
    match s.int(0, 4) {
        0 if !w.is_empty() => { let i = s.below(w.len()); w[i] = some_pt(s); }
        1 if !w.is_empty() => { w.pop(); }
        2 => w.push(some_pt(s)),
        3 if w.len() > 1 => { let (i, j) = (s.below(w.len()), s.below(w.len())); w.swap(i, j); }
        _ => {}
    }
    w
}
fn tol_eq(a: &V, b: &V, t: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(p, q)| (p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y) <= t * t)
}
fn tol(s: &mut S) -> f64 { [0.0, 0.0, 1.0, 0.5, 1.25, 2.0][s.below(6)] }
fn len(v: &V) -> f64 { (1..v.len()).map(|i| (v[i].x - v[i - 1].x).hypot(v[i].y - v[i - 1].y)).sum() }
fn ring_pts(s: &mut S) -> V { let mut v = some_pts(s); if v.len() < 3 { return vec![]; } v.push(v[0]); v }
fn poly_pts(s: &mut S) -> (V, Vec<V>) { let k = s.many(3); let sh = ring_pts(s); if sh.is_empty() { return (sh, vec![]); } let h = (0..k).map(|_| ring_pts(s)).collect(); (sh, h) }
fn pg(p: &(V, Vec<V>)) -> Polygon { Polygon::new_with_linear_ring_vec(&lr(&p.0), &p.1.iter().map(lr).collect()) }
fn is_pg(g: &Polygon, p: &(V, Vec<V>)) -> bool {
    xyz(&g.get_exterior_ring().get_coordinates(), &p.0) && g.get_num_interior_ring() == p.1.len() && (0..p.1.len()).all(|i| xyz(&g.get_interior_ring_n(i).get_coordinates(), &p.1[i]))
}
fn flat(p: &(V, Vec<V>)) -> V { if p.0.is_empty() { return vec![]; } let mut v = p.0.clone(); for h in &p.1 { v.extend(h.iter().cloned()); } v }
fn rev_pg(p: &(V, Vec<V>)) -> (V, Vec<V>) { (back(&p.0), p.1.iter().map(back).collect()) }

contracts! {
    { f: "Point::new_with_coordinate, Point::default, Point::new_with_coordinate_seq, Point::get_coordinates, Point::get_num_points, Point::is_empty, Point::get_x, Point::get_y, Point::get_coordinate, Point::get_envelope_internal, Point::equals_exact, Point::copy, Point::reverse, Point::compare_to_same_class, Point::get_coordinate_sequence, GeometryFactory::create_point, GeometryFactory::create_point_from_coordinate", tier: "native" }
    fn points(s) {
        let v: V = if s.int(0, 4) == 0 { vec![] } else { vec![some_pt(s)] };
        let mut p = match s.int(0, 2) { 0 if !v.is_empty() => Point::new_with_coordinate(&v[0], None), 1 if v.is_empty() => Point::default(), 1 => Fac::create_point_from_coordinate(&v[0]), _ => Point::new_with_coordinate_seq(&seq(&v)) };
        ck!(p.is_empty() == v.is_empty() && p.get_num_points() == v.len() && xyz(&p.get_coordinates(), &v), "a point holds its coordinate, or nothing");
        ck!(p.get_x() == v.first().map(|c| c.x) && p.get_y() == v.first().map(|c| c.y) && p.get_coordinate().is_some() != v.is_empty(), "the ordinates of a point are those of its coordinate");
        ck!(p.get_coordinate_sequence().size() == v.len(), "the sequence of a point holds its coordinate");
        ck!(Fac::create_point().is_empty() && Point::default().is_empty(), "a point made without coordinates is empty");
        ck!(xyz(&p.copy().get_coordinates(), &v) && xyz(&p.reverse().get_coordinates(), &v), "copying and reversing a point change nothing");
        ck!(env_of(&p.get_envelope_internal(), &v) && env_of(&p.get_envelope_internal(), &v), "the envelope of a point is that point");
        let mut q = p.reverse();
        ck!(env_of(&q.get_envelope_internal(), &v) && env_of(&p.copy().get_envelope_internal(), &v), "the envelope of a copied or reversed point is that point");
        let w: V = if s.int(0, 4) == 0 { vec![] } else { vec![some_pt(s)] };
        let o = Point::new_with_coordinate_seq(&seq(&w));
        let t = tol(s);
        ck!(p.equals_exact(&o, t) == tol_eq(&v, &w, t), "points are exactly equal when both are empty or within the tolerance");
        ck!(p.equals_exact(&p.copy(), t), "a copied point is exactly equal to its source");
        ck!(sgn(p.compare_to_same_class(&o, &Cmp::new_with_dimension_limit(2))) == cmp(&v, &w), "points are compared by their ordinates, the empty one first");
        ck!(Point::get_dimension() == 0 && Point::get_boundary_dimension() == -1 && p.is_simple() && p.get_geometry_type() == "Point" && Point::get_type_code() == Geometry::TYPECODE_POINT, "a point has dimension zero and no boundary");
    }
    { f: "LineString::*, GeometryFactory::create_line_string*", tier: "native" }
    fn lines(s) {
        let v = pts(s);
        let n = v.len();
        let g = match s.int(0, 2) { 0 => Fac::create_line_string_coordinates(&v), 1 => Fac::create_line_string_coordinate_array_sequence(&seq(&v)), _ => { let mut g = ls(&some_pts(s)); g.init(seq(&v)); g } };
        ck!(g.is_empty() == v.is_empty() && g.get_num_points() == n && xyz(&g.get_coordinates(), &v) && xyz(&g.get_coordinate_sequence().to_coordinate_array(), &v), "a line holds its points in order");
        ck!(Fac::create_line_string().is_empty(), "a line made without coordinates is empty");
        ck!((0..n).all(|i| same_xyz(&g.get_coordinate_n(i), &v[i]) && same_xyz(&g.get_point_n(i).get_coordinate().unwrap(), &v[i])), "the points of a line are found by their index");
        ck!(g.get_coordinate().is_some() == (n > 0) && g.get_start_point().is_some() == (n > 0) && g.get_end_point().is_some() == (n > 0), "the ends of an empty line are missing");
        if n > 0 {
            ck!(same_xyz(&g.get_coordinate().unwrap(), &v[0]) && same_xyz(&g.get_start_point().unwrap().get_coordinate().unwrap(), &v[0]) && same_xyz(&g.get_end_point().unwrap().get_coordinate().unwrap(), &v[n - 1]), "the ends of a line are its first and last points");
        }
        let closed = n > 0 && same_xy(&v[0], &v[n - 1]);
        ck!(g.is_closed() == closed && g.is_ring() == closed && g.get_boundary_dimension() == if closed { -1 } else { 0 } && g.get_dimension() == 1, "a line is closed when it has points and its ends are equal");
        ck!(near(g.get_length(), len(&v), len(&v)), "the length of a line is the sum of its segments");
        ck!(env_of(&g.compute_envelope_internal(), &v), "the envelope of a line bounds its points");
        ck!(xyz(&g.copy().get_coordinates(), &v), "copying a line keeps its points");
        ck!(xyz(&g.reverse().get_coordinates(), &back(&v)) && xyz(&g.reverse_internal().get_coordinates(), &back(&v)) && xyz(&g.reverse().reverse().get_coordinates(), &v), "reversing a line reverses the order of its points");
        ck!(xyz(&g.get_coordinates(), &v), "queries, copies and reversals leave a line alone");
        let p = some_pt(s);
        ck!(g.is_coordinate(&p) == v.iter().any(|c| same_xy(c, &p)), "a coordinate is a point of the line exactly when one is equal to it");
        let w = if s.int(0, 1) == 0 { change(s, &v) } else { pts(s) };
        let (o, t) = (ls(&w), tol(s));
        ck!(g.equals_exact(&o, t) == tol_eq(&v, &w, t) && g.equals_exact(&g.copy(), t), "lines are exactly equal when they have as many points, each within the tolerance");
        ck!(sgn(g.compare_to(&o)) == cmp(&v, &w) && sgn(o.compare_to(&g)) == -cmp(&v, &w), "lines are compared point by point, then by length");
        ck!(sgn(g.compare_to_with_comparator(&o, &Cmp::new_with_dimension_limit(2))) == cmp(&v, &w), "lines are compared by sequence, point by point");
        let (mut a, mut b) = (g.copy(), g.reverse());
        a.normalize();
        b.normalize();
        let m = if cmp(&v, &back(&v)) > 0 { back(&v) } else { v.clone() };
        ck!(xyz(&a.get_coordinates(), &m) && xy(&b.get_coordinates(), &m), "the normal form of a line reads in the lesser direction, whichever way it was given");
        a.normalize();
        ck!(xyz(&a.get_coordinates(), &m), "normalizing twice changes nothing");
        ck!(g.get_geometry_type() == "LineString" && LineString::get_type_code() == Geometry::TYPECODE_LINESTRING, "type of a line");
    }
    { f: "LinearRing::*, GeometryFactory::create_linear_ring*", tier: "native" }
    fn rings(s) {
        let v = pts(s);
        let n = v.len();
        let mut g = match s.int(0, 2) { 0 => Fac::create_linear_ring_with_coordinates(&v), 1 => Fac::create_linear_ring_with_coordinate_array_sequence(&seq(&v)), _ => lr(&v) };
        ck!(g.is_empty() == v.is_empty() && g.get_num_points() == n && xyz(&g.get_coordinates(), &v) && xyz(&g.get_coordinate_array_sequence().to_coordinate_array(), &v), "a ring holds its points in order");
        ck!(Fac::create_linear_ring().is_empty(), "a ring made without coordinates is empty");
        ck!((0..n).all(|i| same_xyz(&g.get_coordinate_at_index(i), &v[i])) && g.get_coordinate().is_some() == (n > 0), "the points of a ring are found by their index");
        ck!(n == 0 || same_xyz(&g.get_coordinate().unwrap(), &v[0]), "the coordinate of a ring is its first");
        ck!(g.is_closed() == (n == 0 || same_xy(&v[0], &v[n - 1])) && g.get_boundary_dimension() == -1, "a ring is closed when it is empty or its ends are equal");
        ck!(near(g.get_length(), len(&v), len(&v)), "the length of a ring is the sum of its segments");
        ck!(env_of(&g.compute_envelope_internal(), &v) && env_of(&g.get_envelope_internal(), &v) && env_of(&g.get_envelope_internal(), &v), "the envelope of a ring bounds its points");
        let mut r = g.reverse();
        ck!(xyz(&g.copy().get_coordinates(), &v), "copying a ring keeps its points");
        ck!(xyz(&r.get_coordinates(), &back(&v)) && xyz(&g.reverse_internal().get_coordinates(), &back(&v)) && xyz(&r.reverse().get_coordinates(), &v), "reversing a ring reverses the order of its points");
        ck!(env_of(&r.get_envelope_internal(), &v) && env_of(&g.copy().get_envelope_internal(), &v), "a copied or reversed ring has the same envelope");
        let w = if s.int(0, 1) == 0 { change(s, &v) } else { pts(s) };
        let (o, t) = (lr(&w), tol(s));
        ck!(g.equals_exact(&o, t) == tol_eq(&v, &w, t) && g.equals_exact(&g.copy(), t), "rings are exactly equal when they have as many points, each within the tolerance");
        ck!(sgn(g.compare_to_same_class(&o)) == cmp(&v, &w) && sgn(o.compare_to_same_class(&g)) == -cmp(&v, &w), "rings are compared point by point, then by length");
        ck!(sgn(g.compare_to_same_class_with_comparator(&o, &Cmp::new_with_dimension_limit(2))) == cmp(&v, &w), "rings are compared by sequence, point by point");
        ck!(g.get_geometry_type() == "LinearRing" && g.get_type_code() == Geometry::TYPECODE_LINEARRING, "type of a ring");
    }
    { f: "Polygon::*, GeometryFactory::create_polygon*", tier: "native" }
    fn polygons(s) {
        let p = poly_pts(s);
        let mut g = if p.1.is_empty() { match s.int(0, 3) { 0 => Fac::create_polygon_with_coordinates(&p.0), 1 => Fac::create_polygon_with_coordinate_array_sequence(&seq(&p.0)), 2 => Fac::create_polygon_with_linear_ring(&lr(&p.0)), _ => pg(&p) } } else { pg(&p) };
        let all = flat(&p);
        ck!(is_pg(&g, &p), "a polygon holds its shell and its holes in order");
        ck!(g.is_empty() == p.0.is_empty() && g.get_num_points() == all.len() && xyz(&g.get_coordinates(), &all), "the points of a polygon are those of the shell, then of each hole");
        ck!(g.get_coordinate().map(|c| c.x) == p.0.first().map(|c| c.x), "the coordinate of a polygon is the first of its shell");
        let total = len(&p.0) + p.1.iter().map(len).sum::<f64>();
        ck!(near(g.get_length(), total, total), "the length of a polygon is that of its rings");
        let a2 = |v: &V| (1..v.len()).map(|i| v[i - 1].x * v[i].y - v[i].x * v[i - 1].y).sum::<f64>().abs();
        ck!(g.get_area() == (a2(&p.0) - p.1.iter().map(a2).sum::<f64>()) / 2.0, "the area of a polygon is that of its shell less that of its holes");
        ck!(is_pg(&g.copy(), &p) && is_pg(&g, &p), "copying a polygon keeps its rings");
        ck!(env_of(&g.get_envelope_internal(), &p.0) && env_of(&g.get_envelope_internal(), &p.0), "the envelope of a polygon bounds its shell");
        let mut r = g.reverse();
        ck!(is_pg(&r, &rev_pg(&p)) && is_pg(&r.reverse(), &p), "reversing a polygon reverses each ring and keeps the order of the holes");
        ck!(env_of(&r.get_envelope_internal(), &p.0), "a reversed polygon has the same envelope");
        let q = if s.int(0, 2) == 0 { poly_pts(s) } else {
            let mut q = p.clone();
            match s.int(0, 3) { 0 => q.0 = change(s, &p.0), 1 if !p.1.is_empty() => { let i = s.below(p.1.len()); q.1[i] = change(s, &p.1[i]); } 2 => q.1.push(ring_pts(s)), 3 if !p.1.is_empty() => { q.1.pop(); } _ => {} }
            q
        };
        let (o, t) = (pg(&q), tol(s));
        let want = tol_eq(&p.0, &q.0, t) && p.1.len() == q.1.len() && (0..p.1.len()).all(|i| tol_eq(&p.1[i], &q.1[i], t));
        ck!(g.equals_exact(&o, t) == want && o.equals_exact(&g, t) == want && g.equals_exact(&g.copy(), t), "polygons are exactly equal when their shells and their holes are, in order");
        ck!(sgn(g.compare_to(&o)) == cmp_poly(&p, &q) && sgn(o.compare_to(&g)) == -cmp_poly(&p, &q), "polygons are compared by shell, then hole by hole, then by their number");
        ck!(sgn(g.compare_to_with_comparator(&o, &Cmp::new_with_dimension_limit(2))) == cmp_poly(&p, &q), "polygons are compared by sequence");
        ck!(g.get_dimension() == 2 && g.get_boundary_dimension() == 1 && g.get_geometry_type() == "Polygon" && Polygon::get_type_code() == Geometry::TYPECODE_POLYGON, "type of a polygon");
    }
    { f: "Polygon::self_normalize, Polygon::normalized, Polygon::normalize", tier: "native" }
    fn normal_form_of_polygons(s) {
        let mut rs: Vec<Vec<P>> = vec![];
        for _ in 0..s.many(3) { let r = if rs.len() > 12 { vec![(0, 0), (9, 0), (3, 1 + s.int(0, 9))] } else { poly::simple_ring(s, 7, 6) }; rs.push(r); }
        let mut given: (V, Vec<V>) = (vec![], vec![]);
        let mut want: (V, Vec<V>) = (vec![], vec![]);
        for (i, r) in rs.iter().enumerate() {
            let n = r.len();
            // as given: any start, any direction
            let k = s.below(n);
            let mut a: Vec<P> = (0..n).map(|j| r[(j + k) % n]).collect();
            if s.int(0, 1) == 1 { a.reverse(); }
            a.push(a[0]);
            // wanted: from the least vertex, shell clockwise and holes counter-clockwise
            let m = (0..n).min_by_key(|j| r[*j]).unwrap();
            let ccw = poly::area2(r) > 0;
            let mut b: Vec<P> = (0..n).map(|j| if ccw == (i > 0) { r[(m + j) % n] } else { r[(m + n - j) % n] }).collect();
            b.push(b[0]);
            if i == 0 { given.0 = poly::cs(&a); want.0 = poly::cs(&b); } else { given.1.push(poly::cs(&a)); want.1.push(poly::cs(&b)); }
        }
        let mut g = pg(&given);
        g.self_normalize();
        ck!(is_pg(&g, &want), "the normal form starts every ring at its least point, the shell clockwise and the holes counter-clockwise");
        g.self_normalize();
        ck!(is_pg(&g, &want), "normalizing twice changes nothing");
        let mut h = pg(&given).reverse();
        h.self_normalize();
        ck!(is_pg(&h, &want), "a reversed polygon has the same normal form");
        if !want.0.is_empty() { ck!(!Orientation::is_ccw_coordinate_array_sequence(&seq(&want.0)), "a normal shell is clockwise"); }
    }
    { f: "Polygon::is_rectangle", tier: "native" }
    fn rectangles(s) {
        let v: Vec<P> = if s.int(0, 1) == 0 { poly::simple_ring(s, 5, 2) } else {
            let (a, b, c, d) = (s.int(0, 3), s.int(0, 3), s.int(1, 3), s.int(1, 3));
            let mut q = vec![(a, b), (a + c, b), (a + c, b + d), (a, b + d)];
            if s.int(0, 2) == 0 { let i = s.below(4); q[i].0 += s.int(-1, 1); }
            s.assume(poly::simple(&q));
            q };
        let n = v.len();
        let k = s.below(n);
        let mut w: Vec<P> = (0..n).map(|j| v[(j + k) % n]).collect();
        if s.int(0, 1) == 1 { w.reverse(); }
        w.push(w[0]);
        let aligned = n == 4 && (0..4).all(|i| (w[i].0 == w[i + 1].0) != (w[i].1 == w[i + 1].1));
        let g = pg(&(poly::cs(&w), vec![]));
        ck!(g.is_rectangle() == aligned, "a rectangle is a polygon of four sides along the axes");
        ck!(!pg(&(poly::cs(&w), vec![poly::cs(&w)])).is_rectangle(), "a polygon with a hole is not a rectangle");
    }
    { f: "MultiPoint::new_with_points_precision_model, MultiPoint::get_precision_model, MultiPoint::copy, MultiPoint::reverse, MultiLineString::new_with_line_strings_precision_model, MultiPoint::get_type_code, MultiLineString::get_type_code, Point::equals_exact", tier: "native" }
    fn with_a_precision_model(s) {
        let pm = PrecisionModel::new_with_scale(s.int(1, 9) as f64);
        let n = s.many(4) as usize;
        let v: Vec<V> = (0..n).map(|_| if s.int(0, 3) == 0 { vec![] } else { vec![some_pt(s)] }).collect();
        let ps: Vec<Point> = v.iter().map(|p| Point::new_with_coordinate_seq(&seq(p))).collect();
        let mut g = MultiPoint::new_with_points_precision_model(&ps, pm);
        let is_mp = |g: &MultiPoint| (0..n).all(|i| xyz(&g.get_point_at_index(i).unwrap().get_coordinates(), &v[i])) && g.get_point_at_index(n).is_none();
        let all: V = v.iter().flatten().cloned().collect();
        ck!(env_of(&g.copy().get_envelope_internal(), &all), "the envelope of a copy bounds its points");
        if s.int(0, 1) == 0 { g.get_envelope_internal(); }
        for mut h in [g.copy(), g.reverse(), g] {
            ck!(is_mp(&h), "a multi-point with a precision model, its copy and its reversal hold its points in order");
            ck!(h.get_precision_model().map_or(false, |mut m| m.equals(pm)), "a multi-point, its copy and its reversal have its precision model");
            ck!(env_of(&h.get_envelope_internal(), &all), "the envelope of a copy bounds its points");
        }
        let ls_: Vec<LineString> = v.iter().map(ls).collect();
        let m = MultiLineString::new_with_line_strings_precision_model(&ls_, pm);
        ck!(m.equals_exact(&MultiLineString::new_with_line_strings(&ls_), 0.0), "a multi-line with a precision model holds its lines in order");
        ck!(MultiPoint::get_type_code() == Geometry::TYPECODE_MULTIPOINT && MultiLineString::get_type_code() == Geometry::TYPECODE_MULTILINESTRING, "type codes of collections");
        for a in &v { for b in &v {
            let (p, q) = (Point::new_with_coordinate_seq(&seq(a)), Point::new_with_coordinate_seq(&seq(b)));
            ck!(p.equals_exact(&q, 0.0) == (a.len() == b.len() && (a.is_empty() || same_xy(&a[0], &b[0]))), "points are exactly equal when both are empty or their coordinates are equal");
        } }
    }
    { f: "MultiPoint::*, MultiLineString::*, MultiPolygon::*, GeometryFactory::create_multi*", tier: "native" }
    fn multis(s) {
        let n = s.many(4) as usize;
        let rare = s.int(0, 5) == 0;
        let last = if rare && s.bool() { n } else { n.max(1) - 1 };
        let v: Vec<V> = (0..n).map(|i| if rare { if i == last { vec![some_pt(s)] } else { vec![] } } else if s.int(0, 3) == 0 { vec![] } else { vec![some_pt(s)] }).collect();
        let all: V = v.iter().flatten().cloned().collect();
        let mk = |v: &Vec<V>| MultiPoint::new_with_points(&v.iter().map(|p| Point::new_with_coordinate_seq(&seq(p))).collect());
        let mut g = if all.len() == n && s.int(0, 1) == 0 { if s.int(0, 1) == 0 { Fac::create_multi_point_with_coordinates(&all) } else { Fac::create_multi_point_from_coordinate_array_sequence(&seq(&all)) } } else { mk(&v) };
        let is_mp = |g: &MultiPoint, v: &Vec<V>| (0..v.len()).all(|i| xyz(&g.get_point_at_index(i).unwrap().get_coordinates(), &v[i])) && g.get_point_at_index(v.len()).is_none();
        ck!(is_mp(&g, &v), "a multi-point holds its points in order");
        ck!(g.is_empty() == all.is_empty() && g.get_num_points() == all.len() && xyz(&g.get_coordinates(), &all), "the coordinates of a multi-point are those of its points");
        ck!((0..n).all(|i| g.get_coordinate(i).is_some() == !v[i].is_empty()), "the coordinate of a point of a multi-point");
        ck!(is_mp(&g.copy(), &v) && is_mp(&g.reverse(), &v), "copying and reversing a multi-point keep its points in order");
        ck!(env_of(&g.get_envelope_internal(), &all) && env_of(&g.get_envelope_internal(), &all) && env_of(&g.reverse().get_envelope_internal(), &all), "the envelope of a multi-point bounds its points");
        let mut w = v.clone();
        match s.int(0, 3) { 0 if n > 0 => { let i = s.below(n); w[i] = vec![some_pt(s)]; } 1 if n > 0 => { w.pop(); } 2 => w.push(vec![]), _ => {} }
        let t = tol(s);
        let want = v.len() == w.len() && (0..v.len()).all(|i| tol_eq(&v[i], &w[i], t));
        ck!(g.equals_exact(mk(&w), t) == want && g.equals_exact(g.copy(), t), "multi-points are exactly equal when their points are, in order");
        ck!(g.get_dimension() == 0 && g.has_dimension(0) && !g.has_dimension(1) && g.get_boundary_dimension() == -1 && g.get_geometry_type() == "MultiPoint" && g.get_precision_model().is_none(), "type of a multi-point");

        let mut v: Vec<V> = (0..n).map(|_| pts(s)).collect();
        match s.int(0, 5) {
            // all closed but perhaps one; all empty but perhaps one
            k @ (0 | 1) => { let j = if k == 0 || n == 0 { n } else if s.bool() { n - 1 } else { s.below(n) }; for (i, l) in v.iter_mut().enumerate() { if i == j { continue; } if l.is_empty() { l.push(some_pt(s)); } let f = l[0]; l.push(f); } }
            2 => { let j = if n == 0 || s.bool() { n } else { s.below(n) }; for (i, l) in v.iter_mut().enumerate() { if i != j { l.clear(); } } }
            _ => {}
        }
        let mk = |v: &Vec<V>| MultiLineString::new_with_line_strings(&v.iter().map(ls).collect());
        let g = mk(&v);
        let all_closed = v.iter().any(|l| !l.is_empty()) && v.iter().all(|l| !l.is_empty() && same_xy(&l[0], &l[l.len() - 1]));
        ck!(g.is_empty() == v.iter().all(|l| l.is_empty()) && g.is_closed() == all_closed && g.get_boundary_dimension() == if all_closed { -1 } else { 0 }, "a multi-line is closed when it has points and every line is closed");
        let rv: Vec<V> = v.iter().map(back).collect();
        ck!(g.copy_internal().equals_exact(&g, 0.0) && g.reverse().equals_exact(&mk(&rv), 0.0) && g.reverse().reverse().equals_exact(&g, 0.0), "copying a multi-line keeps its lines, reversing it reverses each of them");
        let mut w = v.clone();
        match s.int(0, 3) { 0 if n > 0 => { let i = s.below(n); w[i] = change(s, &v[i]); } 1 if n > 0 => { w.pop(); } 2 => w.push(vec![]), _ => {} }
        let want = v.len() == w.len() && (0..v.len()).all(|i| tol_eq(&v[i], &w[i], t));
        ck!(g.equals_exact(&mk(&w), t) == want && g.equals_exact(&g.copy_internal(), t), "multi-lines are exactly equal when their lines are, in order");
        ck!(g.get_dimension() == 1 && g.has_dimension(1) && !g.has_dimension(0) && g.get_geometry_type() == "MultiLineString", "type of a multi-line");

        let mut v: Vec<(V, Vec<V>)> = (0..n).map(|_| poly_pts(s)).collect();
        if s.int(0, 5) == 0 { let j = if n == 0 || s.bool() { n } else { s.below(n) }; for (i, p) in v.iter_mut().enumerate() { if i != j { *p = (vec![], vec![]); } } }
        let mk = |v: &Vec<(V, Vec<V>)>| MultiPolygon::new_with_polygons(&v.iter().map(pg).collect());
        let g = if s.int(0, 1) == 0 { Fac::create_multi_polygon(&v.iter().map(pg).collect()) } else { mk(&v) };
        let is_m = |g: &MultiPolygon, v: &Vec<(V, Vec<V>)>| g.get_num_polygons() == v.len() && (0..v.len()).all(|i| is_pg(&g.get_polygon_at_index(i), &v[i]));
        ck!(is_m(&g, &v) && is_m(&g.copy(), &v), "a multi-polygon and its copy hold their polygons in order");
        ck!(g.is_empty() == v.iter().all(|p| p.0.is_empty()), "a multi-polygon is empty when its polygons are");
        let r = g.reverse();
        ck!(is_m(&r, &v.iter().map(rev_pg).collect()) && is_m(&r.reverse(), &v), "reversing a multi-polygon reverses its polygons and keeps their order");
        ck!(g.get_area() == v.iter().map(|p| pg(p).get_area()).sum::<f64>(), "the area of a multi-polygon is that of its polygons");
        let mut w = v.clone();
        match s.int(0, 4) { 0 if n > 0 => { let i = s.below(n); w[i].0 = change(s, &v[i].0); } 1 if n > 0 => { w.pop(); } 2 if n > 0 => { let i = s.below(n); w[i].1.push(ring_pts(s)); } 3 => w.push((vec![], vec![])), _ => {} }
        let want = v.len() == w.len() && (0..v.len()).all(|i| tol_eq(&v[i].0, &w[i].0, t) && v[i].1.len() == w[i].1.len() && (0..v[i].1.len()).all(|j| tol_eq(&v[i].1[j], &w[i].1[j], t)));
        ck!(g.equals_exact(mk(&w), t) == want && g.equals_exact(g.copy(), t), "multi-polygons are exactly equal when their polygons are, in order");
        ck!(g.get_dimension() == 2 && g.has_dimension(2) && !g.has_dimension(1) && g.get_boundary_dimension() == 1 && g.get_geometry_type() == "MultiPolygon" && g.get_type_code() == Geometry::TYPECODE_MULTIPOLYGON, "type of a multi-polygon");
    }
    { f: "Polygon::get_area, Polygon::get_length, Polygon::get_envelope_internal, MultiPolygon::get_area, LineString::get_length, LinearRing::get_length, LineString::get_envelope_internal", tier: "native" }
    fn wide_ordinates(s) {
        // ordinates of up to 24 bits, and rings of them: areas are exact
        let k = 1i64 << s.int(8, 24);
        let ring = |s: &mut S, m: i64| -> Vec<P> { let n = s.int(3, 9); let mut v: Vec<P> = (0..n).map(|_| (s.int(-m, m), s.int(-m, m))).collect(); v.push(v[0]); v };
        let n = s.int(1, 3);
        let v: Vec<Vec<Vec<P>>> = (0..n).map(|_| { let h = s.int(0, 3); (0..=h).map(|i| ring(s, if i == 0 { k } else { k / 4 })).collect() }).collect();
        let f = poly::pow2(s);
        let ps: Vec<Polygon> = v.iter().map(|p| pg(&(poly::csf(&p[0], f), p[1..].iter().map(|r| poly::csf(r, f)).collect()))).collect();
        let a2 = |r: &Vec<P>| (1..r.len()).map(|i| r[i - 1].0 as i128 * r[i].1 as i128 - r[i].0 as i128 * r[i - 1].1 as i128).sum::<i128>().abs();
        let area = |p: &Vec<Vec<P>>| a2(&p[0]) - p[1..].iter().map(a2).sum::<i128>();
        let leg = |r: &Vec<P>| (1..r.len()).map(|i| ((r[i].0 - r[i - 1].0) as f64).hypot((r[i].1 - r[i - 1].1) as f64)).sum::<f64>() * f;
        for (g, p) in ps.iter().cloned().zip(&v) { let mut g = g;
            let (want, size) = (area(p) as f64 / 2.0 * f * f, p.iter().map(a2).sum::<i128>() as f64 * f * f);
            ck!((g.get_area() - want).abs() <= 1e-12 * (size + k as f64 * k as f64 * f * f), "the area of a wide polygon is that of its shell less that of its holes");
            let want = p.iter().map(leg).sum::<f64>();
            ck!(near(g.get_length(), want, want), "the length of a wide polygon is that of its rings");
            let want = leg(&p[0]);
            ck!(near(g.get_exterior_ring().get_length(), want, want) && near(ls(&poly::csf(&p[0], f)).get_length(), want, want), "the length of a wide line is the sum of its segments");
            ck!(env_of(&g.get_envelope_internal(), &poly::csf(&p[0], f)), "the envelope of a wide polygon bounds its shell");
        }
        let (want, size) = (v.iter().map(area).sum::<i128>() as f64 / 2.0 * f * f, v.iter().flatten().map(a2).sum::<i128>() as f64 * f * f);
        ck!((MultiPolygon::new_with_polygons(&ps).get_area() - want).abs() <= 1e-12 * (size + k as f64 * k as f64 * f * f), "the area of wide polygons is that of all of them");
    }
}
