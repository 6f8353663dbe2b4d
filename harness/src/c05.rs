use crate::core::algorithm::point_location::PointLocation;
use crate::core::algorithm::ray_crossing_counter::RayCrossingCounter;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as Cas;
use crate::core::geom::implementation::packed_coordinate_sequence_double::PackedCoordinateSequenceDouble as Pks;
use crate::core::geom::location::Location;
use crate::poly::pow2;
use crate::src::{Meta, S};
use crate::util::*;

type P = (i64, i64);
fn det(a: P, b: P, c: P) -> i128 {
    (b.0 as i128 - a.0 as i128) * (c.1 as i128 - b.1 as i128) - (b.1 as i128 - a.1 as i128) * (c.0 as i128 - b.0 as i128)
}
fn on(p: P, a: P, b: P) -> bool {
    a.0.min(b.0) <= p.0 && p.0 <= a.0.max(b.0) && a.1.min(b.1) <= p.1 && p.1 <= a.1.max(b.1) && det(a, b, p) == 0
}
fn crosses(p: P, a: P, b: P) -> bool {
    if (a.1 > p.1) == (b.1 > p.1) { return false; }
    if a.1 < b.1 { det(a, b, p) > 0 } else { det(b, a, p) > 0 }
}
fn oracle(p: P, r: &[P]) -> i32 {
    let mut n = 0;
    for i in 1..r.len() {
        if on(p, r[i - 1], r[i]) { return Location::BOUNDARY; }
        if crosses(p, r[i - 1], r[i]) { n += 1; }
    }
    if n % 2 == 1 { Location::INTERIOR } else { Location::EXTERIOR }
}
fn cc(p: P, f: f64) -> Coordinate {
    Coordinate::new_xyz(p.0 as f64 * f, p.1 as f64 * f, 7.0)
}
pub fn pts(s: &mut S, max: i64) -> (Vec<P>, i64, P) {
    let k = s.int(1, 5);
    let n = s.many(max);
    let e = s.int(0, 21);
    let (ox, oy) = if e < 18 { (s.int(-1000000, 1000000), s.int(-1000000, 1000000)) } else { (0, 0) };
    let v = (0..n).map(|_| ((s.int(-k, k) << e) + ox, (s.int(-k, k) << e) + oy)).collect();
    (v, k, (ox, oy))
}
fn query(s: &mut S, r: &[P], k: i64, o: P) -> P {
    let w = s.int(0, 3);
    if r.is_empty() || w == 0 { return (s.int(-k, k) + o.0, s.int(-k, k) + o.1); }
    let i = s.int(0, r.len() as i64 - 1) as usize;
    let j = s.int(0, r.len() as i64 - 1) as usize;
    match w {
        1 => (r[i].0 + s.int(-1, 1), r[i].1 + s.int(-1, 1)),
        2 => ((r[i].0 + r[j].0).div_euclid(2) + s.int(-1, 1), (r[i].1 + r[j].1).div_euclid(2)),
        _ => (r[i].0, r[j].1),
    }
}
fn packed(r: &[P], d: i32, g: f64) -> Pks {
    let mut f = vec![];
    for p in r {
        f.push(p.0 as f64 * g);
        f.push(p.1 as f64 * g);
        for k in 2..d { f.push(100.0 + k as f64); }
    }
    Pks::new_f64_with_coordinates_dimension_measures(&f, d, if d == 4 { 1 } else { 0 })
}
fn all(p: P, r: &[P], want: i32, f: f64) {
    let v: Vec<Coordinate> = r.iter().map(|q| cc(*q, f)).collect();
    let q = cc(p, f);
    ck!(RayCrossingCounter::locate_point_in_ring_vec(&q, &v) == want, "array form: boundary iff on an edge, interior iff odd crossings");
    let seq = Cas::new_with_coordinates(&v);
    ck!(RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(&q, &seq) == want, "sequence form: boundary iff on an edge, interior iff odd crossings");
    for d in 2..5 {
        ck!(RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(&q, &packed(r, d, f)) == want, "packed form: boundary iff on an edge, interior iff odd crossings");
    }
    ck!(PointLocation::locate_in_ring(&q, &v) == want, "locate_in_ring: boundary iff on an edge, interior iff odd crossings");
    ck!(PointLocation::is_in_ring(&q, &v) == (want != Location::EXTERIOR), "is_in_ring: not exterior");
    let mut c = RayCrossingCounter::new_with_coordinate(&q);
    for i in 1..v.len() { c.count_segment(&v[i - 1], &v[i]); }
    ck!(c.get_location() == want, "incremental counter: boundary iff on an edge, interior iff odd crossings");
    ck!(c.is_on_segment() == (want == Location::BOUNDARY), "incremental counter: on-segment flag");
    ck!(c.is_point_in_polygon() == (want != Location::EXTERIOR), "incremental counter: is_point_in_polygon");
}

contracts! {
    { f: "RayCrossingCounter::locate_point_in_ring_vec, RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence, RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence, RayCrossingCounter::count_segment, RayCrossingCounter::get_location, PointLocation::locate_in_ring, PointLocation::is_in_ring", tier: "native" }
    fn rings(s) {
        let (mut r, k, o) = pts(s, 9);
        if let Some(q) = r.first().cloned() { r.push(q); }
        let f = pow2(s);
        let p = query(s, &r, k, o);
        let want = oracle(p, &r);
        all(p, &r, want, f);
        let mut v = r.clone();
        v.reverse();
        all(p, &v, want, f);
        if r.len() > 2 {
            let j = s.int(1, r.len() as i64 - 2) as usize;
            let mut t: Vec<P> = r[j..r.len() - 1].to_vec();
            t.extend_from_slice(&r[..j]);
            t.push(r[j]);
            all(p, &t, want, f);
        }
    }
    { f: "RayCrossingCounter::count_segment, RayCrossingCounter::get_count", tier: "native" }
    fn one_segment(s) {
        let f = pow2(s);
        let (r, k, o) = pts(s, 2);
        s.assume(r.len() == 2);
        let p = query(s, &r, k, o);
        let mut c = RayCrossingCounter::new_with_coordinate(&cc(p, f));
        c.count_segment(&cc(r[0], f), &cc(r[1], f));
        let hit = on(p, r[0], r[1]);
        ck!(c.get_count() == crosses(p, r[0], r[1]) as i32, "count_segment: counts exactly the half-open crossings strictly to the right");
        ck!(c.is_on_segment() == (hit && !(p == r[0] && r[1].1 < p.1 && p != r[1])), "count_segment: on-segment exactly when the point is on it (but for the start of a falling segment)");
    }
    { f: "PointLocation::is_on_segment, Envelope::intersects_3", tier: "native" }
    fn on_segment(s) {
        let f = pow2(s);
        let (r, k, o) = pts(s, 2);
        s.assume(r.len() == 2);
        let p = query(s, &r, k, o);
        ck!(PointLocation::is_on_segment(&cc(p, f), &cc(r[0], f), &cc(r[1], f)) == on(p, r[0], r[1]), "is_on_segment: exactly the points of the segment");
        ck!(PointLocation::is_on_segment(&cc(p, f), &cc(r[1], f), &cc(r[0], f)) == on(p, r[0], r[1]), "is_on_segment: whatever its direction");
    }
    { f: "PointLocation::is_on_line_coordinates, PointLocation::is_on_line_coordinate_array_sequence", tier: "native" }
    fn on_line(s) {
        let f = pow2(s);
        let (r, k, o) = pts(s, 7);
        let p = query(s, &r, k, o);
        let want = (1..r.len()).any(|i| on(p, r[i - 1], r[i]));
        let mut v: Vec<Coordinate> = r.iter().map(|q| cc(*q, f)).collect();
        for _ in 0..2 {
            ck!(PointLocation::is_on_line_coordinates(&cc(p, f), &v) == want, "is_on_line: on some segment of the line");
            ck!(PointLocation::is_on_line_coordinate_array_sequence(&cc(p, f), &Cas::new_with_coordinates(&v)) == want, "is_on_line (sequence): on some segment of the line");
            v.reverse();
        }
    }
    { f: "Envelope::intersects_3" }
    fn point_in_envelope_of_segment(s) {
        let (a, b, q) = (num_xy(s), num_xy(s), num_xy(s));
        ck!(Envelope::intersects_3(&a, &b, &q) == (lo(a.x, b.x) <= q.x && q.x <= hi(a.x, b.x) && lo(a.y, b.y) <= q.y && q.y <= hi(a.y, b.y)), "a point intersects the envelope of a segment exactly when it is inside its bounds");
    }
}
