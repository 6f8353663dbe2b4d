use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::implementation::packed_coordinate_sequence::PackedCoordinateSequence as Base;
use crate::core::geom::implementation::packed_coordinate_sequence_double::PackedCoordinateSequenceDouble as Seq;
use crate::core::geom::implementation::packed_coordinate_sequence_factory::PackedCoordinateSequenceFactory as Fac;
use crate::core::geom::packed_coordinate_sequences::PackedCoordinateSequences as Ps;
use crate::src::{Meta, S};
use crate::util::*;

/// points as rows of ordinates
type Rows = Vec<Vec<f64>>;
fn o(s: &mut S) -> f64 { if s.int(0, 9) == 0 { f64::NAN } else { s.int(0, 2) as f64 } }
fn row(s: &mut S, d: i32) -> Vec<f64> { (0..d).map(|k| if k < 2 { s.int(0, 2) as f64 } else { o(s) }).collect() }
fn rows(s: &mut S, d: i32) -> Rows {
    let n = s.many(7);
    let mut v: Rows = (0..n).map(|_| row(s, d)).collect();
    if s.int(0, 1) == 1 && !v.is_empty() { let mut p = v[0].clone(); if d > 2 && s.int(0, 1) == 1 { p[2] = o(s); } v.push(p); }
    // the same points at other scales: tenths, a far-off place, and the ends of the range
    let (b, u) = [(0.0, 1.0), (0.0, 1.0), (0.1, 0.1), (-3e7, 0.1), (4503599627370497.0, 1.0), (-1e300, 9e299), (0.0, -1e-300)][s.int(0, 6) as usize];
    for r in v.iter_mut() { for e in r.iter_mut() { *e = b + *e * u; } }
    v
}
/// a dimension and a measure count: XY, XYZ, XYM, XYZM
fn kind(s: &mut S) -> (i32, i32) { match s.int(0, 3) { 0 => (2, 0), 1 => (3, 0), 2 => (3, 1), _ => (4, 1) } }
fn of(v: &Rows, d: i32, m: i32) -> Seq { Seq::new_f64_with_coordinates_dimension_measures(&v.concat(), d, m) }
fn eqo(a: f64, b: f64) -> bool { a == b || a.is_nan() && b.is_nan() }
fn eqr(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && (0..a.len()).all(|i| eqo(a[i], b[i])) }
fn holds(q: &Seq, v: &Rows, d: i32) -> bool {
    q.get_dimension() == d && q.size() == v.len() && eqr(&q.get_raw_coordinates(), &v.concat())
        && (0..v.len()).all(|i| (0..d).all(|k| eqo(q.get_ordinate(i, k), v[i][k as usize])))
}
fn isp(c: &Coordinate, r: &[f64], d: i32, m: i32) -> bool {
    let (z, e) = (d - m > 2, m > 0);
    c.x == r[0] && c.y == r[1] && eqo(c.get_z(), if z { r[2] } else { f64::NAN }) && eqo(c.get_m(), if e { r[d as usize - 1] } else { f64::NAN })
}
fn pt(r: &[f64], d: i32, m: i32) -> Coordinate {
    match (d, m) { (2, _) => Coordinate::new_xy(r[0], r[1]), (3, 0) => Coordinate::new_xyz(r[0], r[1], r[2]), (3, _) => Coordinate::new_xym(r[0], r[1], r[2]), _ => Coordinate::new_xyzm(r[0], r[1], r[2], r[3]) }
}
fn flat(a: &[f64], b: &[f64]) -> bool { a[0] == b[0] && a[1] == b[1] }
fn ring(v: &Rows) -> bool { v.is_empty() || v.len() > 3 && flat(&v[0], &v[v.len() - 1]) }
fn cmp(a: &[f64], b: &[f64]) -> i32 { if a[0] < b[0] { -1 } else if a[0] > b[0] { 1 } else if a[1] < b[1] { -1 } else if a[1] > b[1] { 1 } else { 0 } }
fn turn(v: &Rows, i: usize, ring: bool) -> Rows {
    if i == 0 || v.is_empty() { return v.clone(); }
    let n = if ring { v.len() - 1 } else { v.len() };
    if n == 0 { return v.clone(); }
    let mut w: Rows = (0..n).map(|j| v[(i + j) % n].clone()).collect();
    if ring { w.push(w[0].clone()); }
    w
}

contracts! {
    { f: "PackedCoordinateSequenceDouble::*", tier: "native" }
    fn holding(s) {
        let (d, m) = kind(s);
        let v = rows(s, d);
        let n = v.len();
        let q = of(&v, d, m);
        ck!(holds(&q, &v, d) && q.get_measures() == m, "a packed sequence reads back the ordinates it was given");
        for i in 0..n {
            ck!(isp(&q.get_coordinate_by_index(i), &v[i], d, m) && isp(&q.get_coordinate_internal(i), &v[i], d, m), "a point read has the ordinates of its place, missing ones being NaN");
        }
        let a = q.to_coordinate_array();
        ck!(a.len() == n && (0..n).all(|i| isp(&a[i], &v[i], d, m)), "the points read are those held");
        let mut c = q.copy();
        ck!(holds(&c, &v, d) && c.get_measures() == m, "a copy is the same sequence");
        if n > 0 {
            let i = s.int(0, n as i64 - 1) as usize;
            let k = s.int(0, d as i64 - 1) as i32;
            let x = s.int(50, 99) as f64;
            let mut w = v.clone();
            w[i][k as usize] = x;
            c.set_ordinate(i, k, x);
            ck!(holds(&c, &w, d), "setting an ordinate changes that one only");
            ck!(isp(&c.get_coordinate_by_index(i), &w[i], d, m), "an ordinate set is seen through the point");
            ck!(holds(&q, &v, d), "changing a copy leaves the original alone");
        }
        let e = q.expand_envelope(&Envelope::default());
        let f = |g: fn(f64, f64) -> f64, k: usize| v.iter().map(|r| r[k]).reduce(g).unwrap();
        ck!(if n == 0 { e.is_null() } else { e.get_min_x() == f(f64::min, 0) && e.get_max_x() == f(f64::max, 0) && e.get_min_y() == f(f64::min, 1) && e.get_max_y() == f(f64::max, 1) }, "the envelope is that of the points");
        if n > 0 {
            let e = q.expand_envelope(&Envelope::new_coordinates(&Coordinate::new_xy(-1., 1.), &Coordinate::new_xy(-1., 1.)));
            ck!(e.get_min_x() == f(f64::min, 0).min(-1.) && e.get_max_x() == f(f64::max, 0).max(-1.) && e.get_min_y() == f(f64::min, 1).min(1.) && e.get_max_y() == f(f64::max, 1).max(1.), "an envelope grows to the points");
        }
    }
    { f: "PackedCoordinateSequenceDouble::new_*, PackedCoordinateSequenceFactory::*", tier: "native" }
    fn making(s) {
        let (d, m) = kind(s);
        let v = rows(s, d);
        let n = v.len();
        let p: Vec<Coordinate> = v.iter().map(|r| pt(r, d, m)).collect();
        let q = Seq::new_coordinates_with_dimension_measures(&p, d, m);
        ck!(holds(&q, &v, d) && q.get_measures() == m, "points packed with their dimension and measures keep their ordinates");
        let q = Seq::new_coordinates_with_dimension(&p, d);
        ck!(q.get_dimension() == d && q.get_measures() == (d - 3).max(0) && q.size() == n && (0..n).all(|i| flat(&[q.get_ordinate(i, 0), q.get_ordinate(i, 1)], &v[i])), "points packed with a dimension keep their place");
        if m == 0 || d == 4 { ck!(holds(&q, &v, d), "points packed with a dimension keep their ordinates"); }
        let q = Seq::new_with_coordinates(&p);
        ck!(q.get_dimension() == 3 && q.get_measures() == 0 && q.size() == n && (0..n).all(|i| q.get_ordinate(i, 0) == v[i][0] && q.get_ordinate(i, 1) == v[i][1] && eqo(q.get_ordinate(i, 2), if d - m > 2 { v[i][2] } else { f64::NAN })), "points packed by default keep place and elevation");
        let q = Fac::create_double_from_coordinates(&p);
        ck!(q.size() == n && (0..n).all(|i| q.get_ordinate(i, 0) == v[i][0] && q.get_ordinate(i, 1) == v[i][1]), "points packed by the factory keep their place");
        if n > 0 && v.iter().all(|r| r.iter().all(|x| !x.is_nan())) { ck!(holds(&q, &v, d) && q.get_measures() == m, "points packed by the factory keep their ordinates, dimension and measures"); }
        if n == 0 { ck!(q.get_dimension() == 3 && q.get_measures() == 0, "an empty packed sequence has the default dimension"); }
        let q = Fac::create_double_coordinates_dimension(&v.concat(), d);
        ck!(holds(&q, &v, d) && q.get_measures() == 0, "ordinates packed by the factory are read back");
        let q = Fac::create_double_coordinate_dimension_measures(&v.concat(), d, m);
        ck!(holds(&q, &v, d) && q.get_measures() == m, "ordinates packed by the factory with measures are read back");
        let k = s.int(0, 5) as usize;
        let q = Fac::create_with_size_dimension(k, d);
        ck!(q.size() == k && q.get_dimension() == d && q.get_measures() == (d - 3).max(0), "a sized packed sequence has that many points");
        let q = Fac::create_with_size_dimension_measures(k, d, m);
        ck!(q.size() == k && q.get_dimension() == d && q.get_measures() == m && q.get_raw_coordinates().len() == k * d as usize, "a sized packed sequence has that many points and its measures");
        let b = Base::new_with_dimension_measures(d, m);
        ck!(b.is_some(), "a base sequence needs two spatial dimensions only");
        let b = b.unwrap();
        ck!(b.size() == 0 && b.get_dimension() == d && b.get_measures() == m && b.has_m() == (m > 0) && b.has_z() == (d - m > 2), "a base sequence starts empty with its dimension and measures");
        let q = b.copy();
        ck!(q.size() == 0 && q.get_dimension() == d, "a copy of a base sequence has its dimension");
        let q = Fac::create_double_from_coordinate_sequence(&b);
        ck!(q.size() == 0 && q.get_dimension() == d && q.get_measures() == m, "a sequence packed from a base sequence has its dimension and measures");
        ck!(Base::new_with_dimension_measures(d, d - 1).is_none(), "a base sequence with fewer than two spatial dimensions is refused");
    }
    { f: "PackedCoordinateSequences::reverse, PackedCoordinateSequences::swap, PackedCoordinateSequences::copy, PackedCoordinateSequences::copy_coord", tier: "native" }
    fn moving(s) {
        let (d, m) = kind(s);
        let v = rows(s, d);
        let n = v.len();
        let mut q = of(&v, d, m);
        Ps::reverse(&mut q);
        let w: Rows = v.iter().rev().cloned().collect();
        ck!(holds(&q, &w, d), "reversing a packed sequence holds the points in the opposite order");
        Ps::reverse(&mut q);
        ck!(holds(&q, &v, d), "reversing twice gives the packed sequence back");
        if n > 0 {
            let (i, j) = (s.int(0, n as i64 - 1) as usize, s.int(0, n as i64 - 1) as usize);
            let mut w = v.clone();
            w.swap(i, j);
            Ps::swap(&mut q, i, j);
            ck!(holds(&q, &w, d), "swapping exchanges two points");
            let q = of(&v, d, m);
            let (e, f) = kind(s);
            let u = rows(s, e);
            let mut t = of(&u, e, f);
            let len = s.int(0, n.min(u.len()) as i64) as usize;
            let (i, j) = (s.int(0, (n - len) as i64) as usize, s.int(0, (u.len() - len) as i64) as usize);
            Ps::copy(&q, i, &mut t, j, len);
            let mut w = u.clone();
            for k in 0..len { for o in 0..d.min(e) as usize { w[j + k][o] = v[i + k][o]; } }
            ck!(holds(&t, &w, e), "copying a part writes exactly that part, in the ordinates both have");
        }
    }
    { f: "PackedCoordinateSequences::is_ring, PackedCoordinateSequences::ensure_valid_ring, PackedCoordinateSequences::create_closed_ring, PackedCoordinateSequences::extend", tier: "native" }
    fn closing(s) {
        let (d, m) = kind(s);
        let v = rows(s, d);
        let n = v.len();
        let q = of(&v, d, m);
        ck!(Ps::is_ring(&q) == ring(&v), "a packed ring is empty, or has more than three points and equal ends");
        let r = Ps::ensure_valid_ring(&q);
        let mut w = v.clone();
        if n > 0 && n <= 3 { while w.len() < 4 { w.push(v[0].clone()); } } else if !ring(&v) { w.push(v[0].clone()); }
        ck!(holds(&r, &w, d), "closing keeps the points and adds only copies of the first");
        ck!(Ps::is_ring(&r), "the ring made is a ring");
        let k = n + s.int(0, 4) as usize;
        let t = Ps::extend(&q, k);
        ck!(t.size() == k, "extending reaches the size asked for");
        if n > 0 { let mut w = v.clone(); while w.len() < k { w.push(v[n - 1].clone()); } ck!(holds(&t, &w, d), "extending repeats the last point"); }
        ck!(holds(&q, &v, d), "the source is left alone");
    }
    { f: "PackedCoordinateSequences::scroll_coordinate, PackedCoordinateSequences::scroll_coordinate_index, PackedCoordinateSequences::scroll_coordinate_index_ensure_ring, PackedCoordinateSequences::index_of", tier: "native" }
    fn scrolling(s) {
        let (d, m) = kind(s);
        let v = rows(s, d);
        let n = v.len();
        let p = Coordinate::new_xy(s.int(0, 2) as f64, s.int(0, 2) as f64);
        let at = v.iter().position(|c| flat(c, &[p.x, p.y]));
        let mut q = of(&v, d, m);
        ck!(Ps::index_of(&p, &q) == at.map_or(-1, |i| i as i32), "the index of a point is its first place, or -1");
        Ps::scroll_coordinate(&mut q, &p);
        ck!(holds(&q, &at.map_or(v.clone(), |i| turn(&v, i, ring(&v))), d), "scrolling to a point rotates it to the front and keeps a ring closed");
        if n > 1 {
            let i = s.int(0, n as i64 - 1) as usize;
            let mut q = of(&v, d, m);
            Ps::scroll_coordinate_index(&mut q, i);
            ck!(holds(&q, &turn(&v, i, ring(&v)), d), "scrolling to an index rotates it to the front and keeps a ring closed");
            let r = s.int(0, 1) == 1;
            let mut q = of(&v, d, m);
            Ps::scroll_coordinate_index_ensure_ring(&mut q, i, r);
            ck!(holds(&q, &turn(&v, i, r), d), "scrolling rotates, ensuring a ring when asked");
        }
    }
    { f: "PackedCoordinateSequences::is_equal, PackedCoordinateSequences::min_coordinate, PackedCoordinateSequences::min_coordinate_index_sequence, PackedCoordinateSequences::min_coordinate_index_sequence_from_to", tier: "native" }
    fn asking(s) {
        let (d, m) = kind(s);
        let (e, f) = kind(s);
        let v = rows(s, d);
        let mut u = if s.int(0, 1) == 1 && d >= e { v.iter().map(|r| r[..e as usize].to_vec()).collect() } else { rows(s, e) };
        if !u.is_empty() && s.int(0, 1) == 1 { let k = s.int(0, u.len() as i64 - 1) as usize; let c = s.int(0, e as i64 - 1) as usize; u[k][c] += 1.; }
        let (a, b) = (of(&v, d, m), of(&u, e, f));
        let c = d.min(e) as usize;
        ck!(Ps::is_equal(&a, &b) == (v.len() == u.len() && (0..v.len()).all(|i| eqr(&v[i][..c], &u[i][..c]))), "equal packed sequences have the same size and equal common ordinates, missing ones being equal");
        let n = v.len();
        let mut k: Option<usize> = None;
        for i in 0..n { if k.map_or(true, |k| cmp(&v[k], &v[i]) > 0) { k = Some(i); } }
        ck!(Ps::min_coordinate(&a).map(|c| (c.x, c.y)) == k.map(|k| (v[k][0], v[k][1])), "the minimum point is the smallest one held");
        if n > 0 {
            ck!(Ps::min_coordinate_index_sequence(&a) == k.unwrap(), "the minimum index is the first place of the smallest point");
            let i = s.int(0, n as i64 - 1) as usize;
            let j = s.int(i as i64, n as i64 - 1) as usize;
            let mut k = i;
            for q in i..=j { if cmp(&v[k], &v[q]) > 0 { k = q; } }
            ck!(Ps::min_coordinate_index_sequence_from_to(&a, i, j) == k, "the minimum index of a range is the first place of its smallest point");
        }
    }
}
