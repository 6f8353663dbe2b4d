use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::coordinate_array_sequences::CoordinateArraySequences as Cs;
use crate::core::geom::coordinate_sequence_comparator::CoordinateSequenceComparator as Cmp;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as Seq;
use crate::core::geom::implementation::coordinate_array_sequence_factory::CoordinateArraySequenceFactory as Fac;
use crate::src::{Meta, S};
use crate::util::*;

/// a sequence of the given points with some dimension (2 or 3, no measures)
fn of(s: &mut S, v: &[Coordinate]) -> (Seq, i32) { let d = s.int(2, 3) as i32; (Seq::new_with_coordinates_dimension_measures(v.to_vec(), d, 0), d) }
/// the ordinates the sequence has
fn same_d(a: &Coordinate, b: &Coordinate, d: i32) -> bool { same_xy(a, b) && (d < 3 || a.z == b.z || a.z.is_nan() && b.z.is_nan()) }
fn eq_d(q: &Seq, w: &[Coordinate], d: i32) -> bool { q.size() == w.len() && (0..w.len()).all(|i| same_d(&q.get_coordinate_index(i), &w[i], d)) }
fn ringy(s: &mut S) -> Vec<Coordinate> {
    let mut v = some_pts(s);
    if s.int(0, 1) == 1 && !v.is_empty() { let z = s.int(0, 1) as f64; let mut p = v[0]; p.z += z; v.push(p); }
    v
}
fn cmp(a: &Coordinate, b: &Coordinate) -> i32 { if a.x < b.x { -1 } else if a.x > b.x { 1 } else if a.y < b.y { -1 } else if a.y > b.y { 1 } else { 0 } }
fn is_ring(v: &[Coordinate]) -> bool { v.is_empty() || v.len() > 3 && same_xy(&v[0], &v[v.len() - 1]) }
fn turn(v: &[Coordinate], i: usize, ring: bool) -> Vec<Coordinate> {
    if i == 0 || v.is_empty() { return v.to_vec(); }
    let n = if ring { v.len() - 1 } else { v.len() };
    if n == 0 { return v.to_vec(); }
    let mut w: Vec<Coordinate> = (0..n).map(|j| v[(i + j) % n]).collect();
    if ring { w.push(w[0]); }
    w
}

contracts! {
    { f: "CoordinateArraySequences::reverse, CoordinateArraySequences::swap, CoordinateArraySequences::copy, CoordinateArraySequences::copy_coord", tier: "native" }
    fn moving(s) {
        let v = some_pts(s);
        let n = v.len();
        let (mut q, d) = of(s, &v);
        Cs::reverse(&mut q);
        let w: Vec<Coordinate> = v.iter().rev().cloned().collect();
        ck!(eq_d(&q, &w, d), "reversing a sequence holds the points in the opposite order");
        Cs::reverse(&mut q);
        ck!(eq_d(&q, &v, d), "reversing twice gives the sequence back");
        if n > 0 {
            let (i, j) = (s.int(0, n as i64 - 1) as usize, s.int(0, n as i64 - 1) as usize);
            let mut w = v.clone();
            w.swap(i, j);
            Cs::swap(&mut q, i, j);
            ck!(eq_d(&q, &w, d), "swapping exchanges two points");
            let (q, d) = of(s, &v);
            let u = some_pts(s);
            if !u.is_empty() {
                let (mut t, e) = of(s, &u);
                let len = s.int(0, n.min(u.len()) as i64) as usize;
                let (i, j) = (s.int(0, (n - len) as i64) as usize, s.int(0, (u.len() - len) as i64) as usize);
                Cs::copy(&q, i, &mut t, j, len);
                for k in 0..u.len() {
                    let inside = k >= j && k < j + len;
                    let c = t.get_coordinate_index(k);
                    ck!(same_xy(&c, if inside { &v[i + k - j] } else { &u[k] }), "copying a part writes exactly that part");
                    ck!(c.z == if inside && d.min(e) == 3 { v[i + k - j].z } else { u[k].z }, "copying a part writes exactly the ordinates both have");
                }
            }
        }
    }
    { f: "CoordinateArraySequences::is_ring, CoordinateArraySequences::ensure_valid_ring, CoordinateArraySequences::create_closed_ring, CoordinateArraySequences::extend", tier: "native" }
    fn closing(s) {
        let v = ringy(s);
        let n = v.len();
        let (q, d) = of(s, &v);
        ck!(Cs::is_ring(&q) == is_ring(&v), "a ring is empty, or has more than three points and equal ends");
        let r = Cs::ensure_valid_ring(&q);
        ck!(Cs::is_ring(&r) || n == 0, "the ring made is a ring");
        let mut w = v.clone();
        if n > 0 && n <= 3 { while w.len() < 4 { w.push(v[0]); } } else if !is_ring(&v) { w.push(v[0]); }
        ck!(eq_d(&r, &w, d), "closing keeps the points and adds only copies of the first");
        ck!(r.get_dimension() == d, "closing keeps the dimension");
        let m = n + s.int(0, 4) as usize;
        let mut w = v.clone();
        if n > 0 { while w.len() < m { w.push(v[n - 1]); } ck!(eq_d(&Cs::extend(&q, m), &w, d), "extending repeats the last point"); }
        ck!(Cs::extend(&q, m).size() == m, "extending reaches the size asked for");
        ck!(eq_d(&q, &v, d), "the source is left alone");
    }
    { f: "CoordinateArraySequences::scroll_coordinate, CoordinateArraySequences::scroll_coordinate_index, CoordinateArraySequences::scroll_coordinate_index_ensure_ring, CoordinateArraySequences::index_of", tier: "native" }
    fn scrolling(s) {
        let v = ringy(s);
        let n = v.len();
        let p = some_pt(s);
        let at = v.iter().position(|c| same_xy(c, &p));
        let (mut q, d) = of(s, &v);
        ck!(Cs::index_of(&p, &q) == at.map_or(-1, |i| i as i32), "the index of a point is its first place, or -1");
        Cs::scroll_coordinate(&mut q, &p);
        ck!(eq_d(&q, &at.map_or(v.clone(), |i| turn(&v, i, is_ring(&v))), d), "scrolling to a point rotates it to the front and keeps a ring closed");
        if n > 1 {
            let i = s.int(0, n as i64 - 1) as usize;
            let (mut q, d) = of(s, &v);
            Cs::scroll_coordinate_index(&mut q, i);
            ck!(eq_d(&q, &turn(&v, i, is_ring(&v)), d), "scrolling to an index rotates it to the front and keeps a ring closed");
            let ring = s.int(0, 1) == 1;
            let (mut q, d) = of(s, &v);
            Cs::scroll_coordinate_index_ensure_ring(&mut q, i, ring);
            ck!(eq_d(&q, &turn(&v, i, ring), d), "scrolling rotates, ensuring a ring when asked");
        }
    }
    { f: "CoordinateArraySequences::is_equal, CoordinateArraySequences::min_coordinate, CoordinateArraySequences::min_coordinate_index_sequence, CoordinateArraySequences::min_coordinate_index_sequence_from_to", tier: "native" }
    fn asking(s) {
        let v = some_pts(s);
        let mut u = if s.int(0, 1) == 1 { v.clone() } else { some_pts(s) };
        if !u.is_empty() && s.int(0, 1) == 1 { let k = s.int(0, u.len() as i64 - 1) as usize; match s.int(0, 2) { 0 => u[k].x += 1., 1 => u[k].y += 1., _ => u[k].z = f64::NAN } }
        let mut v = v;
        for k in 0..v.len() { if s.int(0, 6) == 0 { v[k].z = f64::NAN; } }
        let (a, d) = of(s, &v);
        let (b, e) = of(s, &u);
        ck!(Cs::is_equal(&a, &b) == (v.len() == u.len() && (0..v.len()).all(|i| same_d(&v[i], &u[i], d.min(e)))), "equal sequences have the same size and equal common ordinates, missing ones being equal");
        let n = v.len();
        let mut m: Option<usize> = None;
        for i in 0..n { if m.map_or(true, |k| cmp(&v[k], &v[i]) > 0) { m = Some(i); } }
        ck!(Cs::min_coordinate(&a).map(|c| (c.x, c.y)) == m.map(|k| (v[k].x, v[k].y)), "the minimum point is the smallest one held");
        if n > 0 {
            ck!(Cs::min_coordinate_index_sequence(&a) == m.unwrap(), "the minimum index is the first place of the smallest point");
            let i = s.int(0, n as i64 - 1) as usize;
            let j = s.int(i as i64, n as i64 - 1) as usize;
            let mut k = i;
            for q in i..=j { if cmp(&v[k], &v[q]) > 0 { k = q; } }
            ck!(Cs::min_coordinate_index_sequence_from_to(&a, i, j) == k, "the minimum index of a range is the first place of its smallest point");
        }
    }
    { f: "CoordinateArraySequence::*, CoordinateArraySequenceFactory::*", tier: "native" }
    fn holding(s) {
        let v = some_pts(s);
        let n = v.len();
        let (q, d) = of(s, &v);
        ck!(q.size() == n && eq_pts(&q.to_coordinate_array(), &v), "a sequence holds the points it was made of");
        let c = q.copy();
        ck!(eq_pts(&c.to_coordinate_array(), &v) && c.get_dimension() == d && c.get_measures() == 0, "a copy is the same sequence");
        let c = Fac::create_from_coordinate_array_sequence(&q);
        ck!(eq_pts(&c.to_coordinate_array(), &v) && c.get_dimension() == d && c.get_measures() == 0, "a sequence made from a sequence is the same");
        let c = Fac::create_from_coordinates(&v);
        ck!(eq_pts(&c.to_coordinate_array(), &v), "a sequence made from points holds them");
        let mut env = Envelope::default();
        q.expand_envelope(&mut env);
        let f = |g: fn(f64, f64) -> f64, h: fn(&Coordinate) -> f64| v.iter().map(h).reduce(g).unwrap();
        ck!(if n == 0 { env.is_null() } else { env.get_min_x() == f(f64::min, |c| c.x) && env.get_max_x() == f(f64::max, |c| c.x) && env.get_min_y() == f(f64::min, |c| c.y) && env.get_max_y() == f(f64::max, |c| c.y) }, "the envelope is that of the points");
        let (dim, me) = (s.int(-1, 6) as i32, s.int(0, 2) as i32);
        let k = s.int(0, 5) as usize;
        let c = Fac::create_with_size_dimension(k, dim);
        ck!(c.size() == k && c.get_dimension() == dim.clamp(2, 3) && c.get_measures() == 0, "a sized sequence has that many points and a dimension of 2 or 3");
        let c = Fac::create_with_size_dimension_measures(k, dim, me);
        ck!(c.size() == k && c.get_measures() == me.min(1) && c.get_dimension() == (dim - me).clamp(2, 3) + me.min(1), "a sized sequence has clipped measures and spatial dimension");
        ck!(c.has_m() == (me > 0) && c.has_z() == (dim - me > 2), "elevation and measure are present exactly when counted");
        if n > 0 {
            let i = s.int(0, n as i64 - 1) as usize;
            let o = s.int(0, 2) as i32;
            let x = s.int(50, 99) as f64;
            let mut t = q.copy();
            t.set_ordinate(i, o, x);
            for k in 0..n { for p in 0..3 {
                let want = if k == i && p == o { x } else { [v[k].x, v[k].y, v[k].z][p as usize] };
                ck!(t.get_ordinate(k, p) == want, "setting an ordinate changes that one only");
            } }
            ck!(t.get_x(i) == t.get_coordinate_index(i).x && t.get_y(i) == t.get_coordinate_copy(i).y, "ordinates are those of the point");
            ck!(if d == 3 { t.get_z(i) == t.get_coordinate_index(i).z } else { t.get_z(i).is_nan() } && t.get_m(i).is_nan(), "elevation is the point's when the sequence has it, else missing");
            let t = Seq::new_with_coordinates_dimension_measures(v.clone(), 4, 1);
            ck!(t.get_m(i) == v[i].m && t.get_z(i) == v[i].z, "measure is the point's when the sequence has it");
            let t = Seq::new_with_coordinates_dimension(v.clone(), d);
            ck!(t.get_dimension() == d && t.size() == n && (0..n).all(|k| same_xyz(&t.get_coordinate_index(k), &v[k])), "a sequence of given dimension holds its points");
            let t = Seq::new_with_size(n);
            ck!(t.size() == n && t.get_dimension() == 3 && t.get_measures() == 0 && (0..n).all(|k| same_xyz(&t.get_coordinate_index(k), &Coordinate::new_xyz(0.0, 0.0, f64::NAN))), "a sequence of given size holds as many new points");
            let mut c = Coordinate::default();
            q.get_coordinate_index_coordinate(i, &mut c);
            ck!(same_xyz(&c, &v[i]), "reading into a point sets its ordinates");
        }
    }
    { f: "CoordinateSequenceComparator::compare_coordinate_array_sequence, CoordinateSequenceComparator::compare_coordinate", tier: "native" }
    fn ordering(s) {
        let v = some_pts(s);
        let mut u = if s.int(0, 3) > 0 { v.clone() } else { some_pts(s) };
        for _ in 0..2 { if !u.is_empty() && s.int(0, 1) == 1 { let k = s.int(0, u.len() as i64 - 1) as usize; match s.int(0, 3) { 0 => u[k].x += 1., 1 => u[k].y -= 1., 2 => u[k].z = f64::NAN, _ => { u.pop(); } } } }
        let (a, d) = of(s, &v);
        let (b, e) = of(s, &u);
        let lim = s.int(0, 4) as i32;
        let c = if lim == 0 { Cmp::default() } else { Cmp::new_with_dimension_limit(lim) };
        let lim = if lim == 0 { i32::MAX } else { lim };
        let f = |x: f64, y: f64| if x < y { -1 } else if x > y { 1 } else if x.is_nan() && y.is_nan() { 0 } else if x.is_nan() { -1 } else if y.is_nan() { 1 } else { 0 };
        let mut w = 0;
        let m = d.min(e).min(lim);
        if lim > d.min(e) && d != e { w = if d < e { -1 } else { 1 }; }
        for i in 0..v.len().min(u.len()) { for o in 0..m { if w == 0 { w = f([v[i].x, v[i].y, v[i].z][o as usize], [u[i].x, u[i].y, u[i].z][o as usize]); } } }
        if w == 0 { w = (v.len() as i32 - u.len() as i32).signum(); }
        ck!(c.compare_coordinate_array_sequence(&a, &b) == w, "sequences compare by dimension, then ordinates lexicographically, then length");
        ck!(c.compare_coordinate_array_sequence(&b, &a) == -w, "comparison is antisymmetric");
        ck!(c.compare_coordinate_array_sequence(&a, &a.copy()) == 0, "a sequence compares equal to its copy");
    }
    { f: "CoordinateSequenceComparator::compare_f64", scope: "full", tier: "quick" }
    fn total(s) {
        let (a, b, c) = (s.f64(), s.f64(), s.f64());
        let f = Cmp::compare_f64;
        ck!(f(a, b) == -f(b, a), "comparison of doubles is antisymmetric, missing ones included");
        ck!(f(a, b) != 0 || (a == b || a.is_nan() && b.is_nan()), "doubles comparing equal are equal or both missing");
        ck!(f(a, b) != 0 || f(a, c) == f(b, c), "doubles comparing equal compare alike");
        ck!(!(f(a, b) < 0 && f(b, c) < 0) || f(a, c) < 0, "comparison of doubles is transitive");
        ck!(!(a.is_nan() && !b.is_nan()) || f(a, b) == -1, "a missing value comes first");
        ck!(!(a < b) || f(a, b) == -1, "comparison of doubles follows their order");
    }
}
