use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::coordinate_arrays::CoordinateArrays as Ca;
use crate::core::geom::envelope::Envelope;
use crate::src::{Meta, S};
use crate::util::*;

fn cmp(a: &Coordinate, b: &Coordinate) -> i32 { if a.x < b.x { -1 } else if a.x > b.x { 1 } else if a.y < b.y { -1 } else if a.y > b.y { 1 } else { 0 } }
fn lex(a: &[Coordinate], b: &[Coordinate]) -> i32 {
    for (p, q) in a.iter().zip(b) { let k = cmp(p, q); if k != 0 { return k; } }
    (a.len() as i32 - b.len() as i32).signum()
}
fn ring(s: &mut S) -> Vec<Coordinate> {
    let n = s.int(3, 7);
    let mut v: Vec<Coordinate> = (0..n).map(|i| Coordinate::new_xyz(i as f64, s.int(0, 1) as f64, s.int(0, 9) as f64)).collect();
    v.push(v[0]);
    v
}
/// sometimes with missing ordinates or invalid points
fn mixed(s: &mut S) -> Vec<Coordinate> {
    let mut v = some_pts(s);
    for p in v.iter_mut() {
        match s.int(0, 6) { 0 => p.x = f64::NAN, 1 => p.y = f64::INFINITY, 2 => { p.z = f64::NAN; p.m = f64::NAN }, 3 => p.z = f64::NAN, _ => {} }
    }
    v
}

contracts! {
    { f: "CoordinateArrays::extract, CoordinateArrays::copy_deep, CoordinateArrays::copy_deep_to, CoordinateArrays::at_least_n_coordinates_or_nothing", tier: "native" }
    fn selecting(s) {
        let v = some_pts(s);
        let n = v.len();
        let (a, b) = (s.int(0, n as i64 + 2) as usize, s.int(0, n as i64 + 2) as usize);
        let w: Vec<Coordinate> = (a..=b).filter(|i| *i < n).map(|i| v[i]).collect();
        ck!(eq_pts(&Ca::extract(&v, a, b), &w), "extracting returns the points from start to end inclusive, clamped to the array");
        ck!(eq_pts(&Ca::copy_deep(&v), &v), "a copy holds the same points");
        let k = s.int(0, 9) as usize;
        ck!(eq_pts(&Ca::at_least_n_coordinates_or_nothing(k, &v), if n >= k { &v[..] } else { &[] }), "all points if there are enough, otherwise none");
        let mut d = some_pts(s);
        let o = d.clone();
        if n > 0 && !d.is_empty() {
            let len = s.int(0, n.min(d.len()) as i64) as usize;
            let (i, j) = (s.int(0, (n - len) as i64) as usize, s.int(0, (d.len() - len) as i64) as usize);
            Ca::copy_deep_to(&v, i, &mut d, j, len);
            for q in 0..d.len() { ck!(same_c(&d[q], if q >= j && q < j + len { &v[i + q - j] } else { &o[q] }), "copying a part writes exactly that part"); }
        }
    }
    { f: "CoordinateArrays::has_repeated_points, CoordinateArrays::remove_repeated_points, CoordinateArrays::has_repeated_or_invalid_points, CoordinateArrays::remove_repeated_or_invalid_points", tier: "native" }
    fn repeats(s) {
        let v = some_pts(s);
        let h = (1..v.len()).any(|i| same_xy(&v[i - 1], &v[i]));
        ck!(Ca::has_repeated_points(&v) == h, "repeated points: two equal neighbours");
        let mut w: Vec<Coordinate> = vec![];
        for p in &v { if w.last().map_or(true, |l| !same_xy(l, p)) { w.push(*p); } }
        ck!(eq_pts(&Ca::remove_repeated_points(&v), &w), "removing repeated points keeps the first of each run");
        let v = mixed(s);
        let bad = |p: &Coordinate| !p.x.is_finite() || !p.y.is_finite();
        ck!(Ca::has_repeated_or_invalid_points(&v) == (v.iter().any(|p| bad(p)) || (1..v.len()).any(|i| same_xy(&v[i - 1], &v[i]))), "repeated or invalid points: equal neighbours or a point without finite x and y");
        let mut w: Vec<Coordinate> = vec![];
        for p in &v { if !bad(p) && w.last().map_or(true, |l| !same_xy(l, p)) { w.push(*p); } }
        ck!(eq_pts(&Ca::remove_repeated_or_invalid_points(&v), &w), "removing repeated or invalid points keeps the first of each run of valid points");
    }
    { f: "CoordinateArrays::compare, CoordinateArrays::increasing_direction, CoordinateArrays::is_equal_reversed, CoordinateArrays::equals", tier: "native" }
    fn comparing(s) {
        let mut v = some_pts(s);
        if s.int(0, 2) == 0 { let mut r = v.clone(); r.reverse(); if s.bool() && !r.is_empty() { r.remove(0); } v.extend(r); }
        let mut w = match s.int(0, 3) { 0 => v.clone(), 1 => { let mut w = v.clone(); w.reverse(); w } 2 => { let mut w = v.clone(); w.pop(); w } _ => some_pts(s) };
        if !w.is_empty() && s.int(0, 3) == 0 { let i = s.int(0, w.len() as i64 - 1) as usize; w[i] = some_pt(s); }
        ck!(sgn(Ca::compare(&v, &w)) == lex(&v, &w), "comparison of arrays is lexicographic, a prefix being less");
        let e = v.len() == w.len() && v.iter().zip(&w).all(|(p, q)| same_xy(p, q));
        ck!(Ca::equals(&v, &w) == e, "arrays are equal exactly when all points are");
        if v.len() == w.len() { ck!(Ca::is_equal_reversed(&v, &w) == v.iter().zip(w.iter().rev()).all(|(p, q)| same_xy(p, q)), "equal reversed: equal to the other read backwards"); }
        let mut r = v.clone();
        r.reverse();
        let k = lex(&v, &r);
        ck!(Ca::increasing_direction(&v).signum() == if k == 0 { 1 } else { k }, "direction: first point from the ends inward that differs, palindromes positive");
        if k != 0 { ck!(Ca::increasing_direction(&r).signum() == -k, "direction is opposite for the reversed array"); }
    }
    { f: "CoordinateArrays::is_ring, CoordinateArrays::index_of, CoordinateArrays::pt_not_in_list, CoordinateArrays::min_coordinate, CoordinateArrays::envelope, CoordinateArrays::intersection", tier: "native" }
    fn queries(s) {
        let v = some_pts(s);
        let p = some_pt(s);
        ck!(Ca::is_ring(&v) == (v.len() >= 4 && same_xy(&v[0], &v[v.len() - 1])), "a ring has at least four points and equal ends");
        let w = v.iter().position(|q| same_xy(q, &p)).map_or(-1, |i| i as i32);
        ck!(Ca::index_of(&p, &v) == w, "index of a point: the first equal one, or -1");
        let t = some_pts(s);
        match (Ca::pt_not_in_list(&t, &v), t.iter().find(|q| !v.iter().any(|r| same_xy(r, q)))) {
            (Some(a), Some(b)) => ck!(same_c(&a, b), "first point not in the list"),
            (a, b) => ck!(a.is_none() == b.is_none(), "a point not in the list exists exactly when reported"),
        }
        match Ca::min_coordinate(&v) {
            None => ck!(v.is_empty(), "an empty array has no minimum"),
            Some(m) => ck!(v.iter().any(|q| same_c(q, &m)) && v.iter().all(|q| cmp(&m, q) <= 0), "the minimum is a point not greater than any other"),
        }
        let e = Ca::envelope(&v);
        ck!(e.is_null() == v.is_empty(), "envelope of no points is null");
        let (mut a, mut b, mut c, mut d) = (f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::NEG_INFINITY);
        for q in &v { a = lo(a, q.x); b = hi(b, q.x); c = lo(c, q.y); d = hi(d, q.y); }
        if !v.is_empty() { ck!(bounds(&e, a, b, c, d), "envelope is the least box covering the points"); }
        let box_ = if s.int(0, 4) == 0 { Envelope::default() } else { Envelope::new_xy(s.int(0, 2) as f64, s.int(0, 2) as f64, s.int(0, 1) as f64, s.int(0, 1) as f64) };
        let w: Vec<Coordinate> = v.iter().filter(|q| denotes(&box_, q.x, q.y)).cloned().collect();
        ck!(eq_pts(&Ca::intersection(&v, &box_), &w), "intersection with an envelope keeps exactly the points inside, in order");
    }
    { f: "CoordinateArrays::scroll_coordinate, CoordinateArrays::scroll_index, CoordinateArrays::scroll_index_ensure_ring", tier: "native" }
    fn scrolling(s) {
        let v = if s.bool() { ring(s) } else { some_pts(s) };
        s.assume(!v.is_empty());
        let n = v.len();
        let closed = n >= 4 && same_xy(&v[0], &v[n - 1]);
        let rot = |i: usize, ring: bool| -> Vec<Coordinate> {
            if i == 0 { return v.clone(); }
            if ring { let m = n - 1; let mut r: Vec<Coordinate> = (0..m).map(|j| v[(i + j) % m]).collect(); r.push(r[0]); r } else { (0..n).map(|j| v[(i + j) % n]).collect() }
        };
        let i = s.int(0, n as i64 - 1) as usize;
        let mut w = v.clone();
        Ca::scroll_index(&mut w, i);
        ck!(eq_pts(&w, &rot(i, closed)), "scrolling rotates the points so that the given one is first, keeping a ring closed");
        let ens = n > 1 && s.bool();
        let mut w = v.clone();
        Ca::scroll_index_ensure_ring(&mut w, i, ens);
        ck!(eq_pts(&w, &rot(i, ens)), "scrolling as told to: as a ring or as an open array");
        let p = if s.bool() { v[i] } else { some_pt(s) };
        let mut w = v.clone();
        Ca::scroll_coordinate(&mut w, &p);
        match v.iter().position(|q| same_xy(q, &p)) {
            Some(k) => ck!(eq_pts(&w, &rot(k, closed)), "scrolling to a point puts its first occurrence first"),
            None => ck!(eq_pts(&w, &v), "scrolling to a point that is not there changes nothing"),
        }
    }
    { f: "CoordinateArrays::dimension, CoordinateArrays::measures, CoordinateArrays::enforce_consistency_dim_measures, CoordinateArrays::enforce_consistency", tier: "native" }
    fn dimensions(s) {
        let v = mixed(s);
        let ok: Vec<Coordinate> = v.iter().filter(|p| !p.x.is_nan() && !p.y.is_nan()).cloned().collect();
        let d = |p: &Coordinate| match (p.z.is_nan(), p.m.is_nan()) { (true, true) => 2, (false, false) => 4, _ => 3 };
        ck!(Ca::dimension(&ok) == ok.iter().map(d).max().unwrap_or(3), "dimension is the greatest of the points, 3 for none");
        ck!(Ca::measures(&ok) == ok.iter().map(|p| !p.m.is_nan() as i32).max().unwrap_or(0), "measures is the greatest of the points, 0 for none");
        let (e, f) = *[(2, 0), (3, 0), (3, 1), (4, 1)].get(s.int(0, 3) as usize).unwrap();
        let w = Ca::enforce_consistency_dim_measures(&ok, e, f);
        ck!(w.len() == ok.len() && w.iter().zip(&ok).all(|(p, q)| same_xy(p, q)), "enforcing a dimension keeps the points");
        let mut w = ok.clone();
        Ca::enforce_consistency(&mut w);
        ck!(w.len() == ok.len() && w.iter().zip(&ok).all(|(p, q)| same_xyz(p, q)), "enforcing consistency keeps the points");
        ck!(eq_pts(&w, &ok) || ok.iter().any(|p| d(p) != d(&ok[0]) || p.m.is_nan() != ok[0].m.is_nan()), "consistent points stay as they are");
    }
}
