use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::coordinate_list::CoordinateList as Cl;
use crate::src::{Meta, S};
use crate::util::*;

fn push(v: &mut Vec<Coordinate>, c: Coordinate, rep: bool) { if rep || v.last().map_or(true, |l| !same_xy(l, &c)) { v.push(c) } }

contracts! {
    { f: "CoordinateList::default, CoordinateList::new, CoordinateList::new_with_repeated, CoordinateList::get_coordinate, CoordinateList::add_coordinate_repeated, CoordinateList::add_coordinate_list_repeated, CoordinateList::add_coordinate_list_repeated_direction, CoordinateList::add_coordinate_list_repeated_start_end, CoordinateList::add_index_coordinate_repeated, CoordinateList::add_all, CoordinateList::close_ring, CoordinateList::to_coordinate_array, CoordinateList::to_coordinate_array_forward", tier: "native" }
    fn history(s) {
        let first = some_pts(s);
        let rep = s.bool();
        let mut m: Vec<Coordinate> = vec![];
        let mut l = match s.int(0, 2) {
            0 => Cl::default(),
            1 => { m = first.clone(); Cl::new(first) }
            _ => { for c in &first { push(&mut m, *c, rep); } Cl::new_with_repeated(first, rep) }
        };
        ck!(eq_pts(&l.to_coordinate_array(), &m), "a list built from an array holds its points");
        for _ in 0..s.int(1, 5) {
            let rep = s.bool();
            match s.int(0, 6) {
                0 => { let c = some_pt(s); push(&mut m, c, rep); l.add_coordinate_repeated(c, rep); ck!(eq_pts(&l.to_coordinate_array(), &m), "adding a coordinate appends it, dropping only a repeat of its neighbour"); }
                1 => { let v = some_pts(s); for c in &v { push(&mut m, *c, rep); } let r = l.add_coordinate_list_repeated(&v, rep); ck!(r, "adding an array reports success"); ck!(eq_pts(&l.to_coordinate_array(), &m), "adding an array appends its points in order"); }
                2 => { let v = some_pts(s); let d = s.bool();
                    if d { for c in &v { push(&mut m, *c, rep); } } else { for c in v.iter().rev() { push(&mut m, *c, rep); } }
                    let r = l.add_coordinate_list_repeated_direction(&v, rep, d); ck!(r, "adding an array reports success"); ck!(eq_pts(&l.to_coordinate_array(), &m), "adding an array in a direction appends its points in that order"); }
                3 => { let v = some_pts(s); let n = v.len() as i64;
                    let (mut a, b) = (s.int(0, n) as usize, s.int(0, n) as usize);
                    if a > b && a == v.len() { a -= 1; }
                    if a <= b { for c in &v[a..b] { push(&mut m, *c, rep); } } else { for i in (b + 1..=a).rev() { push(&mut m, v[i], rep); } }
                    let r = l.add_coordinate_list_repeated_start_end(&v, rep, a, b); ck!(r, "adding an array reports success"); ck!(eq_pts(&l.to_coordinate_array(), &m), "adding an index range appends it in its direction, the end left out"); }
                4 => { let i = s.int(0, m.len() as i64) as usize; let c = some_pt(s);
                    if rep || !((i > 0 && same_xy(&m[i - 1], &c)) || (i < m.len() && same_xy(&m[i], &c))) { m.insert(i, c); }
                    l.add_index_coordinate_repeated(i, c, rep); ck!(eq_pts(&l.to_coordinate_array(), &m), "inserting puts the coordinate at its index, dropping only a repeat of a neighbour"); }
                5 => { let v = some_pts(s); for c in &v { push(&mut m, *c, rep); } let ch = !v.is_empty(); ck!(l.add_all(v, rep) == ch, "add_all reports whether there was anything to add"); ck!(eq_pts(&l.to_coordinate_array(), &m), "adding a collection appends its points in order"); }
                _ => { if !m.is_empty() && !same_xy(&m[0], &m[m.len() - 1]) { let c = m[0]; m.push(c); } l.close_ring(); ck!(eq_pts(&l.to_coordinate_array(), &m), "closing appends a copy of the first point exactly when the ends differ"); }
            }
        }
        let r: Vec<Coordinate> = m.iter().rev().cloned().collect();
        ck!(eq_pts(&l.to_coordinate_array_forward(true), &m), "forward array: all points in order");
        ck!(eq_pts(&l.to_coordinate_array_forward(false), &r), "backward array: all points in reverse order");
        for i in 0..m.len() + 2 {
            let g = l.get_coordinate(i);
            ck!(if i < m.len() { g.map_or(false, |g| same_c(&g, &m[i])) } else { g.is_none() }, "a point is read by its index, none beyond the end");
        }
        let k = l.clone();
        l.add_coordinate_repeated(some_pt(s), true);
        ck!(eq_pts(&k.to_coordinate_array(), &m), "a cloned list is independent");
    }
}
