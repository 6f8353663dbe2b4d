use crate::core::algorithm::orientation::Orientation;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as Cas;
use crate::poly::*;
use crate::src::{Meta, S};

fn agree(r: &[P], want: bool, area: bool) {
    let v = cs(r);
    ck!(Orientation::is_ccw_vec(&v) == want, "is_ccw: the sign of the enclosed area");
    ck!(Orientation::is_ccw_coordinate_array_sequence(&Cas::new_with_coordinates(&v)) == want, "is_ccw (sequence): the sign of the enclosed area");
    if area { ck!(Orientation::is_ccw_area_vec(&v) == want, "is_ccw_area: the sign of the enclosed area"); }
}

contracts! {
    { f: "Orientation::is_ccw_vec, Orientation::is_ccw_coordinate_array_sequence, Orientation::is_ccw_area_vec", tier: "native" }
    fn simple_rings(s) {
        let v = simple_ring(s, 7, 4);
        let v = place(s, &v, 10, 1 << 20);
        let mut r = closed(s, &v, true);
        let ccw = area2(&v) > 0;
        agree(&r, ccw, true);
        r.reverse();
        agree(&r, !ccw, true);
    }
    { f: "Orientation::is_ccw_vec, Orientation::is_ccw_coordinate_array_sequence", tier: "native" }
    fn flat_tops(s) {
        // rings with a level top of several vertices, started anywhere
        let k = s.int(1, 5);
        let w = s.int(0, 4);
        let h = s.int(1, 3);
        let mut v: Vec<P> = (0..=w).map(|i| (k - i, h)).collect();
        let d = s.int(1, 3) as usize;
        for i in 0..d { v.push((k - w - s.int(0, 2) + i as i64, -(i as i64))); }
        v.push((k + s.int(0, 3), -(d as i64) - s.int(0, 2)));
        s.assume(simple(&v) && area2(&v) != 0);
        let mut r = closed(s, &v, true);
        let ccw = area2(&v) > 0;
        agree(&r, ccw, true);
        r.reverse();
        agree(&r, !ccw, true);
    }
    { f: "Orientation::is_ccw_vec, Orientation::is_ccw_coordinate_array_sequence, Orientation::is_ccw_area_vec", tier: "native" }
    fn degenerate_rings(s) {
        let n = s.many(6);
        let y = s.int(-3, 3);
        let mut v: Vec<P> = match s.int(0, 2) {
            0 => (0..n).map(|_| (s.int(-3, 3), y)).collect(),
            1 => (0..n.min(3)).map(|_| (s.int(-3, 3), s.int(-3, 3))).collect(),
            _ => { let (a, b) = ((s.int(-3, 3), s.int(-3, 3)), (s.int(-3, 3), s.int(-3, 3))); if n < 2 { vec![a] } else { vec![a, b, a] } }
        };
        if s.bool() && v.len() > 3 { let f = v[0]; v.push(f); }
        if v.len() <= 3 || v.iter().all(|p| p.1 == v[0].1) { agree(&v, false, false); }
        let _ = Orientation::is_ccw_area_vec(&cs(&v));
    }
    { f: "Orientation::is_ccw_vec", tier: "native" }
    fn never_panics(s) {
        let n = s.many(7);
        let k = s.int(0, 3);
        let mut v: Vec<P> = (0..n).map(|_| (s.int(-k, k), s.int(-k, k))).collect();
        if let Some(f) = v.first().cloned() { v.push(f); }
        let a = Orientation::is_ccw_vec(&cs(&v));
        ck!(a == Orientation::is_ccw_coordinate_array_sequence(&Cas::new_with_coordinates(&cs(&v))), "is_ccw: array and sequence forms agree");
    }
    { f: "Orientation::is_ccw_vec, Orientation::is_ccw_coordinate_array_sequence, Orientation::is_ccw_area_vec", tier: "native" }
    fn scaled(s) {
        // ordinates that are not whole
        let v = simple_ring(s, 7, 5);
        let v = place(s, &v, 8, 1 << 18);
        let r = closed(s, &v, true);
        let f = pow2(s);
        let (q, want) = (csf(&r, f), area2(&v) > 0);
        ck!(Orientation::is_ccw_vec(&q) == want, "is_ccw: the sign of the enclosed area at every scale");
        ck!(Orientation::is_ccw_coordinate_array_sequence(&Cas::new_with_coordinates(&q)) == want, "is_ccw (sequence): the sign of the enclosed area at every scale");
        ck!(Orientation::is_ccw_area_vec(&q) == want, "is_ccw_area: the sign of the enclosed area at every scale");
    }
}
