use crate::core::algorithm::area::Area;
use crate::core::algorithm::length::Length;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as Cas;
use crate::poly::*;
use crate::src::{Meta, S};
use crate::util::*;

fn ring(s: &mut S) -> Vec<P> {
    let n = s.many(9);
    let k = 1i64 << s.int(0, 19);
    let mut v: Vec<P> = (0..n).map(|_| (s.int(-k, k), s.int(-k, k))).collect();
    if let Some(f) = v.first().cloned() { v.push(f); }
    v
}
fn seq(v: &[P], s: &mut S) -> Cas {
    let d = s.int(2, 4) as i32;
    Cas::new_with_coordinates_dimension_measures(cs(v), d, if d == 4 { 1 } else { 0 })
}
fn signed(v: &[P]) -> f64 {
    if v.len() < 3 { return 0.0; }
    -(area2(&v[..v.len() - 1]) as f64) / 2.0
}
contracts! {
    { f: "Area::of_ring_signed_vec, Area::of_ring_signed_coordinate_sequence, Area::of_ring_vec, Area::of_ring_coordinate_sequence", tier: "native" }
    fn area_is_the_shoelace_value(s) {
        let mut v = ring(s);
        let want = signed(&v);
        let q = seq(&v, s);
        ck!(Area::of_ring_signed_vec(&cs(&v)) == want, "signed area: the shoelace value, positive for clockwise rings");
        ck!(Area::of_ring_signed_coordinate_sequence(&q) == want, "signed area (sequence): the shoelace value, positive for clockwise rings");
        ck!(Area::of_ring_vec(&cs(&v)) == want.abs(), "area: magnitude of the signed area");
        ck!(Area::of_ring_coordinate_sequence(&q) == want.abs(), "area (sequence): magnitude of the signed area");
        v.reverse();
        ck!(Area::of_ring_signed_vec(&cs(&v)) == -want, "signed area: negated by reversal");
        if v.len() > 3 {
            let r = closed(s, &v[..v.len() - 1], true);
            ck!(Area::of_ring_signed_vec(&cs(&r)) == -want, "signed area: any start vertex, repeated points");
            let t: Vec<P> = r.iter().map(|p| (p.0 + 1000, p.1 - 77777)).collect();
            ck!(Area::of_ring_signed_vec(&cs(&t)) == -want, "signed area: unchanged by translation");
            ck!(Area::of_ring_signed_coordinate_sequence(&seq(&t, s)) == -want, "signed area (sequence): unchanged by translation");
        }
    }
    { f: "Area::of_ring_signed_vec, Area::of_ring_signed_coordinate_sequence", tier: "native" }
    fn area_forms_agree(s) {
        let mut v = ring(s);
        v.pop();
        ck!(Area::of_ring_signed_vec(&cs(&v)) == Area::of_ring_signed_coordinate_sequence(&seq(&v, s)), "signed area: array and sequence forms agree");
    }
    { f: "Length::of_line", tier: "native" }
    fn length_of_integer_steps(s) {
        // axis-parallel and 3-4-5 steps: every segment length is an integer
        let n = s.many(8);
        let (mut x, mut y, mut len) = (s.int(-1000, 1000), s.int(-1000, 1000), 0i64);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                let k = s.int(-50, 50);
                match s.int(0, 3) {
                    0 => { x += k; len += k.abs(); }
                    1 => { y += k; len += k.abs(); }
                    2 => { x += 3 * k; y -= 4 * k; len += 5 * k.abs(); }
                    _ => { x -= 4 * k; y -= 3 * k; len += 5 * k.abs(); }
                }
            }
            v.push((x, y));
        }
        ck!(Length::of_line(&seq(&v, s)) == len as f64, "length: sum of the segment lengths");
        v.reverse();
        ck!(Length::of_line(&seq(&v, s)) == len as f64, "length: unchanged by reversal");
    }
    { f: "Length::of_line", tier: "native" }
    fn length_general(s) {
        let n = s.many(6);
        let mut v: Vec<Coordinate> = (0..n).map(|_| { let x = s.real(1e6, 2); let y = s.real(1e6, 2); Coordinate::new_xy(x, y) }).collect();
        let l = Length::of_line(&Cas::new_with_coordinates(&v));
        let mut w = 0.0;
        for i in 1..v.len() { w += v[i].distance(&v[i - 1]); }
        ck!(near_ulp(l, w), "length: sum of the segment lengths");
        ck!(l >= 0.0, "length: non-negative");
        ck!((l == 0.0) == v.iter().all(|c| same_xy(c, &v[0])), "length: zero exactly when all points coincide");
        v.reverse();
        let r = Length::of_line(&Cas::new_with_coordinates(&v));
        ck!((l - r).abs() <= 1e-14 * l, "length: unchanged by reversal up to rounding");
    }
    { f: "Area::of_ring_signed_vec, Area::of_ring_signed_coordinate_sequence, Area::of_ring_vec, Area::of_ring_coordinate_sequence, Length::of_line", tier: "native" }
    fn scaled(s) {
        // ordinates that are not whole
        let v = ring(s);
        let f = pow2(s);
        let (u, want) = (csf(&v, f), signed(&v) * f * f);
        let q = Cas::new_with_coordinates(&u);
        ck!(Area::of_ring_signed_vec(&u) == want && Area::of_ring_vec(&u) == want.abs(), "area: the shoelace value at every scale");
        ck!(Area::of_ring_signed_coordinate_sequence(&q) == want && Area::of_ring_coordinate_sequence(&q) == want.abs(), "area (sequence): the shoelace value at every scale");
        ck!(close(Length::of_line(&seq(&v, s)) * f, Length::of_line(&q)), "length scales along");
    }
}
