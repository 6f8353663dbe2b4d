use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
use crate::src::{Meta, S};
use crate::util::*;

/// null or finite bounds, |bound| <= 1e150 (so that nothing overflows)
fn menv(s: &mut S) -> Envelope {
    if s.bool() { Envelope::default() } else { menv_some(s) }
}
fn menv_some(s: &mut S) -> Envelope {
    let (a, b, c, d) = (s.real(1e150, 4), s.real(1e150, 4), s.real(1e150, 4), s.real(1e150, 4));
    Envelope::new_xy(a, b, c, d)
}
fn genv(s: &mut S, k: i8) -> Envelope {
    let (a, b, c, d) = (s.grid(k), s.grid(k), s.grid(k), s.grid(k));
    Envelope::new_xy(a, b, c, d)
}
fn gap(a0: f64, a1: f64, b0: f64, b1: f64) -> f64 {
    if a1 < b0 { b0 - a1 } else if b1 < a0 { a0 - b1 } else { 0.0 }
}

contracts! {
    { f: "Envelope::get_width, Envelope::get_height, Envelope::min_extent, Envelope::max_extent", scope: "bounded: ordinates and amounts on the integer grid [-4,4]" }
    fn extents(s) {
        let e = menv(s);
        let (w, h) = (e.get_width(), e.get_height());
        if e.is_null() {
            ck!(w == 0.0 && h == 0.0, "width and height of null are zero");
        } else {
            ck!(w == e.get_max_x() - e.get_min_x(), "width: max x - min x");
            ck!(h == e.get_max_y() - e.get_min_y(), "height: max y - min y");
            ck!(w >= 0.0 && h >= 0.0, "extents are non-negative");
        }
        ck!(e.min_extent() == if w < h { w } else { h }, "min_extent: the smaller of width and height");
        ck!(e.max_extent() == if w < h { h } else { w }, "max_extent: the larger of width and height");
    }
    { f: "Envelope::get_area", scope: "bounded: bounds on the integer grid [-3,3]" }
    fn area_grid(s) {
        let e = genv(s, 3);
        ck!(e.get_area() == (e.get_max_x() - e.get_min_x()) * (e.get_max_y() - e.get_min_y()), "area: width times height");
        ck!(Envelope::default().get_area() == 0.0, "area of null: zero");
    }
    { f: "Envelope::get_area, Envelope::get_diameter", tier: "native" }
    fn area_diameter_values(s) {
        let e = menv(s);
        let (w, h) = (e.get_width(), e.get_height());
        ck!(near_ulp(e.get_area(), w * h), "area: width times height");
        let d = e.get_diameter();
        ck!(near_ulp(d, w.hypot(h)), "diameter: length of the diagonal");
    }
    { f: "Envelope::get_diameter", scope: "bounded: ordinates and amounts on the integer grid [-4,4]" }
    #[kani::stub(f64::hypot, hypot_contract)]
    fn diameter(s) {
        let e = menv(s);
        let d = e.get_diameter();
        if e.is_null() {
            ck!(d == 0.0, "diameter of null: zero");
        } else {
            let (w, h) = (e.get_width(), e.get_height());
            ck!(d >= w && d >= h && d <= w + h, "diameter: at least either extent, at most their sum");
        }
    }
    { f: "Envelope::expand_by_delta_xy, Envelope::expand_by", scope: "bounded: ordinates and amounts on the integer grid [-4,4]" }
    fn growth(s) {
        let e = menv(s);
        let (dx, dy) = (s.real(1e150, 4), s.real(1e150, 4));
        let mut r = e.copy();
        r.expand_by_delta_xy(dx, dy);
        let mut t = e.copy();
        t.expand_by(dx);
        let mut u = e.copy();
        u.expand_by_delta_xy(dx, dx);
        ck!(same_env(&t, &u), "expand_by: the same as growing by equal amounts");
        if e.is_null() {
            ck!(r.is_null() && t.is_null(), "expand_by: null stays null");
        } else {
            let (a, b, c, d) = (e.get_min_x() - dx, e.get_max_x() + dx, e.get_min_y() - dy, e.get_max_y() + dy);
            if a > b || c > d {
                ck!(r.is_null(), "expand_by: shrunk past its extent becomes null");
                ck!(same_env(&r, &Envelope::default()) && !(r.get_min_x() <= r.get_max_x()) && !(r.get_min_y() <= r.get_max_y()), "expand_by: and is the canonical null envelope");
            } else {
                ck!(bounds(&r, a, b, c, d), "expand_by: each side moves by exactly the amount");
            }
        }
    }
    { f: "Envelope::translate", scope: "bounded: ordinates and amounts on the integer grid [-4,4]" }
    fn translation(s) {
        let e = menv(s);
        let (dx, dy) = (s.real(1e150, 4), s.real(1e150, 4));
        let mut r = e.copy();
        r.translate(dx, dy);
        if e.is_null() {
            ck!(r.is_null() && same_env(&r, &e), "translate: null stays null");
        } else {
            ck!(bounds(&r, e.get_min_x() + dx, e.get_max_x() + dx, e.get_min_y() + dy, e.get_max_y() + dy), "translate: every bound moves by the offset");
        }
    }
    { f: "Envelope::centre", scope: "bounded: ordinates and amounts on the integer grid [-4,4]" }
    fn centre_is_midpoint(s) {
        let e = menv(s);
        match e.centre() {
            None => ck!(e.is_null(), "centre: none exactly for null"),
            Some(c) => {
                ck!(!e.is_null(), "centre: none exactly for null");
                ck!(near_ulp(c.x + c.x, e.get_min_x() + e.get_max_x()) && near_ulp(c.y + c.y, e.get_min_y() + e.get_max_y()), "centre: midpoint of the bounds");
                ck!(c.x >= e.get_min_x() && c.x <= e.get_max_x() && c.y >= e.get_min_y() && c.y <= e.get_max_y(), "centre: inside the box");
            }
        }
    }
    { f: "Envelope::distance_envelope", scope: "bounded: ordinates and amounts on the integer grid [-4,4]" }
    #[kani::stub(f64::hypot, hypot_contract)]
    fn distance_between(s) {
        let (a, b) = (menv_some(s), menv_some(s));
        let d = a.distance_envelope(&b);
        ck!(d >= 0.0, "distance: non-negative");
        let dx = gap(a.get_min_x(), a.get_max_x(), b.get_min_x(), b.get_max_x());
        let dy = gap(a.get_min_y(), a.get_max_y(), b.get_min_y(), b.get_max_y());
        ck!((d == 0.0) == a.intersects_envelope(&b), "distance: zero exactly when they intersect");
        if dx == 0.0 { ck!(d == dy, "distance: overlapping in x, the gap in y"); }
        if dy == 0.0 { ck!(d == dx, "distance: overlapping in y, the gap in x"); }
        ck!(d >= dx && d >= dy && d <= dx + dy, "distance: at least either gap, at most their sum");
        ck!(b.distance_envelope(&a) == d, "distance: symmetric");
    }
    { f: "Envelope::distance_envelope", tier: "native" }
    fn distance_value(s) {
        let (a, b) = (menv_some(s), menv_some(s));
        let dx = gap(a.get_min_x(), a.get_max_x(), b.get_min_x(), b.get_max_x());
        let dy = gap(a.get_min_y(), a.get_max_y(), b.get_min_y(), b.get_max_y());
        ck!(near_ulp(a.distance_envelope(&b), dx.hypot(dy)), "distance: hypotenuse of the gaps");
    }
}
