use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
use crate::src::{Meta, S};
use crate::util::*;

fn env_meet(a: &Envelope, b: &Envelope) -> bool {
    !a.is_null() && !b.is_null()
        && meet(a.get_min_x(), a.get_max_x(), b.get_min_x(), b.get_max_x())
        && meet(a.get_min_y(), a.get_max_y(), b.get_min_y(), b.get_max_y())
}

contracts! {
    { f: "Envelope::new_xy, Envelope::new_coordinates, Envelope::is_null" }
    fn construct_from_extents(s) {
        let (a, b, c, d) = (s.num(), s.num(), s.num(), s.num());
        let e = Envelope::new_xy(a, b, c, d);
        ck!(bounds(&e, lo(a, b), hi(a, b), lo(c, d), hi(c, d)), "new_xy: bounds are the min and max of the arguments");
        ck!(!e.is_null(), "new_xy: an envelope of actual points is not null");
        let f = Envelope::new_coordinates(&Coordinate::new_xy(a, c), &Coordinate::new_xy(b, d));
        ck!(bounds(&f, lo(a, b), hi(a, b), lo(c, d), hi(c, d)), "new_coordinates: bounds are the min and max of the corners");
    }
    { f: "Envelope::new_coordinate, Envelope::new_envelope, Envelope::copy, Envelope::init, Envelope::set_to_null, Envelope::default" }
    fn construct_from_one(s) {
        let p = num_xy(s);
        let e = Envelope::new_coordinate(&p);
        ck!(bounds(&e, p.x, p.x, p.y, p.y), "new_coordinate: the point itself");
        let g = any_env(s);
        ck!(same_env(&Envelope::new_envelope(&g), &g), "new_envelope: same extent");
        ck!(same_env(&g.copy(), &g), "copy: same extent");
        let mut h = any_env(s);
        h.init(&g);
        ck!(same_env(&h, &g), "init: same extent");
        h.set_to_null();
        ck!(h.is_null(), "set_to_null: null");
        ck!(Envelope::default().is_null(), "default: null");
    }
    { f: "Envelope::expand_to_include_xy, Envelope::expand_to_include_coordinate" }
    fn expand_by_point(s) {
        let e = any_env(s);
        let p = num_xy(s);
        let mut r = e.copy();
        r.expand_to_include_xy(p.x, p.y);
        if e.is_null() {
            ck!(bounds(&r, p.x, p.x, p.y, p.y), "expand_to_include_xy: null envelope becomes the point");
        } else {
            ck!(bounds(&r, lo(e.get_min_x(), p.x), hi(e.get_max_x(), p.x), lo(e.get_min_y(), p.y), hi(e.get_max_y(), p.y)),
                "expand_to_include_xy: least envelope covering both");
        }
        let mut t = e.copy();
        t.expand_to_include_coordinate(&p);
        ck!(same_env(&t, &r), "expand_to_include_coordinate: same as expand_to_include_xy");
        ck!(r.covers_xy(p.x, p.y) && (e.is_null() || r.covers_envelope(&e)), "expand: result covers point and old envelope");
    }
    { f: "Envelope::expand_to_include_envelope" }
    fn expand_by_envelope(s) {
        let a = any_env(s);
        let b = any_env(s);
        let mut r = a.copy();
        r.expand_to_include_envelope(&b);
        ck!(wf(&r), "expand_to_include_envelope: well-formed");
        if b.is_null() {
            ck!(same_env(&r, &a), "expand_to_include_envelope: null argument changes nothing");
        } else if a.is_null() {
            ck!(same_env(&r, &b), "expand_to_include_envelope: null receiver becomes the argument");
        } else {
            ck!(bounds(&r, lo(a.get_min_x(), b.get_min_x()), hi(a.get_max_x(), b.get_max_x()),
                       lo(a.get_min_y(), b.get_min_y()), hi(a.get_max_y(), b.get_max_y())),
                "expand_to_include_envelope: least envelope covering both");
        }
    }
    { f: "Envelope::expand_to_include_xy, Envelope::covers_xy" }
    fn expand_is_order_independent(s) {
        let e = any_env(s);
        let (p, q) = (num_xy(s), num_xy(s));
        let mut r1 = e.copy();
        r1.expand_to_include_coordinate(&p);
        r1.expand_to_include_coordinate(&q);
        let mut r2 = e.copy();
        r2.expand_to_include_coordinate(&q);
        r2.expand_to_include_coordinate(&p);
        ck!(r1.equals(&r2), "expanding by two points does not depend on their order");
        r2.expand_to_include_coordinate(&p);
        ck!(r1.equals(&r2), "expanding by a covered point changes nothing");
    }
    { f: "Envelope::covers_xy, Envelope::covers_coordinate, Envelope::contains_xy, Envelope::contains_coordinate, Envelope::intersects_xy, Envelope::intersects_coordinate, Envelope::overlaps_xy, Envelope::overlaps_coordinate" }
    fn point_predicates(s) {
        let e = any_env(s);
        let p = num_xy(s);
        let d = denotes(&e, p.x, p.y);
        ck!(e.covers_xy(p.x, p.y) == d, "covers_xy: point is in the closed box");
        ck!(e.covers_coordinate(&p) == d, "covers_coordinate: point is in the closed box");
        ck!(e.contains_xy(p.x, p.y) == d, "contains_xy: point is in the closed box");
        ck!(e.contains_coordinate(&p) == d, "contains_coordinate: point is in the closed box");
        ck!(e.intersects_xy(p.x, p.y) == d, "intersects_xy: point is in the closed box");
        ck!(e.intersects_coordinate(&p) == d, "intersects_coordinate: point is in the closed box");
        ck!(e.overlaps_xy(p.x, p.y) == d, "overlaps_xy: point is in the closed box");
        ck!(e.overlaps_coordinate(&p) == d, "overlaps_coordinate: point is in the closed box");
    }
    { f: "Envelope::intersects_envelope, Envelope::disjoint_envelope, Envelope::overlaps_envelope" }
    fn intersects_iff_common_point(s) {
        let (a, b) = (any_env(s), any_env(s));
        let m = env_meet(&a, &b);
        ck!(a.intersects_envelope(&b) == m, "intersects_envelope: true exactly when the boxes share a point");
        ck!(b.intersects_envelope(&a) == m, "intersects_envelope: symmetric");
        ck!(a.overlaps_envelope(&b) == m, "overlaps_envelope: same as intersects");
        ck!(a.disjoint_envelope(&b) == !m, "disjoint_envelope: negation of intersects");
        if m {
            let (x, y) = (hi(a.get_min_x(), b.get_min_x()), hi(a.get_min_y(), b.get_min_y()));
            ck!(a.covers_xy(x, y) && b.covers_xy(x, y), "intersects_envelope: a witness point is covered by both");
        }
    }
    { f: "Envelope::intersects_envelope, Envelope::covers_xy" }
    fn common_point_implies_intersects(s) {
        let (a, b) = (any_env(s), any_env(s));
        let p = num_xy(s);
        s.assume(denotes(&a, p.x, p.y) && denotes(&b, p.x, p.y));
        ck!(a.intersects_envelope(&b), "a shared point makes the envelopes intersect");
        ck!(!a.disjoint_envelope(&b), "a shared point makes the envelopes not disjoint");
    }
    { f: "Envelope::intersects_3, Envelope::intersects_4, Envelope::intersects_coordinate_ab" }
    fn segment_box_predicates(s) {
        let (p1, p2, q1, q2) = (num_xy(s), num_xy(s), num_xy(s), num_xy(s));
        let ep = Envelope::new_coordinates(&p1, &p2);
        let eq = Envelope::new_coordinates(&q1, &q2);
        ck!(Envelope::intersects_3(&p1, &p2, &q1) == denotes(&ep, q1.x, q1.y), "intersects_3: q in the box of p1 p2");
        ck!(Envelope::intersects_4(&p1, &p2, &q1, &q2) == env_meet(&ep, &eq), "intersects_4: the two boxes share a point");
        let e = any_env(s);
        ck!(e.intersects_coordinate_ab(&p1, &p2) == env_meet(&e, &ep), "intersects_coordinate_ab: envelope meets the box of a b");
    }
    { f: "Envelope::intersection_envelope" }
    fn intersection_is_pointwise_and(s) {
        let (a, b) = (any_env(s), any_env(s));
        let p = num_xy(s);
        let r = a.intersection_envelope(&b);
        ck!(wf(&r), "intersection: well-formed");
        ck!(denotes(&r, p.x, p.y) == (denotes(&a, p.x, p.y) && denotes(&b, p.x, p.y)),
            "intersection: a point is in it exactly when it is in both");
        ck!(r.is_null() == !env_meet(&a, &b), "intersection: null exactly when disjoint");
        let r2 = b.intersection_envelope(&a);
        ck!(same_env(&r, &r2), "intersection: commutative");
    }
    { f: "Envelope::covers_envelope, Envelope::contains_envelope, Envelope::contains_properly" }
    fn covers_is_subset(s) {
        let (a, b) = (any_env(s), any_env(s));
        let c = !a.is_null() && !b.is_null()
            && denotes(&a, b.get_min_x(), b.get_min_y()) && denotes(&a, b.get_max_x(), b.get_max_y());
        ck!(a.covers_envelope(&b) == c, "covers_envelope: both extreme corners are inside");
        ck!(a.contains_envelope(&b) == c, "contains_envelope: same as covers");
        let eq = same_env(&a, &b);
        ck!(a.contains_properly(&b) == (c && !eq), "contains_properly: covers and not equal");
        let p = num_xy(s);
        if c && denotes(&b, p.x, p.y) {
            ck!(a.covers_xy(p.x, p.y), "covers_envelope: every covered point of the argument is covered");
        }
        if c {
            ck!(same_env(&a.intersection_envelope(&b), &b), "covers_envelope: intersection with a covered envelope is that envelope");
            ck!(a.intersects_envelope(&b), "covers_envelope: implies intersects");
        }
    }
    { f: "Envelope::covers_envelope, Envelope::equals" }
    fn covers_is_partial_order(s) {
        let (a, b, c) = (any_env(s), any_env(s), any_env(s));
        if a.covers_envelope(&b) && b.covers_envelope(&c) {
            ck!(a.covers_envelope(&c), "covers_envelope: transitive");
        }
        if a.covers_envelope(&b) && b.covers_envelope(&a) {
            ck!(a.equals(&b), "covers_envelope: antisymmetric");
        }
        ck!(a.is_null() || a.covers_envelope(&a), "covers_envelope: reflexive");
    }
    { f: "Envelope::equals, Envelope::compare_to_envelope" }
    fn equality_and_order(s) {
        let (a, b) = (any_env(s), any_env(s));
        let eq = same_env(&a, &b);
        ck!(a.equals(&b) == eq, "equals: same extent, all null envelopes equal");
        ck!((a.compare_to_envelope(&b) == 0) == eq, "compare_to_envelope: zero exactly when equal");
        ck!(sgn(a.compare_to_envelope(&b)) == -sgn(b.compare_to_envelope(&a)), "compare_to_envelope: antisymmetric");
        if a.is_null() && !b.is_null() {
            ck!(a.compare_to_envelope(&b) < 0, "compare_to_envelope: null sorts first");
        }
    }
    { f: "Envelope::compare_to_envelope" }
    fn order_is_transitive(s) {
        let (a, b, c) = (any_env(s), any_env(s), any_env(s));
        if a.compare_to_envelope(&b) <= 0 && b.compare_to_envelope(&c) <= 0 {
            ck!(a.compare_to_envelope(&c) <= 0, "compare_to_envelope: transitive");
        }
    }
    { f: "Envelope::get_width, Envelope::get_height, Envelope::get_area, Envelope::min_extent, Envelope::max_extent, Envelope::get_min_x, Envelope::get_max_x, Envelope::get_min_y, Envelope::get_max_y" }
    fn null_has_no_extent(s) {
        let e = any_env(s);
        s.assume(e.is_null());
        ck!(e.get_width() == 0.0 && e.get_height() == 0.0 && e.get_area() == 0.0, "null envelope: zero width, height, area");
        ck!(e.min_extent() == 0.0 && e.max_extent() == 0.0 && e.get_diameter() == 0.0, "null envelope: zero extents and diameter");
        ck!(e.centre().is_none(), "null envelope: no centre");
    }
    { f: "Envelope::new_xy, Envelope::expand_to_include_envelope, Envelope::intersection_envelope", scope: "full" }
    fn join_meet_absorption(s) {
        let (a, b) = (any_env(s), any_env(s));
        let mut j = a.copy();
        j.expand_to_include_envelope(&b);
        if !a.is_null() {
            ck!(same_env(&a.intersection_envelope(&j), &a), "meet with the join gives the envelope back");
        }
        let mut k = a.copy();
        k.expand_to_include_envelope(&a.intersection_envelope(&b));
        ck!(same_env(&k, &a), "join with the meet gives the envelope back");
    }
}
