use crate::core::algorithm::robust_line_intersector::RobustLineIntersector as Rli;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::precision_model::{PrecisionModel, PrecisionModelType};
use crate::poly::*;
use crate::src::{Meta, S};
use crate::util::*;

/// a segment pair and its heights (NaN: none)
struct Pair { e: [P; 4], z: [f64; 4], f: f64 }
impl Pair {
    fn at(&self, i: usize) -> Coordinate { let q = cf(self.e[i], self.f); Coordinate::new_xyz(q.x, q.y, self.z[i]) }
    fn run(&self, pm: Option<PrecisionModel>) -> (Rli, i32) {
        let mut li = Rli::default();
        if let Some(m) = pm { li.set_precision_model(m); }
        let e = [self.at(0), self.at(1), self.at(2), self.at(3)];
        li.compute_intersection_4(&e[0], &e[1], &e[2], &e[3]);
        // the kind: as computed again on the same intersector
        let r = li.compute_intersect(&e[0], &e[1], &e[2], &e[3]);
        (li, r)
    }
}
fn height(s: &mut S) -> f64 {
    match s.int(0, 5) { 5 => s.int(-90000, 90000) as f64 / 10.0, 0 => f64::NAN, 1 => s.int(-3, 3) as f64, 2 => s.int(-1000000, 1000000) as f64, 3 => s.int(-3, 3) as f64 * 0.125, _ => s.int(1, 50) as f64 }
}
fn pair(s: &mut S) -> Pair {
    let k = match s.int(0, 2) { 0 => 4, 1 => 30, _ => 1i64 << s.int(3, 20) };
    let mut e = [(0, 0); 4];
    for p in e.iter_mut() { *p = (s.int(-k, k), s.int(-k, k)); }
    match s.int(0, 5) {
        // an end on the other segment (any of the four roles)
        0 => { let (a, b) = (e[0], e[1]); e[0] = (2 * a.0, 2 * a.1); e[1] = (2 * b.0, 2 * b.1); e[2] = (a.0 + b.0, a.1 + b.1); }
        1 => { let (a, b) = (e[2], e[3]); e[2] = (2 * a.0, 2 * a.1); e[3] = (2 * b.0, 2 * b.1); e[1] = (a.0 + b.0, a.1 + b.1); }
        // a shared end
        2 => { let i = s.int(0, 1) as usize; let j = 2 + s.int(0, 1) as usize; e[j] = e[i]; }
        // one line
        3 => { let (ux, uy) = (s.int(-3, 3), s.int(-3, 3)); for p in e.iter_mut() { let t = p.0 % 8; *p = (t * ux, t * uy); } }
        _ => {}
    }
    if s.int(0, 1) == 1 { e.swap(0, 1); }
    if s.int(0, 1) == 1 { e.swap(2, 3); }
    if s.int(0, 1) == 1 { e = [e[2], e[3], e[0], e[1]]; }
    let z = if s.int(0, 3) == 0 { [s.int(0, 90) as f64 / 10.0; 4] } else { [height(s), height(s), height(s), height(s)] };
    let f = if s.int(0, 2) == 0 { pow2(s) } else { 1.0 };
    s.assume(e[0] != e[1] && e[2] != e[3]);
    s.assume(meets(e[0], e[1], e[2], e[3]));
    Pair { e, z, f }
}
fn z_is(got: f64, want: f64, tol: f64) -> bool { if want.is_nan() { got.is_nan() } else { (got - want).abs() <= tol } }
/// the height a segment a-b has at p: of its known ends, in proportion to the distance from a
fn along(p: &Coordinate, a: &Coordinate, b: &Coordinate) -> f64 {
    let (za, zb) = (a.get_z(), b.get_z());
    if za.is_nan() { return zb; }
    if zb.is_nan() { return za; }
    if p.x == a.x && p.y == a.y { return za; }
    if p.x == b.x && p.y == b.y { return zb; }
    let t = (p.x - a.x).hypot(p.y - a.y) / (b.x - a.x).hypot(b.y - a.y);
    za * (1.0 - t) + zb * t
}
fn between(z: f64, a: f64, b: f64) -> bool { a.min(b) <= z && z <= a.max(b) }
fn judge(v: &Pair) {
    let (li, r) = v.run(None);
    let e = [v.at(0), v.at(1), v.at(2), v.at(3)];
    let plain = Pair { e: v.e, z: [f64::NAN; 4], f: v.f };
    let (l0, r0) = plain.run(None);
    ck!(r == r0, "heights do not influence the kind of intersection");
    for i in 0..(r.max(0) as usize).min(2) {
        let (g, g0) = (li.get_intersection(i), l0.get_intersection(i));
        ck!(g.x == g0.x && g.y == g0.y, "heights do not influence the place of an intersection point");
        ck!(g0.get_z().is_nan(), "without heights a point has none");
        point(&g, &e, 4e-9 * (1.0 + e.iter().map(|c| if c.get_z().is_nan() { 0.0 } else { c.get_z().abs() }).fold(0.0, f64::max)));
    }
}
/// the height of a reported point
fn point(g: &Coordinate, e: &[Coordinate; 4], tol: f64) {
    let here: Vec<usize> = (0..4).filter(|i| e[*i].x == g.x && e[*i].y == g.y).collect();
    let known: Vec<f64> = here.iter().map(|i| e[*i].get_z()).filter(|z| !z.is_nan()).collect();
    let z = g.get_z();
    if !known.is_empty() {
        ck!(known.iter().any(|k| *k == z), "an end point there with a height gives it");
    } else if !here.is_empty() {
        // an end without height: the other segment's
        let w: Vec<f64> = here.iter().map(|i| if *i < 2 { along(g, &e[2], &e[3]) } else { along(g, &e[0], &e[1]) }).collect();
        let w2 = w.iter().cloned().find(|x| !x.is_nan()).unwrap_or(f64::NAN);
        ck!(if here.len() > 1 { z.is_nan() || w.iter().any(|x| z_is(z, *x, tol)) } else { z_is(z, w2, tol) }, "an end without height takes the other segment's height there");
    } else {
        let (zp, zq) = (along(g, &e[0], &e[1]), along(g, &e[2], &e[3]));
        let want = if zp.is_nan() { zq } else if zq.is_nan() { zp } else { (zp + zq) / 2.0 };
        ck!(z_is(z, want, tol), "a crossing point takes the mean of both segments' heights there, or the one known");
    }
}
fn model(s: &mut S) -> PrecisionModel {
    match s.int(0, 4) {
        0 => PrecisionModel::new_with_scale([1.0, 10.0, 0.5, 100.0, 8.0][s.int(0, 4) as usize]),
        1 => PrecisionModel::new_with_scale([-2.0, -5.0, -0.25, -10.0][s.int(0, 3) as usize]),
        2 => PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle),
        3 => PrecisionModel::new_with_type(PrecisionModelType::Fixed),
        _ => PrecisionModel::default(),
    }
}

contracts! {
    { f: "RobustLineIntersector::get_z, RobustLineIntersector::copy_with_z" }
    fn own_height_first(s) {
        let (p, q) = (any_c(s), any_c(s));
        let mut li = Rli::default();
        let z = li.get_z(&p, &q);
        ck!(z.to_bits() == if p.z.is_nan() { q.z.to_bits() } else { p.z.to_bits() }, "the first height, else the second (any values)");
        let c = li.copy_with_z(&p, q.z);
        ck!(c.x.to_bits() == p.x.to_bits() && c.y.to_bits() == p.y.to_bits(), "a copy keeps the place (any values)");
        ck!(c.z.to_bits() == if q.z.is_nan() { p.z.to_bits() } else { q.z.to_bits() }, "a missing height leaves the own one (any values)");
    }
    { f: "RobustLineIntersector::compute_intersection_4, RobustLineIntersector::compute_intersect, RobustLineIntersector::get_z, RobustLineIntersector::get_z_or_interpolate, RobustLineIntersector::copy_with_z, RobustLineIntersector::copy_with_z_interpolate, RobustLineIntersector::z_interpolate_3, RobustLineIntersector::z_interpolate_5", tier: "native" }
    fn heights_of_intersections(s) { let v = pair(s); judge(&v); }
    { f: "RobustLineIntersector::z_interpolate_3", tier: "native" }
    fn interpolation(s) {
        let k = 1i64 << s.int(2, 20);
        let (a, d) = ((s.int(-k, k), s.int(-k, k)), (s.int(-9, 9), s.int(-9, 9)));
        let n = s.int(1, 16);
        let i = s.int(0, n);
        let f = pow2(s);
        let at = |t: i64, z: f64| { let q = cf((a.0 + t * d.0, a.1 + t * d.1), f); Coordinate::new_xyz(q.x, q.y, z) };
        let (z1, z2) = (height(s), height(s));
        let (p, p1, p2) = (at(i, height(s)), at(0, z1), at(n, z2));
        let mut li = Rli::default();
        let z = li.z_interpolate_3(&p, &p1, &p2);
        if z1.is_nan() || z2.is_nan() {
            ck!(z_is(z, if z1.is_nan() { z2 } else { z1 }, 0.0), "with one height known it is used, with none there is none");
        } else {
            if d == (0, 0) { ck!(z == z1 || z == z2, "a segment of no length has the height of an end"); return; }
            ck!(i != 0 || z == z1, "at the first end the first height");
            ck!(i != n || z == z2, "at the second end the second height");
            ck!(between(z, z1, z2), "a height between those of the ends");
            let want = (z1 * (n - i) as f64 + z2 * i as f64) / n as f64;
            ck!((z - want).abs() <= 1e-9 * (1.0 + z1.abs() + z2.abs()), "heights change in proportion along a segment");
            let back = li.z_interpolate_3(&p, &p2, &p1);
            ck!((z - back).abs() <= 1e-9 * (1.0 + z1.abs() + z2.abs()), "direction does not matter to heights");
        }
        let w = li.get_z_or_interpolate(&p, &p1, &p2);
        ck!(if p.get_z().is_nan() { z_is(w, z, 0.0) } else { w == p.get_z() }, "a point's own height comes first");
        let (t, u) = (li.copy_with_z_interpolate(&p, &p1, &p2), li.copy_with_z(&p, z1));
        ck!(t.x == p.x && t.y == p.y && z_is(t.get_z(), w, 0.0), "a copy takes the height and keeps the place");
        ck!(u.x == p.x && u.y == p.y && z_is(u.get_z(), if z1.is_nan() { p.get_z() } else { z1 }, 0.0), "a missing height leaves the own one");
    }
    { f: "RobustLineIntersector::z_interpolate_5, RobustLineIntersector::get_z", tier: "native" }
    fn mean_of_two(s) {
        let v = pair(s);
        let p = Coordinate::new_xy(s.int(-9, 9) as f64, s.int(-9, 9) as f64);
        let e = [v.at(0), v.at(1), v.at(2), v.at(3)];
        let mut li = Rli::default();
        let (a, b) = (li.z_interpolate_3(&p, &e[0], &e[1]), li.z_interpolate_3(&p, &e[2], &e[3]));
        let z = li.z_interpolate_5(&p, &e[0], &e[1], &e[2], &e[3]);
        ck!(z_is(z, if a.is_nan() { b } else if b.is_nan() { a } else { (a + b) / 2.0 }, 1e-12 * (1.0 + if a.is_nan() || b.is_nan() { 0.0 } else { a.abs() + b.abs() })), "the mean of both, or the one known");
        ck!(z_is(li.get_z(&e[0], &e[2]), if v.z[0].is_nan() { v.z[2] } else { v.z[0] }, 0.0), "the first height, else the second");
    }
    { f: "RobustLineIntersector::set_precision_model, RobustLineIntersector::intersection, PrecisionModel::make_precise_coordinate", tier: "native" }
    fn crossing_on_the_grid(s) {
        let v = pair(s);
        let mut m = model(s);
        let (l0, r0) = v.run(None);
        let (li, r) = v.run(Some(m));
        ck!(r == r0, "a precision model does not change the kind of intersection");
        let e = [v.at(0), v.at(1), v.at(2), v.at(3)];
        for i in 0..(r.max(0) as usize).min(2) {
            let (g, g0) = (li.get_intersection(i), l0.get_intersection(i));
            if r == 1 && !v.e.iter().any(|p| on(*p, v.e[0], v.e[1]) && on(*p, v.e[2], v.e[3])) {
                ck!(g.x == m.make_precise(g0.x) && g.y == m.make_precise(g0.y), "a crossing point is made precise");
                let (zp, zq) = (along(&g, &e[0], &e[1]), along(&g, &e[2], &e[3]));
                let want = if zp.is_nan() { zq } else if zq.is_nan() { zp } else { (zp + zq) / 2.0 };
                ck!(z_is(g.get_z(), want, 1e-9 * (1.0 + if want.is_nan() { 0.0 } else { v.z.iter().filter(|z| !z.is_nan()).map(|z| z.abs()).fold(want.abs(), f64::max) })), "its height is that of the segments at the reported place");
            } else {
                ck!(g.x == g0.x && g.y == g0.y && z_is(g.get_z(), g0.get_z(), 0.0), "an end point on the other segment stays as it is");
            }
        }
    }
}
