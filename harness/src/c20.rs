use crate::core::algorithm::hcoordinate::HCoordinate as H;
use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::triangle::Triangle as T;
use crate::poly::*;
use crate::src::{Meta, S};
use crate::util::*;

const PERM: [[usize; 3]; 6] = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]];
fn even(k: usize) -> bool { k < 3 }
/// three corners and a point: random, right-angled, isosceles, collinear, coincident; the point often on a side or corner
fn tri(s: &mut S, bits: i64) -> [P; 4] {
    let k = 1i64 << s.int(1, bits);
    let h = (k / 32).max(1);
    let mut v = [(0, 0); 4];
    for p in v.iter_mut() { *p = (s.int(-k, k), s.int(-k, k)); }
    match s.int(0, 9) {
        0 => v[1] = v[0],
        1 => { v[1] = v[0]; v[2] = v[0]; }
        2 => { let (u, w) = (s.int(-9, 9), s.int(-9, 9)); for p in v.iter_mut() { let t = s.int(-h, h); *p = (u * t, w * t); } }
        3 => { let (u, w) = (s.int(-h, h), s.int(-h, h)); v[1] = (v[0].0 + u, v[0].1 + w); v[2] = (v[0].0 - w, v[0].1 + u); }
        4 => { v[1] = (v[0].0 + s.int(1, h), v[0].1); v[2] = (v[0].0, v[0].1 + s.int(1, h)); }
        5 => { v[2] = (v[1].0 + (v[1].0 - v[0].0), v[1].1 + (v[1].1 - v[0].1) + s.int(-1, 1)); }
        _ => {}
    }
    for p in v.iter_mut() { *p = (p.0.clamp(-k, k), p.1.clamp(-k, k)); }
    match s.int(0, 5) {
        0 => v[3] = v[s.int(0, 2) as usize],
        1 => { let (a, b) = (v[0], v[1]); v[3] = ((a.0 + b.0) / 2, (a.1 + b.1) / 2); }
        2 => v[3] = ((v[0].0 + v[1].0 + v[2].0) / 3, (v[0].1 + v[1].1 + v[2].1) / 3),
        3 => { let (a, b) = (v[1], v[2]); v[3] = (2 * b.0 - a.0, 2 * b.1 - a.1); v[3] = (v[3].0.clamp(-k, k), v[3].1.clamp(-k, k)); }
        _ => {}
    }
    v
}
fn d2(a: P, b: P) -> f64 { (((a.0 - b.0) as f64).powi(2) + ((a.1 - b.1) as f64).powi(2)).sqrt() }
fn dotp(a: P, b: P, d: P) -> i128 { (a.0 - b.0) as i128 * (d.0 - b.0) as i128 + (a.1 - b.1) as i128 * (d.1 - b.1) as i128 }
fn cl(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-12 * b.abs() }
fn cla(a: f64, b: f64, m: f64) -> bool { (a - b).abs() <= 1e-12 * m }
fn mag(v: &[P]) -> f64 { v.iter().map(|p| p.0.abs().max(p.1.abs())).max().unwrap() as f64 }
/// circumcentre as numerators over twice the determinant
fn centre(a: P, b: P, d: P) -> (i128, i128, i128) {
    let (ax, ay, bx, by) = ((a.0 - d.0) as i128, (a.1 - d.1) as i128, (b.0 - d.0) as i128, (b.1 - d.1) as i128);
    let (p, q, w) = (ax * ax + ay * ay, bx * bx + by * by, 2 * (ax * by - ay * bx));
    (d.0 as i128 * w + by * p - ay * q, d.1 as i128 * w + ax * q - bx * p, w)
}

contracts! {
    { f: "Triangle::is_acute_coordinates, Triangle::is_ccw_coordinates, Triangle::intersects_coordinates, Triangle::is_acute, Triangle::is_ccw, Triangle::new", tier: "native" }
    fn predicates(s) {
        let v = tri(s, 24);
        let t = det(v[0], v[1], v[2]);
        let acute = dotp(v[0], v[1], v[2]) > 0 && dotp(v[1], v[2], v[0]) > 0 && dotp(v[2], v[0], v[1]) > 0;
        for (k, o) in PERM.iter().enumerate() {
            let [a, b, d] = [v[o[0]], v[o[1]], v[o[2]]];
            let (ca, cb, cd) = (c(a), c(b), c(d));
            let g = T::new(&ca, &cb, &cd);
            let ccw = if even(k) { t > 0 } else { t < 0 };
            ck!(T::is_ccw_coordinates(&ca, &cb, &cd) == ccw && g.is_ccw() == ccw, "ccw exactly when the determinant is positive");
            ck!(T::is_acute_coordinates(&ca, &cb, &cd) == acute && g.is_acute() == acute, "acute exactly when all three angles are");
            if t != 0 {
                let inside = { let g = t.signum(); [det(v[0], v[1], v[3]), det(v[1], v[2], v[3]), det(v[2], v[0], v[3])].iter().all(|e| e.signum() * g >= 0) };
                ck!(T::intersects_coordinates(&ca, &cb, &cd, &c(v[3])) == inside, "a point is in the triangle exactly when it is on the inner side of, or on, each side");
            } else if v[0] != v[1] || v[1] != v[2] || v[3] == v[0] {
                let line = [det(v[0], v[1], v[3]), det(v[1], v[2], v[3]), det(v[2], v[0], v[3])].iter().all(|e| *e == 0);
                ck!(T::intersects_coordinates(&ca, &cb, &cd, &c(v[3])) == line, "a degenerate triangle takes only points of its line");
            }
        }
    }
    { f: "Triangle::area_coordinates, Triangle::signed_area_coordinates, Triangle::length_coordinates, Triangle::longest_side_length_coordinates, Triangle::det_f64, Triangle::area, Triangle::signed_area, Triangle::length, Triangle::longest_side_length", tier: "native" }
    fn sizes(s) {
        let v = tri(s, 24);
        let t = det(v[0], v[1], v[2]);
        let (l, m) = (d2(v[0], v[1]) + d2(v[1], v[2]) + d2(v[2], v[0]), d2(v[0], v[1]).max(d2(v[1], v[2])).max(d2(v[2], v[0])));
        for (k, o) in PERM.iter().enumerate() {
            let [a, b, d] = [c(v[o[0]]), c(v[o[1]]), c(v[o[2]])];
            let g = T::new(&a, &b, &d);
            let w = if even(k) { -t } else { t } as f64 / 2.0;
            ck!(T::signed_area_coordinates(&a, &b, &d) == w && g.signed_area() == w, "signed area is half the determinant, positive clockwise");
            ck!(T::area_coordinates(&a, &b, &d) == w.abs() && g.area() == w.abs(), "area is the magnitude of the signed area");
            ck!(cl(T::length_coordinates(&a, &b, &d), l) && cl(g.length(), l), "perimeter");
            ck!(cl(T::longest_side_length_coordinates(&a, &b, &d), m) && cl(g.longest_side_length(), m), "longest side");
        }
        let [p, q, r, u] = [s.int(-1 << 25, 1 << 25), s.int(-1 << 25, 1 << 25), s.int(-1 << 25, 1 << 25), s.int(-1 << 25, 1 << 25)];
        ck!(T::det_f64(p as f64, q as f64, r as f64, u as f64) == (p * u - q * r) as f64, "determinant");
    }
    { f: "Triangle::circumcentre_coordinates, Triangle::circumcentre, Triangle::circumradius_coordinates, Triangle::circumradius", tier: "native" }
    fn circumcircle(s) {
        let v = tri(s, 16);
        let (x, y, w) = centre(v[0], v[1], v[2]);
        for o in PERM {
            let [a, b, d] = [c(v[o[0]]), c(v[o[1]]), c(v[o[2]])];
            let g = T::new(&a, &b, &d);
            let r = T::circumradius_coordinates(&a, &b, &d);
            ck!(same(r, g.circumradius()), "circumradius of the object");
            if w == 0 { ck!(r == f64::INFINITY, "no finite circle through collinear points"); continue; }
            let m = T::circumcentre_coordinates(&a, &b, &d);
            ck!(same_xy(&m, &g.circumcentre()), "circumcentre of the object");
            let (ex, ey) = (x as f64 / w as f64, y as f64 / w as f64);
            let z = mag(&v);
            ck!(cla(m.x, ex, ex.abs() + z) && cla(m.y, ey, ey.abs() + z), "the circumcentre is the point equidistant from the corners");
            let e = d2(v[0], v[1]) * d2(v[1], v[2]) * d2(v[2], v[0]) / (w as f64).abs();
            ck!(cl(r, e), "circumradius");
        }
    }
    { f: "Triangle::circumcentre_coordinates, Triangle::circumradius_coordinates", tier: "native" }
    fn wide_circumcircle(s) {
        let k = 1i64 << s.int(20, 30);
        let mut g = || s.int(-k, k);
        let v = [(g(), g()), (g(), g()), (g(), g())];
        let (x, y, w) = centre(v[0], v[1], v[2]);
        // well-shaped triangles only: the computation loses digits in thin ones
        s.assume(w.abs() as f64 > 0.1 * d2(v[0], v[1]).max(d2(v[1], v[2])).max(d2(v[2], v[0])).powi(2));
        let (ex, ey) = (x as f64 / w as f64, y as f64 / w as f64);
        let z = mag(&v) + ex.abs() + ey.abs();
        for o in PERM {
            let [a, b, d] = [c(v[o[0]]), c(v[o[1]]), c(v[o[2]])];
            let m = T::circumcentre_coordinates(&a, &b, &d);
            ck!(cla(m.x, ex, z) && cla(m.y, ey, z), "the circumcentre of a wide triangle is the point equidistant from the corners");
            ck!(cl(T::circumradius_coordinates(&a, &b, &d), d2(v[0], v[1]) * d2(v[1], v[2]) * d2(v[2], v[0]) / (w as f64).abs()), "circumradius of a wide triangle");
        }
    }
    { f: "Triangle::circumcentre_dd_coordinates, DD::divide_dd, DD::subtract_f64, DD::sqr, DD::determinant_xy_dd", tier: "native" }
    fn circumcentre_extended(s) {
        let v = tri(s, 20);
        let (x, y, w) = centre(v[0], v[1], v[2]);
        s.assume(w != 0);
        for o in PERM {
            let m = T::circumcentre_dd_coordinates(&c(v[o[0]]), &c(v[o[1]]), &c(v[o[2]]));
            let right = |n: i128, got: f64, z: f64| if n % w == 0 { got == (n / w) as f64 } else { let e = n as f64 / w as f64; (got - e).abs() <= 7e-16 * e.abs() + 1e-28 * z };
            let z = mag(&v) + (x as f64 / w as f64).abs().max((y as f64 / w as f64).abs());
            ck!(right(x, m.x, z) && right(y, m.y, z), "the extended-precision circumcentre is right to the last place whatever the order");
        }
    }
    { f: "Triangle::centroid_coordinates, Triangle::in_centre_coordinates, Triangle::centroid, Triangle::in_centre, Triangle::angle_bisector_coordinates", tier: "native" }
    fn centres(s) {
        let v = tri(s, 24);
        let z = mag(&v) + 1.0;
        let (l0, l1, l2) = (d2(v[1], v[2]), d2(v[0], v[2]), d2(v[0], v[1]));
        let p = l0 + l1 + l2;
        for o in PERM {
            let [a, b, d] = [c(v[o[0]]), c(v[o[1]]), c(v[o[2]])];
            let g = T::new(&a, &b, &d);
            let m = T::centroid_coordinates(&a, &b, &d);
            ck!(same_xy(&m, &g.centroid()), "centroid of the object");
            ck!(near_ulp(m.x, (v[0].0 + v[1].0 + v[2].0) as f64 / 3.0) && near_ulp(m.y, (v[0].1 + v[1].1 + v[2].1) as f64 / 3.0), "the centroid is the mean of the corners");
            if p > 0.0 {
                let m = T::in_centre_coordinates(&a, &b, &d);
                ck!(same_xy(&m, &g.in_centre()), "in-centre of the object");
                let w = |q: usize| { let k = |p: P| if q == 0 { p.0 } else { p.1 } as f64; (l0 * k(v[0]) + l1 * k(v[1]) + l2 * k(v[2])) / p };
                ck!(cla(m.x, w(0), z) && cla(m.y, w(1), z), "the in-centre weighs each corner by the opposite side");
            }
            let (u, w) = (d2(v[o[1]], v[o[0]]), d2(v[o[1]], v[o[2]]));
            if u + w > 0.0 {
                let f = u / (u + w);
                let m = T::angle_bisector_coordinates(&a, &b, &d);
                ck!(cla(m.x, a.x + f * (d.x - a.x), z) && cla(m.y, a.y + f * (d.y - a.y), z), "the bisector splits the opposite side in the ratio of the adjacent ones");
            }
        }
    }
    { f: "Triangle::perpendicular_bisector_coordinates, HCoordinate::new_with_hcoordinates", tier: "native" }
    fn bisector(s) {
        let v = tri(s, 12);
        let (x, y, w) = centre(v[0], v[1], v[2]);
        s.assume(w != 0);
        for o in PERM {
            let h = H::new_with_hcoordinates(&T::perpendicular_bisector_coordinates(&c(v[o[0]]), &c(v[o[1]])), &T::perpendicular_bisector_coordinates(&c(v[o[1]]), &c(v[o[2]])));
            let (ex, ey) = (x as f64 / w as f64, y as f64 / w as f64);
            let z = mag(&v) + ex.abs() + ey.abs();
            let (gx, gy) = (h.get_x(), h.get_y());
            ck!(cla(gx, ex, z) && cla(gy, ey, z), "perpendicular bisectors meet in the circumcentre");
        }
    }
    { f: "Triangle::area_3d_coordinates, Triangle::area_3d", tier: "native" }
    fn area_in_space(s) {
        let b = if s.int(0, 3) == 0 { s.int(12, 28) } else { s.int(1, 11) };
        let k = 1i64 << b;
        let mut v = [[0i64; 3]; 3];
        for p in v.iter_mut() { for x in p.iter_mut() { *x = s.int(-k, k); } }
        match s.int(0, 4) { 0 => v[1] = v[0], 1 => for p in v.iter_mut() { p[s.int(0, 2) as usize] = 0; }, 2 => { for i in 0..3 { v[2][i] = v[1][i] + (v[1][i] - v[0][i]); } } _ => {} }
        let (u, w): (Vec<i128>, Vec<i128>) = ((0..3).map(|i| (v[1][i] - v[0][i]) as i128).collect(), (0..3).map(|i| (v[2][i] - v[0][i]) as i128).collect());
        let n = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]];
        let e = ((n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) as f64).sqrt() / 2.0;
        // wide ones are not nearly flat
        s.assume(b <= 11 || e >= (k as f64) * (k as f64) / 256.0);
        for o in PERM {
            let q = |i: usize| Coordinate::new_xyz(v[o[i]][0] as f64, v[o[i]][1] as f64, v[o[i]][2] as f64);
            let r = T::area_3d_coordinates(&q(0), &q(1), &q(2));
            ck!(cl(r, e) && (r == 0.0) == (e == 0.0), "area in space is half the length of the cross product");
            ck!(same(r, T::new(&q(0), &q(1), &q(2)).area_3d()), "area in space of the object");
        }
    }
    { f: "Triangle::interpolate_z_coordinates, Triangle::interpolate_z", tier: "native" }
    fn heights(s) {
        let wide = s.int(0, 3) == 0;
        let v = tri(s, if wide { 27 } else { 20 });
        let d = (det(v[0], v[1], v[2]) as f64).abs();
        s.assume(d != 0.0 && (!wide || d >= mag(&v) * mag(&v) / 16.0));
        let (p, q, r) = (s.int(-64, 64), s.int(-64, 64), s.int(-1 << 20, 1 << 20));
        let plane = s.bool();
        let z: Vec<f64> = (0..3).map(|i| if plane { (p * v[i].0 + q * v[i].1 + r) as f64 } else { s.int(-1 << 20, 1 << 20) as f64 }).collect();
        for o in PERM {
            let k = |i: usize| { let a = v[o[i]]; Coordinate::new_xyz(a.0 as f64, a.1 as f64, z[o[i]]) };
            let g = T::new(&k(0), &k(1), &k(2));
            let w = (det(v[0], v[1], v[2]) as f64).abs();
            for i in 0..4 {
                let at = v[i];
                let got = T::interpolate_z_coordinates(&c(at), &k(0), &k(1), &k(2));
                ck!(same(got, g.interpolate_z(&c(at))), "interpolated height of the object");
                // exact barycentric weights
                let b = [det(at, v[1], v[2]), det(v[0], at, v[2]), det(v[0], v[1], at)];
                let e: f64 = (0..3).map(|j| b[j] as f64 * z[j]).sum::<f64>() / det(v[0], v[1], v[2]) as f64;
                let m: f64 = (0..3).map(|j| (b[j] as f64).abs() / w).fold(1.0, f64::max) * (z.iter().map(|x| x.abs()).fold(0.0, f64::max) + 1.0);
                if i < 3 { ck!(cla(got, z[i], m), "the corners keep their heights"); }
                if plane { ck!(cla(got, (p * at.0 + q * at.1 + r) as f64, m), "heights on a plane are reproduced"); }
                ck!(cla(got, e, m), "heights are interpolated linearly");
            }
        }
    }
    { f: "Triangle::is_acute_coordinates, Triangle::is_ccw_coordinates, Triangle::intersects_coordinates, Triangle::signed_area_coordinates, Triangle::area_coordinates, Triangle::length_coordinates, Triangle::circumcentre_coordinates, Triangle::circumcentre_dd_coordinates, Triangle::circumradius_coordinates, Triangle::centroid_coordinates, Triangle::in_centre_coordinates, Triangle::angle_bisector_coordinates, Triangle::interpolate_z_coordinates", tier: "native" }
    fn scaled(s) {
        // corners that are not whole
        let v = tri(s, 16);
        let f = pow2(s);
        let t = det(v[0], v[1], v[2]);
        let [a, b, d, p] = [cf(v[0], f), cf(v[1], f), cf(v[2], f), cf(v[3], f)];
        let z = mag(&v) + 1.0;
        ck!(T::is_ccw_coordinates(&a, &b, &d) == (t > 0), "ccw exactly when the determinant is positive, at every scale");
        let acute = dotp(v[0], v[1], v[2]) > 0 && dotp(v[1], v[2], v[0]) > 0 && dotp(v[2], v[0], v[1]) > 0;
        ck!(T::is_acute_coordinates(&a, &b, &d) == acute, "acute exactly when all three angles are, at every scale");
        let w = -t as f64 / 2.0 * f * f;
        ck!(T::signed_area_coordinates(&a, &b, &d) == w && T::area_coordinates(&a, &b, &d) == w.abs(), "area at every scale");
        let (l, m) = (d2(v[0], v[1]) + d2(v[1], v[2]) + d2(v[2], v[0]), d2(v[0], v[1]).max(d2(v[1], v[2])).max(d2(v[2], v[0])));
        ck!(cl(T::length_coordinates(&a, &b, &d) / f, l) && cl(T::longest_side_length_coordinates(&a, &b, &d) / f, m), "side lengths at every scale");
        let q = |x: Coordinate, y: Coordinate, m: f64| times(&x, f, &y, m);
        ck!(q(T::centroid_coordinates(&c(v[0]), &c(v[1]), &c(v[2])), T::centroid_coordinates(&a, &b, &d), z), "the centroid scales along");
        if t != 0 {
            let inside = [det(v[0], v[1], v[3]), det(v[1], v[2], v[3]), det(v[2], v[0], v[3])].iter().all(|e| e.signum() * t.signum() >= 0);
            ck!(T::intersects_coordinates(&a, &b, &d, &p) == inside, "a point is in the triangle exactly when it is on the inner side of, or on, each side, at every scale");
            let (x, y, w) = centre(v[0], v[1], v[2]);
            let (x, y) = (x as f64 / w as f64, y as f64 / w as f64);
            let m = T::circumcentre_coordinates(&a, &b, &d);
            ck!(cla(m.x / f, x, x.abs() + z) && cla(m.y / f, y, y.abs() + z), "the circumcentre is equidistant from the corners at every scale");
            let m = T::circumcentre_dd_coordinates(&a, &b, &d);
            ck!(cla(m.x / f, x, x.abs() + z) && cla(m.y / f, y, y.abs() + z), "the extended-precision circumcentre is equidistant from the corners at every scale");
            ck!(cl(T::circumradius_coordinates(&a, &b, &d) / f, d2(v[0], v[1]) * d2(v[1], v[2]) * d2(v[2], v[0]) / (w as f64).abs()), "the circumradius at every scale");
            ck!(q(T::in_centre_coordinates(&c(v[0]), &c(v[1]), &c(v[2])), T::in_centre_coordinates(&a, &b, &d), z), "the in-centre scales along");
            ck!(q(T::angle_bisector_coordinates(&c(v[0]), &c(v[1]), &c(v[2])), T::angle_bisector_coordinates(&a, &b, &d), z), "the bisector's foot scales along");
            // heights keep their own unit
            let h = [s.int(-999, 999) as f64 / 8.0, s.int(-999, 999) as f64 / 8.0, s.int(-999, 999) as f64 / 8.0];
            let up = |p: Coordinate, h: f64| Coordinate::new_xyz(p.x, p.y, h);
            let (g, e) = (T::interpolate_z_coordinates(&c(v[3]), &up(c(v[0]), h[0]), &up(c(v[1]), h[1]), &up(c(v[2]), h[2])), T::interpolate_z_coordinates(&p, &up(a, h[0]), &up(b, h[1]), &up(d, h[2])));
            ck!(near(g, e, g.abs() * 1e3), "an interpolated height does not depend on the scale of the plane");
        }
    }
}
