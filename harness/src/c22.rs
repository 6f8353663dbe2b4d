use crate::core::geom::coordinate::Coordinate;
use crate::core::math::vector_2d::Vector2D as V;
use crate::core::math::vector_3d::Vector3D as W;
use crate::src::{Meta, S};
use crate::util::*;

fn is(v: &V, x: f64, y: f64) -> bool { same(v.get_x(), x) && same(v.get_y(), y) }
fn is3(v: &W, x: f64, y: f64, z: f64) -> bool { same(v.get_x(), x) && same(v.get_y(), y) && same(v.get_z(), z) }
fn r(s: &mut S) -> f64 { s.real(1e6, 3) }
fn vec2(s: &mut S) -> V { let (x, y) = (r(s), r(s)); V::new_from_xy(x, y) }
fn len3(x: f64, y: f64, z: f64) -> f64 { (x * x + y * y + z * z).sqrt() }

contracts! {
    { f: "Vector2D::default, Vector2D::new_from_xy, Vector2D::new_from_vector_2d, Vector2D::new_from_coordinate, Vector2D::create_from_xy, Vector2D::create_from_vector_2d, Vector2D::create_from_coodinate, Vector2D::get_x, Vector2D::get_y, Vector2D::get_component, Vector2D::to_coordinate" }
    fn components_2d(s) {
        let c = any_c(s);
        ck!(is(&V::default(), 0.0, 0.0), "default vector is zero");
        let v = V::new_from_xy(c.x, c.y);
        ck!(is(&v, c.x, c.y), "vector from components");
        ck!(is(&V::create_from_xy(c.x, c.y), c.x, c.y), "vector created from components");
        ck!(is(&V::new_from_vector_2d(&v), c.x, c.y) && is(&V::create_from_vector_2d(&v), c.x, c.y), "copied vector");
        ck!(is(&V::new_from_coordinate(&c), c.x, c.y) && is(&V::create_from_coodinate(&c), c.x, c.y), "vector of a coordinate");
        ck!(same(v.get_component(0), c.x) && same(v.get_component(1), c.y), "components by index");
        let d = v.to_coordinate();
        ck!(same(d.x, c.x) && same(d.y, c.y) && d.z.is_nan(), "coordinate of a vector");
    }
    { f: "Vector2D::equals" }
    fn equality_2d(s) {
        let (a, b) = (any_c(s), any_c(s));
        let (v, w) = (V::new_from_xy(a.x, a.y), V::new_from_xy(b.x, b.y));
        ck!(v.equals(&w) == (a.x == b.x && a.y == b.y), "equality is componentwise");
        ck!(v.equals(&w) == w.equals(&v), "equality is symmetric");
    }
    { f: "Vector2D::rotate_by_quarter_circle, Vector2D::negate" }
    fn quarter_turns(s) {
        let c = any_c(s);
        let n = s.i32();
        let v = V::new_from_xy(c.x, c.y);
        ck!(is(&v.negate(), -c.x, -c.y), "negation is componentwise");
        let t = v.rotate_by_quarter_circle(n);
        ck!(t.is_some(), "any number of quarter turns is a rotation");
        let t = t.unwrap();
        let m = (n as i64).rem_euclid(4);
        let e = if m == 0 { (c.x, c.y) } else if m == 1 { (-c.y, c.x) } else if m == 2 { (-c.x, -c.y) } else { (c.y, -c.x) };
        ck!(is(&t, e.0, e.1), "rotation by quarter turns is exact, counterclockwise, and four are the identity");
    }
    { f: "Vector2D::add, Vector2D::subtract, Vector2D::multiply, Vector2D::divide, Vector2D::new_from_coordinate_from_to, Vector2D::create_from_coordinate_from_to, Vector2D::translate", tier: "native" }
    fn algebra_2d(s) {
        let (a, b) = (fin_xy(s), fin_xy(s));
        let d = s.fin();
        let (v, w) = (V::new_from_xy(a.x, a.y), V::new_from_xy(b.x, b.y));
        ck!(is(&v.add(&w), a.x + b.x, a.y + b.y), "sum is componentwise");
        ck!(is(&v.subtract(&w), a.x - b.x, a.y - b.y), "difference is componentwise");
        ck!(is(&v.multiply(d), a.x * d, a.y * d), "scaling is componentwise");
        ck!(is(&v.divide(d), a.x / d, a.y / d), "division is componentwise");
        ck!(is(&V::new_from_coordinate_from_to(&a, &b), b.x - a.x, b.y - a.y), "vector between two coordinates");
        ck!(is(&V::create_from_coordinate_from_to(&a, &b), b.x - a.x, b.y - a.y), "created vector between two coordinates");
        let t = v.translate(&b);
        ck!(same(t.x, a.x + b.x) && same(t.y, a.y + b.y), "translating a coordinate");
    }
    { f: "Vector2D::dot, Vector2D::length_squared, Vector2D::average, Vector2D::weighted_sum", tier: "native" }
    fn products_2d(s) {
        let (v, w) = (vec2(s), vec2(s));
        let (x, y, p, q) = (v.get_x(), v.get_y(), w.get_x(), w.get_y());
        let m = (x * p).abs() + (y * q).abs();
        ck!((v.dot(&w) - (x * p + y * q)).abs() <= 1e-15 * m, "dot product is the sum of the componentwise products");
        ck!((v.length_squared() - (x * x + y * y)).abs() <= 1e-15 * (x * x + y * y), "squared length");
        let a = v.average(&w);
        ck!(near_m(a.get_x(), (x + p) / 2.0, x, p) && near_m(a.get_y(), (y + q) / 2.0, y, q), "average is componentwise");
        let f = s.int(0, 8) as f64 / 8.0;
        let a = v.weighted_sum(&w, f);
        ck!(near_m(a.get_x(), f * x + (1.0 - f) * p, x, p) && near_m(a.get_y(), f * y + (1.0 - f) * q, y, q), "weighted sum weights the first vector");
    }
    { f: "Vector2D::length, Vector2D::distance, Vector2D::normalize", tier: "native" }
    fn length_2d(s) {
        let (v, w) = (vec2(s), vec2(s));
        let (x, y) = (v.get_x(), v.get_y());
        let l = v.length();
        ck!(l >= 0.0 && (l == 0.0) == (x == 0.0 && y == 0.0), "length is non-negative and zero exactly for the zero vector");
        ck!(near_ulp(l, f64::hypot(x, y)), "length");
        let (dx, dy) = (w.get_x() - x, w.get_y() - y);
        ck!(near_ulp(v.distance(&w), f64::hypot(dx, dy)) && v.distance(&w) == w.distance(&v), "distance of two vectors");
        let n = v.normalize();
        if l == 0.0 { ck!(is(&n, 0.0, 0.0), "the zero vector normalises to itself"); }
        else if l > 1e-150 {
            ck!((n.length() - 1.0).abs() < 1e-12, "a normalised vector has length one");
            ck!((n.get_x() * l - x).abs() <= 1e-12 * l && (n.get_y() * l - y).abs() <= 1e-12 * l, "a normalised vector keeps its direction");
        }
    }
    { f: "Vector2D::is_parallel", tier: "native" }
    fn parallel(s) {
        let k = 1i64 << s.int(0, 52);
        let (mut x, mut y, mut p, mut q) = (s.int(-k, k), s.int(-k, k), s.int(-k, k), s.int(-k, k));
        match s.int(0, 7) {
            0 => { let (a, b, i, j) = (x % 1000, y % 1000, p % 1000, q % 1000); x = a * i; y = b * i; p = a * j; q = b * j; }
            4 => { let h = 1 << 26; let (a, b, i, j) = (x % h, y % h, p % h, q % h); x = a * i; y = b * i; p = a * j + s.int(-1, 1); q = b * j; }
            5 => { // neighbouring directions
                let u = s.int(-1, 1); y = x + u; p = x - s.int(1, 3); q = p + u + s.int(-1, 1) * s.int(0, 1); }
            1 => { p = x; q = y + s.int(-1, 1); }
            2 => { x = 0; }
            3 => { q = 0; }
            _ => {}
        }
        let (f, g) = (crate::poly::pow2(s), crate::poly::pow2(s));
        let (v, w) = (V::new_from_xy(x as f64 * f, y as f64 * f), V::new_from_xy(p as f64 * g, q as f64 * g));
        ck!(v.is_parallel(&w) == (x as i128 * q as i128 == y as i128 * p as i128), "vectors are parallel exactly when their determinant vanishes");
    }
    { f: "Vector2D::angle, Vector2D::angle_vector_2d, Vector2D::angle_to, Vector2D::rotate", tier: "native" }
    fn angles_2d(s) {
        let (v, w) = (vec2(s), vec2(s));
        let a = v.angle();
        ck!(same(a, f64::atan2(v.get_y(), v.get_x())), "angle from the x axis");
        let (l, m) = (v.length(), w.length());
        if l > 1e-3 && m > 1e-3 {
            let d = v.angle_vector_2d(&w);
            ck!(d >= 0.0 && d <= std::f64::consts::PI && d == w.angle_vector_2d(&v), "angle between vectors is symmetric and in [0, pi]");
            ck!((d.cos() * l * m - v.dot(&w)).abs() <= 1e-9 * l * m, "angle between vectors has the dot product's cosine");
            let t = v.angle_to(&w);
            ck!(t > -std::f64::consts::PI && t <= std::f64::consts::PI, "oriented angle is in (-pi, pi]");
            let cr = v.get_x() * w.get_y() - v.get_y() * w.get_x();
            ck!((t.sin() * l * m - cr).abs() <= 1e-9 * l * m && (t.cos() * l * m - v.dot(&w)).abs() <= 1e-9 * l * m, "oriented angle turns the first vector onto the second");
            let u = v.rotate(t);
            ck!((u.get_x() * m - w.get_x() * l).abs() <= 1e-9 * l * m && (u.get_y() * m - w.get_y() * l).abs() <= 1e-9 * l * m, "rotating by the oriented angle reaches the other direction");
        }
    }
    { f: "Vector3D::new_from_coordinate, Vector3D::new_from_xyz, Vector3D::create_from_xyz, Vector3D::create_from_coordinate, Vector3D::get_x, Vector3D::get_y, Vector3D::get_z, Vector3D::equals" }
    fn components_3d(s) {
        let (c, d) = (any_c(s), any_c(s));
        let v = W::new_from_coordinate(&c);
        ck!(is3(&v, c.x, c.y, c.z), "spatial vector of a coordinate");
        ck!(is3(&W::create_from_coordinate(&c), c.x, c.y, c.z), "spatial vector created from a coordinate");
        let w = W::new_from_xyz(d.x, d.y, d.z);
        ck!(is3(&w, d.x, d.y, d.z) && is3(&W::create_from_xyz(d.x, d.y, d.z), d.x, d.y, d.z), "spatial vector from components");
        ck!(v.equals(&w) == (c.x == d.x && c.y == d.y && c.z == d.z), "spatial equality is componentwise");
        ck!(v.equals(&w) == w.equals(&v), "spatial equality is symmetric");
    }
    { f: "Vector3D::new_from_to_coordinates, Vector3D::add, Vector3D::subtract, Vector3D::divide", tier: "native" }
    fn algebra_3d(s) {
        let (x, y, z, p, q, t, d) = (s.fin(), s.fin(), s.fin(), s.fin(), s.fin(), s.fin(), s.fin());
        let (v, w) = (W::new_from_xyz(x, y, z), W::new_from_xyz(p, q, t));
        ck!(is3(&v.add(&w), x + p, y + q, z + t), "spatial sum is componentwise");
        ck!(is3(&v.subtract(&w), x - p, y - q, z - t), "spatial difference is componentwise");
        ck!(is3(&v.divide(d), x / d, y / d, z / d), "spatial division is componentwise");
        let (a, b) = (Coordinate::new_xyz(x, y, z), Coordinate::new_xyz(p, q, t));
        ck!(is3(&W::new_from_to_coordinates(&a, &b), p - x, q - y, t - z), "spatial vector between two coordinates");
    }
    { f: "Vector3D::dot, Vector3D::dot_2, Vector3D::dot_4", tier: "native" }
    fn products_3d(s) {
        let k = 1 << s.int(1, 20);
        let mut g = || s.int(-k, k) as f64;
        let v: Vec<Coordinate> = (0..4).map(|_| { let (x, y, z) = (g(), g(), g()); Coordinate::new_xyz(x, y, z) }).collect();
        let d = |a: &Coordinate, b: &Coordinate| a.x * b.x + a.y * b.y + a.z * b.z;
        let diff = |a: &Coordinate, b: &Coordinate| Coordinate::new_xyz(a.x - b.x, a.y - b.y, a.z - b.z);
        ck!(W::new_from_coordinate(&v[0]).dot(&W::new_from_coordinate(&v[1])) == d(&v[0], &v[1]), "spatial dot product");
        ck!(W::dot_2(&v[0], &v[1]) == d(&v[0], &v[1]), "spatial dot product of coordinates");
        ck!(W::dot_4(&v[0], &v[1], &v[2], &v[3]) == d(&diff(&v[1], &v[0]), &diff(&v[3], &v[2])), "spatial dot product of the vectors AB and CD");
    }
    { f: "Vector3D::dot, Vector3D::dot_2, Vector3D::dot_4", tier: "native" }
    fn wide_products_3d(s) {
        let k = 1i64 << s.int(20, 44);
        let mut g = || s.int(-k, k) as i128;
        let v: Vec<[i128; 3]> = (0..4).map(|_| [g(), g(), g()]).collect();
        let c: Vec<Coordinate> = v.iter().map(|p| Coordinate::new_xyz(p[0] as f64, p[1] as f64, p[2] as f64)).collect();
        let d = |a: [i128; 3], b: [i128; 3]| ((0..3).map(|i| a[i] * b[i]).sum::<i128>() as f64, (0..3).map(|i| (a[i] * b[i]).abs()).sum::<i128>() as f64);
        let diff = |a: usize, b: usize| [v[a][0] - v[b][0], v[a][1] - v[b][1], v[a][2] - v[b][2]];
        let near = |x: f64, e: (f64, f64)| (x - e.0).abs() <= 1e-15 * e.1;
        ck!(near(W::new_from_coordinate(&c[0]).dot(&W::new_from_coordinate(&c[1])), d(v[0], v[1])) && near(W::dot_2(&c[0], &c[1]), d(v[0], v[1])), "spatial dot product of wide vectors");
        ck!(near(W::dot_4(&c[0], &c[1], &c[2], &c[3]), d(diff(1, 0), diff(3, 2))), "spatial dot product of wide vectors AB and CD");
    }
    { f: "Vector3D::length, Vector3D::length_of_coordinate, Vector3D::normalize, Vector3D::normalize_coordinate", tier: "native" }
    fn length_3d(s) {
        let (x, y, z) = (r(s), r(s), r(s));
        let v = W::new_from_xyz(x, y, z);
        let c = Coordinate::new_xyz(x, y, z);
        let (l, e) = (v.length(), len3(x, y, z));
        ck!(l >= 0.0, "spatial length is non-negative");
        ck!(near_ulp(l, e) && near_ulp(W::length_of_coordinate(&c), e), "spatial length");
        let n = v.normalize();
        if x == 0.0 && y == 0.0 && z == 0.0 { ck!(l == 0.0 && is3(&n, 0.0, 0.0, 0.0), "the zero vector has length zero and normalises to itself"); }
        else if e > 1e-100 {
            ck!(l > 0.0, "a non-zero vector has positive length");
            let m = W::normalize_coordinate(&c);
            for (a, b, o) in [(n.get_x(), m.x, x), (n.get_y(), m.y, y), (n.get_z(), m.z, z)] {
                ck!((a * e - o).abs() <= 1e-12 * e && (b * e - o).abs() <= 1e-12 * e, "a normalised spatial vector keeps its direction and has length one");
            }
        }
    }
}
fn near_m(a: f64, b: f64, x: f64, y: f64) -> bool { (a - b).abs() <= 1e-15 * (x.abs() + y.abs()) + 1e-320 }
