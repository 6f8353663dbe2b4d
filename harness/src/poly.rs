//! Exact integer geometry used as oracle and generator by the searched contracts.
use crate::core::geom::coordinate::Coordinate;
use crate::src::S;

pub type P = (i64, i64);
pub fn det(a: P, b: P, c: P) -> i128 {
    (b.0 as i128 - a.0 as i128) * (c.1 as i128 - b.1 as i128) - (b.1 as i128 - a.1 as i128) * (c.0 as i128 - b.0 as i128)
}
pub fn sg(v: i128) -> i32 {
    if v > 0 { 1 } else if v < 0 { -1 } else { 0 }
}
pub fn on(p: P, a: P, b: P) -> bool {
    a.0.min(b.0) <= p.0 && p.0 <= a.0.max(b.0) && a.1.min(b.1) <= p.1 && p.1 <= a.1.max(b.1) && det(a, b, p) == 0
}
/// do two closed segments share a point
pub fn meets(a: P, b: P, c: P, d: P) -> bool {
    if on(a, c, d) || on(b, c, d) || on(c, a, b) || on(d, a, b) { return true; }
    sg(det(a, b, c)) * sg(det(a, b, d)) < 0 && sg(det(c, d, a)) * sg(det(c, d, b)) < 0
}
pub fn c(p: P) -> Coordinate {
    Coordinate::new_xy(p.0 as f64, p.1 as f64)
}
pub fn cs(v: &[P]) -> Vec<Coordinate> {
    v.iter().map(|p| c(*p)).collect()
}
/// twice the signed area of an open vertex list, positive counter-clockwise
pub fn area2(v: &[P]) -> i128 {
    let n = v.len();
    (0..n).map(|i| v[i].0 as i128 * v[(i + 1) % n].1 as i128 - v[(i + 1) % n].0 as i128 * v[i].1 as i128).sum()
}
pub fn simple(v: &[P]) -> bool {
    let n = v.len();
    if n < 3 { return false; }
    for i in 0..n {
        if v[i] == v[(i + 1) % n] { return false; }
        // neighbours share only their common vertex
        let (a, b, d) = (v[i], v[(i + 1) % n], v[(i + 2) % n]);
        if on(a, b, d) || on(d, a, b) { return false; }
        for j in i + 2..n {
            if i == 0 && j == n - 1 { continue; }
            if meets(a, b, v[j], v[(j + 1) % n]) { return false; }
        }
    }
    true
}
/// open vertex list of a simple ring with non-zero area, or a discarded run
pub fn simple_ring(s: &mut S, nmax: i64, kmax: i64) -> Vec<P> {
    let n = s.int(3, nmax) as usize;
    let k = s.int(1, kmax);
    let mut v: Vec<P> = (0..n).map(|_| (s.int(-k, k), s.int(-k, k))).collect();
    for _ in 0..12 {
        if simple(&v) { break; }
        // untangle: reverse the part between the first two crossing edges
        let mut hit = None;
        'f: for i in 0..n {
            for j in i + 2..n {
                if i == 0 && j == n - 1 { continue; }
                if meets(v[i], v[(i + 1) % n], v[j], v[(j + 1) % n]) { hit = Some((i, j)); break 'f; }
            }
        }
        match hit { Some((i, j)) => v[i + 1..=j].reverse(), None => break }
    }
    s.assume(simple(&v) && area2(&v) != 0);
    v
}
/// move by an offset, scale by a power of two
pub fn place(s: &mut S, v: &[P], emax: i64, off: i64) -> Vec<P> {
    let e = s.int(0, emax);
    let (a, b) = (s.int(-off, off), s.int(-off, off));
    v.iter().map(|p| ((p.0 << e) + a, (p.1 << e) + b)).collect()
}
/// closed ring started at any vertex, possibly with repeated consecutive points
pub fn closed(s: &mut S, v: &[P], repeats: bool) -> Vec<P> {
    let n = v.len();
    let k = s.int(0, n as i64 - 1) as usize;
    let mut r = vec![];
    for i in 0..n {
        r.push(v[(i + k) % n]);
        if repeats && s.int(0, 5) == 0 {
            for _ in 0..1 + s.many(1) { r.push(v[(i + k) % n]); }
        }
    }
    r.push(r[0]);
    if repeats && s.int(0, 7) == 0 { r.push(r[0]); }
    r
}
/// a power of two: scaling by it is exact, and whole ordinates become fractional or huge
pub fn pow2(s: &mut S) -> f64 {
    let e = match s.int(0, 3) { 0 => 0, 1 => s.int(-6, -1), _ => s.int(-40, 30) };
    2f64.powi(e as i32)
}
pub fn cf(p: P, f: f64) -> Coordinate {
    Coordinate::new_xy(p.0 as f64 * f, p.1 as f64 * f)
}
pub fn csf(v: &[P], f: f64) -> Vec<Coordinate> {
    v.iter().map(|p| cf(*p, f)).collect()
}
/// equal up to the rounding of a few operations
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}
/// the point q is f times the point p
pub fn times(p: &Coordinate, f: f64, q: &Coordinate, m: f64) -> bool {
    let e = |a: f64, b: f64| (a.is_nan() && b.is_nan()) || (a * f - b).abs() <= 1e-12 * m * f;
    e(p.x, q.x) && e(p.y, q.y)
}
