use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::envelope::Envelope;
use crate::core::geom::implementation::coordinate_array_sequence::CoordinateArraySequence as Cas;
use crate::core::geom::line_string::LineString;
use crate::core::geom::octagonal_envelope::OctagonalEnvelope as O;
use crate::src::{Meta, S};
use crate::util::*;

type B = Option<[f64; 8]>;
fn got(o: &O) -> B {
    if o.is_null() { return None; }
    Some([o.get_min_x(), o.get_max_x(), o.get_min_y(), o.get_max_y(), o.get_min_a(), o.get_max_a(), o.get_min_b(), o.get_max_b()])
}
fn join(p: B, q: B) -> B {
    match (p, q) {
        (None, q) => q,
        (p, None) => p,
        (Some(p), Some(q)) => { let mut r = p; for i in 0..8 { r[i] = if i % 2 == 0 { lo(p[i], q[i]) } else { hi(p[i], q[i]) }; } Some(r) }
    }
}
fn pt(c: &Coordinate) -> B { let (a, b) = (c.x + c.y, c.x - c.y); Some([c.x, c.x, c.y, c.y, a, a, b, b]) }
fn all(v: &[Coordinate]) -> B { v.iter().fold(None, |r, c| join(r, pt(c))) }
fn xy(s: &mut S) -> Coordinate { let x = s.real(1e9, 3); let y = s.real(1e9, 3); Coordinate::new_xy(x, y) }
fn xys(s: &mut S) -> Vec<Coordinate> { let n = s.many(5); (0..n).map(|_| xy(s)).collect() }
fn build(v: &[Coordinate]) -> O { let mut o = O::default(); for c in v { o.expand_to_include_coordinate(c); } o }
/// an octagon, sometimes null, the null ones also reached by shrinking and by clearing
fn oct(s: &mut S) -> O {
    let v = xys(s);
    let mut o = build(&v);
    match s.int(0, 9) { 0 => o.set_to_null(), 1 => o.expand_by_distance(-1e12), 2 => { let d = s.int(-2, 3) as f64; o.expand_by_distance(d) } _ => {} }
    o
}
contracts! {
    { f: "OctagonalEnvelope::default, OctagonalEnvelope::new_with_coordinate, OctagonalEnvelope::new_with_coordinates, OctagonalEnvelope::expand_to_include_coordinate, OctagonalEnvelope::expand_to_include_xy, OctagonalEnvelope::is_null", tier: "native" }
    fn built_from_points(s) {
        ck!(O::default().is_null(), "a default octagon is null");
        let v = xys(s);
        ck!(got(&build(&v)) == all(&v), "an octagon is the least bound of the points it includes");
        let mut o = O::default();
        for c in &v { o.expand_to_include_xy(c.x, c.y); }
        ck!(got(&o) == all(&v), "expanding by ordinates is expanding by the point");
        let (p, q) = (xy(s), xy(s));
        ck!(got(&O::new_with_coordinate(&p)) == pt(&p), "octagon of a point");
        ck!(got(&O::new_with_coordinates(&p, &q)) == join(pt(&p), pt(&q)), "octagon of two points");
        for c in &v { ck!(o.intersects_coordinate(c), "a point an octagon was built from is never excluded"); }
    }
    { f: "OctagonalEnvelope::new_with_envelope, OctagonalEnvelope::new_with_octagonal_envelope, OctagonalEnvelope::new_with_line_string, OctagonalEnvelope::expand_to_include_envelope, OctagonalEnvelope::expand_to_include_octagonal_envelope, OctagonalEnvelope::expand_to_include_coordinate_array_sequence, OctagonalEnvelope::set_to_null", tier: "native" }
    fn built_from_parts(s) {
        let v = xys(s);
        let w = oct(s);
        let gw = got(&w);
        let mut o = w;
        o.expand_to_include_coordinate_array_sequence(&Cas::new_with_coordinates(&v));
        ck!(got(&o) == join(gw, all(&v)), "expanding by a sequence includes exactly its points");
        { ck!(got(&O::new_with_line_string(&LineString::new_from_coordinate_sequence(Cas::new_with_coordinates(&v)))) == all(&v), "octagon of a line"); }
        let (p, q) = (xy(s), xy(s));
        let e = if s.int(0, 4) == 0 { Envelope::default() } else { Envelope::new_xy(p.x, q.x, p.y, q.y) };
        let corners = if e.is_null() { None } else { let c = |x, y| Coordinate::new_xy(x, y); all(&[c(p.x, p.y), c(p.x, q.y), c(q.x, p.y), c(q.x, q.y)]) };
        let mut o = w;
        o.expand_to_include_envelope(&e);
        ck!(got(&o) == join(gw, corners), "expanding by an envelope includes exactly its corners, a null one nothing");
        ck!(got(&O::new_with_envelope(&e)) == corners, "octagon of an envelope");
        let u = oct(s);
        let mut o = w;
        o.expand_to_include_octagonal_envelope(&u);
        ck!(got(&o) == join(gw, got(&u)), "expanding by an octagon joins the bounds, null is neutral");
        ck!(got(&O::new_with_octagonal_envelope(&u)) == got(&u), "a copied octagon has the same bounds");
        ck!(w.is_null() || o.contains_octagonal_envelope(&w), "an expanded octagon contains what it was");
        ck!(u.is_null() || o.contains_octagonal_envelope(&u), "an expanded octagon contains what was added");
        let mut n = w;
        n.set_to_null();
        ck!(n.is_null(), "clearing makes an octagon null");
    }
    { f: "OctagonalEnvelope::intersects_octagonal_envelope, OctagonalEnvelope::contains_octagonal_envelope, OctagonalEnvelope::intersects_coordinate", tier: "native" }
    fn box_logic(s) {
        let (a, b) = (oct(s), oct(s));
        let p = match s.int(0, 3) { 0 if !a.is_null() => Coordinate::new_xy(a.get_max_x(), a.get_min_y()), 1 => Coordinate::new_xy(s.int(-1, 1) as f64, s.int(-1, 1) as f64), _ => xy(s) };
        let (ga, gb) = (got(&a), got(&b));
        let mut meet = ga.is_some() && gb.is_some();
        let mut inside = meet;
        let mut inp = ga.is_some();
        for i in [0, 2, 4, 6] {
            if let (Some(x), Some(y)) = (ga, gb) {
                meet = meet && x[i] <= y[i + 1] && y[i] <= x[i + 1];
                inside = inside && x[i] <= y[i] && y[i + 1] <= x[i + 1];
            }
            if let Some(x) = ga { let v = pt(&p).unwrap()[i]; inp = inp && x[i] <= v && v <= x[i + 1]; }
        }
        ck!(a.intersects_octagonal_envelope(&b) == meet, "octagons intersect exactly when all four ranges overlap; null never");
        ck!(b.intersects_octagonal_envelope(&a) == meet, "intersection of octagons is symmetric");
        ck!(a.contains_octagonal_envelope(&b) == inside, "containment compares the eight bounds; null never");
        ck!(a.intersects_coordinate(&p) == inp, "a point intersects exactly when all four ranges hold it; a null octagon holds none");
    }
    { f: "OctagonalEnvelope::expand_by_distance, OctagonalEnvelope::is_valid", tier: "native" }
    fn growing(s) {
        let a = oct(s);
        let d = s.real(1e6, 3);
        let mut o = a;
        o.expand_by_distance(d);
        ck!(o.is_valid(), "a grown or shrunk octagon is valid");
        match got(&a) {
            None => ck!(o.is_null(), "growing a null octagon leaves it null"),
            Some(g) => {
                let e = std::f64::consts::SQRT_2 * d;
                let w: Vec<f64> = (0..8).map(|i| g[i] + if i % 2 == 0 { -1.0 } else { 1.0 } * if i < 4 { d } else { e }).collect();
                let slack = 1e-15 * (1.0 + d.abs() + g.iter().fold(0.0, |m, x| f64::max(m, x.abs())));
                if (0..4).all(|i| w[2 * i + 1] - w[2 * i] > 4.0 * slack) {
                    ck!(!o.is_null(), "growing keeps an octagon");
                    let h = got(&o).unwrap();
                    ck!((0..8).all(|i| (h[i] - w[i]).abs() <= slack), "growing by a distance moves every bound outward by it, diagonals by its diagonal");
                } else if (0..4).any(|i| w[2 * i + 1] - w[2 * i] < -4.0 * slack) {
                    ck!(o.is_null(), "an octagon shrunk beyond its extent is null");
                }
            }
        }
    }
}
