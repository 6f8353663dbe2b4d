from rsx import Fn
import c06, common, copy
from common import BI
USES = ["f64"]
STRUCTS = c06.STRUCTS
_p = c06.PRELUDE
PRELUDE = _p[:_p.index("proof fn lemma_lin(")] + """
/// what is assumed of the square root: a function of the real argument, between 0 and 1 where that is
pub uninterp spec fn sqrr(x: real) -> real;
pub axiom fn ax_sqrr_unit(x: real) requires 0real <= x <= 1real ensures 0real <= sqrr(x) <= 1real;
pub assume_specification[ f64::sqrt ](x: f64) -> (r: f64) ensures fin(x) && val(x) >= 0real ==> fin(r) && val(r) == sqrr(val(x));
// ---- heights: none, or (where anything is computed from them) a whole number up to 2^50
pub open spec fn zw(z: f64) -> bool { fnan(z) || isi(z) && -1125899906842624 <= it(z) <= 1125899906842624 }
pub open spec fn btw(r: f64, a: f64, b: f64) -> bool { fin(r) && (val(a) <= val(r) <= val(b) || val(b) <= val(r) <= val(a)) }
/// r is a height of the segment a-b at p
pub open spec fn seg_z(r: f64, p: Coordinate, a: Coordinate, b: Coordinate) -> bool {
  if fnan(a.z) { r == b.z } else if fnan(b.z) { r == a.z } else if eqv(p, a) { r == a.z } else if eqv(p, b) { r == b.z }
  else { zw(a.z) && zw(b.z) && ipt(a) && ipt(b) && vbox(p, a, b) ==> btw(r, a.z, b.z) } }
/// the own height, or else that of the segment
pub open spec fn own_z(r: f64, p: Coordinate, a: Coordinate, b: Coordinate) -> bool { if fnan(p.z) { seg_z(r, p, a, b) } else { r == p.z } }
/// the mean of two heights, or the only known one
pub open spec fn mean(r: f64, a: f64, b: f64) -> bool {
  if fnan(a) { r == b } else if fnan(b) { r == a } else { fin(a) && fin(b) && inrange(4real * val(a)) && inrange(4real * val(b)) ==> fin(r) && val(r) == rnd(rnd(val(a) + val(b)) / 2real) } }
pub open spec fn cross_z(r: f64, p: Coordinate, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool {
  exists|a: f64, b: f64| mean(r, a, b) && #[trigger] seg_z(a, p, p1, p2) && #[trigger] seg_z(b, p, q1, q2) }
/// a point with the height of a crossing, or none where the crossing has none
pub open spec fn cross_at(g: Coordinate, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool { exists|z: f64| #[trigger] cross_z(z, g, p1, p2, q1, q2) && (g.z == z || fnan(z)) }
pub open spec fn at_z(g: Coordinate, e: Coordinate) -> bool { same_pt(g, e) && same_z(g.z, e.z) }
pub open spec fn same_z(a: f64, b: f64) -> bool { a == b }
/// the height of a reported end point
pub open spec fn end_z(g: Coordinate, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool {
  // an end there with a height gives it
  (eqv(g, p1) && !fnan(p1.z) || eqv(g, p2) && !fnan(p2.z) || eqv(g, q1) && !fnan(q1.z) || eqv(g, q2) && !fnan(q2.z) ==>
     eqv(g, p1) && g.z == p1.z || eqv(g, p2) && g.z == p2.z || eqv(g, q1) && g.z == q1.z || eqv(g, q2) && g.z == q2.z)
  // an end without one, alone there, takes that of the other segment
  && ((eqv(g, p1) && fnan(p1.z) || eqv(g, p2) && fnan(p2.z)) && !eqv(g, q1) && !eqv(g, q2) ==> seg_z(g.z, g, q1, q2) || fnan(g.z) && fnan(q1.z) && fnan(q2.z))
  && ((eqv(g, q1) && fnan(q1.z) || eqv(g, q2) && fnan(q2.z)) && !eqv(g, p1) && !eqv(g, p2) ==> seg_z(g.z, g, p1, p2) || fnan(g.z) && fnan(p1.z) && fnan(p2.z)) }
pub open spec fn all_fpt(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool { fpt(p1) && fpt(p2) && fpt(q1) && fpt(q2) }
pub open spec fn no_z(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool { fnan(p1.z) && fnan(p2.z) && fnan(q1.z) && fnan(q2.z) }
pub open spec fn solid_ends(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool { !eqp(p1, p2) && !eqp(q1, q2) }
/// rounding to a precision model: contract C15, used here only as a function of model and ordinate
pub uninterp spec fn prec(m: PrecisionModel, x: f64) -> f64;
/// the crossing point as computed, in both boxes, and its rounding
pub open spec fn rounded(g: Coordinate, m: PrecisionModel, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool {
  exists|u: Coordinate| #[trigger] vbox(u, p1, p2) && vbox(u, q1, q2) && g.x == prec(m, u.x) && g.y == prec(m, u.y) }

// a fraction of at most one of the height difference
proof fn lemma_frac(dz: real, t: real) requires 0real <= t <= 1real ensures dz >= 0real ==> 0real <= dz * t <= dz, dz <= 0real ==> dz <= dz * t <= 0real
{ if dz >= 0real { assert(0real <= dz * t <= dz) by (nonlinear_arith) requires 0real <= t <= 1real, dz >= 0real; } else { assert(dz <= dz * t <= 0real) by (nonlinear_arith) requires 0real <= t <= 1real, dz <= 0real; } }
proof fn lemma_sqle(x: real, m: real) requires rabs(x) <= m, m <= 67108864real ensures 0real <= x * x <= m * m, m * m <= 4503599627370496real
{ assert(0real <= x * x <= m * m) by (nonlinear_arith) requires -m <= x <= m; assert(m * m <= 4503599627370496real) by (nonlinear_arith) requires 0real <= m <= 67108864real; }
/// rounded distances from one end: that of a point in the box is at most that of the other end
proof fn lemma_part(p: Coordinate, a: Coordinate, b: Coordinate) requires ipt(a), ipt(b), vbox(p, a, b), fpt(p), !eqp(a, b)
  ensures ({ let (x, y) = (rnd(val(p.x) - val(a.x)), rnd(val(p.y) - val(a.y))); let (u, v) = ((it(b.x) - it(a.x)) as real, (it(b.y) - it(a.y)) as real);
    let (pl, sl) = (rnd(rnd(x * x) + rnd(y * y)), rnd(rnd(u * u) + rnd(v * v)));
    rabs(x) <= 67108864real && rabs(y) <= 67108864real && rabs(u) <= 67108864real && rabs(v) <= 67108864real
    && inrange(val(p.x) - val(a.x)) && inrange(val(p.y) - val(a.y)) && inrange(x * x) && inrange(y * y) && inrange(u * u) && inrange(v * v) && inrange(rnd(x * x) + rnd(y * y)) && inrange(rnd(u * u) + rnd(v * v))
    && rnd(u) == u && rnd(v) == v && 0real <= pl <= sl && sl >= 1real && 0real <= pl / sl <= 1real && 0real <= rnd(pl / sl) <= 1real && inrange(pl / sl) && sl != 0real })
{
  broadcast use ax_big; ax_rnd_zero(); ax_rnd_int(1);
  let (dx, dy) = (val(p.x) - val(a.x), val(p.y) - val(a.y)); let (i, j) = (it(b.x) - it(a.x), it(b.y) - it(a.y)); let (u, v) = (i as real, j as real);
  lemma_axis(dx, i); lemma_axis(dy, j);
  let (x, y) = (rnd(dx), rnd(dy)); let (mu, mv) = (rabs(u), rabs(v));
  lemma_sqle(x, mu); lemma_sqle(y, mv); lemma_sqle(u, mu); lemma_sqle(v, mv);
  assert(mu * mu == u * u) by (nonlinear_arith) requires mu == u || mu == -u; assert(mv * mv == v * v) by (nonlinear_arith) requires mv == v || mv == -v;
  assert(0real <= x * x <= u * u && 0real <= y * y <= v * v);
  lemma_sqi(i); lemma_sqi(j); let (ii, jj) = (i * i, j * j);
  assert(u * u == ii as real && v * v == jj as real);
  ax_rnd_int(i); ax_rnd_int(j); ax_rnd_int(ii); ax_rnd_int(jj); ax_rnd_int(ii + jj);
  ax_rnd_mono(0real, x * x); ax_rnd_mono(0real, y * y); ax_rnd_mono(x * x, u * u); ax_rnd_mono(y * y, v * v);
  ax_rnd_mono(0real, rnd(x * x) + rnd(y * y)); ax_rnd_mono(rnd(x * x) + rnd(y * y), rnd(u * u) + rnd(v * v));
  let (pl, sl) = (rnd(rnd(x * x) + rnd(y * y)), rnd(rnd(u * u) + rnd(v * v)));
  assert(ii + jj >= 1); assert(sl == (ii + jj) as real);
  assert(rabs(x) <= 67108864real && rabs(y) <= 67108864real && rabs(u) <= 67108864real && rabs(v) <= 67108864real); assert(inrange(val(p.x) - val(a.x)) && inrange(val(p.y) - val(a.y)));
  assert(inrange(x * x) && inrange(y * y) && inrange(u * u) && inrange(v * v)); assert(inrange(rnd(x * x) + rnd(y * y)) && inrange(rnd(u * u) + rnd(v * v))); assert(rnd(u) == u && rnd(v) == v);
  let q = pl / sl; assert(q * sl == pl) by (nonlinear_arith) requires q == pl / sl, sl >= 1real;
  assert(0real <= q <= 1real) by (nonlinear_arith) requires q * sl == pl, 0real <= pl <= sl, sl >= 1real;
  ax_rnd_mono(0real, q); ax_rnd_mono(q, 1real);
}
proof fn lemma_sqi(i: int) requires -67108864 <= i <= 67108864 ensures 0 <= i * i <= 4503599627370496, (i as real) * (i as real) == (i * i) as real, i != 0 ==> i * i >= 1
{ assert(0 <= i * i <= 4503599627370496) by (nonlinear_arith) requires -67108864 <= i <= 67108864; assert((i as real) * (i as real) == (i * i) as real) by (nonlinear_arith); if i != 0 { assert(i * i >= 1) by (nonlinear_arith) requires i != 0; } }
/// an offset within a whole extent stays so when rounded
proof fn lemma_axis(d: real, i: int) requires -67108864 <= i <= 67108864, 0real <= d <= i as real || i as real <= d <= 0real
  ensures rabs(rnd(d)) <= rabs(i as real), rabs(i as real) <= 67108864real, rabs(d) <= 67108864real
{ ax_rnd_int(i); ax_rnd_zero(); if d >= 0real { ax_rnd_mono(0real, d); if i >= 0 { ax_rnd_mono(d, i as real); } } if d <= 0real { ax_rnd_mono(d, 0real); if i <= 0 { ax_rnd_mono(i as real, d); } } }
/// first height plus a fraction of the difference
proof fn lemma_mix(z1: int, z2: int, t: real) requires -1125899906842624 <= z1 <= 1125899906842624, -1125899906842624 <= z2 <= 1125899906842624, 0real <= t <= 1real
  ensures ({ let dz = (z2 - z1) as real; let o = rnd(dz * t); let r = rnd(z1 as real + o); rnd(dz) == dz && inrange(dz * t) && inrange(z1 as real + o) && (z1 as real <= r <= z2 as real || z2 as real <= r <= z1 as real) })
{ broadcast use ax_big; let dz = (z2 - z1) as real; ax_rnd_int(z2 - z1); ax_rnd_int(z1); ax_rnd_int(z2); ax_rnd_zero(); lemma_frac(dz, t); let o = rnd(dz * t);
  if z2 >= z1 { ax_rnd_mono(0real, dz * t); ax_rnd_mono(dz * t, dz); ax_rnd_mono(z1 as real, z1 as real + o); ax_rnd_mono(z1 as real + o, z2 as real); }
  else { ax_rnd_mono(dz * t, 0real); ax_rnd_mono(dz, dz * t); ax_rnd_mono(z1 as real + o, z1 as real); ax_rnd_mono(z2 as real, z1 as real + o); } }
"""
_I, _A, _P0, _P1 = c06._I, c06._A, c06._P0, c06._P1
_D = dict(A=_A, P0=_P0, P1=_P1)
_f = {f.name: f for e in c06.IMPLS for f in e["fns"] if e.get("ty") == "RobustLineIntersector"}
def like(name, **kw):
    f = copy.deepcopy(_f[name])
    for k, v in kw.items(): setattr(f, k, v)
    return f
SAME = "*final(self) == *old(self)"
BN = BI + "broadcast use nan_ax, f64_ax;"
IMPLS = [e for e in copy.deepcopy(c06.IMPLS) if e.get("ty") in ("Coordinate", "Orientation", "Envelope", "Distance")] + [
 dict(file="src/core/algorithm/intersection.rs", ty="Intersection", fns=[
   Fn("intersection", requires=_I, ensures="straddles(%s) ==> r.is_some() && fin(r.unwrap().x) && fin(r.unwrap().y) && vbox(r.unwrap(), *p1, *p2) && vbox(r.unwrap(), *q1, *q2), r.is_some() ==> fnan(r.unwrap().z)" % _A, external=True)]),
 dict(file="src/core/geom/precision_model.rs", ty="PrecisionModel", fns=[
   Fn("make_precise_coordinate", ensures="final(coord).x == prec(*old(self), old(coord).x), final(coord).y == prec(*old(self), old(coord).y), final(coord).z == old(coord).z", external=True)]),
 dict(file="src/core/algorithm/robust_line_intersector.rs", ty="RobustLineIntersector", consts=["NO_INTERSECTION", "POINT_INTERSECTION", "COLLINEAR_INTERSECTION"], fns=[
   Fn("default", ensures="r.result == 0, r.precision_model.is_none()"),
   Fn("set_precision_model", ensures="final(self).precision_model == Some(precision_model), final(self).input_lines == old(self).input_lines, final(self).int_pt == old(self).int_pt, final(self).result == old(self).result, final(self).is_proper == old(self).is_proper"),
   like("get_intersection"),
   like("get_z"), like("copy_with_z", ensures=_f["copy_with_z"].ensures),
   Fn("z_interpolate_3", ensures=SAME + ", fpt(*p) && fpt(*p1) && fpt(*p2) ==> seg_z(r, *p, *p1, *p2), fnan(p1.z) ==> r == p2.z, !fnan(p1.z) && fnan(p2.z) ==> r == p1.z",
      start="""broadcast use nan_ax, ty_ax, f64_ax;
        let ghost g = fpt(*p) && !eqv(*p, *p1) && zw(p1.z) && zw(p2.z) && !fnan(p1.z) && !fnan(p2.z) && ipt(*p1) && ipt(*p2) && vbox(*p, *p1, *p2) && !eqp(*p1, *p2);
        proof { if fpt(*p) && ipt(*p1) && ipt(*p2) && vbox(*p, *p1, *p2) && eqp(*p1, *p2) { assert(eqv(*p, *p1)); }
          if g { lemma_part(*p, *p1, *p2); ax_rnd_int(it(p2.z) - it(p1.z)); ax_rnd_int(it(p2.x) - it(p1.x)); ax_rnd_int(it(p2.y) - it(p1.y)); } }""",
      after=[(r"let dz = [^;]*;", "proof { if g { assert(fin(dz) && val(dz) == (it(p2.z) - it(p1.z)) as real); } }"),
             (r"let frac = [^;]*;", "proof { if g { let t = rnd(val(plen) / val(seglen)); ax_sqrr_unit(t); assert(val(frac) == sqrr(t)); lemma_mix(it(p1.z), it(p2.z), val(frac)); } }")]),
   Fn("get_z_or_interpolate", ensures=SAME + ", fpt(*p) && fpt(*p1) && fpt(*p2) ==> own_z(r, *p, *p1, *p2), !fnan(p.z) ==> r == p.z, fnan(p.z) && fnan(p1.z) ==> r == p2.z"),
   Fn("z_interpolate_5", ensures=SAME + ", fpt(*p) && all_fpt(%s) ==> cross_z(r, *p, %s)" % (_A, _A), start="broadcast use nan_ax, f64_ax, ty_ax;",
      after=[(r"let zq = [^;]*;", """proof { if fpt(*p) && all_fpt(*p1, *p2, *q1, *q2) { if fin(zp) && fin(zq) && inrange(4real * val(zp)) && inrange(4real * val(zq)) { lemma_half(zp, zq); }  } }""")]),
   Fn("copy_with_z_interpolate", ensures=SAME + ", same_pt(r, *p), fpt(*p) && fpt(*p1) && fpt(*p2) ==> own_z(r.z, *p, *p1, *p2) || fnan(r.z) && fnan(p.z) && fnan(p1.z) && fnan(p2.z), fnan(p.z) && fnan(p1.z) && fnan(p2.z) ==> fnan(r.z)", start="broadcast use nan_ax, ty_ax;"),
   like("intersection_safe", ensures=_f["intersection_safe"].ensures + ", no_z(%s) ==> fnan(r.z)" % _A),
   like("is_in_segment_envelopes"), like("nearest_endpoint", ensures=_f["nearest_endpoint"].ensures + ", no_z(%s) ==> fnan(r.z)" % _A),
   like("intersection", ensures="""no_z(%(A)s) ==> fnan(r.z), fpt(r) || old(self).precision_model.is_some(), *final(self) == *old(self), held(*old(self), %(A)s) ==> vbox(r, *p1, *p2) && vbox(r, *q1, *q2),
      old(self).precision_model.is_some() && held_lines(*old(self), %(A)s) ==> rounded(r, old(self).precision_model.unwrap(), %(A)s)""" % _D,
      after=[(r"if !self\.is_in_segment_envelopes[^}]*\}", "let ghost u = int_pt; proof { if held_lines(*self, %s) { assert(vbox(u, *p1, *p2) && vbox(u, *q1, *q2)); } }" % _A)]),
   like("compute_collinear_intersection", requires=_I + ", solid_ends(%s)" % _A, ensures="""final(self).is_proper == old(self).is_proper, r == 0 || r == 1 || r == 2, final(self).precision_model == old(self).precision_model, final(self).input_lines == old(self).input_lines, r != 0 ==> end_z(%(P0)s, %(A)s), r == 2 ==> end_z(%(P1)s, %(A)s)""" % _D, start=BN),
   like("compute_intersect", requires=_I + ", lines_ok(*old(self)), solid_ends(%s)" % _A, ensures="""r == 0 || r == 1 || r == 2, final(self).precision_model == old(self).precision_model, final(self).input_lines == old(self).input_lines,
      // end points
      r == 1 && !final(self).is_proper || r == 2 ==> end_z(%(P0)s, %(A)s), r == 2 ==> end_z(%(P1)s, %(A)s),
      // crossings
      r == 1 && final(self).is_proper && fpt(%(P0)s) ==> cross_at(%(P0)s, %(A)s),
      r == 1 && final(self).is_proper && held(*old(self), %(A)s) ==> vbox(%(P0)s, *p1, *p2) && vbox(%(P0)s, *q1, *q2),
      r == 1 && final(self).is_proper && held(*old(self), %(A)s) && zw(p1.z) && zw(p2.z) && zw(q1.z) && zw(q2.z) ==> (no_z(%(A)s) && fnan(%(P0)s.z)) || cross_z(%(P0)s.z, %(P0)s, %(A)s),
      r == 1 && final(self).is_proper && old(self).precision_model.is_some() && held_lines(*old(self), %(A)s) ==> rounded(%(P0)s, old(self).precision_model.unwrap(), %(A)s)""" % _D, start=BN,
      after=[(r"z = self\.z_interpolate_5[^;]*;", "proof { if fpt(p) { lemma_cross(z, p, %s); } }" % _A)]),
   like("compute_intersection_4", requires="ipt(*p1), ipt(*p2), ipt(*p3), ipt(*p4), !eqp(*p1, *p2), !eqp(*p3, *p4)", ensures="""final(self).precision_model == old(self).precision_model,
      final(self).result == 1 && !final(self).is_proper || final(self).result == 2 ==> end_z(%(P0)s, *p1, *p2, *p3, *p4), final(self).result == 2 ==> end_z(%(P1)s, *p1, *p2, *p3, *p4),
      final(self).result == 1 && final(self).is_proper && fpt(%(P0)s) ==> cross_at(%(P0)s, *p1, *p2, *p3, *p4),
      final(self).result == 1 && final(self).is_proper && old(self).precision_model.is_some() ==> rounded(%(P0)s, old(self).precision_model.unwrap(), *p1, *p2, *p3, *p4)""" % _D),
 ])]
PRELUDE += """
pub open spec fn held_lines(s: RobustLineIntersector, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool {
    same_pt(s.input_lines[0][0], p1) && same_pt(s.input_lines[0][1], p2) && same_pt(s.input_lines[1][0], q1) && same_pt(s.input_lines[1][1], q2) }
/// the height of a crossing belongs to its place; it is missing only where all are
proof fn lemma_cross(z: f64, p: Coordinate, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) requires cross_z(z, p, p1, p2, q1, q2), ipt(p1), ipt(p2), ipt(q1), ipt(q2), fpt(p)
  ensures forall|g: Coordinate| same_pt(g, p) && (g.z == z || fnan(z)) ==> #[trigger] cross_at(g, p1, p2, q1, q2), forall|g: Coordinate| same_pt(g, p) ==> #[trigger] cross_z(z, g, p1, p2, q1, q2),
    zw(p1.z) && zw(p2.z) && zw(q1.z) && zw(q2.z) && vbox(p, p1, p2) && vbox(p, q1, q2) && fnan(z) ==> no_z(p1, p2, q1, q2)
{ broadcast use nan_ax, ax_big; let (a, b) = choose|a: f64, b: f64| mean(z, a, b) && #[trigger] seg_z(a, p, p1, p2) && #[trigger] seg_z(b, p, q1, q2);
  assert forall|g: Coordinate| same_pt(g, p) implies #[trigger] cross_z(z, g, p1, p2, q1, q2) by { assert(seg_z(a, g, p1, p2) && seg_z(b, g, q1, q2)); }
  assert forall|g: Coordinate| same_pt(g, p) && (g.z == z || fnan(z)) implies #[trigger] cross_at(g, p1, p2, q1, q2) by { assert(cross_z(z, g, p1, p2, q1, q2)); } }
proof fn lemma_half(a: f64, b: f64) requires fin(a), fin(b), inrange(4real * val(a)), inrange(4real * val(b)) ensures inrange(val(a) + val(b)), inrange(rnd(val(a) + val(b)) / 2real)
{ broadcast use ax_big; ax_rnd_err_sum(a, b); let s = val(a) + val(b); assert(rabs(s) * ulp() <= rabs(s)) by (nonlinear_arith) requires ulp() <= 1real, rabs(s) >= 0real; }
"""
LEMMAS = """
/// with whole heights, the mean of two heights between the ends' lies between the least and the greatest
pub proof fn theorem_mean(r: f64, a: f64, b: f64, lo: int, hi: int) requires mean(r, a, b), fin(a), fin(b), !fnan(a), !fnan(b), lo as real <= val(a) <= hi as real, lo as real <= val(b) <= hi as real, -1125899906842624 <= lo <= hi <= 1125899906842624
  ensures fin(r), lo as real <= val(r) <= hi as real
{ broadcast use ax_big; let s = val(a) + val(b); ax_rnd_int(2 * lo); ax_rnd_int(2 * hi); ax_rnd_int(lo); ax_rnd_int(hi); ax_rnd_mono((2 * lo) as real, s); ax_rnd_mono(s, (2 * hi) as real);
  let h = rnd(s) / 2real; ax_rnd_mono(lo as real, h); ax_rnd_mono(h, hi as real); }
"""
ASSUMPTIONS = ["integer ordinates up to 2^24; heights between the ends' for whole heights up to 2^50; the crossing point itself by contract C06/C26, rounding to a precision model by contract C15"]
