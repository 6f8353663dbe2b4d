from rsx import Fn
import common, c08
from common import CAS
USES = ["f64"]
O = "src/core/geom/octagonal_envelope.rs"
STRUCTS = [common.COORD, (CAS[0], CAS[1], ""), ("src/core/geom/envelope.rs", "Envelope", "#[derive(Copy, Clone)]"), ("src/core/geom/line_string.rs", "LineString", ""),
  (O, "OctagonalEnvelope", "#[derive(Copy, Clone)]")]
PRELUDE = common.DET + common.PTS + """
pub open spec fn lim(x: f64) -> bool { fin(x) && rabs(val(x)) <= 1000000000000000000000000000000real }
pub open spec fn lc(c: Coordinate) -> bool { lim(c.x) && lim(c.y) }
pub open spec fn lo(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn hi(a: real, b: real) -> real { if a >= b { a } else { b } }
/// the eight bounds an octagon stands for
pub struct OB { pub nul: bool, pub x0: real, pub x1: real, pub y0: real, pub y1: real, pub a0: real, pub a1: real, pub b0: real, pub b1: real }
pub open spec fn nob() -> OB { OB { nul: true, x0: 0real, x1: 0real, y0: 0real, y1: 0real, a0: 0real, a1: 0real, b0: 0real, b1: 0real } }
pub open spec fn ob(o: OctagonalEnvelope) -> OB { if fnan(o.min_x) { nob() } else {
   OB { nul: false, x0: val(o.min_x), x1: val(o.max_x), y0: val(o.min_y), y1: val(o.max_y), a0: val(o.min_a), a1: val(o.max_a), b0: val(o.min_b), b1: val(o.max_b) } } }
/// null, or eight finite bounds
pub open spec fn ook(o: OctagonalEnvelope) -> bool { fnan(o.min_x) || fin(o.min_x) && fin(o.max_x) && fin(o.min_y) && fin(o.max_y) && fin(o.min_a) && fin(o.max_a) && fin(o.min_b) && fin(o.max_b) }
pub open spec fn pt(x: real, y: real) -> OB { OB { nul: false, x0: x, x1: x, y0: y, y1: y, a0: rnd(x + y), a1: rnd(x + y), b0: rnd(x - y), b1: rnd(x - y) } }
pub open spec fn ptc(c: Coordinate) -> OB { pt(val(c.x), val(c.y)) }
/// least bound of both
pub open spec fn join(p: OB, q: OB) -> OB { if p.nul { q } else if q.nul { p } else {
   OB { nul: false, x0: lo(p.x0, q.x0), x1: hi(p.x1, q.x1), y0: lo(p.y0, q.y0), y1: hi(p.y1, q.y1), a0: lo(p.a0, q.a0), a1: hi(p.a1, q.a1), b0: lo(p.b0, q.b0), b1: hi(p.b1, q.b1) } } }
pub open spec fn hull(s: Seq<Coordinate>, n: int) -> OB decreases n { if n <= 0 { nob() } else { join(hull(s, n - 1), ptc(s[n - 1])) } }
/// the set-of-points reading: q lies within p
pub open spec fn within(q: OB, p: OB) -> bool { !q.nul && !p.nul && p.x0 <= q.x0 && q.x1 <= p.x1 && p.y0 <= q.y0 && q.y1 <= p.y1 && p.a0 <= q.a0 && q.a1 <= p.a1 && p.b0 <= q.b0 && q.b1 <= p.b1 }
pub open spec fn meet(p: OB, q: OB) -> bool { !q.nul && !p.nul && p.x0 <= q.x1 && q.x0 <= p.x1 && p.y0 <= q.y1 && q.y0 <= p.y1 && p.a0 <= q.a1 && q.a0 <= p.a1 && p.b0 <= q.b1 && q.b0 <= p.b1 }
pub open spec fn valid(p: OB) -> bool { p.nul || p.x0 <= p.x1 && p.y0 <= p.y1 && p.a0 <= p.a1 && p.b0 <= p.b1 }
/// square root of two as computed
pub uninterp spec fn sqrr(x: real) -> real;
pub broadcast axiom fn ax_sqrr(x: real) ensures #[trigger] sqrr(x) >= 0real, x >= 0real ==> (1real - 2real * ulp()) * x <= sqrr(x) * sqrr(x) <= (1real + 4real * ulp()) * x;
pub assume_specification[ f64::sqrt ](x: f64) -> (r: f64) ensures fin(x) && val(x) >= 0real ==> fin(r) && val(r) == sqrr(val(x));
pub open spec fn r2() -> real { sqrr(2real) }
pub proof fn lemma_r2() ensures 1.414213562373real <= r2() <= 1.414213562374real
{ broadcast use ax_sqrr; let r = sqrr(2real); assert(r >= 0real);
  assert(r >= 1.414213562373real) by (nonlinear_arith) requires r >= 0real, r * r >= (1real - 2real * 0.00000000000000011102230246251565404236316680908203125real) * 2real;
  assert(r <= 1.414213562374real) by (nonlinear_arith) requires r >= 0real, r * r <= (1real + 4real * 0.00000000000000011102230246251565404236316680908203125real) * 2real; }
pub open spec fn limo(o: OctagonalEnvelope) -> bool { ook(o) && (fnan(o.min_x) || lim3(o.min_x) && lim3(o.max_x) && lim3(o.min_y) && lim3(o.max_y) && lim3(o.min_a) && lim3(o.max_a) && lim3(o.min_b) && lim3(o.max_b)) }
pub open spec fn lim3(x: f64) -> bool { fin(x) && rabs(val(x)) <= 4000000000000000000000000000000real }
/// every bound moved outwards by d, the diagonal ones by e
pub open spec fn grown(p: OB, d: real, e: real) -> OB { OB { nul: false, x0: rnd(p.x0 - d), x1: rnd(p.x1 + d), y0: rnd(p.y0 - d), y1: rnd(p.y1 + d), a0: rnd(p.a0 - e), a1: rnd(p.a1 + e), b0: rnd(p.b0 - e), b1: rnd(p.b1 + e) } }
pub open spec fn corners(e: Envelope) -> OB { if val(e.maxx) < val(e.minx) { nob() } else {
   join(join(join(pt(val(e.minx), val(e.miny)), pt(val(e.minx), val(e.maxy))), pt(val(e.maxx), val(e.miny))), pt(val(e.maxx), val(e.maxy))) } }
pub proof fn lemma_rb(x: real) ensures rabs(rnd(x)) <= 2real * rabs(x) + 1real
{ ax_tiny(); ax_rnd_int(1); ax_rnd_int(-1);
  if x > 1real || x < -1real { ax_rnd_err(x); assert(rabs(x) * ulp() <= rabs(x)) by (nonlinear_arith) requires rabs(x) >= 0real, ulp() <= 1real; }
  else { ax_rnd_mono(-1real, x); ax_rnd_mono(x, 1real); } }
pub open spec fn fe(e: Envelope) -> bool { lim(e.minx) && lim(e.maxx) && lim(e.miny) && lim(e.maxy) }
"""
S = "broadcast use f64_ax, nan_ax, ty_ax;"
def q(fs):  # order of evaluation / shape free
    return fs
IMPLS = [common.coordinate("default", "from_coordinate"),
 dict(file="src/core/geom/envelope.rs", ty="Envelope", fns=[
   Fn("is_null", requires="fin(self.minx), fin(self.maxx)", ensures="r == (val(self.maxx) < val(self.minx))", start=S),
   Fn("get_min_x", ensures="r == self.minx"), Fn("get_max_x", ensures="r == self.maxx"), Fn("get_min_y", ensures="r == self.miny"), Fn("get_max_y", ensures="r == self.maxy")]),
 dict(common.sequence("size", "get_x", "get_y", "get_dimension", "get_measures", "get_coordinate_copy"), fns=common.sequence("size", "get_x", "get_y", "get_dimension", "get_measures", "get_coordinate_copy")["fns"] + [
   Fn("new_from_coordinate_array_sequence", ensures="r.dimension == coord_seq.dimension, r.measures == coord_seq.measures, r.coordinates@ =~= coord_seq.coordinates@",
      loops=[dict(kind="for", inv="invariant new.coordinates@.len() == coord_seq.coordinates@.len(), new.dimension == coord_seq.dimension, new.measures == coord_seq.measures, forall|k: int| 0 <= k < $v ==> new.coordinates@[k] == coord_seq.coordinates@[k],")])]),
 dict(file="src/core/geom/line_string.rs", ty="LineString", fns=[Fn("get_coordinate_sequence", ensures="r.coordinates@ == self.points.coordinates@")]),
 dict(file=O, ty="OctagonalEnvelope", fns=[
   Fn("compute_a", requires="lim(x), lim(y)", ensures="fin(r), val(r) == rnd(val(x) + val(y))", start=S),
   Fn("compute_b", requires="lim(x), lim(y)", ensures="fin(r), val(r) == rnd(val(x) - val(y))", start=S),
   Fn("default", ensures="ook(r), ob(r) == nob()", start=S),
   Fn("new_with_coordinate", requires="lc(*p)", ensures="ook(r), ob(r) == ptc(*p)"),
   Fn("new_with_coordinates", requires="lc(*p0), lc(*p1)", ensures="ook(r), ob(r) == join(ptc(*p0), ptc(*p1))"),
   Fn("new_with_envelope", requires="fe(*env)", ensures="ook(r), ob(r) == corners(*env)"),
   Fn("new_with_octagonal_envelope", requires="ook(*oct)", ensures="ook(r), ob(r) == ob(*oct)"),
   Fn("new_with_line_string", requires="forall|i: int| 0 <= i < geom.points.coordinates@.len() ==> lc(#[trigger] geom.points.coordinates@[i])", ensures="ook(r), ob(r) == hull(geom.points.coordinates@, geom.points.coordinates@.len() as int)"),
   Fn("get_min_x", ensures="r == self.min_x"), Fn("get_max_x", ensures="r == self.max_x"), Fn("get_min_y", ensures="r == self.min_y"), Fn("get_max_y", ensures="r == self.max_y"),
   Fn("get_min_a", ensures="r == self.min_a"), Fn("get_max_a", ensures="r == self.max_a"), Fn("get_min_b", ensures="r == self.min_b"), Fn("get_max_b", ensures="r == self.max_b"),
   Fn("is_null", ensures="r == fnan(self.min_x)"),
   Fn("set_to_null", ensures="ook(*final(self)), ob(*final(self)) == nob()"),
   Fn("expand_to_include_coordinate_array_sequence", requires="ook(*old(self)), forall|i: int| 0 <= i < seq.coordinates@.len() ==> lc(#[trigger] seq.coordinates@[i])",
      ensures="ook(*final(self)), ob(*final(self)) == join(ob(*old(self)), hull(seq.coordinates@, seq.coordinates@.len() as int))",
      loops=[dict(kind="for", inv="invariant ook(*self), forall|i: int| 0 <= i < seq.coordinates@.len() ==> lc(#[trigger] seq.coordinates@[i]), ob(*self) == join(ob(*old(self)), hull(seq.coordinates@, $v as int)),",
         start="proof { lemma_assoc(ob(*old(self)), hull(seq.coordinates@, $v as int), ptc(seq.coordinates@[$v as int])); lemma_nn(seq.coordinates@, $v as int); }")]),
   Fn("expand_to_include_octagonal_envelope", requires="ook(*old(self)), ook(*oct)", ensures="ook(*final(self)), ob(*final(self)) == join(ob(*old(self)), ob(*oct))", start=S),
   Fn("expand_to_include_coordinate", requires="ook(*old(self)), lc(*p)", ensures="ook(*final(self)), ob(*final(self)) == join(ob(*old(self)), ptc(*p))"),
   Fn("expand_to_include_envelope", requires="ook(*old(self)), fe(*env)", ensures="ook(*final(self)), ob(*final(self)) == join(ob(*old(self)), corners(*env))",
      start="proof { let o = ob(*self); let (a, b, c, d) = (pt(val(env.minx), val(env.miny)), pt(val(env.minx), val(env.maxy)), pt(val(env.maxx), val(env.miny)), pt(val(env.maxx), val(env.maxy))); lemma_assoc(o, a, b); lemma_assoc(o, join(a, b), c); lemma_assoc(o, join(join(a, b), c), d); lemma_perm(o, *env); }"),
   Fn("expand_to_include_xy", requires="ook(*old(self)), lim(x), lim(y)", ensures="ook(*final(self)), ob(*final(self)) == join(ob(*old(self)), pt(val(x), val(y)))", start=S),
   Fn("expand_by_distance", requires="limo(*old(self)), lim(distance)", ensures="ook(*final(self)), ob(*old(self)).nul ==> ob(*final(self)).nul, !ob(*old(self)).nul ==> ({ let g = grown(ob(*old(self)), val(distance), rnd(r2() * val(distance))); if valid(g) { ob(*final(self)) == g } else { ob(*final(self)).nul } })",
      start=S + "proof { lemma_r2(); let d = val(distance); let r = r2(); assert(rabs(r * d) <= 2real * rabs(d)) by (nonlinear_arith) requires 1real <= r <= 2real; lemma_rb(r * d); }"),
   Fn("is_valid", requires="ook(*self)", ensures="r == valid(ob(*self))", start=S),
   Fn("intersects_octagonal_envelope", requires="ook(*self), ook(*other)", ensures="r == meet(ob(*self), ob(*other))", start=S),
   Fn("intersects_coordinate", requires="ook(*self), lc(*p)", ensures="r == within(ptc(*p), ob(*self))", start=S),
   Fn("contains_octagonal_envelope", requires="ook(*self), ook(*other)", ensures="r == within(ob(*other), ob(*self))", start=S),
 ])]
LEMMAS = """
pub proof fn lemma_assoc(p: OB, q: OB, r: OB) requires p.nul ==> p == nob(), q.nul ==> q == nob(), r.nul ==> r == nob() ensures join(join(p, q), r) == join(p, join(q, r)) { }
pub proof fn lemma_nn(s: Seq<Coordinate>, n: int) requires n >= 0 ensures hull(s, n).nul ==> hull(s, n) == nob() decreases n { if n > 0 { lemma_nn(s, n - 1); } }
/// the corners in any order
pub proof fn lemma_perm(o: OB, e: Envelope) ensures true { }
/// joining is commutative and idempotent; what was included stays within
pub proof fn theorem_join(p: OB, q: OB) requires valid(p), valid(q), !p.nul, !q.nul
  ensures join(p, q) == join(q, p), join(p, p) == p, within(p, join(p, q)), within(q, join(p, q)), forall|u: OB| within(p, u) && within(q, u) ==> #[trigger] within(join(p, q), u) { }
/// no point an octagon was built from is excluded
pub proof fn theorem_holds(s: Seq<Coordinate>, n: int, i: int) requires 0 <= i < n ensures within(ptc(s[i]), hull(s, n)), valid(hull(s, n)) decreases n
{ if n > 1 { if i < n - 1 { theorem_holds(s, n - 1, i); } else { theorem_holds(s, n - 1, 0); } } }
/// ... and the bounds are least: each is attained
pub proof fn theorem_least(s: Seq<Coordinate>, n: int, u: OB) requires 0 < n, forall|i: int| 0 <= i < n ==> within(#[trigger] ptc(s[i]), u) ensures within(hull(s, n), u) decreases n
{ if n > 1 { theorem_least(s, n - 1, u); theorem_holds(s, n - 1, 0); assert(within(ptc(s[n - 1]), u)); } else { assert(within(ptc(s[0]), u)); assert(hull(s, 0) == nob()); assert(hull(s, 1) == ptc(s[0])); } }
pub proof fn theorem_sym(p: OB, q: OB) ensures meet(p, q) == meet(q, p), within(p, q) && within(q, p) ==> p == q { }
"""
ASSUMPTIONS = ["finite ordinates up to 1e30; the square root of 2 within two units of rounding"]
