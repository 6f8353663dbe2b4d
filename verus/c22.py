from rsx import Fn
import c03, c08, common, copy
from common import BI
USES = ["f64"]
STRUCTS = [common.COORD, ("src/core/math/dd.rs", "DD", "#[derive(Copy, Clone)]"), ("src/core/algorithm/angle.rs", "Angle", ""),
  ("src/core/math/vector_2d.rs", "Vector2D", "#[derive(Copy, Clone)]"), ("src/core/math/vector_3d.rs", "Vector3D", "")]
_p8 = c08.PRELUDE
PRELUDE = c03.DDI[:c03.DDI.index("pub open spec fn lim24")] + common.PTS + _p8[_p8.index("pub open spec fn lim(x"):_p8.index("/// the rounded difference")] + """
/// bounded finite values: far from overflow
pub open spec fn l2(v: Vector2D) -> bool { lim(v.x) && lim(v.y) }
pub open spec fn l3(v: Vector3D) -> bool { lim(v.x) && lim(v.y) && lim(v.z) }
pub open spec fn lc(c: Coordinate) -> bool { lim(c.x) && lim(c.y) }
pub open spec fn lcz(c: Coordinate) -> bool { lim(c.x) && lim(c.y) && lim(c.z) }
pub open spec fn e31() -> real { 4000000000000000000000000000000real }
/// the double r is the correctly rounded value of x
pub open spec fn rn(r: f64, x: real) -> bool { fin(r) && val(r) == rnd(x) }
pub open spec fn sm(a: f64, b: f64) -> real { val(a) + val(b) }
pub open spec fn df(a: f64, b: f64) -> real { val(a) - val(b) }
pub proof fn lemma_rb(x: real) ensures rabs(rnd(x)) <= 2real * rabs(x) + 1real
{ ax_tiny(); ax_rnd_int(1); ax_rnd_int(-1);
  if x > 1real || x < -1real { ax_rnd_err(x); assert(rabs(x) * ulp() <= rabs(x)) by (nonlinear_arith) requires rabs(x) >= 0real, ulp() <= 1real; }
  else { ax_rnd_mono(-1real, x); ax_rnd_mono(x, 1real); } }
pub open spec fn e61() -> real { 16000000000000000000000000000000000000000000000000000000000000real }
pub proof fn lemma_p(a: real, b: real) requires rabs(a) <= e31(), rabs(b) <= e31() ensures rabs(a * b) <= e61(), rabs(rnd(a * b)) <= 3real * e61()
{ assert(rabs(a * b) <= e61()) by (nonlinear_arith) requires rabs(a) <= 4000000000000000000000000000000real, rabs(b) <= 4000000000000000000000000000000real, e61() == 16000000000000000000000000000000000000000000000000000000000000real; lemma_rb(a * b); }
/// every product bounded by the limit, and sums of three of them
pub broadcast proof fn lemma_bp(a: f64, b: f64, o: f64) requires fin(a), fin(b), rabs(val(a)) <= e31(), rabs(val(b)) <= e31(), #[trigger] mul_ensures(a, b, o)
  ensures fin(o), val(o) == rnd(val(a) * val(b)), rabs(val(o)) <= 3real * e61() { broadcast use ax_mul, ax_big; lemma_p(val(a), val(b)); }
pub broadcast proof fn lemma_bs(a: f64, b: f64, o: f64) requires fin(a), fin(b), rabs(val(a)) <= 20real * e61(), rabs(val(b)) <= 20real * e61(), #[trigger] add_ensures(a, b, o)
  ensures fin(o), val(o) == rnd(val(a) + val(b)), rabs(val(o)) <= 2real * (rabs(val(a)) + rabs(val(b))) + 1real { broadcast use ax_add, ax_big; lemma_rb(val(a) + val(b)); }
pub broadcast proof fn lemma_bd(a: f64, b: f64, o: f64) requires lim(a), lim(b), #[trigger] sub_ensures(a, b, o)
  ensures fin(o), val(o) == rnd(val(a) - val(b)), rabs(val(o)) <= e31() { broadcast use ax_sub, ax_big; ax_rnd_err_sum(a, b);
    let d = rabs(val(a) - val(b)); assert(d * ulp() <= d) by (nonlinear_arith) requires d >= 0real, ulp() <= 1real;  }
pub broadcast group lm { ax_add_req, ax_sub_req, ax_mul_req, ax_div_req, ax_neg_req, lemma_bp, lemma_bs, lemma_bd, ax_lt, ax_gt, ax_le, ax_ge, ax_eq, ax_ne, ax_div, ax_lits, ax_big, ty_ax }
pub open spec fn pr(a: f64, b: f64) -> real { rnd(val(a) * val(b)) }
pub open spec fn dot2(a: f64, b: f64, c: f64, d: f64) -> real { rnd(pr(a, c) + pr(b, d)) }
pub open spec fn dot3r(a: real, b: real, c: real) -> real { rnd(rnd(a + b) + c) }
pub open spec fn dot3(a: f64, b: f64, c: f64, p: f64, q: f64, r: f64) -> real { dot3r(pr(a, p), pr(b, q), pr(c, r)) }
pub open spec fn rp(a: real, b: real) -> real { rnd(a * b) }
pub open spec fn dd_(a: f64, b: f64) -> real { rnd(val(a) - val(b)) }
pub axiom fn ax_rnd_half(k: int) requires -9007199254740992 <= k <= 9007199254740992 ensures rnd(k as real / 2real) == k as real / 2real;
pub open spec fn i2(v: Vector2D, b: int) -> bool { isi(v.x) && isi(v.y) && -b <= it(v.x) <= b && -b <= it(v.y) <= b }
pub open spec fn ws(f: real, a: real, b: real) -> real { rnd(rnd(f * a) + rnd(rnd(1real - f) * b)) }
pub proof fn lemma_avg(a: f64, b: f64) requires isi(a), isi(b), in53(it(a) + it(b)) ensures ws(0.5real, val(a), val(b)) == (it(a) + it(b)) as real / 2real
{ ax_rnd_half(it(a)); ax_rnd_half(it(b)); ax_rnd_half(it(a) + it(b)); ax_rnd_half(1);
  assert(0.5real * val(a) == it(a) as real / 2real); assert(1real - 0.5real == 1 as real / 2real); assert(rnd(1real - 0.5real) == 0.5real); assert(0.5real * val(b) == it(b) as real / 2real);
  assert(it(a) as real / 2real + it(b) as real / 2real == (it(a) + it(b)) as real / 2real); }
/// squares are not negative, and positive beyond underflow
pub proof fn lemma_sq(a: real) ensures a * a >= 0real, rnd(a * a) >= 0real, rabs(a) >= 0.000000000000000000001real ==> rnd(a * a) > 0real
{ assert(a * a >= 0real) by (nonlinear_arith); ax_rnd_zero(); ax_rnd_mono(0real, a * a); ax_tiny();
  if rabs(a) >= 0.000000000000000000001real { assert(a * a >= 0.000000000000000000000000000000000000000001real) by (nonlinear_arith) requires a >= 0.000000000000000000001real || a <= -0.000000000000000000001real; ax_rnd_err(a * a);
    let q = a * a; assert(q * ulp() < q) by (nonlinear_arith) requires q > 0real, ulp() < 1real; } }
pub proof fn lemma_nn(a: real, b: real) requires a >= 0real, b >= 0real ensures rnd(a + b) >= 0real, a > 0real && a >= tiny() || b > 0real && b >= tiny() ==> rnd(a + b) > 0real
{ ax_rnd_zero(); ax_rnd_mono(0real, a + b); ax_tiny(); if a >= tiny() || b >= tiny() { ax_rnd_err(a + b); let q = a + b; assert(q * ulp() < q) by (nonlinear_arith) requires q > 0real, ulp() < 1real; } }
"""
F2, F3 = "src/core/math/vector_2d.rs", "src/core/math/vector_3d.rs"
S = "broadcast use lm;"
_dd = {f.name: f for i in c03.IMPLS if i["ty"] == "DD" for f in i["fns"]}
DDF = [copy.deepcopy(_dd[n]) for n in ["new_x", "value_of_f64", "is_nan", "signum", "self_add_f64", "self_add_hi_lo", "self_subtract_dd", "self_multiply_hi_lo", "self_multiply_dd"]]
IMPLS = [
 dict(file="src/core/math/dd.rs", ty="DD", consts=["SPLIT"], fns=DDF + [
   Fn("new_from_dd", ensures="r == *dd"), Fn("copy", ensures="r == *dd"), Fn("create_nan"), Fn("new_nan"), Fn("new_hi_lo", ensures="r.hi == hi, r.lo == lo"),
   Fn("multiply_dd", requires="ddok(*self, 33554432), ddok(*y, 33554432)", ensures="ddi(r, dv(*self) * dv(*y)), ddok(r, 1125899906842624)"),
 ]),
 dict(file="src/core/algorithm/cg_algorithms_dd.rs", ty="CGAlgorithmsDD", header="pub struct CGAlgorithmsDD {}\nimpl CGAlgorithmsDD {", fns=[
   Fn("sign_of_det2x_2dd", requires="ddok(*x1, 33554432), ddok(*y1, 33554432), ddok(*x2, 33554432), ddok(*y2, 33554432)", ensures="r == sgi(dv(*x1) * dv(*y2) - dv(*y1) * dv(*x2))"),
   Fn("sign_of_det2x2_f64", requires="isi(dx1), isi(dy1), isi(dx2), isi(dy2), -33554432 <= it(dx1) <= 33554432, -33554432 <= it(dy1) <= 33554432, -33554432 <= it(dx2) <= 33554432, -33554432 <= it(dy2) <= 33554432",
      ensures="r == sgi(it(dx1) * it(dy2) - it(dy1) * it(dx2))", start=BI),
 ]),
 common.coordinate("new_xy", "new_xyz", "get_z", "default"),
 dict(file=F2, ty="Vector2D", fns=[
   Fn("default", ensures="r.x == 0.0f64, r.y == 0.0f64"),
   Fn("new_from_xy", ensures="r.x == x, r.y == y"), Fn("create_from_xy", ensures="r.x == x, r.y == y"),
   Fn("new_from_vector_2d", ensures="r == *v"), Fn("create_from_vector_2d", ensures="r == *v"),
   Fn("new_from_coordinate", ensures="r.x == v.x, r.y == v.y"), Fn("create_from_coodinate", ensures="r.x == coord.x, r.y == coord.y"),
   Fn("new_from_coordinate_from_to", requires="lc(*from), lc(*to)", ensures="rn(r.x, df(to.x, from.x)), rn(r.y, df(to.y, from.y))", start=S),
   Fn("create_from_coordinate_from_to", requires="lc(*from), lc(*to)", ensures="rn(r.x, df(to.x, from.x)), rn(r.y, df(to.y, from.y))"),
   Fn("get_x", ensures="r == self.x"), Fn("get_y", ensures="r == self.y"),
   Fn("get_component", ensures="index == 0 ==> r == self.x, index == 1 ==> r == self.y"),
   Fn("add", requires="l2(*self), l2(*v)", ensures="rn(r.x, sm(self.x, v.x)), rn(r.y, sm(self.y, v.y))", start=S),
   Fn("subtract", requires="l2(*self), l2(*v)", ensures="rn(r.x, df(self.x, v.x)), rn(r.y, df(self.y, v.y))", start=S),
   Fn("multiply", requires="l2(*self), lim(d)", ensures="rn(r.x, val(self.x) * val(d)), rn(r.y, val(self.y) * val(d))", start=S),
   Fn("divide", requires="l2(*self), fin(d), val(d) != 0real, inrange(val(self.x) / val(d)), inrange(val(self.y) / val(d))", ensures="rn(r.x, val(self.x) / val(d)), rn(r.y, val(self.y) / val(d))", start=S),
   Fn("negate", requires="l2(*self)", ensures="fin(r.x), fin(r.y), val(r.x) == -val(self.x), val(r.y) == -val(self.y)", start=S),
   Fn("length", requires="l2(*self)", ensures="fin(r), val(r) == hypr(val(self.x), val(self.y)), val(r) >= 0real, (val(r) == 0real) == (val(self.x) == 0real && val(self.y) == 0real)", start="broadcast use lm, ax_hypr;"),
   Fn("length_squared", requires="l2(*self)", ensures="rn(r, pr(self.x, self.x) + pr(self.y, self.y)), val(r) >= 0real", start=S + "proof { lemma_sq(val(self.x)); lemma_sq(val(self.y)); lemma_nn(pr(self.x, self.x), pr(self.y, self.y)); }"),
   Fn("normalize", requires="l2(*self)", ensures="({ let l = hypr(val(self.x), val(self.y)); if l > 0real { rn(r.x, val(self.x) / l) && rn(r.y, val(self.y) / l) && rabs(val(r.x)) <= 1real && rabs(val(r.y)) <= 1real } else { val(r.x) == 0real && val(r.y) == 0real } })",
      start="broadcast use lm, ax_hypr; proof { let l = hypr(val(self.x), val(self.y)); if l > 0real { lemma_unit(val(self.x), l); lemma_unit(val(self.y), l); } }"),
   Fn("weighted_sum", requires="l2(*self), l2(*v), lim(frac)", ensures="fin(r.x), fin(r.y), val(r.x) == ws(val(frac), val(self.x), val(v.x)), val(r.y) == ws(val(frac), val(self.y), val(v.y))", start=S + "proof { assert(lim(1.0f64)); }"),
   Fn("average", requires="l2(*self), l2(*v)", ensures="fin(r.x), fin(r.y), isi(self.x) && isi(v.x) && in53(it(self.x) + it(v.x)) ==> val(r.x) == (it(self.x) + it(v.x)) as real / 2real, isi(self.y) && isi(v.y) && in53(it(self.y) + it(v.y)) ==> val(r.y) == (it(self.y) + it(v.y)) as real / 2real",
      start=S + "proof { assert(lim(0.5f64)); if isi(self.x) && isi(v.x) && in53(it(self.x) + it(v.x)) { lemma_avg(self.x, v.x); } if isi(self.y) && isi(v.y) && in53(it(self.y) + it(v.y)) { lemma_avg(self.y, v.y); } }"),
   Fn("distance", requires="l2(*self), l2(*v)", ensures="fin(r), val(r) >= 0real, val(r) == hypr(dd_(v.x, self.x), dd_(v.y, self.y))", start="broadcast use lm, ax_hypr;"),
   Fn("dot", requires="l2(*self), l2(*v)", ensures="fin(r), val(r) == dot2(self.x, self.y, v.x, v.y)", start=S),
   Fn("rotate", requires="l2(*self), fin(angle)", ensures="fin(r.x), fin(r.y), val(r.x) == rnd(rp(val(self.x), rcos(val(angle))) - rp(val(self.y), rsin(val(angle)))), val(r.y) == rnd(rp(val(self.x), rsin(val(angle))) + rp(val(self.y), rcos(val(angle))))",
      start="broadcast use lm, ax_rsin, ax_rcos, ax_sub; proof { lemma_p(val(self.x), rcos(val(angle))); lemma_p(val(self.y), rsin(val(angle))); }"),
   Fn("is_parallel", requires="i2(*self, 33554432), i2(*v, 33554432)", ensures="r == (it(self.x) * it(v.y) == it(self.y) * it(v.x))", start=BI),
   Fn("translate", requires="l2(*self), lc(*coord)", ensures="rn(r.x, sm(self.x, coord.x)), rn(r.y, sm(self.y, coord.y))", start=S),
   Fn("to_coordinate", ensures="r.x == self.x, r.y == self.y"),
   Fn("equals", requires="l2(*self), l2(*v)", ensures="r == (val(self.x) == val(v.x) && val(self.y) == val(v.y))", start=S),
 ]),
 dict(file=F3, ty="Vector3D", fns=[
   Fn("new_from_coordinate", ensures="r.x == v.x, r.y == v.y, r.z == v.z"), Fn("create_from_coordinate", ensures="r.x == coord.x, r.y == coord.y, r.z == coord.z"),
   Fn("new_from_xyz", ensures="r.x == x, r.y == y, r.z == z"), Fn("create_from_xyz", ensures="r.x == x, r.y == y, r.z == z"),
   Fn("new_from_to_coordinates", requires="lcz(*from), lcz(*to)", ensures="rn(r.x, df(to.x, from.x)), rn(r.y, df(to.y, from.y)), rn(r.z, df(to.z, from.z))", start=S),
   Fn("get_x", ensures="r == self.x"), Fn("get_y", ensures="r == self.y"), Fn("get_z", ensures="r == self.z"),
   Fn("add", requires="l3(*self), l3(*v)", ensures="rn(r.x, sm(self.x, v.x)), rn(r.y, sm(self.y, v.y)), rn(r.z, sm(self.z, v.z))", start=S),
   Fn("subtract", requires="l3(*self), l3(*v)", ensures="rn(r.x, df(self.x, v.x)), rn(r.y, df(self.y, v.y)), rn(r.z, df(self.z, v.z))", start=S),
   Fn("divide", requires="l3(*self), fin(d), val(d) != 0real, inrange(val(self.x) / val(d)), inrange(val(self.y) / val(d)), inrange(val(self.z) / val(d))", ensures="rn(r.x, val(self.x) / val(d)), rn(r.y, val(self.y) / val(d)), rn(r.z, val(self.z) / val(d))", start=S),
   Fn("dot", requires="l3(*self), l3(*v)", ensures="fin(r), val(r) == dot3(self.x, self.y, self.z, v.x, v.y, v.z)", start=S),
   Fn("dot_2", requires="lcz(*v1), lcz(*v2)", ensures="fin(r), val(r) == dot3(v1.x, v1.y, v1.z, v2.x, v2.y, v2.z)", start=S),
   Fn("dot_4", requires="lcz(*ac), lcz(*bc), lcz(*cc), lcz(*dc)", ensures="fin(r), val(r) == dot3r(rp(dd_(bc.x, ac.x), dd_(dc.x, cc.x)), rp(dd_(bc.y, ac.y), dd_(dc.y, cc.y)), rp(dd_(bc.z, ac.z), dd_(dc.z, cc.z)))", start=S),
   Fn("length", requires="l3(*self)", ensures="fin(r), val(r) >= 0real, val(r) == sqrr(dot3(self.x, self.y, self.z, self.x, self.y, self.z))", start="broadcast use lm, ax_sqrr; proof { lemma_s3(val(self.x), val(self.y), val(self.z)); }"),
   Fn("length_of_coordinate", requires="lcz(*v)", ensures="fin(r), val(r) >= 0real, val(r) == sqrr(dot3(v.x, v.y, v.z, v.x, v.y, v.z))", start="broadcast use lm, ax_sqrr; proof { lemma_s3(val(v.x), val(v.y), val(v.z)); }"),
   Fn("normalize", requires="l3(*self), ({ let l = sqrr(dot3(self.x, self.y, self.z, self.x, self.y, self.z)); l > 0real ==> inrange(val(self.x) / l) && inrange(val(self.y) / l) && inrange(val(self.z) / l) })", ensures="({ let l = sqrr(dot3(self.x, self.y, self.z, self.x, self.y, self.z)); if l > 0real { rn(r.x, val(self.x) / l) && rn(r.y, val(self.y) / l) && rn(r.z, val(self.z) / l) } else { val(r.x) == 0real && val(r.y) == 0real && val(r.z) == 0real } })", start=S),
   Fn("normalize_coordinate", requires="lcz(*v), ({ let l = sqrr(dot3(v.x, v.y, v.z, v.x, v.y, v.z)); l > 0real && inrange(val(v.x) / l) && inrange(val(v.y) / l) && inrange(val(v.z) / l) })", ensures="({ let l = sqrr(dot3(v.x, v.y, v.z, v.x, v.y, v.z)); rn(r.x, val(v.x) / l) && rn(r.y, val(v.y) / l) && rn(r.z, val(v.z) / l) })", start=S),
   Fn("equals", requires="l3(*self), l3(*v)", ensures="r == (val(self.x) == val(v.x) && val(self.y) == val(v.y) && val(self.z) == val(v.z))", start=S),
 ]),
]
LEMMAS = """
/// what is assumed of libm's sine and cosine: functions of the angle within [-1, 1], zero and one at zero
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
pub broadcast axiom fn ax_rsin(x: real) ensures -1real <= #[trigger] rsin(x) <= 1real, rsin(0real) == 0real;
pub broadcast axiom fn ax_rcos(x: real) ensures -1real <= #[trigger] rcos(x) <= 1real, rcos(0real) == 1real;
pub assume_specification[ f64::sin ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == rsin(val(x));
pub assume_specification[ f64::cos ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == rcos(val(x));

pub proof fn lemma_s3(x: real, y: real, z: real) ensures dot3r(rnd(x * x), rnd(y * y), rnd(z * z)) >= 0real
{ lemma_sq(x); lemma_sq(y); lemma_sq(z); lemma_nn(rnd(x * x), rnd(y * y)); lemma_nn(rnd(rnd(x * x) + rnd(y * y)), rnd(z * z)); }
pub proof fn lemma_unit(x: real, l: real) requires l > 0real, rabs(x) <= l ensures rabs(x / l) <= 1real, rabs(rnd(x / l)) <= 1real
{ let q = x / l; assert(q * l == x) by (nonlinear_arith) requires q == x / l, l != 0real; assert(-1real <= q <= 1real) by (nonlinear_arith) requires q * l == x, l > 0real, -l <= x <= l;
  ax_rnd_int(1); ax_rnd_int(-1); ax_rnd_mono(q, 1real); ax_rnd_mono(-1real, q); }
/// the spatial length is zero exactly for the zero vector (components zero or at least 1e-21 in magnitude: no underflow)
pub proof fn theorem_zero(v: Vector3D)
  requires l3(v), rabs(val(v.x)) >= 0.000000000000000000001real || val(v.x) == 0real, rabs(val(v.y)) >= 0.000000000000000000001real || val(v.y) == 0real, rabs(val(v.z)) >= 0.000000000000000000001real || val(v.z) == 0real
  ensures (sqrr(dot3(v.x, v.y, v.z, v.x, v.y, v.z)) == 0real) == (val(v.x) == 0real && val(v.y) == 0real && val(v.z) == 0real)
{ broadcast use ax_sqrr; ax_tiny(); ax_rnd_zero(); assert(0real * 0real == 0real);
  let (x, y, z) = (val(v.x), val(v.y), val(v.z)); lemma_s3(x, y, z); lemma_pos(x); lemma_pos(y); lemma_pos(z);
  lemma_nn(rnd(x * x), rnd(y * y)); let p = rnd(rnd(x * x) + rnd(y * y));
  if x != 0real || y != 0real { ax_rnd_err(rnd(x * x) + rnd(y * y)); let q = rnd(x * x) + rnd(y * y); assert(q * ulp() <= q * 0.5real) by (nonlinear_arith) requires q > 0real, ulp() < 0.5real; }
  lemma_nn(p, rnd(z * z)); }
pub proof fn lemma_pos(a: real) requires rabs(a) >= 0.000000000000000000001real || a == 0real
  ensures a == 0real ==> rnd(a * a) == 0real, a != 0real ==> rnd(a * a) >= 2real * tiny()
{ ax_tiny2(); ax_rnd_zero(); if a == 0real { assert(a * a == 0real) by (nonlinear_arith) requires a == 0real; } else {
   assert(a * a >= 0.000000000000000000000000000000000000000001real) by (nonlinear_arith) requires a >= 0.000000000000000000001real || a <= -0.000000000000000000001real; ax_rnd_err(a * a);
   let q = a * a; assert(q * ulp() <= q * 0.5real) by (nonlinear_arith) requires q > 0real, ulp() < 0.5real; } }
/// tiny is 2^-1021
pub axiom fn ax_tiny2() ensures 4real * tiny() < 0.000000000000000000000000000000000000000001real;
pub proof fn theorem_symmetric(a: Vector2D, b: Vector2D) ensures dot2(a.x, a.y, b.x, b.y) == dot2(b.x, b.y, a.x, a.y)
{ assert(val(a.x) * val(b.x) == val(b.x) * val(a.x)) by (nonlinear_arith); assert(val(a.y) * val(b.y) == val(b.y) * val(a.y)) by (nonlinear_arith); }
"""
ASSUMPTIONS = ["finite components up to 1e30 (parallelism: integers up to 2^25)", "hypot and sqrt of libm by the listed facts"]
