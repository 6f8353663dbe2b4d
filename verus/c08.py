from rsx import Fn
import common
from common import BI
USES = ["f64"]
STRUCTS = [common.COORD, ("src/core/util/number_util.rs", "NumberUtil", ""), ("src/core/geom/coordinates.rs", "Coordinates", "")]
PRELUDE = common.DET + common.PTS + """
pub assume_specification[ f64::abs ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == rabs(val(x)), !fin(x) ==> !fin(r), fnan(x) ==> fnan(r);
pub open spec fn lim(x: f64) -> bool { fin(x) && rabs(val(x)) <= 1000000000000000000000000000000real }
/// what is assumed of libm's hypot and of the square root: functions of the real arguments, hypot between either magnitude and
/// their sum and even; the square root of a finite non-negative double is non-negative, and zero only for zero
pub uninterp spec fn hypr(x: real, y: real) -> real;
pub broadcast axiom fn ax_hypr(x: real, y: real) ensures #[trigger] hypr(x, y) >= rabs(x), hypr(x, y) >= rabs(y), hypr(x, y) <= rabs(x) + rabs(y), hypr(x, y) == hypr(-x, -y);
pub assume_specification[ f64::hypot ](x: f64, y: f64) -> (r: f64) ensures fin(x) && fin(y) && rabs(val(x)) <= big() && rabs(val(y)) <= big() ==> fin(r) && val(r) == hypr(val(x), val(y));
pub uninterp spec fn sqrr(x: real) -> real;
pub broadcast axiom fn ax_sqrr(x: real) ensures #[trigger] sqrr(x) >= 0real, sqrr(x) == 0real ==> x <= 0real, sqrr(0real) == 0real;
pub assume_specification[ f64::sqrt ](x: f64) -> (r: f64) ensures fin(x) && val(x) >= 0real ==> fin(r) && val(r) == sqrr(val(x));
/// the rounded difference of two doubles: zero only for equal ones, odd
pub proof fn lemma_d(a: f64, b: f64) requires lim(a), lim(b)
  ensures (rnd(val(a) - val(b)) == 0real) == (val(a) == val(b)), rnd(val(a) - val(b)) == -rnd(val(b) - val(a)), inrange(val(a) - val(b)),
     rabs(rnd(val(a) - val(b))) <= 4000000000000000000000000000000real
{ broadcast use f64_ax; ax_rnd_err_sum(a, b); ax_rnd_zero(); let d = val(a) - val(b); ax_rnd_neg(d);
  assert(rabs(d) * ulp() < rabs(d) || d == 0real) by (nonlinear_arith) requires ulp() < 1real; assert(rabs(d) * ulp() <= rabs(d)) by (nonlinear_arith) requires ulp() < 1real, rabs(d) >= 0real; }
pub open spec fn d(a: f64, b: f64) -> real { rnd(val(a) - val(b)) }
pub open spec fn dist(a: Coordinate, b: Coordinate) -> real { hypr(d(a.x, b.x), d(a.y, b.y)) }
/// two numbers as close as the tolerance, the difference being rounded
pub open spec fn near(a: f64, b: f64, t: f64) -> bool { rabs(d(a, b)) <= val(t) }
/// ... which no pair within the tolerance escapes, and which is exact for integers
pub proof fn theorem_near(a: f64, b: f64, t: f64) requires lim(a), lim(b), fin(t)
  ensures rabs(val(a) - val(b)) <= val(t) ==> near(a, b, t), near(a, b, t) == near(b, a, t),
    isi(a) && isi(b) && in53(it(a) - it(b)) ==> near(a, b, t) == (rabs(val(a) - val(b)) <= val(t))
{ ax_rnd_float(t); lemma_d(a, b); ax_rnd_neg(val(t));
  if rabs(val(a) - val(b)) <= val(t) { ax_rnd_mono(val(a) - val(b), val(t)); ax_rnd_mono(-val(t), val(a) - val(b)); }
  if isi(a) && isi(b) && in53(it(a) - it(b)) { let k = it(a) - it(b); ax_rnd_int(k); assert(val(a) - val(b) == k as real); } }
/// spatial distance squared as computed
pub open spec fn sq(x: real) -> real { rnd(x * x) }
pub open spec fn ss(a: Coordinate, b: Coordinate) -> real { rnd(rnd(sq(d(a.x, b.x)) + sq(d(a.y, b.y))) + sq(d(a.z, b.z))) }
pub proof fn lemma_sq(x: real) requires rabs(x) <= 4000000000000000000000000000000real
  ensures x * x <= 16000000000000000000000000000000000000000000000000000000000000real, 0real <= sq(x) <= 33000000000000000000000000000000000000000000000000000000000000real, inrange(x * x)
{ broadcast use f64_ax; assert(0real <= x * x <= 16000000000000000000000000000000000000000000000000000000000000real) by (nonlinear_arith) requires rabs(x) <= 4000000000000000000000000000000real;
  ax_rnd_zero(); ax_rnd_mono(0real, x * x); lemma_rb(x * x); }
pub proof fn lemma_rb(x: real) ensures rabs(rnd(x)) <= 2real * rabs(x) + 1real
{ ax_tiny(); ax_rnd_int(1); ax_rnd_int(-1);
  if x > 1real || x < -1real { ax_rnd_err(x); assert(rabs(x) * ulp() <= rabs(x)) by (nonlinear_arith) requires rabs(x) >= 0real, ulp() <= 1real; }
  else { ax_rnd_mono(-1real, x); ax_rnd_mono(x, 1real); } }
pub open spec fn lip(c: Coordinate) -> bool { lim(c.x) && lim(c.y) }
"""
_c = common.coordinate("get_z", "equals_2d")
IMPLS = [dict(file="src/core/util/number_util.rs", ty="NumberUtil", fns=[
   Fn("equals_with_tolerance", requires="lim(x1) && lim(x2) || !fin(x1) || !fin(x2)", ensures="lim(x1) && lim(x2) && fin(tolerance) ==> r == near(x1, x2, tolerance)", start="broadcast use f64_ax; proof { if lim(x1) && lim(x2) { lemma_d(x1, x2); } }")]),
 dict(_c, fns=_c["fns"] + [
   Fn("equals_2d_with_tolerance", requires="lip(*self), lip(*c), fin(tolerance)", ensures="r == (near(self.x, c.x, tolerance) && near(self.y, c.y, tolerance))"),
   Fn("equal_in_z", requires="lim(self.z), lim(c.z), fin(tolerance)", ensures="r == near(self.z, c.z, tolerance)"),
   Fn("equal_in_coordinate_z", requires="lim(self.z), lim(c.z), fin(tolerance)", ensures="r == near(self.z, c.z, tolerance)"),
   Fn("distance", requires="lip(*self), lip(*c)", ensures="fin(r), val(r) == dist(*self, *c), val(r) >= 0real, (val(r) == 0real) == eqv(*self, *c)",
      start="broadcast use f64_ax, ty_ax, ax_hypr; proof { lemma_d(self.x, c.x); lemma_d(self.y, c.y); }"),
   Fn("distance_3d", requires="lip(*self), lip(*c), lim(self.z), lim(c.z)", ensures="fin(r), val(r) == sqrr(ss(*self, *c)), val(r) >= 0real, eqv(*self, *c) && val(self.z) == val(c.z) ==> val(r) == 0real",
      start="""broadcast use f64_ax, ty_ax, ax_sqrr; proof { lemma_d(self.x, c.x); lemma_d(self.y, c.y); lemma_d(self.z, c.z);
        lemma_sq(d(self.x, c.x)); lemma_sq(d(self.y, c.y)); lemma_sq(d(self.z, c.z)); let p = sq(d(self.x, c.x)) + sq(d(self.y, c.y));
        ax_rnd_zero(); lemma_rb(p); ax_rnd_mono(0real, p); let q = rnd(p) + sq(d(self.z, c.z)); lemma_rb(q); ax_rnd_mono(0real, q);
        assert(0real * 0real == 0real); }"""),
 ]),
 dict(file="src/core/geom/coordinates.rs", ty="Coordinates", fns=[
   Fn("equal", requires="lip(*a), lip(*b), fin(tolerance)", ensures="val(tolerance) == 0real ==> r == eqv(*a, *b), val(tolerance) != 0real ==> r == (dist(*a, *b) <= val(tolerance))", start="broadcast use f64_ax, ty_ax;"),
 ])]
LEMMAS = """
/// distance is symmetric, in the plane and in space
pub proof fn theorem_distance_symmetric(a: Coordinate, b: Coordinate) requires lip(a), lip(b), lim(a.z), lim(b.z)
  ensures dist(a, b) == dist(b, a), ss(a, b) == ss(b, a)
{ broadcast use ax_hypr; lemma_d(a.x, b.x); lemma_d(a.y, b.y); lemma_d(a.z, b.z); lemma_d(b.x, a.x); lemma_d(b.y, a.y); lemma_d(b.z, a.z);
  let x = d(a.x, b.x); let y = d(a.y, b.y); let z = d(a.z, b.z);
  assert(hypr(x, y) == hypr(-x, -y));
  assert((-x) * (-x) == x * x) by (nonlinear_arith); assert((-y) * (-y) == y * y) by (nonlinear_arith); assert((-z) * (-z) == z * z) by (nonlinear_arith); }
"""
ASSUMPTIONS = ["finite ordinates up to 1e30"]
