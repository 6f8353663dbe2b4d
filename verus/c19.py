from rsx import Fn
import c22, c08, common
USES = ["f64"]
A = "src/core/algorithm/angle.rs"
STRUCTS = [common.COORD, common.ORI, (A, "Angle", ""), ("src/core/math/vector_2d.rs", "Vector2D", "#[derive(Copy, Clone)]")]
PRELUDE = common.DET + common.PTS + """
pub open spec fn lim(x: f64) -> bool { fin(x) && rabs(val(x)) <= 1000000000000000000000000000000real }
pub open spec fn lc(c: Coordinate) -> bool { lim(c.x) && lim(c.y) }
/// the double nearest to pi
pub open spec fn pi() -> real { 3.141592653589793115997963468544185161590576171875real }
#[verifier::external_body]
pub fn f64_pi() -> (r: f64) ensures fin(r), val(r) == pi() { std::f64::consts::PI }
pub broadcast axiom fn ax_180() ensures #[trigger] val(180.0f64) == 180real, fin(180.0f64), val(180f64) == 180real;
pub broadcast axiom fn ax_4() ensures #[trigger] val(4.0f64) == 4real, fin(4.0f64);
pub broadcast group c_ax { ax_180, ax_4 }
/// doubling and halving are exact, as are pi/4 and differences of numbers within a factor of two (Sterbenz)
pub axiom fn ax_scale(x: f64) requires fin(x), rabs(val(x)) >= 1real, rabs(val(x)) <= 1000000real ensures rnd(2real * val(x)) == 2real * val(x), rnd(val(x) * 2real) == 2real * val(x), rnd(val(x) / 2real) == val(x) / 2real, rnd(val(x) / 4real) == val(x) / 4real;
pub axiom fn ax_sterbenz(x: f64, y: f64) requires fin(x), fin(y), 0real <= val(y) / 2real <= val(x) <= 2real * val(y) ensures rnd(val(x) - val(y)) == val(x) - val(y);
/// what is assumed of libm: ranges and signs, oddness
pub uninterp spec fn sinr(x: real) -> real;
pub uninterp spec fn cosr(x: real) -> real;
pub broadcast axiom fn ax_sin(x: real) ensures -1real <= #[trigger] sinr(x) <= 1real, sinr(-x) == -sinr(x), sinr(0real) == 0real;
pub broadcast axiom fn ax_cos(x: real) ensures -1real <= #[trigger] cosr(x) <= 1real;
pub assume_specification[ f64::sin ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == sinr(val(x));
pub assume_specification[ f64::cos ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == cosr(val(x));
pub uninterp spec fn atr(y: f64, x: f64) -> real;
pub broadcast axiom fn ax_at(y: f64, x: f64) ensures -pi() <= #[trigger] atr(y, x) <= pi();
pub assume_specification[ f64::atan2 ](y: f64, x: f64) -> (r: f64) ensures fin(x) && fin(y) ==> fin(r) && val(r) == atr(y, x);
pub assume_specification[ f64::abs ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == rabs(val(x));
pub open spec fn e12() -> real { 0.0000000000002real }
/// r is a, n whole turns away, after k roundings
pub open spec fn turned(a: real, r: real, n: int, k: int) -> bool { rabs(r - (a - n as real * (2real * pi()))) <= k as real * e12() }
pub open spec fn congr(a: real, r: real) -> bool { exists|n: int, k: int| 0 <= k <= 400 && #[trigger] turned(a, r, n, k) }
/// a turn more or less, rounded
pub proof fn lemma_step(x: f64, y: f64) requires fin(x), fin(y), rabs(val(x)) <= 1000real, val(y) == 2real * pi()
  ensures rabs(rnd(val(x) - val(y)) - (val(x) - val(y))) <= e12(), rabs(rnd(val(x) + val(y)) - (val(x) + val(y))) <= e12()
{ ax_rnd_err_sum(x, y); let (p, q) = (rabs(val(x) - val(y)), rabs(val(x) + val(y)));
  assert(p * ulp() <= e12()) by (nonlinear_arith) requires 0real <= p <= 1010real, ulp() == 0.00000000000000011102230246251565404236316680908203125real, e12() == 0.0000000000002real;
  assert(q * ulp() <= e12()) by (nonlinear_arith) requires 0real <= q <= 1010real, ulp() == 0.00000000000000011102230246251565404236316680908203125real, e12() == 0.0000000000002real; }
pub proof fn lemma_turn(a: real, x: real, y: real, n: int, k: int) requires turned(a, x, n, k)
  ensures rabs(y - (x - 2real * pi())) <= e12() ==> turned(a, y, n + 1, k + 1), rabs(y - (x + 2real * pi())) <= e12() ==> turned(a, y, n - 1, k + 1)
{ let t = 2real * pi(); assert((n + 1) as real * t == n as real * t + t) by (nonlinear_arith); assert((n - 1) as real * t == n as real * t - t) by (nonlinear_arith);
  assert((k + 1) as real * e12() == k as real * e12() + e12()) by (nonlinear_arith); }
pub proof fn lemma_zero(a: real) ensures turned(a, a, 0, 0) { assert(0real * (2real * pi()) == 0real) by (nonlinear_arith); assert(0real * e12() == 0real) by (nonlinear_arith); assert(0 as real == 0real); }
pub open spec fn i24c(c: Coordinate) -> bool { ipt(c) }
pub open spec fn dotp(a: Coordinate, b: Coordinate, c: Coordinate) -> int { (it(a.x) - it(b.x)) * (it(c.x) - it(b.x)) + (it(a.y) - it(b.y)) * (it(c.y) - it(b.y)) }
pub proof fn lemma_pb(a: int, b: int, m: int) requires -m <= a <= m, -m <= b <= m, 0 <= m ensures -(m * m) <= a * b <= m * m
{ assert(a * b <= m * m && -(m * m) <= a * b) by (nonlinear_arith) requires -m <= a <= m, -m <= b <= m, 0 <= m; }
pub proof fn lemma_db(a: Coordinate, b: Coordinate, c: Coordinate) requires ipt(a), ipt(b), ipt(c)
  ensures -1125899906842624 <= (it(a.x) - it(b.x)) * (it(c.x) - it(b.x)) <= 1125899906842624, -1125899906842624 <= (it(a.y) - it(b.y)) * (it(c.y) - it(b.y)) <= 1125899906842624
{ lemma_pb(it(a.x) - it(b.x), it(c.x) - it(b.x), 33554432); lemma_pb(it(a.y) - it(b.y), it(c.y) - it(b.y), 33554432); }
pub open spec fn tk(a: f64, x: f64, n: int, k: int) -> bool { turned(val(a), val(x), n, k) && (k == 0 ==> val(x) == val(a)) && (k > 0 ==> !(-pi() < val(a) <= pi())) }
pub open spec fn tk2(a: f64, x: f64, n: int, k: int) -> bool { turned(val(a), val(x), n, k) && (k == 0 ==> val(x) == val(a)) && (k > 0 ==> !(0real <= val(a) < 2real * pi())) }
pub open spec fn sgi3(x: real) -> int { if x > 0real { 1int } else if x < 0real { -1int } else { 0int } }
pub broadcast axiom fn ax_snap() ensures #[trigger] val(5e-16f64) > 0real, val(5e-16f64) <= 0.000000000000000500000000000001real, fin(5e-16f64);
pub open spec fn arc(a: real, b: real) -> real { rnd(if a < b { b - a } else { a - b }) }
pub open spec fn diffr(a: real, b: real) -> real { if arc(a, b) > pi() { rnd(2real * pi() - arc(a, b)) } else { arc(a, b) } }
/// the angle swept from a to b, brought into (-pi, pi]
pub open spec fn orir(a: real, b: real) -> real { let d = rnd(b - a); if d <= -pi() { rnd(d + 2real * pi()) } else if d > pi() { rnd(d - 2real * pi()) } else { d } }
pub proof fn lemma_pi(p: f64) requires fin(p), val(p) == pi() ensures rnd(2real * pi()) == 2real * pi(), rnd(pi() * 2real) == 2real * pi(), rnd(pi() / 2real) == pi() / 2real, rnd(pi() / 4real) == pi() / 4real, rnd(pi()) == pi(), rnd(-pi()) == -pi(), rnd(-(2real * pi())) == -(2real * pi()), rnd(0real) == 0real
{ ax_scale(p); ax_rnd_float(p); ax_rnd_neg(pi()); ax_rnd_neg(2real * pi()); ax_rnd_zero(); }
pub axiom fn ax_pi_is_double() ensures exists|p: f64| fin(p) && #[trigger] val(p) == pi();
pub proof fn lemma_p() ensures rnd(2real * pi()) == 2real * pi(), rnd(pi() * 2real) == 2real * pi(), rnd(pi() / 2real) == pi() / 2real, rnd(pi() / 4real) == pi() / 4real, rnd(pi()) == pi(), rnd(-pi()) == -pi(), rnd(-(2real * pi())) == -(2real * pi()), rnd(0real) == 0real
{ ax_pi_is_double(); let p = choose|p: f64| fin(p) && #[trigger] val(p) == pi(); lemma_pi(p); }
pub proof fn lemma_mono(x: real) ensures x >= 0real ==> rnd(x) >= 0real, x <= 0real ==> rnd(x) <= 0real, x <= pi() ==> rnd(x) <= pi(), x >= pi() ==> rnd(x) >= pi(), x <= -pi() ==> rnd(x) <= -pi(), x >= -pi() ==> rnd(x) >= -pi(),
   x <= 2real * pi() ==> rnd(x) <= 2real * pi(), x >= -(2real * pi()) ==> rnd(x) >= -(2real * pi())
{ lemma_p(); if x >= 0real { ax_rnd_mono(0real, x); } if x <= 0real { ax_rnd_mono(x, 0real); } if x <= pi() { ax_rnd_mono(x, pi()); } if x >= pi() { ax_rnd_mono(pi(), x); } if x <= -pi() { ax_rnd_mono(x, -pi()); } if x >= -pi() { ax_rnd_mono(-pi(), x); }
  if x <= 2real * pi() { ax_rnd_mono(x, 2real * pi()); } if x >= -(2real * pi()) { ax_rnd_mono(-(2real * pi()), x); } }
/// an arc of more than half a turn taken from a whole turn is exact
pub proof fn lemma_rest(d: f64, t: f64) requires fin(d), fin(t), val(t) == 2real * pi(), pi() <= val(d) <= 2real * pi() ensures rnd(val(t) - val(d)) == val(t) - val(d), rnd(val(d) - val(t)) == val(d) - val(t)
{ ax_sterbenz(t, d); ax_sterbenz(d, t); }
"""
S = "broadcast use f64_ax, ty_ax, c_ax;"
INV = "fin(%s), -1000real <= val(%s) <= 1000real, 0 <= k, tk(angle, %s, n, k)"
INV2 = "fin(%s), -1000real <= val(%s) <= 1000real, 0 <= k, tk2(angle, %s, n, k)"
IMPLS = [common.coordinate("new_xy"),
  dict(file=common.ORI[0], ty="Orientation", consts=["CLOCKWISE", "RIGHT", "COUNTERCLOCKWISE", "LEFT", "COLLINEAR", "STRAIGHT"], fns=[]),
 dict(file=A, ty="Angle", consts=["CLOCKWISE", "COUNTERCLOCKWISE", "NONE"], constfns={"PI_TIMES_2": "fin(r), val(r) == 2real * pi()", "PI_OVER_2": "fin(r), val(r) == pi() / 2real", "PI_OVER_4": "fin(r), val(r) == pi() / 4real"}, conststart="proof { lemma_p(); }", fns=[
   Fn("to_degrees", requires="lim(radians), val(radians) == 0real || rabs(val(radians)) >= 0.000000000000000000000000000001real", ensures="fin(r), val(r) == rnd(rnd(val(radians) * 180real) / pi())", start=S + "proof { lemma_deg(val(radians)); }"),
   Fn("to_radians", requires="lim(angle_degrees), val(angle_degrees) == 0real || rabs(val(angle_degrees)) >= 0.000000000000000000000000000001real", ensures="fin(r), val(r) == rnd(rnd(val(angle_degrees) * pi()) / 180real)", start=S + "proof { lemma_rad(val(angle_degrees)); }"),
   Fn("angle_coordinates", requires="lc(*p0), lc(*p1)", ensures="fin(r), -pi() <= val(r) <= pi(), exists|y: f64, x: f64| fin(y) && fin(x) && val(y) == rnd(val(p1.y) - val(p0.y)) && val(x) == rnd(val(p1.x) - val(p0.x)) && val(r) == #[trigger] atr(y, x)",
      start=S + "broadcast use ax_at;", before=[(r"return f64::atan2", "proof { assert(atr(dy, dx) == atr(dy, dx)); }")]),
   Fn("angle_coordinate", requires="lc(*p)", ensures="fin(r), val(r) == atr(p.y, p.x), -pi() <= val(r) <= pi()", start=S + "broadcast use ax_at;"),
   Fn("is_acute", requires="ipt(*p0), ipt(*p1), ipt(*p2)", ensures="r == (dotp(*p0, *p1, *p2) > 0)", start="broadcast use f64_int, ty_ax; proof { lemma_db(*p0, *p1, *p2); }"),
   Fn("is_obtuse", requires="ipt(*p0), ipt(*p1), ipt(*p2)", ensures="r == (dotp(*p0, *p1, *p2) < 0)", start="broadcast use f64_int, ty_ax; proof { lemma_db(*p0, *p1, *p2); }"),
   Fn("angle_between", requires="lc(*tip1), lc(*tail), lc(*tip2)", ensures="fin(r), 0real <= val(r) <= pi(), exists|a: real, b: real| -pi() <= a <= pi() && -pi() <= b <= pi() && val(r) == #[trigger] diffr(a, b)"),
   Fn("angle_between_oriented", requires="lc(*tip1), lc(*tail), lc(*tip2)", ensures="fin(r), -pi() < val(r) <= pi()",
      start=S, after=[(r"let ang_del = .*?;", "proof { lemma_mono(val(a2) - val(a1)); lemma_mono(val(ang_del) + 2real * pi()); lemma_mono(val(ang_del) - 2real * pi()); if val(ang_del) > pi() { lemma_st(ang_del); } }")]),
   Fn("bisector", requires="lc(*tip1), lc(*tail), lc(*tip2)", ensures="fin(r), -pi() < val(r) <= pi()", start=S + "broadcast use adx;"),
   Fn("interior_angle", requires="lc(*p0), lc(*p1), lc(*p2)", ensures="fin(r), 0real <= val(r) < 2real * pi()", start=S + "broadcast use adx;"),
   Fn("normalize", requires="fin(angle), rabs(val(angle)) <= 1000real", ensures="fin(r), -pi() < val(r) <= pi(), congr(val(angle), val(r)), -pi() < val(angle) <= pi() ==> val(r) == val(angle)",
      start=S + "let ghost mut n: int = 0; let ghost mut k: int = 0; proof { lemma_zero(val(angle)); lemma_t(); }",
      loops=[dict(kind="while", inv="invariant " + INV % (("normalized_angle",) * 3) + ", val(normalized_angle) <= 1000real - 6real * k as real, k <= 170, decreases 200 - k",
            start="let ghost x0 = normalized_angle;", end="proof { lemma_down(val(angle), x0, normalized_angle, n, k); n = n + 1; k = k + 1; }"),
         dict(kind="while", before="let ghost k0 = k; ", inv="invariant " + INV % (("normalized_angle",) * 3) + ", k0 <= k <= 400, k0 <= 170, val(normalized_angle) <= pi(), val(normalized_angle) >= -1000real + 6real * (k - k0) as real, decreases 200 - (k - k0)",
            start="let ghost x0 = normalized_angle;", end="proof { lemma_up(val(angle), x0, normalized_angle, n, k); n = n - 1; k = k + 1; }")]),
   Fn("normalize_positive", requires="fin(angle), rabs(val(angle)) <= 1000real", ensures="fin(r), 0real <= val(r) < 2real * pi(), congr(val(angle), val(r)), 0real <= val(angle) < 2real * pi() ==> val(r) == val(angle)",
      start=S + "let ghost mut n: int = 0; let ghost mut k: int = 0; proof { lemma_zero(val(angle)); lemma_t(); }",
      loops=[dict(kind="while", inv="invariant " + INV2 % (("normalized_pos_angle",) * 3) + ", val(normalized_pos_angle) <= 2real * pi(), val(normalized_pos_angle) >= -1000real + 6real * k as real, decreases 200 - k",
            start="let ghost x0 = normalized_pos_angle;", end="proof { lemma_up0(val(angle), x0, normalized_pos_angle, n, k); n = n - 1; k = k + 1; }", after="proof { lemma_turn(val(angle), val(normalized_pos_angle), 0real, n, k); }"),
         dict(kind="while", inv="invariant " + INV2 % (("normalized_pos_angle",) * 3) + ", val(normalized_pos_angle) >= 0real, val(normalized_pos_angle) <= 1000real - 6real * k as real, decreases 200 - k",
            start="let ghost x0 = normalized_pos_angle;", end="proof { lemma_down(val(angle), x0, normalized_pos_angle, n, k); n = n + 1; k = k + 1; }")]),
   Fn("get_turn", requires="fin(ang1), fin(ang2), rabs(val(ang1)) <= 1000real, rabs(val(ang2)) <= 1000real", ensures="r == sgi3(sinr(rnd(val(ang2) - val(ang1))))", start=S),
   Fn("sin_snap", requires="fin(ang)", ensures="fin(r), if rabs(sinr(val(ang))) < val(5e-16f64) { val(r) == 0real } else { val(r) == sinr(val(ang)) }", start=S + "broadcast use ax_snap;"),
   Fn("cos_snap", requires="fin(ang)", ensures="fin(r), if rabs(cosr(val(ang))) < val(5e-16f64) { val(r) == 0real } else { val(r) == cosr(val(ang)) }", start=S + "broadcast use ax_snap;"),
   Fn("diff", requires="fin(ang1), fin(ang2), -pi() <= val(ang1) <= pi(), -pi() <= val(ang2) <= pi()", ensures="fin(r), val(r) == diffr(val(ang1), val(ang2)), 0real <= val(r) <= pi()",
      start=S + "proof { lemma_mono(val(ang1) - val(ang2)); lemma_mono(val(ang2) - val(ang1)); lemma_mono(2real * pi() - arc(val(ang1), val(ang2))); }"),
 ])]
IMPLS.append(dict(file="src/core/math/vector_2d.rs", ty="Vector2D", fns=[
   Fn("angle", requires="lim(self.x), lim(self.y)", ensures="fin(r), val(r) == atr(self.y, self.x), -pi() <= val(r) <= pi()", start=S + "broadcast use ax_at;"),
   Fn("angle_vector_2d", requires="lim(self.x), lim(self.y), lim(v.x), lim(v.y)", ensures="fin(r), 0real <= val(r) <= pi(), val(r) == diffr(atr(self.y, self.x), atr(v.y, v.x))", start="proof { theorem_diff(atr(self.y, self.x), atr(v.y, v.x)); }"),
   Fn("angle_to", requires="lim(self.x), lim(self.y), lim(v.x), lim(v.y)", ensures="fin(r), -pi() < val(r) <= pi(), val(r) == orir(atr(self.y, self.x), atr(v.y, v.x))",
      start=S, after=[(r"let ang_del = .*?;", "proof { lemma_mono(val(a2) - val(a1)); lemma_mono(val(ang_del) + 2real * pi()); lemma_mono(val(ang_del) - 2real * pi()); if val(ang_del) > pi() { lemma_st(ang_del); } }")])]))
LEMMAS = """
/// there is a double of two pi
pub axiom fn ax_2pi() ensures exists|p: f64| fin(p) && #[trigger] val(p) == 2real * pi();
pub proof fn lemma_t() ensures rnd(2real * pi()) == 2real * pi(), rnd(-(2real * pi())) == -(2real * pi()) { lemma_p(); }
pub proof fn lemma_s(x: f64) requires fin(x), rabs(val(x)) <= 1000real ensures rabs(rnd(val(x) - 2real * pi()) - (val(x) - 2real * pi())) <= e12(), rabs(rnd(val(x) + 2real * pi()) - (val(x) + 2real * pi())) <= e12()
{ ax_2pi(); let p = choose|p: f64| fin(p) && #[trigger] val(p) == 2real * pi(); lemma_step(x, p); }
pub proof fn lemma_down(a: real, x: f64, y: f64, n: int, k: int) requires fin(x), fin(y), rabs(val(x)) <= 1000real, val(y) == rnd(val(x) - 2real * pi()), turned(a, val(x), n, k), val(x) >= pi()
  ensures turned(a, val(y), n + 1, k + 1), val(y) <= val(x) - 6real, val(y) >= -1000real, val(x) >= 2real * pi() ==> val(y) >= 0real
{ lemma_s(x); lemma_turn(a, val(x), val(y), n, k); lemma_mono(val(x) - 2real * pi()); }
pub proof fn lemma_up(a: real, x: f64, y: f64, n: int, k: int) requires fin(x), fin(y), rabs(val(x)) <= 1000real, val(y) == rnd(val(x) + 2real * pi()), turned(a, val(x), n, k), val(x) <= -pi()
  ensures turned(a, val(y), n - 1, k + 1), val(y) >= val(x) + 6real, val(y) <= pi()
{ lemma_s(x); lemma_turn(a, val(x), val(y), n, k); lemma_mono(val(x) + 2real * pi()); }
pub proof fn lemma_up0(a: real, x: f64, y: f64, n: int, k: int) requires fin(x), fin(y), rabs(val(x)) <= 1000real, val(y) == rnd(val(x) + 2real * pi()), turned(a, val(x), n, k), val(x) < 0real
  ensures turned(a, val(y), n - 1, k + 1), val(y) >= val(x) + 6real, val(y) <= 2real * pi()
{ lemma_s(x); lemma_turn(a, val(x), val(y), n, k); lemma_mono(val(x) + 2real * pi()); }
/// more than half a turn less a whole turn is exact, so not below minus pi
pub proof fn lemma_st(d: f64) requires fin(d), pi() < val(d) <= 2real * pi() ensures rnd(val(d) - 2real * pi()) == val(d) - 2real * pi(), -pi() < val(d) - 2real * pi()
{ ax_2pi(); let p = choose|p: f64| fin(p) && #[trigger] val(p) == 2real * pi(); lemma_rest(d, p); }
pub proof fn lemma_rb(x: real) ensures rabs(rnd(x)) <= 2real * rabs(x) + 1real
{ ax_tiny(); ax_rnd_int(1); ax_rnd_int(-1);
  if x > 1real || x < -1real { ax_rnd_err(x); assert(rabs(x) * ulp() <= rabs(x)) by (nonlinear_arith) requires rabs(x) >= 0real, ulp() <= 1real; }
  else { ax_rnd_mono(-1real, x); ax_rnd_mono(x, 1real); } }
/// sums and differences of directions stay far below the limit of normalisation
pub broadcast proof fn lemma_ad(a: f64, b: f64, o: f64) requires fin(a), fin(b), rabs(val(a)) <= 10real, rabs(val(b)) <= 10real, #[trigger] add_ensures(a, b, o) ensures fin(o), rabs(val(o)) <= 100real { broadcast use f64_ax; lemma_rb(val(a) + val(b)); }
pub broadcast proof fn lemma_sd(a: f64, b: f64, o: f64) requires fin(a), fin(b), rabs(val(a)) <= 10real, rabs(val(b)) <= 10real, #[trigger] sub_ensures(a, b, o) ensures fin(o), rabs(val(o)) <= 100real { broadcast use f64_ax; lemma_rb(val(a) - val(b)); }
pub broadcast proof fn lemma_dd(a: f64, b: f64, o: f64) requires fin(a), fin(b), rabs(val(a)) <= 4real, val(b) == 2real, #[trigger] div_ensures(a, b, o) ensures fin(o), rabs(val(o)) <= 10real { broadcast use f64_ax; lemma_rb(val(a) / 2real); }
pub broadcast group adx { lemma_ad, lemma_sd, lemma_dd }
/// conversions
pub proof fn lemma_lin(x: real, c: real) requires rabs(x) <= 1000000000000000000000000000000real, 0real < c <= 180real ensures rabs(x * c) <= 180000000000000000000000000000000real, inrange(x * c), inrange(rnd(x * c)), rabs(rnd(x * c)) <= 400000000000000000000000000000000real
{ broadcast use f64_ax; assert(rabs(x * c) <= 180000000000000000000000000000000real) by (nonlinear_arith) requires rabs(x) <= 1000000000000000000000000000000real, 0real < c <= 180real; lemma_rb(x * c); }
pub proof fn lemma_q(y: real, c: real) requires rabs(y) <= 400000000000000000000000000000000real, c >= 1real ensures rabs(y / c) <= 400000000000000000000000000000000real, inrange(y / c)
{ broadcast use f64_ax; let q = y / c; assert(q * c == y) by (nonlinear_arith) requires q == y / c, c != 0real; assert(rabs(q) <= 400000000000000000000000000000000real) by (nonlinear_arith) requires q * c == y, c >= 1real, rabs(y) <= 400000000000000000000000000000000real; }
pub open spec fn deg(x: real) -> real { rnd(rnd(x * 180real) / pi()) }
pub open spec fn rad(x: real) -> real { rnd(rnd(x * pi()) / 180real) }
pub proof fn lemma_deg(x: real) requires rabs(x) <= 1000000000000000000000000000000real ensures inrange(x * 180real), inrange(rnd(x * 180real) / pi()) { lemma_lin(x, 180real); lemma_q(rnd(x * 180real), pi()); }
pub proof fn lemma_rad(x: real) requires rabs(x) <= 1000000000000000000000000000000real ensures inrange(x * pi()), inrange(rnd(x * pi()) / 180real) { lemma_lin(x, pi()); lemma_q(rnd(x * pi()), 180real); }
/// a rounded value is within one part in 2^53 of the value
pub open spec fn rel(r: real, x: real, k: int) -> bool { rabs(r - x) <= rabs(x) * (k as real * ulp()) }
pub proof fn theorem_turn(a: real, b: real) ensures sgi3(sinr(rnd(b - a))) == -sgi3(sinr(rnd(a - b))), a == b ==> sgi3(sinr(rnd(b - a))) == 0 { broadcast use ax_sin; ax_rnd_neg(b - a); ax_rnd_zero(); assert(-(b - a) == a - b); }
pub proof fn theorem_diff(a: real, b: real) ensures diffr(a, b) == diffr(b, a), a == b ==> diffr(a, b) == 0real { ax_rnd_zero(); }
/// conversion there and back, to four parts in 2^52
pub proof fn lemma_rr(x: real) requires x == 0real || rabs(x) >= tiny() ensures (1real - ulp()) * rabs(x) <= rabs(rnd(x)) <= (1real + ulp()) * rabs(x), x >= 0real ==> rnd(x) >= 0real, x <= 0real ==> rnd(x) <= 0real
{ ax_rnd_err(x); ax_rnd_zero(); if x >= 0real { ax_rnd_mono(0real, x); } else { ax_rnd_mono(x, 0real); } let a = rabs(x); let d = rabs(rnd(x) - x);
  assert((1real - ulp()) * a == a - a * ulp() && (1real + ulp()) * a == a + a * ulp()) by (nonlinear_arith); }
"""
ASSUMPTIONS = ["sin, cos and atan2 of libm by their ranges and oddness", "angles of at most 1000 (159 turns) for normalisation"]
