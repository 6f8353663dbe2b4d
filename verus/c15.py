from rsx import Fn
import common
USES = ["f64"]
F = "src/core/geom/precision_model.rs"
STRUCTS = [common.COORD, (F, "PrecisionModelType", "#[derive(Copy, Clone, PartialEq, Eq, Structural)]"), (F, "PrecisionModel", "#[derive(Copy, Clone)]")]
PRELUDE = """
pub assume_specification[ f64::abs ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == rabs(val(x));
/// std: floor is the floor of the real value
pub assume_specification[ f64::floor ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == flo(val(x));
pub assume_specification[ f64::ceil ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == -flo(-val(x));
pub assume_specification[ f64::ln ](x: f64) -> (r: f64) ensures r == lnf(x);
pub uninterp spec fn lnf(x: f64) -> f64;
pub uninterp spec fn ten() -> f64;
pub broadcast axiom fn ax_ten() ensures #[trigger] val(10.0f64) == 10real, fin(10.0f64);
/// the digits before the point of a scale, as libm and the cast to i32 give them
pub uninterp spec fn digits(x: f64) -> i32;
pub axiom fn ax_digits(x: f64) ensures -2000 <= digits(x) <= 2000;
#[verifier::external_body]
pub fn digits_of(x: f64) -> (r: i32) ensures r == digits(x) { f64::ceil(f64::ln(x) / f64::ln(10.)) as i32 }
/// rounding to single precision: a monotone function onto the singles
pub uninterp spec fn sgl(x: real) -> real;
#[verifier::external_body]
pub fn to_single(x: f64) -> (r: f64) ensures fin(x) && rabs(val(x)) <= 100000000000000000000000000000000000000real ==> fin(r) && val(r) == sgl(val(x)) { (x as f32) as f64 }
pub axiom fn ax_sgl(x: real, y: real) ensures sgl(sgl(x)) == sgl(x), x <= y ==> sgl(x) <= sgl(y);
pub open spec fn flo(x: real) -> real { x.floor() as real }
/// floor(x + 1/2)
pub open spec fn near(x: real) -> int { (x + 0.5real).floor() }
/// subtracting the floor keeps a double on its side of a half: below a half the difference is representable, from a half on rounding is monotone
pub axiom fn ax_frac(x: f64) requires fin(x) ensures (rnd(val(x) - flo(val(x))) >= 0.5real) == (val(x) - flo(val(x)) >= 0.5real);
/// the floor of a double and the whole number after it are doubles up to 2^53, and a double from 2^52 on is whole
pub axiom fn ax_whole(x: f64) requires fin(x), rabs(val(x)) >= 4503599627370496real ensures flo(val(x)) == val(x);
pub open spec fn two52() -> real { 4503599627370496real }
pub open spec fn ok(x: f64) -> bool { fin(x) && inrange(val(x)) }
/// a model as built: a floating one, or a fixed one by scale or by grid size, both not extreme
pub open spec fn sane(x: f64) -> bool { fin(x) && 0.000000000000001real <= val(x) <= 1000000000000000real }
#[verifier::opaque]
pub open spec fn wf(m: PrecisionModel) -> bool { m.model_type == PrecisionModelType::Fixed ==> fin(m.grid_size) && if val(m.grid_size) > 0real { sane(m.grid_size) && fin(m.scale) && val(m.scale) == rnd(1real / val(m.grid_size)) } else { val(m.grid_size) == 0real && sane(m.scale) } }
pub open spec fn fixed(m: PrecisionModel) -> bool { m.model_type == PrecisionModelType::Fixed }
/// built from this number: a scale, or minus a grid size
pub open spec fn built(m: PrecisionModel, s: f64) -> bool { fixed(m) && if val(s) < 0real { fin(m.grid_size) && val(m.grid_size) == -val(s) && fin(m.scale) && val(m.scale) == rnd(1real / -val(s)) } else { fin(m.grid_size) && val(m.grid_size) == 0real && fin(m.scale) && val(m.scale) == val(s) } }
pub open spec fn mag(x: f64) -> bool { fin(x) && rabs(val(x)) <= 100000000000000000000real }
// ---- what a fixed model does to a value: scale, round with ties upward, unscale
pub open spec fn up(m: PrecisionModel, v: real) -> real { if val(m.grid_size) > 0real { rnd(v / val(m.grid_size)) } else { rnd(v * val(m.scale)) } }
pub open spec fn down(m: PrecisionModel, k: int) -> real { if val(m.grid_size) > 0real { rnd(rd(k) * val(m.grid_size)) } else { rnd(rd(k) / val(m.scale)) } }
pub open spec fn rd(k: int) -> real { rnd(k as real) }
pub open spec fn fixv(m: PrecisionModel, v: real) -> real { down(m, near(up(m, v))) }
pub proof fn lemma_rnd_b(x: real, b: int) requires rabs(x) <= b as real, 0 <= b <= 9007199254740992 ensures rabs(rnd(x)) <= b as real { ax_rnd_int(b); ax_rnd_int(-b); ax_rnd_mono(x, b as real); ax_rnd_mono((-b) as real, x); }
pub proof fn lemma_mul(v: real, s: real, a: real, b: real) requires rabs(v) <= a, rabs(s) <= b ensures rabs(v * s) <= a * b
{ assert(rabs(v * s) <= a * b) by (nonlinear_arith) requires -a <= v <= a, -b <= s <= b, rabs(v * s) == (if v * s >= 0real { v * s } else { -(v * s) }); }
pub proof fn lemma_div(v: real, s: real, a: real, e: real) requires rabs(v) <= a, s >= e, e > 0real ensures rabs(v / s) <= a / e
{ assert((v / s) * s == v) by (nonlinear_arith) requires s > 0real; assert((a / e) * e == a) by (nonlinear_arith) requires e > 0real; let (q, t) = (v / s, a / e);
  assert(a >= 0real); assert(t >= 0real) by (nonlinear_arith) requires t * e == a, e > 0real, a >= 0real;
  assert(rabs(q) <= t) by (nonlinear_arith) requires q * s == v, t * e == a, -a <= v <= a, s >= e, e > 0real, t >= 0real, rabs(q) == (if q >= 0real { q } else { -q }); }
/// nothing overflows
pub proof fn lemma_up(m: PrecisionModel, v: real) requires wf(m), fixed(m), rabs(v) <= 100000000000000000000real
  ensures val(m.grid_size) > 0real ==> inrange(v / val(m.grid_size)), !(val(m.grid_size) > 0real) ==> inrange(v * val(m.scale)) && val(m.scale) > 0real,
    rabs(up(m, v)) <= 210000000000000000000000000000000000real
{ reveal(wf); broadcast use ax_big; if val(m.grid_size) > 0real { lemma_div(v, val(m.grid_size), 100000000000000000000real, 0.000000000000001real); lemma_rr(v / val(m.grid_size)); }
  else { lemma_mul(v, val(m.scale), 100000000000000000000real, 1000000000000000real); lemma_rr(v * val(m.scale)); } }
/// rounding at most doubles
pub proof fn lemma_rr(x: real) requires inrange(x) ensures rabs(rnd(x)) <= 2real * rabs(x) + 1real
{ ax_tiny(); ax_rnd_zero(); if rabs(x) >= tiny() { ax_rnd_err(x); assert(rabs(x) * ulp() <= rabs(x)) by (nonlinear_arith) requires 0real <= ulp() <= 1real, rabs(x) >= 0real; } else { ax_rnd_int(1); ax_rnd_int(-1); ax_rnd_mono(x, 1real); ax_rnd_mono(-1real, x); } }
pub proof fn lemma_down(m: PrecisionModel, x: f64, k: int) requires wf(m), fixed(m), fin(x), val(x) == rd(k), rabs(val(x)) <= 900000000000000000000000000000000000real
  ensures val(m.grid_size) > 0real ==> inrange(val(x) * val(m.grid_size)), !(val(m.grid_size) > 0real) ==> inrange(val(x) / val(m.scale)) && val(m.scale) > 0real
{ reveal(wf); broadcast use ax_big; if val(m.grid_size) > 0real { lemma_mul(val(x), val(m.grid_size), 900000000000000000000000000000000000real, 1000000000000000real); }
  else { lemma_div(val(x), val(m.scale), 900000000000000000000000000000000000real, 0.000000000000001real); } }
"""
ST = "broadcast use f64_ax, nan_ax, ty_ax; "
IMPLS = [dict(file=F, ty="PrecisionModel", fns=[
  Fn("default", ensures="r.model_type == PrecisionModelType::Floating, fnan(r.scale), fnan(r.grid_size), wf(r)", start="proof { reveal(wf); }"),
  Fn("new_with_type", ensures="r.model_type == model_type, model_type != PrecisionModelType::Fixed ==> fnan(r.scale) && fnan(r.grid_size), model_type == PrecisionModelType::Fixed ==> built(r, 1.0f64), wf(r)", start=ST + "proof { reveal(wf); }"),
  Fn("new_with_scale", requires="fin(scale), -1000000000000000real <= val(scale) <= 1000000000000000real, rabs(val(scale)) >= 0.000000000000001real", ensures="built(r, scale), wf(r)", start=ST + "proof { reveal(wf); }"),
  Fn("from_precision_model", ensures="r == pm"),
  Fn("is_floating", ensures="r == !fixed(*self)"),
  Fn("get_scale", ensures="r == self.scale"), Fn("get_type", ensures="r == self.model_type"),
  Fn("grid_size", requires="wf(*self)", ensures="!fixed(*self) ==> fnan(r), fixed(*self) && val(self.grid_size) > 0real ==> r == self.grid_size, fixed(*self) && val(self.grid_size) == 0real ==> fin(r) && val(r) == rnd(1real / val(self.scale))", start=ST + "proof { reveal(wf); if fixed(*self) && val(self.grid_size) == 0real { lemma_div(1real, val(self.scale), 1real, 0.000000000000001real); } }"),
  Fn("set_scale", requires="fin(scale), -1000000000000000real <= val(scale) <= 1000000000000000real, rabs(val(scale)) >= 0.000000000000001real", ensures="final(self).model_type == old(self).model_type, fixed(*old(self)) ==> built(*final(self), scale), wf(*final(self))",
     start=ST + "proof { reveal(wf); if val(scale) < 0real { lemma_div(1real, -val(scale), 1real, 0.000000000000001real); } }"),
  Fn("round", requires="fin(val), rabs(val_(val)) <= 210000000000000000000000000000000000real", ensures="fin(r), val_(r) == rd(near(val_(val))), rabs(val_(r)) <= 900000000000000000000000000000000000real",
     start=ST + "proof { let v = val_(val); ax_frac(val); lemma_near(v); lemma_rr(v); let k = near(v) as real; lemma_rr(k); lemma_rr(v - flo(v)); }",
     after=[(r"let low = f64::floor\(val\);", "proof { ax_rnd_float(low); lemma_near(val_(val)); }")]),
  Fn("make_precise", requires="wf(*old(self)), mag(val) || fnan(val)", ensures="""*final(self) == *old(self), fnan(val) || old(self).model_type == PrecisionModelType::Floating ==> r == val,
     mag(val) && old(self).model_type == PrecisionModelType::FloatingSingle ==> fin(r) && val_(r) == sgl(val_(val)), mag(val) && fixed(*old(self)) ==> fin(r) && val_(r) == fixv(*old(self), val_(val))""",
     subst=[(r"let (\w+) = (\w+) as f32;\s*return \1 as f64;", r"return to_single(\2);")],
     start=ST + "proof { let m = *self; if mag(val) && fixed(m) { let v = val_(val); lemma_up(m, v); assert(wfr(m)) by { reveal(wf); } lemma_near(up(m, v)); lemma_dn(m, near(up(m, v))); } }"),
  Fn("make_precise_coordinate", requires="wf(*old(self)), mag(old(coord).x) || fnan(old(coord).x), mag(old(coord).y) || fnan(old(coord).y)", ensures="""*final(self) == *old(self), final(coord).z == old(coord).z, final(coord).m == old(coord).m,
     precise(*old(self), old(coord).x, final(coord).x), precise(*old(self), old(coord).y, final(coord).y)""", start="broadcast use ty_ax;"),
  Fn("get_maximum_significant_digits", ensures="r == sig(*self)", subst=[(r"f64::ceil\(f64::ln\(self\.get_scale\(\)\) / f64::ln\(10\.\)\) as i32", "digits_of(self.get_scale())")], start="proof { ax_digits(self.scale); }"),
  Fn("equals", requires="wf(*self), wf(other)", ensures="r == same(*self, other)", start=ST + "proof { lemma_sc(*self); lemma_sc(other); }"),
  Fn("compare_to", ensures="r == if sig(*self) < sig(*other) { -1i32 } else if sig(*self) > sig(*other) { 1i32 } else { 0i32 }"),
 ])]
PRELUDE += """
pub open spec fn val_(x: f64) -> real { val(x) }
pub open spec fn wfr(m: PrecisionModel) -> bool { fin(m.grid_size) && (val(m.grid_size) > 0real || fin(m.scale)) }
pub open spec fn precise(m: PrecisionModel, a: f64, b: f64) -> bool { if fnan(a) || m.model_type == PrecisionModelType::Floating { b == a } else if fixed(m) { fin(b) && val(b) == fixv(m, val(a)) } else { fin(b) && val(b) == sgl(val(a)) } }
pub open spec fn sig(m: PrecisionModel) -> i32 { if m.model_type == PrecisionModelType::Floating { 16i32 } else if m.model_type == PrecisionModelType::FloatingSingle { 6i32 } else { (1 + digits(m.scale)) as i32 } }
pub open spec fn same(a: PrecisionModel, b: PrecisionModel) -> bool { a.model_type == b.model_type && (!fixed(a) || val(a.scale) == val(b.scale)) }
pub proof fn lemma_sc(m: PrecisionModel) requires wf(m) ensures fixed(m) ==> fin(m.scale) { reveal(wf); }
/// floor(x + 1/2) is the floor or the number after it, by the side of the half the rest is on
pub proof fn lemma_near(v: real) ensures v - flo(v) >= 0.5real ==> near(v) as real == flo(v) + 1real, v - flo(v) < 0.5real ==> near(v) as real == flo(v), 0real <= v - flo(v) < 1real, rabs(near(v) as real) <= rabs(v) + 1real, rabs(near(v) as real - v) <= 0.5real
{ let (f, g) = (v.floor(), (v + 0.5real).floor()); assert(f as real <= v && v < f as real + 1real); assert(g as real <= v + 0.5real && v + 0.5real < g as real + 1real); if v - flo(v) >= 0.5real { assert(g as real > f as real); assert(g >= f + 1); assert((g as real) < f as real + 2real); assert(g == f + 1); } else { assert((g as real) < f as real + 1real); assert(g < f + 1); assert(g as real > f as real - 1real); assert(g == f); } }
pub proof fn lemma_dn(m: PrecisionModel, k: int) requires wf(m), fixed(m), rabs(k as real) <= 300000000000000000000000000000000000real
  ensures rabs(rd(k)) <= 900000000000000000000000000000000000real, val(m.grid_size) > 0real ==> inrange(rd(k) * val(m.grid_size)), !(val(m.grid_size) > 0real) ==> inrange(rd(k) / val(m.scale)) && val(m.scale) > 0real
{ broadcast use ax_big; assert(inrange(k as real)); lemma_rr(k as real);
  reveal(wf); if val(m.grid_size) > 0real { lemma_mul(rd(k), val(m.grid_size), 900000000000000000000000000000000000real, 1000000000000000real); }
  else { lemma_div(rd(k), val(m.scale), 900000000000000000000000000000000000real, 0.000000000000001real); } }
"""
LEMMAS = """
// ---- monotone: every step is
pub proof fn lemma_near_mono(x: real, y: real) requires x <= y ensures near(x) <= near(y) { let (a, b) = (near(x), near(y)); assert((a as real) <= x + 0.5real && y + 0.5real < b as real + 1real); assert(a < b + 1); }
pub proof fn lemma_q(x: real, y: real, s: real) requires x <= y, s > 0real ensures x / s <= y / s, x * s <= y * s
{ let (a, b) = (x / s, y / s); assert(a * s == x) by (nonlinear_arith) requires s > 0real, a == x / s; assert(b * s == y) by (nonlinear_arith) requires s > 0real, b == y / s; assert(a <= b) by (nonlinear_arith) requires a * s <= b * s, s > 0real; assert(x * s <= y * s) by (nonlinear_arith) requires x <= y, s > 0real; }
pub proof fn theorem_fixed_monotone(m: PrecisionModel, v: real, w: real) requires wf(m), fixed(m), v <= w ensures fixv(m, v) <= fixv(m, w)
{ reveal(wf); let g = val(m.grid_size); let s = val(m.scale); let (i, j) = (near(up(m, v)), near(up(m, w)));
  if g > 0real { lemma_q(v, w, g); ax_rnd_mono(v / g, w / g); } else { lemma_q(v, w, s); ax_rnd_mono(v * s, w * s); }
  lemma_near_mono(up(m, v), up(m, w)); ax_rnd_mono(i as real, j as real);
  if g > 0real { lemma_q(rd(i), rd(j), g); ax_rnd_mono(rd(i) * g, rd(j) * g); } else { lemma_q(rd(i), rd(j), s); ax_rnd_mono(rd(i) / s, rd(j) / s); } }
// ---- idempotent: two roundings move a whole number below 2^49 by less than a half
pub proof fn lemma_near_int(x: real, k: int) requires rabs(x - k as real) < 0.5real ensures near(x) == k { let n = near(x); assert((n as real) <= x + 0.5real && x + 0.5real < n as real + 1real); assert(n < k + 1); assert(k < n + 1); }
pub open spec fn small(k: int) -> bool { -562949953421312 <= k <= 562949953421312 }
/// a whole number divided or multiplied by s, rounded: the relative error
pub proof fn lemma_rel(q: real) requires rabs(q) >= 0.0000000000000001real ensures rabs(rnd(q) - q) <= rabs(q) * ulp(), rabs(rnd(q)) >= 0.5real * rabs(q), rabs(rnd(q)) <= 2real * rabs(q)
{ ax_tiny(); ax_rnd_err(q); let a = rabs(q); assert(a * ulp() <= 0.5real * a) by (nonlinear_arith) requires a >= 0real, ulp() <= 0.5real; }
pub proof fn lemma_diff(a: real, b: real, s: real) requires s > 0real ensures rabs(a * s - b * s) == rabs(a - b) * s, rabs(b * s) == rabs(b) * s
{ assert(a * s - b * s == (a - b) * s) by (nonlinear_arith); let d = a - b; assert(rabs(d * s) == rabs(d) * s) by (nonlinear_arith) requires s > 0real, rabs(d) == (if d >= 0real { d } else { -d }), rabs(d * s) == (if d * s >= 0real { d * s } else { -(d * s) });
  assert(rabs(b * s) == rabs(b) * s) by (nonlinear_arith) requires s > 0real, rabs(b) == (if b >= 0real { b } else { -b }), rabs(b * s) == (if b * s >= 0real { b * s } else { -(b * s) }); }
/// t multiplies by a positive amount or divides by it; p is k over t, rounded; then p t is k up to its rounding
pub proof fn lemma_there(k: int, q: real, p: real, t: real) requires small(k), k != 0, t > 0real, q * t == k as real, rabs(p - q) <= rabs(q) * ulp() ensures near(rnd(p * t)) == k, rabs(p * t - k as real) <= rabs(k as real) * ulp()
{ let x = p * t; lemma_diff(p, q, t); let (aq, e, ak) = (rabs(q), rabs(p - q), rabs(k as real)); assert(ak == aq * t);
  assert(e * t <= (aq * ulp()) * t) by (nonlinear_arith) requires e <= aq * ulp(), t > 0real; assert((aq * ulp()) * t == (aq * t) * ulp()) by (nonlinear_arith);
  assert(rabs(x - k as real) <= ak * ulp()); assert(1real <= ak <= 562949953421312real); assert(ak * ulp() <= 0.0625real) by (nonlinear_arith) requires ak <= 562949953421312real, ulp() <= 0.0625real / 562949953421312real, ulp() > 0real;
  assert(rabs(x) >= 0.9375real); ax_tiny(); ax_rnd_err(x); let ax = rabs(x); assert(ax <= ak + 1real); assert(ax * ulp() <= 0.125real) by (nonlinear_arith) requires 0real <= ax <= 562949953421313real, 0real < ulp() <= 0.0625real / 562949953421312real;
  lemma_near_int(rnd(x), k); }
pub proof fn theorem_fixed_idempotent(m: PrecisionModel, v: real) requires wf(m), fixed(m), small(near(up(m, v))) ensures fixv(m, fixv(m, v)) == fixv(m, v)
{ reveal(wf); let g = val(m.grid_size); let s = val(m.scale); let k = near(up(m, v)); ax_rnd_int(k); ax_rnd_zero(); let kr = k as real;
  if k == 0 { if g > 0real { assert(0real * g == 0real); assert(0real / g == 0real) by (nonlinear_arith) requires g > 0real; } else { assert(0real / s == 0real) by (nonlinear_arith) requires s > 0real; assert(0real * s == 0real); } lemma_near_int(0real, 0); }
  else if g > 0real { let q = kr * g; let p = rnd(q); lemma_grow(kr, g); lemma_rel(q); assert(p / g == p * (1real / g)) by (nonlinear_arith) requires g > 0real; assert(q * (1real / g) == kr) by (nonlinear_arith) requires q == kr * g, g > 0real; assert(1real / g > 0real) by (nonlinear_arith) requires g > 0real; lemma_there(k, q, p, 1real / g); }
  else { let q = kr / s; let p = rnd(q); assert(q * s == kr) by (nonlinear_arith) requires q == kr / s, s > 0real; lemma_shrink(kr, s, q); lemma_rel(q); lemma_there(k, q, p, s); } }
pub proof fn lemma_grow(k: real, g: real) requires rabs(k) >= 1real, g >= 0.000000000000001real ensures rabs(k * g) >= 0.000000000000001real
{ lemma_diff(0real, k, g); let a = rabs(k); assert(a * g >= g) by (nonlinear_arith) requires a >= 1real, g > 0real; }
pub proof fn lemma_shrink(k: real, s: real, q: real) requires rabs(k) >= 1real, 0real < s <= 1000000000000000real, q * s == k ensures rabs(q) >= 0.000000000000001real
{ lemma_diff(0real, q, s); let a = rabs(q); assert(a * s >= 1real); assert(a >= 0.000000000000001real) by (nonlinear_arith) requires a * s >= 1real, 0real < s <= 1000000000000000real, a >= 0real; }
// ---- near: the grid index is within a half of the scaled value up to its rounding, and the value returned is that grid line up to its own
pub open spec fn scaled(m: PrecisionModel, v: real) -> real { if val(m.grid_size) > 0real { v / val(m.grid_size) } else { v * val(m.scale) } }
pub open spec fn line(m: PrecisionModel, k: int) -> real { if val(m.grid_size) > 0real { (k as real) * val(m.grid_size) } else { (k as real) / val(m.scale) } }
pub open spec fn step(m: PrecisionModel) -> real { if val(m.grid_size) > 0real { val(m.grid_size) } else { 1real / val(m.scale) } }
pub proof fn theorem_nearest_line(m: PrecisionModel, v: real) requires wf(m), fixed(m)
  ensures rabs(near(up(m, v)) as real - scaled(m, v)) <= 0.5real + rabs(scaled(m, v)) * ulp()
{ let x = scaled(m, v); let u = up(m, v); assert(u == rnd(x)); ax_tiny(); lemma_near(u); let k = near(u);
  if rabs(x) >= tiny() { ax_rnd_err(x); } else { let t = 0.00000000000000000001real; ax_rnd_err(t); ax_rnd_mono(x, t); ax_rnd_mono(-t, x); ax_rnd_neg(t); assert(t * ulp() <= t) by (nonlinear_arith) requires t > 0real, ulp() <= 1real; lemma_near_int(u, 0); let a = rabs(x); assert(a * ulp() >= 0real) by (nonlinear_arith) requires a >= 0real, ulp() > 0real; } }
pub proof fn theorem_line_rounded(m: PrecisionModel, v: real) requires wf(m), fixed(m), small(near(up(m, v))) ensures rabs(fixv(m, v) - line(m, near(up(m, v)))) <= rabs(line(m, near(up(m, v)))) * ulp()
{ reveal(wf); let g = val(m.grid_size); let s = val(m.scale); let k = near(up(m, v)); ax_rnd_int(k); ax_rnd_zero(); let kr = k as real;
  if k == 0 { if g > 0real { assert(0real * g == 0real); } else { assert(0real / s == 0real) by (nonlinear_arith) requires s > 0real; } assert(0real * ulp() == 0real); }
  else if g > 0real { lemma_grow(kr, g); lemma_rel(kr * g); } else { let q = kr / s; assert(q * s == kr) by (nonlinear_arith) requires q == kr / s, s > 0real; lemma_shrink(kr, s, q); lemma_rel(q); } }
/// a line of the grid that is a double stays
pub proof fn theorem_lines_stay(m: PrecisionModel, k: int) requires wf(m), fixed(m), small(k), k != 0 ensures fixv(m, down(m, k)) == down(m, k)
{ reveal(wf); let g = val(m.grid_size); let s = val(m.scale); ax_rnd_int(k); let kr = k as real;
  if g > 0real { let q = kr * g; let p = rnd(q); lemma_grow(kr, g); lemma_rel(q); assert(p / g == p * (1real / g)) by (nonlinear_arith) requires g > 0real; assert(q * (1real / g) == kr) by (nonlinear_arith) requires q == kr * g, g > 0real; assert(1real / g > 0real) by (nonlinear_arith) requires g > 0real; lemma_there(k, q, p, 1real / g); }
  else { let q = kr / s; let p = rnd(q); assert(q * s == kr) by (nonlinear_arith) requires q == kr / s, s > 0real; lemma_shrink(kr, s, q); lemma_rel(q); lemma_there(k, q, p, s); } }
/// ties go up, everything else to the nearest
pub proof fn theorem_ties(k: int) ensures near(k as real + 0.5real) == k + 1, near(k as real - 0.5real) == k, near(k as real) == k
{ assert(k as real + 0.5real + 0.5real == (k + 1) as real); assert(k as real - 0.5real + 0.5real == k as real); lemma_near_int(k as real, k); let a = near(k as real + 0.5real); assert((a as real) <= (k + 1) as real && ((k + 1) as real) < a as real + 1real); assert(a <= k + 1 && k + 1 < a + 1); let b = near(k as real - 0.5real); assert((b as real) <= k as real && (k as real) < b as real + 1real); }
// ---- singles
pub proof fn theorem_single(v: real, w: real) ensures sgl(sgl(v)) == sgl(v), v <= w ==> sgl(v) <= sgl(w) { ax_sgl(v, w); }
// ---- equality is an equivalence, comparison agrees with it and is antisymmetric and transitive
pub proof fn theorem_equivalence(a: PrecisionModel, b: PrecisionModel, c: PrecisionModel) ensures same(a, a), same(a, b) == same(b, a), same(a, b) && same(b, c) ==> same(a, c) { }
pub open spec fn cmp(a: PrecisionModel, b: PrecisionModel) -> int { if sig(a) < sig(b) { -1int } else if sig(a) > sig(b) { 1int } else { 0int } }
pub proof fn theorem_order(a: PrecisionModel, b: PrecisionModel, c: PrecisionModel) ensures cmp(a, b) == -cmp(b, a), cmp(a, a) == 0, cmp(a, b) <= 0 && cmp(b, c) <= 0 ==> cmp(a, c) <= 0, same(a, b) && !fixed(a) ==> cmp(a, b) == 0, fixed(a) && fixed(b) && a.scale == b.scale ==> cmp(a, b) == 0 { }
"""
