from rsx import Fn
import ddint, copy
USES = ["f64"]
F = "src/core/math/dd.rs"
STRUCTS = [(F, "DD", "#[derive(Copy, Clone)]")]
_c = ddint.PRELUDE
PRELUDE = """
pub open spec fn ddi(d: DD, k: int) -> bool { isi(d.hi) && isi(d.lo) && it(d.hi) == k && it(d.lo) == 0 }
pub open spec fn dv(d: DD) -> int { it(d.hi) }
pub open spec fn ddok(d: DD, b: int) -> bool { isi(d.hi) && isi(d.lo) && it(d.lo) == 0 && -b <= it(d.hi) <= b }
pub proof fn lemma_pb(i: int, j: int, a: int, b: int) requires -a <= i <= a, -b <= j <= b ensures -(a * b) <= i * j <= a * b
{ assert(-(a * b) <= i * j <= a * b) by (nonlinear_arith) requires -a <= i <= a, -b <= j <= b; }
""" + _c[_c.index("// IEEE: a non-finite"):_c.index("pub assume_specification[ f64::is_infinite")] + _c[_c.index("/// a rounded value is at most"):] + """
pub assume_specification[ f64::abs ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == rabs(val(x));
pub assume_specification[ f64::floor ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == flo(val(x)), fnan(x) ==> fnan(r);
pub assume_specification[ f64::ceil ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == -flo(-val(x)), fnan(x) ==> fnan(r);
pub assume_specification[ i32::abs ](x: i32) -> (r: i32) requires x > -2147483648 ensures r == if x >= 0 { x as int } else { -(x as int) };
pub assume_specification[ f64::sqrt ](x: f64) -> (r: f64);
/// the language's cast truncates
#[verifier::external_body]
pub fn to_i32(x: f64) -> (r: i32) ensures fin(x) && rabs(val(x)) < 2147483648real ==> r as real == if val(x) >= 0real { flo(val(x)) } else { -flo(-val(x)) } { x as i32 }
pub open spec fn flo(x: real) -> real { x.floor() as real }
// ---- the error-free transformations, theorems of Knuth and Dekker (proved in Flocq: TwoSum_correct, Fast2Sum_correct, Dekker)
pub open spec fn two_s(x: real, y: real) -> real { let a = rnd(x + y); let e = rnd(a - x); let s = rnd(a - e); rnd(rnd(y - e) + rnd(x - s)) }
pub axiom fn ax_two_sum(x: f64, y: f64) requires fin(x), fin(y), inrange(4real * val(x)), inrange(4real * val(y)) ensures two_s(val(x), val(y)) == val(x) + val(y) - rnd(val(x) + val(y));
pub axiom fn ax_fast_two_sum(x: f64, y: f64) requires fin(x), fin(y), rabs(val(y)) <= rabs(val(x)), inrange(4real * val(x))
  ensures rnd(val(y) + rnd(val(x) - rnd(val(x) + val(y)))) == val(x) + val(y) - rnd(val(x) + val(y));
pub open spec fn high(x: real) -> real { let p = rnd(134217729real * x); rnd(p - rnd(p - x)) }
pub open spec fn tail(x: real) -> real { rnd(x - high(x)) }
pub open spec fn two_p(x: real, y: real) -> real { let r = rnd(x * y); rnd(rnd(rnd(rnd(rnd(high(x) * high(y)) - r) + rnd(high(x) * tail(y))) + rnd(tail(x) * high(y))) + rnd(tail(x) * tail(y))) }
/// the product does not underflow
pub open spec fn solid(x: real) -> bool { x == 0real || rabs(x) >= 4503599627370496real * tiny() }
pub axiom fn ax_two_prod(x: f64, y: f64) requires fin(x), fin(y), rabs(val(x)) <= e38(), rabs(val(y)) <= e38(), solid(val(x) * val(y)) ensures two_p(val(x), val(y)) == val(x) * val(y) - rnd(val(x) * val(y));
pub open spec fn e18() -> real { 1000000000000000000real }
pub open spec fn e60() -> real { 1000000000000000000000000000000000000000000000000000000000000real }
// ---- values
pub open spec fn num(d: DD) -> bool { fin(d.hi) && fin(d.lo) }
pub open spec fn rv(d: DD) -> real { val(d.hi) + val(d.lo) }
/// as every operation leaves it: the high word is the double nearest to the value
pub open spec fn norm(d: DD) -> bool { num(d) && val(d.hi) == rnd(rv(d)) }
/// exactly x: its double and the exact rest
pub open spec fn is(d: DD, x: real) -> bool { num(d) && val(d.hi) == rnd(x) && val(d.lo) == x - rnd(x) }
pub open spec fn single(d: DD) -> bool { num(d) && val(d.lo) == 0real }
pub open spec fn lt60(x: f64) -> bool { fin(x) && rabs(val(x)) <= e60() }
pub open spec fn lt18(x: f64) -> bool { fin(x) && rabs(val(x)) <= e18() }
/// the words add without rounding in the low part: doubles, and longer numbers whose rest fits
pub open spec fn neat(ah: real, al: real, bh: real, bl: real) -> bool {
  let p = ah + bh; let t = al + bl; let e = p - rnd(p) + t;
  rnd(t) == t && rnd(e) == e && (rabs(e) <= rabs(rnd(p)) || rnd(p) == 0real || rnd(rnd(p) + e) == rnd(p) + e) }
pub proof fn lemma_neat(x: real, y: real, fx: f64, fy: f64) requires fin(fx), fin(fy), val(fx) == x, val(fy) == y, rabs(x) <= e60(), rabs(y) <= e60() ensures neat(x, 0real, y, 0real)
{ broadcast use ax_big; ax_rnd_zero(); ax_two_sum(fx, fy); let p = x + y; let s = p - rnd(p); ax_rnd_err_sum(fx, fy); let a = rabs(p); assert(a * ulp() <= 0.25real * a) by (nonlinear_arith) requires a >= 0real, ulp() <= 0.25real;
  let q = rnd(y - rnd(rnd(p) - x)) + rnd(x - rnd(rnd(p) - rnd(rnd(p) - x))); lemma_idem(q); }
/// rounding a rounded number changes nothing
pub axiom fn ax_rnd_idem(x: real) ensures rnd(rnd(x)) == rnd(x);
pub proof fn lemma_idem(q: real) ensures rnd(rnd(q)) == rnd(q) { ax_rnd_idem(q); }
pub proof fn lemma_norm(d: DD, x: real) requires is(d, x) ensures norm(d), rv(d) == x { }
pub proof fn lemma_ints(d: DD, x: real, k: int) requires is(d, x), x == k as real, in53(k) ensures ddi(d, k) { ax_rnd_int(k); lemma_iv(d.hi, k); lemma_iv(d.lo, 0); }
"""
BX = "broadcast use f64_ax, bd, nan_ax, ty_ax; "
BA = "broadcast use f64_ax, nan_ax, ty_ax; "
_ADD = "lt60(old(self).hi) && lt60(old(self).lo) && %s && neat(val(old(self).hi), val(old(self).lo), %s, %s) ==> is(*final(self), rv(*old(self)) + %s)"
def DIV(name):
    """a two-word number divided by a double"""
    me, out = {"divide_dd": ("*self", "r"), "reciprocal": ("one()", "r"), "self_divide_hi_lo": ("*old(self)", "*final(self)")}[name]
    yh, yl = {"divide_dd": ("y.hi", "y.lo"), "reciprocal": ("self.hi", "self.lo"), "self_divide_hi_lo": ("yhi", "ylo")}[name]
    h0, l0 = ("1.0f64", "0.0f64") if name == "reciprocal" else ("self.hi", "self.lo")
    last = "rnd(h - val(uu)) - val(u1)" if name == "reciprocal" else "rnd(rnd(h - val(uu)) - val(u1)) + l"
    return Fn(name, ensures="divisible(%s, %s) && fin(%s) && val(%s) == 0real ==> quot(%s, %s, val(%s)), fin(%s) && val(%s) == 0real ==> !fin(%s.hi)" % (me, yh, yl, yl, out, me, yh, yh, yh, out.replace("*", "")),
      start=BX + "broadcast use nf; let ghost (h0, l0) = (%s, %s); let ghost (h, l, yv) = (val(h0), val(l0), val(%s)); let ghost d0 = %s; let ghost g = divisible(d0, %s) && fin(%s) && val(%s) == 0real; proof { ax_rnd_zero(); lemma_one(); if g { lemma_div_in(d0, %s); } }" % (h0, l0, yh, "one()" if name == "reciprocal" else "*self", yh, yl, yl, yh),
      after=[
        (r"cc = .*?;", "proof { if g { lemma_cc(d0, %s, cc); } }" % yh),
        (r"tc = .*?;", "proof { if g { assert(val(hc) == high(val(cc))); assert(val(tc) == tail(val(cc))); } }"),
        (r"ty = .*?;", "proof { if g { assert(val(hy) == high(yv)); assert(val(ty) == tail(yv)); lemma_parts38(val(cc), yv); } }"),
        (r"u = \(\(\(hc.*?;", "let ghost u1 = u; proof { if g { assert(val(uu) == rnd(val(cc) * yv)); assert(val(u) == two_p(val(cc), yv)); ax_two_prod(cc, %s); lemma_rem(d0, %s, cc); } }" % (yh, yh)),
        (r"\bc = \(\(.*?;", "proof { if g { assert(val(cc) * val(%s) == 0real); ax_rnd_idem(%s); assert(val(c) == rnd(rnd(%s) / yv)); lemma_tot(d0, %s, cc, c); ax_fast_two_sum(cc, c); lemma_quot_end(d0, %s, cc, c); } }" % (yl, last, last, yh, yh)),
        ])
FL = lambda f: """norm(*self) && rabs(val(self.hi)) <= %s ==> num(r) && rv(r) == %s""" 
IMPLS = [dict(file=F, ty="DD", consts=["SPLIT"], fns=[
  Fn("default", ensures="is(r, 0real)", start="proof { ax_rnd_zero(); } broadcast use f64_ax;"),
  Fn("new_x", ensures="r.hi == x, val(r.lo) == 0real, fin(r.lo), fin(x) ==> is(r, val(x)) && single(r)", start="broadcast use f64_ax, ty_ax; proof { if fin(x) { ax_rnd_float(x); } }"),
  Fn("new_hi_lo", ensures="r.hi == hi, r.lo == lo"),
  Fn("new_from_dd", ensures="r == *dd"),
  Fn("new_pi", ensures="r.hi == 3.141592653589793116e+00f64, r.lo == 1.224646799147353207e-16f64"),
  Fn("new_two_pi", ensures="r.hi == 6.283185307179586232e+00f64, r.lo == 2.449293598294706414e-16f64"),
  Fn("new_pi_2", ensures="r.hi == 1.570796326794896558e+00f64, r.lo == 6.123233995736766036e-17f64"),
  Fn("new_e", ensures="r.hi == 2.718281828459045091e+00f64, r.lo == 1.445646891729250158e-16f64"),
  Fn("new_nan", ensures="fnan(r.hi), fnan(r.lo)"), Fn("create_nan", ensures="fnan(r.hi), fnan(r.lo)"),
  Fn("value_of_f64", ensures="r.hi == x, val(r.lo) == 0real, fin(r.lo), fin(x) ==> is(r, val(x)) && single(r)"),
  Fn("copy", ensures="r == *dd"), Fn("copy_self", ensures="r == *self"),
  Fn("set_value_dd", ensures="*final(self) == *dd"),
  Fn("set_value_f64", ensures="final(self).hi == value, fin(value) ==> is(*final(self), val(value)) && single(*final(self))", start="broadcast use f64_ax, ty_ax; proof { if fin(value) { ax_rnd_float(value); } }"),
  # ---- sums
  Fn("self_add_f64", ensures=_ADD % ("lt60(y)", "val(y)", "0real", "val(y)"),
     start=BA + "let ghost (h0, l0) = (self.hi, self.lo); let ghost g = lt60(h0) && lt60(l0) && lt60(y) && neat(val(h0), val(l0), val(y), 0real); proof { broadcast use ax_big; if g { lemma_two_in(h0, y, l0); ax_two_sum(h0, y); } }",
     after=[(r"f = s \+ self\.lo;", "proof { if g { assert(val(s) == val(h0) + val(y) - val(ss)); assert(val(f) == val(s) + val(l0)); lemma_fast_in(ss, f); } }"),
            (r"\bh = f .*?;", "proof { if g { lemma_fast(ss, f, hh, h); lemma_idem(val(ss) + val(f)); } }")], end="proof { if g { ax_rnd_float(h); lemma_lo(val(hh), val(h)); } }"),
  Fn("self_add_hi_lo", ensures=_ADD % ("lt60(yhi) && lt60(ylo)", "val(yhi)", "val(ylo)", "val(yhi) + val(ylo)"),
     start=BA + "let ghost (h0, l0) = (self.hi, self.lo); let ghost g = lt60(h0) && lt60(l0) && lt60(yhi) && lt60(ylo) && neat(val(h0), val(l0), val(yhi), val(ylo)); proof { broadcast use ax_big; if g { lemma_two_in(h0, yhi, h0); lemma_two_in(l0, ylo, l0); ax_two_sum(h0, yhi); ax_two_sum(l0, ylo); ax_rnd_zero(); } }",
     after=[(r"e = s \+ tt;", "proof { if g { assert(val(s) == val(h0) + val(yhi) - val(ss)); assert(val(t) == 0real); assert(val(tt) == val(l0) + val(ylo)); assert(val(e) == val(s) + val(tt)); lemma_fast_in(ss, e); } } let ghost e1 = e;"),
            (r"\bh = e .*?;", "proof { if g { lemma_fast(ss, e1, hh, h); lemma_idem(val(ss) + val(e1)); } }")], end="proof { if g { ax_rnd_float(h); lemma_lo(val(hh), val(h)); } }"),
  Fn("self_add_dd", ensures=_ADD % ("lt60(y.hi) && lt60(y.lo)", "val(y.hi)", "val(y.lo)", "rv(*y)")),
  Fn("add_dd", ensures="lt60(self.hi) && lt60(self.lo) && lt60(y.hi) && lt60(y.lo) && neat(val(self.hi), val(self.lo), val(y.hi), val(y.lo)) ==> is(r, rv(*self) + rv(*y))"),
  Fn("add_f64", ensures="lt60(self.hi) && lt60(self.lo) && lt60(y) && neat(val(self.hi), val(self.lo), val(y), 0real) ==> is(r, rv(*self) + val(y))"),
  Fn("negate", ensures="num(*self) ==> num(r) && val(r.hi) == -val(self.hi) && val(r.lo) == -val(self.lo) && rv(r) == -rv(*self), norm(*self) ==> norm(r), fnan(self.hi) ==> r == *self", start=BX + "proof { ax_rnd_neg(rv(*self)); }"),
  Fn("subtract_dd", ensures="lt60(self.hi) && lt60(self.lo) && lt60(y.hi) && lt60(y.lo) && neat(val(self.hi), val(self.lo), -val(y.hi), -val(y.lo)) ==> is(r, rv(*self) - rv(*y))"),
  Fn("subtract_f64", ensures="lt60(self.hi) && lt60(self.lo) && lt60(y) && neat(val(self.hi), val(self.lo), -val(y), 0real) ==> is(r, rv(*self) - val(y))", start=BX),
  Fn("self_subtract_dd", ensures="fnan(old(self).hi) ==> *final(self) == *old(self), " + _ADD % ("lt60(y.hi) && lt60(y.lo)", "-val(y.hi)", "-val(y.lo)", "(-rv(*y))"), start=BX),
  Fn("self_subtract_f64", ensures="fnan(old(self).hi) ==> *final(self) == *old(self), " + _ADD % ("lt60(y)", "-val(y)", "0real", "(-val(y))"), start=BX),
  # ---- products of doubles
  Fn("self_multiply_hi_lo", ensures="lt18(old(self).hi) && single(*old(self)) && lt18(yhi) && fin(ylo) && val(ylo) == 0real && solid(val(old(self).hi) * val(yhi)) ==> is(*final(self), val(old(self).hi) * val(yhi))",
     start=BX + "let ghost (h0, l0) = (self.hi, self.lo); let ghost g = lt18(h0) && single(*self) && lt18(yhi) && fin(ylo) && val(ylo) == 0real && solid(val(h0) * val(yhi)); proof { ax_rnd_zero(); if g { ax_two_prod(h0, yhi); lemma_split(h0); lemma_split(yhi); lemma_pb18(val(h0), val(yhi)); } }",
     after=[(r"tx = .*?;", "proof { if g {  assert(val(hx) == high(val(h0))); assert(val(tx) == tail(val(h0))); } }"),
            (r"ty = .*?;", "proof { if g { assert(val(hy) == high(val(yhi))); assert(val(ty) == tail(val(yhi))); lemma_parts(val(h0), val(yhi)); } }"),
            (r"c = \(\(\(\(.*?;", "proof { if g { assert(val(h0) * val(ylo) == 0real); assert(val(l0) * val(yhi) == 0real); lemma_idem4(val(h0), val(yhi)); assert(val(c) == val(h0) * val(yhi) - rnd(val(h0) * val(yhi))); lemma_idem(val(h0) * val(yhi)); } }"),
            ], end="proof { if g { ax_rnd_float(c); } }"),
  Fn("self_multiply_dd", ensures="lt18(old(self).hi) && single(*old(self)) && lt18(y.hi) && single(*y) && solid(val(old(self).hi) * val(y.hi)) ==> is(*final(self), val(old(self).hi) * val(y.hi))"),
  Fn("self_multiply_f64", ensures="lt18(old(self).hi) && single(*old(self)) && lt18(y) && solid(val(old(self).hi) * val(y)) ==> is(*final(self), val(old(self).hi) * val(y))", start=BX),
  Fn("multiply_dd", ensures="lt18(self.hi) && single(*self) && lt18(y.hi) && single(*y) && solid(val(self.hi) * val(y.hi)) ==> is(r, val(self.hi) * val(y.hi)), fnan(y.hi) ==> fnan(r.hi)", start=BX),
  Fn("multiply_f64", ensures="lt18(self.hi) && single(*self) && lt18(y) && solid(val(self.hi) * val(y)) ==> is(r, val(self.hi) * val(y)), fnan(y) ==> fnan(r.hi)", start=BX),
  Fn("sqr", ensures="lt18(self.hi) && single(*self) && solid(val(self.hi) * val(self.hi)) ==> is(r, val(self.hi) * val(self.hi))"),
  Fn("self_sqr", ensures="lt18(old(self).hi) && single(*old(self)) && solid(val(old(self).hi) * val(old(self).hi)) ==> is(*final(self), val(old(self).hi) * val(old(self).hi))"),
  Fn("sqr_f64", ensures="lt18(x) && solid(val(x) * val(x)) ==> is(r, val(x) * val(x))"),
  Fn("determinant_xy_dd", ensures="i26(x1.hi) && single(*x1) && i26(y1.hi) && single(*y1) && i26(x2.hi) && single(*x2) && i26(y2.hi) && single(*y2) ==> ddi(r, it(x1.hi) * it(y2.hi) - it(y1.hi) * it(x2.hi))",
     start=BX + "proof { if i26(x1.hi) && i26(y1.hi) && i26(x2.hi) && i26(y2.hi) { lemma_det(x1.hi, y1.hi, x2.hi, y2.hi); } }", after=[(r"copy\.self_subtract_dd\(.*?;", "proof { if i26(x1.hi) && i26(y1.hi) && i26(x2.hi) && i26(y2.hi) && single(*x1) && single(*y1) && single(*x2) && single(*y2) { let k = it(x1.hi) * it(y2.hi) - it(y1.hi) * it(x2.hi); assert(is(copy, k as real)); lemma_ints(copy, k as real, k); } }")]),
  Fn("determinant_xy_f64", ensures="i26(x1) && i26(y1) && i26(x2) && i26(y2) ==> ddi(r, it(x1) * it(y2) - it(y1) * it(x2))", start=BX),
  # ---- quotients by a double
  DIV("self_divide_hi_lo"), Fn("self_divide_dd", ensures="divisible(*old(self), y.hi) && single(*y) ==> quot(*final(self), *old(self), val(y.hi)), fin(y.hi) && val(y.hi) == 0real ==> !fin(final(self).hi)"),
  Fn("self_divide_f64", ensures="divisible(*old(self), y) ==> quot(*final(self), *old(self), val(y)), fin(y) && val(y) == 0real ==> !fin(final(self).hi)", start=BX),
  Fn("divide_f64", ensures="divisible(*self, y) ==> quot(r, *self, val(y)), fnan(y) ==> fnan(r.hi), fin(y) && val(y) == 0real ==> !fin(r.hi)", start=BX),
  DIV("divide_dd"), DIV("reciprocal"),
  Fn("sqrt_dd", ensures="norm(*self) ==> (rv(*self) == 0real ==> is(r, 0real)) && (rv(*self) < 0real ==> fnan(r.hi))", start=BX),
  Fn("sqrt_f64", ensures="fin(x) ==> (val(x) == 0real ==> is(r, 0real)) && (val(x) < 0real ==> fnan(r.hi))", start=BX + "proof { if fin(x) { ax_rnd_float(x); } }"),
  Fn("pow", requires="exp > -2147483648", ensures="exp == 0 ==> is(r, 1real), exp > 0 && single(*self) && isi(self.hi) && small(it(self.hi), exp as int) ==> ddi(r, ip(it(self.hi), exp as int))",
     start=BX + "let ghost b0 = it(self.hi); let ghost w = ip(b0, exp as int); let ghost g = exp > 0 && single(*self) && isi(self.hi) && small(b0, exp as int); proof { if g { lemma_ip1(b0); if exp == 1 { lemma_iv(self.lo, 0); } } ax_rnd_int(1); }",
     loops=[dict(kind="while", inv="invariant 0 <= n, (g ==> ddi(r, it(r.hi)) && ddi(s, it(s.hi)) && small(it(r.hi), n as int) && it(s.hi) * ip(it(r.hi), n as int) == w && (n > 0 || true) && in50(w) && in50(it(s.hi))), decreases n".replace("0 <= n, ","0 <= n <= 2147483647, "),
       start="let ghost (r0, s0, n0) = (it(r.hi), it(s.hi), n as int); proof { if g { lemma_step(r0, s0, n0, w); } }")],
     before=[(r"while n > 0", "proof { if g { lemma_iv(s.hi, 1); lemma_iv(s.lo, 0); lemma_iv(r.lo, 0); assert(1 * ip(b0, exp as int) == w); } }")],
     after=[(r"s\.self_multiply_dd\(.*?;", "proof { if g { lemma_intp(s, s0, r0); } }"),
            (r"r = r\.sqr\(\);", "proof { if g { lemma_intp(r, r0, r0); } }")]),
  # ---- rounding to whole numbers
  Fn("floor", ensures="norm(*self) ==> num(r) && rv(r) == flo(rv(*self)), fnan(self.hi) ==> fnan(r.hi)", start=BX + "proof { if norm(*self) { lemma_floor(*self); } }"),
  Fn("ceil", ensures="norm(*self) ==> num(r) && rv(r) == -flo(-rv(*self)), fnan(self.hi) ==> fnan(r.hi)", start=BX + "proof { if norm(*self) { lemma_ceil(*self); } }"),
  Fn("rint", ensures="norm(*old(self)) && lt60(old(self).hi) && lt60(old(self).lo) && neat(val(old(self).hi), val(old(self).lo), 0.5real, 0real) ==> num(r) && rv(r) == flo(rv(*old(self)) + 0.5real), *final(self) == *old(self)", start=BX),
  Fn("trunc", ensures="norm(*self) ==> num(r) && rv(r) == if rv(*self) > 0real { flo(rv(*self)) } else { -flo(-rv(*self)) }, fnan(self.hi) ==> fnan(r.hi)", start=BX + "proof { if norm(*self) { lemma_sign(*self); } }"),
  # ---- sign
  Fn("signum", ensures="norm(*self) ==> r == sg(rv(*self)), num(*self) ==> r == sgw(*self)", start=BX + "proof { if norm(*self) { lemma_sign(*self); } }"),
  Fn("abs", ensures="norm(*self) ==> norm(r) && rv(r) == rabs(rv(*self)), fnan(self.hi) ==> fnan(r.hi)", start=BX + "proof { if norm(*self) { lemma_sign(*self); } }"),
  Fn("is_zero", ensures="norm(*self) ==> r == (rv(*self) == 0real), num(*self) ==> r == (sgw(*self) == 0)", start=BX + "proof { if norm(*self) { lemma_sign(*self); } }"),
  Fn("is_negative", ensures="norm(*self) ==> r == (rv(*self) < 0real), num(*self) ==> r == (sgw(*self) < 0)", start=BX + "proof { if norm(*self) { lemma_sign(*self); } }"),
  Fn("is_positive", ensures="norm(*self) ==> r == (rv(*self) > 0real), num(*self) ==> r == (sgw(*self) > 0)", start=BX + "proof { if norm(*self) { lemma_sign(*self); } }"),
  Fn("is_nan", ensures="r == fnan(self.hi), fin(self.hi) ==> !r", start=BX),
  Fn("double_value", ensures="norm(*self) && inrange(rv(*self)) ==> fin(r) && val(r) == val(self.hi), !fin(self.hi) ==> !fin(r)", start=BX + "broadcast use nf; "),
  Fn("int_value", ensures="fin(self.hi) && rabs(val(self.hi)) < 2147483648real ==> r as real == if val(self.hi) >= 0real { flo(val(self.hi)) } else { -flo(-val(self.hi)) }", subst=[(r"self\.hi as i32", "to_i32(self.hi)")]),
  # ---- order
  Fn("equals", ensures="num(*self) && num(*y) ==> r == (ord(*self, *y) == 0), fnan(self.hi) || fnan(y.hi) ==> !r", start=BX),
  Fn("gt", ensures="num(*self) && num(*y) ==> r == (ord(*self, *y) > 0), fnan(self.hi) || fnan(y.hi) ==> !r", start=BX),
  Fn("ge", ensures="num(*self) && num(*y) ==> r == (ord(*self, *y) >= 0), fnan(self.hi) || fnan(y.hi) ==> !r", start=BX),
  Fn("lt", ensures="num(*self) && num(*y) ==> r == (ord(*self, *y) < 0), fnan(self.hi) || fnan(y.hi) ==> !r", start=BX),
  Fn("le", ensures="num(*self) && num(*y) ==> r == (ord(*self, *y) <= 0), fnan(self.hi) || fnan(y.hi) ==> !r", start=BX),
  Fn("compare_to", ensures="num(*self) && num(*other) ==> r == ord(*self, *other)", start=BX),
  Fn("min", ensures="num(*self) && num(*x) ==> r == if ord(*self, *x) <= 0 { *self } else { *x }", start=BX),
  Fn("max", ensures="num(*self) && num(*x) ==> r == if ord(*self, *x) >= 0 { *self } else { *x }", start=BX),
 ])]
PRELUDE += """
// ---- division by a double
pub open spec fn e_18() -> real { 0.000000000000000001real }
pub open spec fn e_9() -> real { 0.000000001real }
pub open spec fn e38() -> real { 100000000000000000000000000000000000000real }
pub open spec fn e47() -> real { 100000000000000000000000000000000000000000000000real }
pub axiom fn ax_tiny100() ensures 0real < tiny() < 0.0000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001real;
pub open spec fn abserr() -> real { 0.000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001real }
/// zero or of moderate size, over a double of moderate size
pub open spec fn divisible(d: DD, y: f64) -> bool { norm(d) && rabs(val(d.hi)) <= e28() && (val(d.hi) == 0real && val(d.lo) == 0real || rabs(val(d.hi)) >= e_18()) && lt18(y) && rabs(val(y)) >= e_9() }
/// canonical, within 2^-101 of the quotient, and the quotient itself where one double over another is a double
pub open spec fn quot(r: DD, d: DD, y: real) -> bool { norm(r) && rnd(val(r.lo)) == val(r.lo) && near_quot(rv(r), rv(d), y)
  && (forall|q: real| rnd(q) == q && val(d.lo) == 0real && val(d.hi) == #[trigger] rmul(q, y) ==> is(r, q)) }
pub open spec fn near_quot(v: real, x: real, y: real) -> bool { rabs(v * y - x) <= 32real * (ulp() * ulp()) * rabs(x) }
pub open spec fn rmul(a: real, b: real) -> real { a * b }
pub open spec fn one() -> DD { DD { hi: 1.0f64, lo: 0.0f64 } }
pub proof fn lemma_one() ensures is(one(), 1real), fin(1.0f64), val(1.0f64) == 1real, fin(0.0f64), val(0.0f64) == 0real { broadcast use ax_lits; ax_rnd_int(1); }
/// rounding error, underflow included
pub proof fn lemma_err(x: real) ensures rabs(rnd(x) - x) <= ulp() * rabs(x) + abserr()
{ ax_tiny100(); ax_tiny(); ax_rnd_zero(); let t = tiny(); ax_rnd_err(t);
  if x == 0real || rabs(x) >= t { ax_rnd_err(x); assert(rabs(x) * ulp() == ulp() * rabs(x)); }
  else if x > 0real { ax_rnd_mono(0real, x); ax_rnd_mono(x, t); assert(rabs(rnd(x) - x) <= 2real * t); assert(ulp() * rabs(x) >= 0real); }
  else { ax_rnd_mono(x, 0real); ax_rnd_mono(-t, x); ax_rnd_neg(t); assert(rabs(rnd(x) - x) <= 2real * t); assert(ulp() * rabs(x) >= 0real); } }
pub proof fn lemma_absprod(a: real, b: real) ensures rabs(a * b) == rabs(a) * rabs(b) { assert(rabs(a * b) == rabs(a) * rabs(b)) by (nonlinear_arith); }
pub proof fn lemma_div_in(d: DD, y: f64) requires divisible(d, y) ensures inrange(val(d.hi) / val(y)), val(y) != 0real, rabs(val(d.hi) / val(y)) <= 10000000000000000000000000000000000000real, rabs(val(d.lo)) <= 0.000000000000000112131real * rabs(val(d.hi)), rabs(val(d.lo)) <= e28()
{ broadcast use ax_big; let (h, z) = (val(d.hi), val(y)); let q = h / z; assert(q * z == h) by (nonlinear_arith) requires q == h / z, z != 0real; lemma_absprod(q, z);
  let (a, b) = (rabs(q), rabs(z)); assert(a <= 10000000000000000000000000000000000000real) by (nonlinear_arith) requires a * b <= 10000000000000000000000000000real, b >= 0.000000001real, a >= 0real;
  let x = rv(d); lemma_err(x); if h == 0real { } else { assert(ulp() * rabs(x) <= 0.001real * rabs(x)); } }
/// the first quotient word
pub proof fn lemma_cc(d: DD, y: f64, cc: f64) requires divisible(d, y), fin(cc), val(cc) == rnd(val(d.hi) / val(y))
  ensures rabs(val(cc)) <= e38(), inrange(134217729real * val(cc)), rabs(rnd(134217729real * val(cc))) <= e47(), rabs(high(val(cc))) <= e47(), rabs(tail(val(cc))) <= e47(),
    rabs(high(val(y))) <= e28(), rabs(tail(val(y))) <= e28(), rabs(val(cc) * val(y) - val(d.hi)) <= ulp() * rabs(val(d.hi)) + abserr() * rabs(val(y)), solid(val(cc) * val(y)), inrange(val(cc) * val(y)), rabs(val(cc) * val(y)) <= 2real * e28(), val(d.hi) == 0real ==> val(cc) == 0real
{ broadcast use ax_big; lemma_div_in(d, y); let (h, z) = (val(d.hi), val(y)); let q = h / z; let x = val(cc); assert(q * z == h) by (nonlinear_arith) requires q == h / z, z != 0real;
  lemma_rb(q); lemma_split38(x); lemma_split(y); lemma_rb(134217729real * x);
  lemma_err(q); lemma_absprod(q, z); lemma_absprod(x - q, z); assert((x - q) * z == x * z - h) by (nonlinear_arith) requires q * z == h;
  let (m, e, a, b, t) = (rabs(x - q), ulp(), rabs(q), rabs(z), abserr()); assert(m * b <= e * (a * b) + t * b) by (nonlinear_arith) requires m <= e * a + t, b >= 0real;
  ax_tiny100(); if h == 0real { ax_rnd_zero(); assert(q == 0real) by (nonlinear_arith) requires q == h / z, h == 0real, z != 0real; assert(x * z == 0real) by (nonlinear_arith) requires x == 0real; }
  assert(e * rabs(h) <= 0.001real * rabs(h)); assert(t * b <= 0.0000000000000000000000000000000000000000000000000001real); }
pub proof fn lemma_split38(v: real) requires rabs(v) <= 3real * 10000000000000000000000000000000000000real ensures rabs(high(v)) <= e47(), rabs(tail(v)) <= e47()
{ let p = rnd(134217729real * v); lemma_rb(134217729real * v); lemma_rb(p - v); lemma_rb(p - rnd(p - v)); lemma_rb(v - high(v)); }
pub proof fn lemma_m75(x: real, y: real) requires rabs(x) <= e47(), rabs(y) <= e28() ensures rabs(x * y) <= e47() * e28(), rabs(rnd(x * y)) <= 2real * (e47() * e28()) + 1real, inrange(x * y)
{ broadcast use ax_big; lemma_absprod(x, y); let (a, b) = (rabs(x), rabs(y)); assert(a * b <= e47() * e28()) by (nonlinear_arith) requires 0real <= a <= e47(), 0real <= b <= e28(); lemma_rb(x * y); }
/// nothing overflows in the product of the quotient word and the divisor
pub proof fn lemma_parts38(x: real, y: real) requires rabs(high(x)) <= e47(), rabs(tail(x)) <= e47(), rabs(high(y)) <= e28(), rabs(tail(y)) <= e28(), rabs(x * y) <= 2real * e28()
  ensures ({ let r = rnd(x * y); let (p1, p2, p3, p4) = (high(x) * high(y), high(x) * tail(y), tail(x) * high(y), tail(x) * tail(y)); let a = rnd(rnd(p1) - r); let b = rnd(a + rnd(p2)); let c = rnd(b + rnd(p3));
    inrange(p1) && inrange(p2) && inrange(p3) && inrange(p4) && inrange(rnd(p1) - r) && inrange(a + rnd(p2)) && inrange(b + rnd(p3)) && inrange(c + rnd(p4)) })
{ broadcast use ax_big; let r = rnd(x * y); let (p1, p2, p3, p4) = (high(x) * high(y), high(x) * tail(y), tail(x) * high(y), tail(x) * tail(y)); let a = rnd(rnd(p1) - r); let b = rnd(a + rnd(p2)); let c = rnd(b + rnd(p3));
  lemma_m75(high(x), high(y)); lemma_m75(high(x), tail(y)); lemma_m75(tail(x), high(y)); lemma_m75(tail(x), tail(y)); lemma_rb(x * y); lemma_rb(rnd(p1) - r); lemma_rb(a + rnd(p2)); lemma_rb(b + rnd(p3)); lemma_rb(c + rnd(p4)); }
/// the remainder and the second quotient word
pub proof fn lemma_rem(d: DD, y: f64, cc: f64) requires divisible(d, y), fin(cc), val(cc) == rnd(val(d.hi) / val(y))
  ensures ({ let (h, l, k) = (val(d.hi), val(d.lo), val(cc) * val(y)); let uu = rnd(k); let s1 = rnd(h - uu); let s2 = rnd(s1 - (k - uu)); let s3 = rnd(s2 + l); let c = rnd(s3 / val(y));
    inrange(h - uu) && inrange(s1 - (k - uu)) && inrange(s2 + l) && inrange(s3) && rabs(s3 - (h + l - k)) <= 16real * (ulp() * ulp()) * rabs(h) && rabs(s3) <= 3real * ulp() * rabs(h) && inrange(s3 / val(y)) && (h == k && l == 0real && rnd(h) == h ==> s3 == 0real)
    && rabs(c * val(y) - s3) <= 4real * (ulp() * ulp()) * rabs(h) })
{ broadcast use ax_big; lemma_div_in(d, y); lemma_cc(d, y, cc); let (h, l, k) = (val(d.hi), val(d.lo), val(cc) * val(y)); let uu = rnd(k); let s1 = rnd(h - uu); let s2 = rnd(s1 - (k - uu)); let s3 = rnd(s2 + l); ax_rnd_zero();
  lemma_err(k); lemma_err(h - uu); lemma_err(s1 - (k - uu)); lemma_err(s2 + l);
  let E = ulp(); assert(E == 0.00000000000000011102230246251565404236316680908203125real); let e = rabs(h); let f = 0.00000000000000011102230246251565404236316680908203125real * e; let w = 0.00000000000000011102230246251565404236316680908203125real * f;
  assert((E * E) * e == w) by (nonlinear_arith) requires w == E * (E * e); assert(16real * (E * E) * e == 16real * w) by (nonlinear_arith) requires (E * E) * e == w; assert(4real * (E * E) * e == 4real * w) by (nonlinear_arith) requires (E * E) * e == w; assert(3real * E * e == 3real * f) by (nonlinear_arith) requires f == E * e;
  let z = val(y);
  if h == 0real { assert(k == 0real) by (nonlinear_arith) requires k == val(cc) * z, val(cc) == 0real; assert(l == 0real); assert(s1 == 0real); assert(s2 == 0real); assert(s3 == 0real); assert(0real / z == 0real) by (nonlinear_arith) requires z != 0real; assert(0real * z == 0real); assert(s3 / z == 0real); }
  else {
    let (b, t) = (rabs(z), abserr()); assert(t * b <= 0.0000001real * w) by { assert(t * b <= 0.000000000000000000000000000000000000000000000000000000000000000000000000000000001real) by (nonlinear_arith) requires t == abserr(), b <= 1000000000000000000real, b >= 0real; }
    assert(t <= 0.0000001real * w); assert(E * e == f); assert(rabs(k - h) <= 1.0001real * f); assert(rabs(k) <= 1.001real * e); assert(E * rabs(k) <= 1.001real * f); assert(rabs(k - uu) <= 1.002real * f); assert(rabs(h - uu) <= 2.01real * f);
    assert(E * rabs(h - uu) <= 2.01real * w); assert(rabs(s1 - (h - uu)) <= 2.02real * w);
    assert(rabs(s1 - (k - uu)) <= 3.1real * f); assert(E * rabs(s1 - (k - uu)) <= 3.1real * w); assert(rabs(s2 - (h - k)) <= 6real * w); assert(rabs(s2 + l) <= 2.2real * f); assert(E * rabs(s2 + l) <= 2.2real * w); assert(rabs(s3 - (h + l - k)) <= 9real * w); assert(rabs(s3) <= 2.3real * f);
    let q = s3 / z; assert(q * z == s3) by (nonlinear_arith) requires q == s3 / z, z != 0real; lemma_absprod(q, z); let a = rabs(q);
    assert(a <= 10000000000000000000000000000000000000real) by (nonlinear_arith) requires a * b <= 10000000000000000000000000000real, b >= 0.000000001real, a >= 0real;
    let c = rnd(q); lemma_err(q); lemma_absprod(c - q, z); assert((c - q) * z == c * z - s3) by (nonlinear_arith) requires q * z == s3;
    let m = rabs(c - q); assert(m * b <= E * (a * b) + t * b) by (nonlinear_arith) requires m <= E * a + t, b >= 0real; assert(E * (a * b) <= 2.3real * w); } }
/// the two quotient words together
pub proof fn lemma_tot(d: DD, y: f64, cc: f64, c: f64) requires divisible(d, y), fin(cc), fin(c), val(cc) == rnd(val(d.hi) / val(y)),
    ({ let (h, l, k) = (val(d.hi), val(d.lo), val(cc) * val(y)); let uu = rnd(k); let s1 = rnd(h - uu); let s2 = rnd(s1 - (k - uu)); let s3 = rnd(s2 + l); val(c) == rnd(s3 / val(y)) })
  ensures rabs(val(c)) <= rabs(val(cc)), inrange(4real * val(cc)), inrange(val(cc) + val(c)), near_quot(val(cc) + val(c), rv(d), val(y)), forall|q: real| rnd(q) == q && val(d.lo) == 0real && val(d.hi) == #[trigger] rmul(q, val(y)) ==> val(cc) == q && val(c) == 0real
{ broadcast use ax_big; lemma_div_in(d, y); lemma_cc(d, y, cc); lemma_rem(d, y, cc); let (h, l, k, z) = (val(d.hi), val(d.lo), val(cc) * val(y), val(y)); let uu = rnd(k); let s1 = rnd(h - uu); let s2 = rnd(s1 - (k - uu)); let s3 = rnd(s2 + l); ax_rnd_zero();
  let (x, w, E) = (val(cc), val(c), ulp()); let e = rabs(h); assert((x + w) * z == x * z + w * z) by (nonlinear_arith);
  lemma_absprod(x, z); lemma_absprod(w, z); let (a, b, t) = (rabs(x), rabs(w), rabs(z));
  assert(E == 0.00000000000000011102230246251565404236316680908203125real); assert(e <= 1.01real * rabs(rv(d)));
  let f = 0.00000000000000011102230246251565404236316680908203125real * e; let g = 0.00000000000000011102230246251565404236316680908203125real * f; assert((E * E) * e == g) by (nonlinear_arith) requires g == E * (E * e), E == 0.00000000000000011102230246251565404236316680908203125real; let r = rabs(rv(d)); assert(16real * (E * E) * e == 16real * g) by (nonlinear_arith) requires (E * E) * e == g; assert(4real * (E * E) * e == 4real * g) by (nonlinear_arith) requires (E * E) * e == g; assert(3real * E * e == 3real * f) by (nonlinear_arith) requires f == E * e;
  assert(32real * (E * E) * r >= 31real * g) by (nonlinear_arith) requires (E * E) * e == g, 1.01real * r >= e, E * E >= 0real, e >= 0real;
  if h != 0real { assert(abserr() * t <= f); assert(rabs(k - h) <= 2.1real * f); assert(b * t <= 4real * f); assert(4real * f <= 0.1real * e); assert(a * t >= 0.5real * e); assert(b * t <= a * t); assert(b <= a) by (nonlinear_arith) requires b * t <= a * t, t > 0real; }
  else { assert(s3 == 0real); assert(0real / z == 0real) by (nonlinear_arith) requires z != 0real; assert(w == 0real); assert(h / z == 0real); }
  assert forall|q: real| rnd(q) == q && l == 0real && h == #[trigger] rmul(q, z) implies x == q && w == 0real by {
    assert(h / z == q) by (nonlinear_arith) requires h == q * z, z != 0real; assert(k == h); ax_rnd_float(d.hi); assert(0real / z == 0real) by (nonlinear_arith) requires z != 0real; } }
pub proof fn lemma_quot_end(d: DD, y: f64, cc: f64, c: f64) requires divisible(d, y), fin(cc), fin(c), rabs(val(cc)) <= e38(), rabs(val(c)) <= rabs(val(cc)), rnd(val(c) + rnd(val(cc) - rnd(val(cc) + val(c)))) == val(cc) + val(c) - rnd(val(cc) + val(c)),
    near_quot(val(cc) + val(c), rv(d), val(y)), forall|q: real| rnd(q) == q && val(d.lo) == 0real && val(d.hi) == #[trigger] rmul(q, val(y)) ==> val(cc) == q && val(c) == 0real
  ensures inrange(val(cc) + val(c)), inrange(val(cc) - rnd(val(cc) + val(c))), inrange(rnd(val(cc) - rnd(val(cc) + val(c))) + val(c)),
    forall|r: DD| num(r) && val(r.hi) == rnd(val(cc) + val(c)) && val(r.lo) == val(cc) + val(c) - rnd(val(cc) + val(c)) ==> #[trigger] quot(r, d, val(y))
{ broadcast use ax_big; let (x, w) = (val(cc), val(c)); lemma_rb(x + w); lemma_rb(x - rnd(x + w)); ax_rnd_idem(w + rnd(x - rnd(x + w))); }
pub open spec fn i25(x: f64) -> bool { isi(x) && -33554432 <= it(x) <= 33554432 }
// ---- integer powers
pub open spec fn ip(b: int, n: int) -> int decreases n { if n <= 0 { 1 } else { b * ip(b, n - 1) } }
pub open spec fn in50(k: int) -> bool { -1125899906842624 <= k <= 1125899906842624 }
/// the power and all smaller ones stay below 2^50
pub open spec fn small(b: int, n: int) -> bool { in50(ip(b, n)) && in50(b) }
pub open spec fn i26(x: f64) -> bool { isi(x) && -67108864 <= it(x) <= 67108864 }
/// sign by the words
pub open spec fn sgw(d: DD) -> int { if val(d.hi) != 0real { sg(val(d.hi)) } else { sg(val(d.lo)) } }
/// order by the words
pub open spec fn ord(a: DD, b: DD) -> int { if val(a.hi) < val(b.hi) { -1int } else if val(a.hi) > val(b.hi) { 1int } else { sg(val(a.lo) - val(b.lo)) } }
/// the value has the sign of the high word, or of the low one when that is zero
pub proof fn lemma_sign(d: DD) requires norm(d) ensures sg(rv(d)) == sgw(d), val(d.hi) == 0real ==> val(d.lo) == 0real || rv(d) == val(d.lo)
{ ax_rnd_zero(); if rv(d) >= 0real { ax_rnd_mono(0real, rv(d)); } if rv(d) <= 0real { ax_rnd_mono(rv(d), 0real); } }
/// a whole number near a normalized one cannot lie between its words
pub proof fn lemma_floor(d: DD) requires norm(d) ensures flo(val(d.hi)) == val(d.hi) ==> flo(rv(d)) == val(d.hi) + flo(val(d.lo)), flo(val(d.hi)) != val(d.hi) ==> flo(rv(d)) == flo(val(d.hi))
{ let (h, l) = (val(d.hi), val(d.lo)); let n = h.floor(); assert(n as real <= h && h < n as real + 1real); let m = l.floor(); assert(m as real <= l && l < m as real + 1real); let f = rv(d).floor(); assert(f as real <= rv(d) && rv(d) < f as real + 1real);
  if n as real == h { assert(f < n + m + 1); assert(n + m < f + 1); }
  else { if !in53(n) || !in53(n + 1) { ax_whole(d.hi); }
    ax_rnd_int(n); ax_rnd_int(n + 1); if rv(d) <= n as real { ax_rnd_mono(rv(d), n as real); } if rv(d) >= (n + 1) as real { ax_rnd_mono((n + 1) as real, rv(d)); } assert(f < n + 1); assert(n < f + 1); } }
/// a double from 2^52 on is whole
pub axiom fn ax_whole(x: f64) requires fin(x), rabs(val(x)) >= 4503599627370496real ensures flo(val(x)) == val(x);
pub proof fn lemma_ceil(d: DD) requires norm(d) ensures flo(-val(d.hi)) == -val(d.hi) ==> flo(-rv(d)) == -val(d.hi) + flo(-val(d.lo)), flo(-val(d.hi)) != -val(d.hi) ==> flo(-rv(d)) == flo(-val(d.hi))
{ ax_fneg(d.hi); ax_fneg(d.lo); let (h, l) = (fneg_f(d.hi), fneg_f(d.lo)); let e = DD { hi: h, lo: l }; ax_rnd_neg(rv(d)); assert(rv(e) == -rv(d)); assert(norm(e)); lemma_floor(e); }
/// the negated double
pub uninterp spec fn fneg_f(x: f64) -> f64;
pub axiom fn ax_fneg(x: f64) requires fin(x) ensures fin(fneg_f(x)), val(fneg_f(x)) == -val(x);
pub proof fn lemma_fast_in(ss: f64, f: f64) requires fin(ss), fin(f), rabs(val(ss)) <= 10real * e62(), rabs(val(f)) <= 10real * e62()
  ensures inrange(val(ss) + val(f)), inrange(val(ss) - rnd(val(ss) + val(f))), inrange(val(f) + rnd(val(ss) - rnd(val(ss) + val(f)))), rabs(rnd(val(ss) + val(f))) <= 41real * e62()
{ let o = e62(); let (x, y) = (val(ss), val(f)); lemma_tri(x, y, 10real * o, 10real * o); let h = rnd(x + y); lemma_tri(x, h, 10real * o, 41real * o); let g = rnd(x - h); lemma_tri(y, g, 10real * o, 103real * o);
  lemma_fits(x + y); lemma_fits(x - h); lemma_fits(y + g); lemma_fit_in(x + y); lemma_fit_in(x - h); lemma_fit_in(y + g); }
pub proof fn lemma_fast(ss: f64, f: f64, hh: f64, h: f64) requires fin(ss), fin(f), fin(hh), fin(h), rabs(val(f)) <= rabs(val(ss)) || val(ss) == 0real || rnd(val(ss) + val(f)) == val(ss) + val(f), rabs(val(ss)) <= 10real * e62(), rabs(val(f)) <= 10real * e62(), val(hh) == rnd(val(ss) + val(f)), val(h) == rnd(val(f) + rnd(val(ss) - val(hh)))
  ensures val(hh) + val(h) == val(ss) + val(f), rnd(val(hh) + val(h)) == val(hh), inrange(val(hh) + val(h)), inrange(val(h)), inrange(val(hh)), rnd(val(h)) == val(h), rnd(0real) == 0real, inrange(0real)
{ broadcast use ax_big; let o = e62(); lemma_fast_in(ss, f); ax_rnd_zero(); ax_rnd_float(h); if val(ss) == 0real || val(hh) == val(ss) + val(f) { ax_rnd_float(f); ax_rnd_neg(val(f)); ax_rnd_float(hh); } else { assert(inrange(4real * val(ss))); ax_fast_two_sum(ss, f); }
  assert(rabs(val(h)) <= 70real * o); lemma_fits(val(h)); lemma_fit_in(val(h)); lemma_fits(val(hh)); lemma_fit_in(val(hh)); }
pub proof fn lemma_lo(hh: real, h: real) requires hh == rnd(hh + h), rnd(h) == h ensures rnd(h + rnd(hh - rnd(hh + h))) == h { ax_rnd_zero(); }
pub proof fn lemma_split(x: f64) requires lt18(x) ensures rabs(high(val(x))) <= 10000000000000000000000000000real, rabs(tail(val(x))) <= 10000000000000000000000000000real
{ let v = val(x); let p = rnd(134217729real * v); lemma_rb(134217729real * v); lemma_rb(p - v); lemma_rb(p - rnd(p - v)); lemma_rb(v - high(v)); }
pub proof fn lemma_pb18(x: real, y: real) requires rabs(x) <= e18(), rabs(y) <= e18() ensures rabs(x * y) <= e18() * e18()
{ let z = x * y; assert(-(e18() * e18()) <= z <= e18() * e18()) by (nonlinear_arith) requires z == x * y, -e18() <= x <= e18(), -e18() <= y <= e18(); }
pub proof fn lemma_m28(x: real, y: real) requires rabs(x) <= e28(), rabs(y) <= e28() ensures rabs(x * y) <= e28() * e28()
{ let z = x * y; assert(-(e28() * e28()) <= z <= e28() * e28()) by (nonlinear_arith) requires z == x * y, -e28() <= x <= e28(), -e28() <= y <= e28(); }
pub proof fn lemma_parts(x: real, y: real) requires rabs(high(x)) <= e28(), rabs(tail(x)) <= e28(), rabs(high(y)) <= e28(), rabs(tail(y)) <= e28()
  ensures inrange(high(x) * high(y)), inrange(high(x) * tail(y)), inrange(tail(x) * high(y)), inrange(tail(x) * tail(y))
{ broadcast use ax_big; lemma_m28(high(x), high(y)); lemma_m28(high(x), tail(y)); lemma_m28(tail(x), high(y)); lemma_m28(tail(x), tail(y)); }
/// nothing overflows in an exact addition
pub open spec fn e62() -> real { 100000000000000000000000000000000000000000000000000000000000000real }
pub open spec fn e66() -> real { 1000000000000000000000000000000000000000000000000000000000000000000real }
pub proof fn lemma_tri(x: real, y: real, a: real, b: real) requires rabs(x) <= a, rabs(y) <= b ensures rabs(x + y) <= a + b, rabs(x - y) <= a + b, rabs(rnd(x + y)) <= 2real * (a + b) + 1real, rabs(rnd(x - y)) <= 2real * (a + b) + 1real
{ lemma_rb(x + y); lemma_rb(x - y); }
#[verifier::opaque]
pub open spec fn fits(x: real) -> bool { rabs(x) <= e66() }
pub proof fn lemma_fits(x: real) requires rabs(x) <= e66() ensures fits(x) { reveal(fits); }
pub proof fn lemma_fit_in(x: real) requires fits(x) ensures inrange(x) { broadcast use ax_big; reveal(fits); }
pub proof fn lemma_two_in(fx: f64, fy: f64, fl: f64) requires lt60(fx), lt60(fy), lt60(fl)
  ensures ({ let (x, y) = (val(fx), val(fy)); let a = rnd(x + y); let e = rnd(a - x); let s = rnd(a - e); let b = rnd(rnd(y - e) + rnd(x - s));
     inrange(x + y) && inrange(4real * x) && inrange(4real * y) && inrange(a - x) && inrange(a - e) && inrange(y - e) && inrange(x - s) && inrange(rnd(y - e) + rnd(x - s)) && inrange(b + val(fl)) && rabs(a) <= e62() && rabs(b) <= 1000real * e60() })
{ let (x, y) = (val(fx), val(fy)); let a = rnd(x + y); let e = rnd(a - x); let s = rnd(a - e); let o = e60(); let f = y - e; let g = x - s;
  lemma_tri(x, y, o, o); lemma_tri(a, x, 5real * o, o); lemma_tri(a, e, 5real * o, 13real * o); lemma_tri(y, e, o, 13real * o); lemma_tri(x, s, o, 37real * o); lemma_tri(rnd(f), rnd(g), 29real * o, 77real * o);
  let b = rnd(rnd(f) + rnd(g)); lemma_tri(b, val(fl), 300real * o, o);
  lemma_fits(x + y); lemma_fits(4real * x); lemma_fits(4real * y); lemma_fits(a - x); lemma_fits(a - e); lemma_fits(f); lemma_fits(g); lemma_fits(rnd(f) + rnd(g)); lemma_fits(b + val(fl));
  lemma_fit_in(x + y); lemma_fit_in(4real * x); lemma_fit_in(4real * y); lemma_fit_in(a - x); lemma_fit_in(a - e); lemma_fit_in(f); lemma_fit_in(g); lemma_fit_in(rnd(f) + rnd(g)); lemma_fit_in(b + val(fl)); }
pub proof fn lemma_idem4(x: real, y: real) ensures rnd(two_p(x, y)) == two_p(x, y) { let r = rnd(x * y); ax_rnd_idem(rnd(rnd(rnd(rnd(high(x) * high(y)) - r) + rnd(high(x) * tail(y))) + rnd(tail(x) * high(y))) + rnd(tail(x) * tail(y))); }
/// everything is whole and below 2^53
pub proof fn lemma_det(a: f64, b: f64, c: f64, d: f64) requires i26(a), i26(b), i26(c), i26(d)
  ensures ({ let (x, y) = (it(a) * it(d), it(b) * it(c)); let (p, q) = (x as real, y as real); val(a) * val(d) == p && val(b) * val(c) == q && solid(p) && solid(q) && in53(x) && in53(y) && in53(x - y) && rnd(p) == p && rnd(q) == q && rnd(p - q) == p - q && neat(p, 0real, -q, -0real) && -4503599627370496 <= x <= 4503599627370496 && -4503599627370496 <= y <= 4503599627370496 })
{ let (x, y) = (it(a) * it(d), it(b) * it(c)); let (p, q) = (x as real, y as real); lemma_pb(it(a), it(d), 67108864, 67108864); lemma_pb(it(b), it(c), 67108864, 67108864); lemma_ir(it(a), it(d)); lemma_ir(it(b), it(c)); ax_rnd_int(x); ax_rnd_int(y); ax_rnd_int(x - y); ax_rnd_zero(); ax_tiny(); }
pub proof fn lemma_ir(i: int, j: int) ensures (i as real) * (j as real) == (i * j) as real { assert((i as real) * (j as real) == (i * j) as real) by (nonlinear_arith); }
"""
PRELUDE += """
pub proof fn lemma_ip1(b: int) ensures ip(b, 1) == b, ip(b, 0) == 1 { reveal_with_fuel(ip, 3); }
/// b^(2n) = (b b)^n
pub proof fn lemma_ip2(b: int, n: int) requires n >= 0 ensures ip(b, 2 * n) == ip(b * b, n) decreases n
{ reveal_with_fuel(ip, 3); if n > 0 { lemma_ip2(b, n - 1); let m = 2 * n; let t = ip(b, m - 2); assert(ip(b, m) == b * ip(b, m - 1)); assert(ip(b, m - 1) == b * ip(b, m - 2)); assert(b * (b * t) == (b * b) * t) by (nonlinear_arith); } }
/// a positive power is at least as large as its base, and nothing is below a nonzero factor
pub proof fn lemma_ipb(b: int, n: int) requires n >= 1 ensures iabs(b) <= iabs(ip(b, n)), b != 0 ==> ip(b, n) != 0 decreases n
{ reveal_with_fuel(ip, 2); if n > 1 { lemma_ipb(b, n - 1); let t = ip(b, n - 1); lemma_fac(b, t); if b != 0 { lemma_fac2(b, t); } } }
pub open spec fn iabs(k: int) -> int { if k >= 0 { k } else { -k } }
pub proof fn lemma_fac(b: int, t: int) requires iabs(b) <= iabs(t) ensures iabs(b) <= iabs(b * t) { if b != 0 && t != 0 { lemma_fac2(b, t); } else { assert(b == 0); } }
pub proof fn lemma_fac2(b: int, t: int) requires t != 0 ensures iabs(b) <= iabs(b * t), b != 0 ==> b * t != 0
{ let (x, y) = (iabs(b), iabs(t)); assert(x * y >= x) by (nonlinear_arith) requires x >= 0, y >= 1; assert(iabs(b * t) == x * y) by (nonlinear_arith) requires x == (if b >= 0 { b } else { -b }), y == (if t >= 0 { t } else { -t }), iabs(b * t) == (if b * t >= 0 { b * t } else { -(b * t) }); }
/// one round of binary exponentiation
pub proof fn lemma_step(r: int, s: int, n: int, w: int) requires n >= 1, in50(w), in50(s), in50(r), s * ip(r, n) == w, small(r, n)
  ensures n % 2 == 1 ==> (s * r) * ip(r * r, n / 2) == w && (n / 2 > 0 ==> true) && in50(s * r), n % 2 == 0 ==> s * ip(r * r, n / 2) == w, n >= 2 ==> in50(r * r) && small(r * r, n / 2), n == 1 ==> s * r == w && (s * r) * ip(r, 0) == w, solid((s as real) * (r as real)), solid((r as real) * (r as real))
{ let h = n / 2; lemma_ip2(r, h); reveal_with_fuel(ip, 2); lemma_solid(s, r); lemma_solid(r, r);
  if n % 2 == 1 { let t = ip(r, n - 1); assert(n - 1 == 2 * h); assert(ip(r, n) == r * t); assert(s * (r * t) == (s * r) * t) by (nonlinear_arith); if t != 0 { lemma_fac2(s * r, t); } else { assert(w == 0); if n > 1 { if r != 0 { lemma_ipb(r, n - 1); } assert(r == 0); assert(s * r == 0) by (nonlinear_arith) requires r == 0; } } }
  if n >= 2 { assert(r * r == ip(r, 2)) by { reveal_with_fuel(ip, 3); } lemma_sq(r, n); if n % 2 == 1 { let t = ip(r, n - 1); if r != 0 { lemma_fac2(t, r); assert(t * r == r * t) by (nonlinear_arith); assert(iabs(t) <= iabs(ip(r, n))); } else { lemma_zero(n - 1); } } } }
pub proof fn lemma_zero(n: int) requires n >= 1 ensures ip(0, n) == 0 { reveal_with_fuel(ip, 2); }
/// the square is below the power from the second on
pub proof fn lemma_sq(r: int, n: int) requires n >= 2, in50(ip(r, n)) ensures in50(r * r)
{ reveal_with_fuel(ip, 2); let t = ip(r, n - 1); lemma_ipb(r, n - 1); assert(iabs(r * r) <= iabs(r * t)) by (nonlinear_arith) requires iabs(r) <= iabs(t), iabs(r) == (if r >= 0 { r } else { -r }), iabs(t) == (if t >= 0 { t } else { -t }), iabs(r * r) == (if r * r >= 0 { r * r } else { -(r * r) }), iabs(r * t) == (if r * t >= 0 { r * t } else { -(r * t) }); }
pub proof fn lemma_intp(d: DD, i: int, j: int) requires is(d, (i as real) * (j as real)), in50(i * j) ensures ddi(d, i * j) { lemma_ir(i, j); let k = i * j; let x = (i as real) * (j as real); lemma_ints(d, x, k); }
pub proof fn lemma_solid(i: int, j: int) ensures solid((i as real) * (j as real)) { lemma_ir(i, j); ax_tiny(); let k = i * j; }
"""
LEMMAS = """
// ---- the order by words is the order of the values
pub proof fn theorem_order(a: DD, b: DD) requires norm(a), norm(b) ensures ord(a, b) == sg(rv(a) - rv(b))
{ if rv(a) <= rv(b) { ax_rnd_mono(rv(a), rv(b)); } if rv(b) <= rv(a) { ax_rnd_mono(rv(b), rv(a)); } }
pub proof fn theorem_total(a: DD, b: DD, c: DD) requires norm(a), norm(b), norm(c) ensures ord(a, b) == -ord(b, a), ord(a, a) == 0, ord(a, b) <= 0 && ord(b, c) <= 0 ==> ord(a, c) <= 0, ord(a, b) == 0 ==> ord(a, c) == ord(b, c)
{ theorem_order(a, b); theorem_order(b, a); theorem_order(b, c); theorem_order(a, c); theorem_order(a, a); }
// ---- sums and differences of doubles are exact, products too
pub proof fn theorem_doubles_add(x: f64, y: f64) requires lt60(x), lt60(y) ensures neat(val(x), 0real, val(y), 0real), neat(val(x), 0real, -val(y), 0real), neat(val(x), 0real, -val(y), -0real)
{ lemma_neat(val(x), val(y), x, y); ax_fneg(y); lemma_neat(val(x), -val(y), x, fneg_f(y)); }
/// a whole result below 2^53 needs no rest
pub proof fn theorem_integers(d: DD, k: int) requires is(d, k as real), in53(k) ensures ddi(d, k) { lemma_ints(d, k as real, k); }
/// the words determine the value and the value the words
pub proof fn theorem_canonical(a: DD, b: DD, x: real, y: real) requires is(a, x), is(b, y) ensures (x == y) == (val(a.hi) == val(b.hi) && val(a.lo) == val(b.lo)), ord(a, b) == sg(x - y), norm(a)
{ lemma_norm(a, x); lemma_norm(b, y); theorem_order(a, b); }
/// a longer number plus a double whose sum with the high word is exact
pub proof fn theorem_long(h: f64, l: f64, y: f64, t: f64) requires lt60(h), lt60(l), lt60(y), fin(t), val(t) == val(h) + val(y), rabs(val(l)) <= rabs(val(t)) ensures neat(val(h), val(l), val(y), 0real)
{ ax_rnd_float(t); ax_rnd_float(l); }
"""
