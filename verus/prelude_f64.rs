// ---------------------------------------------------------------------------------------
// IEEE-754 binary64, as far as the contracts need it.  `val` is the real value of a finite
// double, `rnd` the rounding to nearest.  Every axiom below is a textbook fact about
// round-to-nearest arithmetic without overflow (|exact result| <= 2^1000).
// ---------------------------------------------------------------------------------------
pub uninterp spec fn val(x: f64) -> real;
pub uninterp spec fn fin(x: f64) -> bool;
pub uninterp spec fn rnd(x: real) -> real;
pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { -x } }
pub uninterp spec fn big() -> real; // 2^1000
pub open spec fn two53() -> real { 9007199254740992real }
pub open spec fn inrange(x: real) -> bool { -big() <= x <= big() }

pub broadcast axiom fn ax_big() ensures #[trigger] big() > 1000000000000000000000000000000000000000000000000000000000000000000000000000000real;

// the operations are total
pub broadcast axiom fn ax_add_req(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_sub_req(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_mul_req(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_div_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_neg_req(a: f64) ensures #[trigger] a.neg_req();

// correctly rounded results
pub broadcast axiom fn ax_add(a: f64, b: f64, o: f64)
    requires fin(a), fin(b), inrange(val(a) + val(b)), #[trigger] add_ensures(a, b, o)
    ensures fin(o), val(o) == rnd(val(a) + val(b));
pub broadcast axiom fn ax_sub(a: f64, b: f64, o: f64)
    requires fin(a), fin(b), inrange(val(a) - val(b)), #[trigger] sub_ensures(a, b, o)
    ensures fin(o), val(o) == rnd(val(a) - val(b));
pub broadcast axiom fn ax_mul(a: f64, b: f64, o: f64)
    requires fin(a), fin(b), inrange(val(a) * val(b)), #[trigger] mul_ensures(a, b, o)
    ensures fin(o), val(o) == rnd(val(a) * val(b));
pub broadcast axiom fn ax_div(a: f64, b: f64, o: f64)
    requires fin(a), fin(b), val(b) != 0real, inrange(val(a) / val(b)), #[trigger] div_ensures(a, b, o)
    ensures fin(o), val(o) == rnd(val(a) / val(b));
pub broadcast axiom fn ax_neg(a: f64, o: f64)
    requires fin(a), #[trigger] neg_ensures(a, o)
    ensures fin(o), val(o) == -val(a);

/// unary minus (Verus has none on doubles; the extraction writes `-e` as `fneg(e)`)
#[verifier::external_body]
pub fn fneg(x: f64) -> (r: f64) ensures fin(x) ==> fneg_of(x, r) { -x }

// comparisons of finite values
pub broadcast axiom fn ax_lt(a: f64, b: f64, r: bool)
    requires fin(a), fin(b), #[trigger] lt_ensures(a, b, r) ensures r == (val(a) < val(b));
pub broadcast axiom fn ax_le(a: f64, b: f64, r: bool)
    requires fin(a), fin(b), #[trigger] le_ensures(a, b, r) ensures r == (val(a) <= val(b));
pub broadcast axiom fn ax_gt(a: f64, b: f64, r: bool)
    requires fin(a), fin(b), #[trigger] gt_ensures(a, b, r) ensures r == (val(a) > val(b));
pub broadcast axiom fn ax_ge(a: f64, b: f64, r: bool)
    requires fin(a), fin(b), #[trigger] ge_ensures(a, b, r) ensures r == (val(a) >= val(b));
pub broadcast axiom fn ax_eq(a: f64, b: f64, r: bool)
    requires fin(a), fin(b), #[trigger] eq_ensures(a, b, r) ensures r == (val(a) == val(b));
pub broadcast axiom fn ax_ne(a: f64, b: f64, r: bool)
    requires fin(a), fin(b), #[trigger] ne_ensures(a, b, r) ensures r == (val(a) != val(b));

// rounding: integers up to 2^53 and floats themselves are representable; monotone; odd
pub axiom fn ax_rnd_int(k: int) requires -9007199254740992 <= k <= 9007199254740992 ensures rnd(k as real) == k as real;
pub axiom fn ax_rnd_float(x: f64) requires fin(x) ensures rnd(val(x)) == val(x);
pub axiom fn ax_rnd_neg(x: real) ensures rnd(-x) == -rnd(x);
pub axiom fn ax_rnd_mono(x: real, y: real) requires x <= y ensures rnd(x) <= rnd(y);
pub axiom fn ax_rnd_zero() ensures rnd(0real) == 0real;
// relative error 2^-53, for sums and differences always, for products unless they underflow
pub open spec fn ulp() -> real { 0.00000000000000011102230246251565404236316680908203125real }
pub uninterp spec fn tiny() -> real; // 2^-1021
pub axiom fn ax_rnd_err_sum(a: f64, b: f64) requires fin(a), fin(b)
    ensures rabs(rnd(val(a) + val(b)) - (val(a) + val(b))) <= rabs(val(a) + val(b)) * ulp(),
            rabs(rnd(val(a) - val(b)) - (val(a) - val(b))) <= rabs(val(a) - val(b)) * ulp();
pub axiom fn ax_rnd_err(x: real) requires x == 0real || rabs(x) >= tiny()
    ensures rabs(rnd(x) - x) <= rabs(x) * ulp();
// the same for the result of an executed operation
pub broadcast axiom fn ax_add_err(a: f64, b: f64, o: f64)
    requires fin(a), fin(b), inrange(val(a) + val(b)), #[trigger] add_ensures(a, b, o)
    ensures rabs(val(o) - (val(a) + val(b))) <= rabs(val(a) + val(b)) * ulp();
pub broadcast axiom fn ax_sub_err(a: f64, b: f64, o: f64)
    requires fin(a), fin(b), inrange(val(a) - val(b)), #[trigger] sub_ensures(a, b, o)
    ensures rabs(val(o) - (val(a) - val(b))) <= rabs(val(a) - val(b)) * ulp();
pub broadcast group f64_err { ax_add_err, ax_sub_err }
pub axiom fn ax_tiny() ensures 0real < tiny() < 0.000000000000000000000000000000000000000001real;

// literals
pub broadcast axiom fn ax_lits() ensures #[trigger] val(0.0f64) == 0real, fin(0.0f64), fin(1.0f64), val(1.0f64) == 1real,
    fin(2.0f64), val(2.0f64) == 2real, fin(0.5f64), val(0.5f64) == 0.5real,
    fin(134217729.0f64), val(134217729.0f64) == 134217729real;

pub broadcast group f64_ax {
    ax_add_req, ax_sub_req, ax_mul_req, ax_div_req, ax_neg_req, ax_add, ax_sub, ax_mul, ax_div, ax_neg,
    ax_lt, ax_le, ax_gt, ax_ge, ax_eq, ax_ne, ax_lits, ax_big,
}
pub open spec fn sg(x: real) -> int { if x > 0real { 1int } else if x < 0real { -1int } else { 0int } }

// --- the exact-integer view: iv(x, k) says the double x holds the integer k, |k| <= 2^53
pub open spec fn iv(x: f64, k: int) -> bool { fin(x) && val(x) == k as real && -9007199254740992 <= k <= 9007199254740992 }
pub open spec fn it(x: f64) -> int { choose|k: int| #[trigger] ireal(k) == val(x) }
pub open spec fn ireal(k: int) -> real { k as real }
pub proof fn lemma_it(x: f64, k: int) requires val(x) == k as real ensures it(x) == k { assert(ireal(k) == val(x)); }
/// x holds an integer of magnitude at most b
pub open spec fn ib(x: f64, b: int) -> bool { iv(x, it(x)) && -b <= it(x) <= b }

// constants (the extraction writes f64::NAN as f64_nan() and so on)
#[verifier::external_body]
pub fn f64_nan() -> (r: f64) ensures !fin(r), fnan(r) { f64::NAN }
pub uninterp spec fn fnan(x: f64) -> bool;
pub broadcast axiom fn ax_fnan(x: f64) requires #[trigger] fnan(x) ensures !fin(x);
// NaN is unordered
pub broadcast axiom fn ax_nan_lt(a: f64, b: f64, r: bool) requires fnan(a) || fnan(b), #[trigger] lt_ensures(a, b, r) ensures !r;
pub broadcast axiom fn ax_nan_le(a: f64, b: f64, r: bool) requires fnan(a) || fnan(b), #[trigger] le_ensures(a, b, r) ensures !r;
pub broadcast axiom fn ax_nan_gt(a: f64, b: f64, r: bool) requires fnan(a) || fnan(b), #[trigger] gt_ensures(a, b, r) ensures !r;
pub broadcast axiom fn ax_nan_ge(a: f64, b: f64, r: bool) requires fnan(a) || fnan(b), #[trigger] ge_ensures(a, b, r) ensures !r;
pub broadcast axiom fn ax_nan_eq(a: f64, b: f64, r: bool) requires fnan(a) || fnan(b), #[trigger] eq_ensures(a, b, r) ensures !r;
pub broadcast axiom fn ax_nan_ne(a: f64, b: f64, r: bool) requires fnan(a) || fnan(b), #[trigger] ne_ensures(a, b, r) ensures r;
pub broadcast group nan_ax { ax_nan_lt, ax_nan_le, ax_nan_gt, ax_nan_ge, ax_nan_eq, ax_nan_ne, ax_fnan }
#[verifier::external_body]
pub fn f64_max() -> (r: f64) ensures fin(r), val(r) > big() { f64::MAX }
#[verifier::external_body]
pub fn f64_inf() -> (r: f64) ensures !fin(r) { f64::INFINITY }

// every double field holds a double: see verus_layer.py
pub open spec fn fid(y: f64) -> f64 { y }
pub open spec fn fty(x: f64) -> bool { exists|y: f64| #[trigger] fid(y) == x }
pub broadcast proof fn ax_ty_dummy(x: f64) ensures fty(#[trigger] fid(x)) { }

// --- exact integer arithmetic on doubles, as derived (proved) facts
pub open spec fn isi(x: f64) -> bool { fin(x) && val(x) == it(x) as real && -9007199254740992 <= it(x) <= 9007199254740992 }
pub proof fn lemma_iv(x: f64, k: int) requires fin(x), val(x) == k as real, -9007199254740992 <= k <= 9007199254740992 ensures isi(x), it(x) == k
{ lemma_it(x, k); }
pub open spec fn in53(k: int) -> bool { -9007199254740992 <= k <= 9007199254740992 }
pub broadcast proof fn lemma_iadd(a: f64, b: f64, o: f64)
    requires isi(a), isi(b), in53(it(a) + it(b)), #[trigger] add_ensures(a, b, o) ensures isi(o), it(o) == it(a) + it(b)
{ broadcast use f64_ax; let k = it(a) + it(b); ax_rnd_int(k); assert(val(a) + val(b) == k as real); lemma_iv(o, k); }
pub broadcast proof fn lemma_isub(a: f64, b: f64, o: f64)
    requires isi(a), isi(b), in53(it(a) - it(b)), #[trigger] sub_ensures(a, b, o) ensures isi(o), it(o) == it(a) - it(b)
{ broadcast use f64_ax; let k = it(a) - it(b); ax_rnd_int(k); assert(val(a) - val(b) == k as real); lemma_iv(o, k); }
pub broadcast proof fn lemma_imul(a: f64, b: f64, o: f64)
    requires isi(a), isi(b), in53(it(a) * it(b)), #[trigger] mul_ensures(a, b, o) ensures isi(o), it(o) == it(a) * it(b)
{ broadcast use f64_ax; let k = it(a) * it(b); ax_rnd_int(k); let i = it(a); let j = it(b);
  assert((i as real) * (j as real) == (i * j) as real) by (nonlinear_arith); lemma_iv(o, k); }
pub broadcast proof fn lemma_ilt(a: f64, b: f64, r: bool)
    requires isi(a), isi(b), #[trigger] lt_ensures(a, b, r) ensures r == (it(a) < it(b)) { broadcast use f64_ax; }
pub broadcast proof fn lemma_ile(a: f64, b: f64, r: bool)
    requires isi(a), isi(b), #[trigger] le_ensures(a, b, r) ensures r == (it(a) <= it(b)) { broadcast use f64_ax; }
pub broadcast proof fn lemma_igt(a: f64, b: f64, r: bool)
    requires isi(a), isi(b), #[trigger] gt_ensures(a, b, r) ensures r == (it(a) > it(b)) { broadcast use f64_ax; }
pub broadcast proof fn lemma_ige(a: f64, b: f64, r: bool)
    requires isi(a), isi(b), #[trigger] ge_ensures(a, b, r) ensures r == (it(a) >= it(b)) { broadcast use f64_ax; }
pub broadcast proof fn lemma_ieq(a: f64, b: f64, r: bool)
    requires isi(a), isi(b), #[trigger] eq_ensures(a, b, r) ensures r == (it(a) == it(b)) { broadcast use f64_ax; }
pub broadcast proof fn lemma_ine(a: f64, b: f64, r: bool)
    requires isi(a), isi(b), #[trigger] ne_ensures(a, b, r) ensures r == (it(a) != it(b)) { broadcast use f64_ax; }
pub broadcast proof fn lemma_ineg(x: f64, y: f64) requires isi(x), #[trigger] fneg_of(x, y) ensures isi(y), it(y) == -it(x)
{ lemma_iv(y, -it(x)); }
pub open spec fn fneg_of(x: f64, y: f64) -> bool { fin(y) && val(y) == -val(x) }
pub broadcast proof fn lemma_ilits() ensures #[trigger] it(0.0f64) == 0, isi(0.0f64), it(1.0f64) == 1, isi(1.0f64), it(2.0f64) == 2, isi(2.0f64),
   it(134217729.0f64) == 134217729, isi(134217729.0f64)
{ broadcast use ax_lits; lemma_iv(0.0f64, 0); lemma_iv(1.0f64, 1); lemma_iv(2.0f64, 2); lemma_iv(134217729.0f64, 134217729); }
pub broadcast group f64_int {
    ax_add_req, ax_sub_req, ax_mul_req, ax_div_req, ax_neg_req, lemma_iadd, lemma_isub, lemma_imul, lemma_ilt, lemma_ile, lemma_igt, lemma_ige,
    lemma_ieq, lemma_ine, lemma_ineg, lemma_ilits }
// std: min and max of two finite doubles are one of them
pub assume_specification[ f64::min ](a: f64, b: f64) -> (r: f64) ensures fin(a) && fin(b) ==> (r == a || r == b) && val(r) <= val(a) && val(r) <= val(b);
pub assume_specification[ f64::max ](a: f64, b: f64) -> (r: f64) ensures fin(a) && fin(b) ==> (r == a || r == b) && val(r) >= val(a) && val(r) >= val(b);
pub assume_specification[ f64::is_nan ](x: f64) -> (r: bool) ensures fin(x) ==> !r, r == fnan(x);
