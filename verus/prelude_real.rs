// ---------------------------------------------------------------------------------------
// Machine arithmetic treated as mathematical: every operation on doubles is taken to be the
// exact operation on the reals (the model of these axioms reads `f64` as the real line).
// Used where a property is about the algebra of an algorithm and not about its rounding.
// ---------------------------------------------------------------------------------------
pub uninterp spec fn val(x: f64) -> real;
pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { -x } }
pub broadcast axiom fn ax_add_req(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_sub_req(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_mul_req(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_div_req(a: f64, b: f64) ensures #[trigger] a.div_req(b);
pub broadcast axiom fn ax_add(a: f64, b: f64, o: f64) requires #[trigger] add_ensures(a, b, o) ensures val(o) == val(a) + val(b);
pub broadcast axiom fn ax_sub(a: f64, b: f64, o: f64) requires #[trigger] sub_ensures(a, b, o) ensures val(o) == val(a) - val(b);
pub broadcast axiom fn ax_mul(a: f64, b: f64, o: f64) requires #[trigger] mul_ensures(a, b, o) ensures val(o) == val(a) * val(b);
pub broadcast axiom fn ax_div(a: f64, b: f64, o: f64) requires val(b) != 0real, #[trigger] div_ensures(a, b, o) ensures val(o) == val(a) / val(b);
pub broadcast axiom fn ax_lt(a: f64, b: f64, r: bool) requires #[trigger] lt_ensures(a, b, r) ensures r == (val(a) < val(b));
pub broadcast axiom fn ax_le(a: f64, b: f64, r: bool) requires #[trigger] le_ensures(a, b, r) ensures r == (val(a) <= val(b));
pub broadcast axiom fn ax_gt(a: f64, b: f64, r: bool) requires #[trigger] gt_ensures(a, b, r) ensures r == (val(a) > val(b));
pub broadcast axiom fn ax_ge(a: f64, b: f64, r: bool) requires #[trigger] ge_ensures(a, b, r) ensures r == (val(a) >= val(b));
pub broadcast axiom fn ax_eq(a: f64, b: f64, r: bool) requires #[trigger] eq_ensures(a, b, r) ensures r == (val(a) == val(b));
pub broadcast axiom fn ax_ne(a: f64, b: f64, r: bool) requires #[trigger] ne_ensures(a, b, r) ensures r == (val(a) != val(b));
pub axiom fn ax_lit() ensures val(0.0f64) == 0real, val(1.0f64) == 1real, val(2.0f64) == 2real;
pub broadcast group real_ax { ax_add_req, ax_sub_req, ax_mul_req, ax_div_req, ax_add, ax_sub, ax_mul, ax_div, ax_lt, ax_le, ax_gt, ax_ge, ax_eq, ax_ne }
pub assume_specification[ f64::abs ](x: f64) -> (r: f64) ensures val(r) == rabs(val(x));
#[verifier::external_body]
pub fn f64_nan() -> (r: f64) { f64::NAN }
#[verifier::external_body]
pub fn fneg(x: f64) -> (r: f64) ensures val(r) == -val(x) { -x }
