from rsx import Fn
USES = ["f64"]
STRUCTS = [("src/core/util/math_util.rs", "MathUtil", ""), ("src/core/geom/coordinate.rs", "Coordinate", "#[derive(Copy, Clone)]"), ("src/core/geom/quadrant.rs", "Quadrant", ""), ("src/core/geom/position.rs", "Position", ""), ("src/core/util/number_util.rs", "NumberUtil", "")]
import common
RM = """
pub proof fn lemma_rem(x: int, y: int) requires x >= 0, y > 0 ensures vstd::arithmetic::div_mod::rust_rem(x, y) == x % y, 0 <= x % y < y
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y); vstd::arithmetic::mul::lemma_mul_is_commutative(y, x / y); }
/// rounding the quotient up: q is the truncated quotient
pub proof fn lemma_ceil(n: int, d: int, q: int) requires d > 0, q == (if n >= 0 { n / d } else { -((-n) / d) })
  ensures q * d - d < n < q * d + d, n >= 0 ==> 0 <= q * d <= n, n < 0 ==> n <= q * d <= 0, (q - 1) * d == q * d - d, (q + 1) * d == q * d + d, n >= 0 ==> 0 <= q <= q * d, n < 0 ==> q <= 0
{ if n >= 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d); vstd::arithmetic::mul::lemma_mul_is_commutative(d, n / d); assert(0 <= n / d <= (n / d) * d) by (nonlinear_arith) requires n >= 0, d > 0; }
  else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-n, d); vstd::arithmetic::mul::lemma_mul_is_commutative(d, (-n) / d); assert((-((-n) / d)) * d == -(((-n) / d) * d)) by (nonlinear_arith); assert(0 <= (-n) / d <= ((-n) / d) * d) by (nonlinear_arith) requires n < 0, d > 0; }
  assert((q - 1) * d == q * d - d) by (nonlinear_arith); assert((q + 1) * d == q * d + d) by (nonlinear_arith); }
pub axiom fn ax_rnd_half(k: int) requires -9007199254740992 <= k <= 9007199254740992 ensures rnd(k as real / 2real) == k as real / 2real;
"""
PRELUDE = common.DET + RM + """
/// the external random number generator: any value below the bound
#[verifier::external_body]
pub fn gen_below(n: usize) -> (r: usize) requires n > 0 ensures r < n { unimplemented!() }
pub open spec fn perm(s: Seq<i32>, n: int) -> bool { s.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] s[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> s[i] != s[j]) }
pub open spec fn quad(e: bool, n: bool) -> i32 { if n { if e { 0i32 } else { 1i32 } } else { if e { 3i32 } else { 2i32 } } }
pub open spec fn fp(c: Coordinate) -> bool { fin(c.x) && fin(c.y) }
pub open spec fn mx(a: real, b: real) -> real { if a < b { b } else { a } }
pub open spec fn mi(a: real, b: real) -> real { if a < b { a } else { b } }
"""
ST = "broadcast use f64_ax, f64_int, ty_ax;"
F = "src/core/util/math_util.rs"
IMPLS = [dict(file=F, ty="MathUtil", fns=[
   Fn("clamp_f64", requires="fin(x), fin(min), fin(max), val(min) <= val(max)", ensures="fin(r), val(r) == mi(mx(val(x), val(min)), val(max))", start=ST),
   Fn("clamp_i32", requires="min <= max", ensures="min <= r <= max, min <= x <= max ==> r == x, x < min ==> r == min, x > max ==> r == max"),
   Fn("clamp_max", ensures="r == if x > max { max } else { x }"),
   Fn("wrap", requires="max > 0, index > i32::MIN", ensures="index >= 0 ==> r == index % max, index < 0 ==> r == max - (-index) as int % max as int, 0 <= r <= max, index >= 0 ==> r < max",
      start="proof { if index >= 0 { lemma_rem(index as int, max as int); } else { lemma_rem(-index as int, max as int); } assert(index * -1 == -index) by (nonlinear_arith); }"),
   Fn("average", requires="i24(x1), i24(x2)", ensures="fin(r), 2real * val(r) == (it(x1) + it(x2)) as real", start=ST + "broadcast use ax_div; proof { ax_rnd_half(it(x1) + it(x2)); }") ,
   Fn("max_3", requires="fin(v1), fin(v2), fin(v3)", ensures="fin(r), val(r) == mx(mx(val(v1), val(v2)), val(v3))", start=ST),
   Fn("max_4", requires="fin(v1), fin(v2), fin(v3), fin(v4)", ensures="fin(r), val(r) == mx(mx(mx(val(v1), val(v2)), val(v3)), val(v4))", start=ST),
   Fn("min", requires="fin(v1), fin(v2), fin(v3), fin(v4)", ensures="fin(r), val(r) == mi(mi(mi(val(v1), val(v2)), val(v3)), val(v4))", start=ST),
   Fn("ceil", requires="denom > 0, num > i32::MIN", ensures="(r - 1) * denom < num <= r * denom", after=[(r"let div = num / denom;", "proof { lemma_ceil(num as int, denom as int, div as int); }")]),
   Fn("shuffle", requires="n <= i32::MAX", ensures="perm(r@, n as int)", subst=[(r"rand::thread_rng\(\)\.gen_range\(0\.\.([^()]*)\)", r"gen_below(\1)")],
      loops=[dict(kind="for", inv="invariant ints@.len() == $v, n <= i32::MAX, forall|k: int| 0 <= k < $v ==> ints@[k] == k,"),
             dict(kind="while", inv="invariant perm(ints@, n as int), n == 0 ==> i == 0, n > 0 ==> i < n, decreases i")]),
 ]), dict(file="src/core/geom/quadrant.rs", ty="Quadrant", consts=["NE", "NW", "SW", "SE"], fns=[
   Fn("quadrant_xy", requires="fin(dx), fin(dy)", ensures="r == if val(dx) == 0real && val(dy) == 0real { -1i32 } else { quad(val(dx) >= 0real, val(dy) >= 0real) }", start=ST),
   Fn("quadrant_coordinates", requires="fp(*p0), fp(*p1)", ensures="r == if val(p0.x) == val(p1.x) && val(p0.y) == val(p1.y) { -1i32 } else { quad(val(p1.x) >= val(p0.x), val(p1.y) >= val(p0.y)) }", start=ST),
   Fn("is_opposite", requires="0 <= quad1 < 4, 0 <= quad2 < 4", ensures="r == (quad1 - quad2 == 2 || quad2 - quad1 == 2)"),
   Fn("common_half_plane", requires="0 <= quad1 < 4, 0 <= quad2 < 4", ensures="r == if quad1 == quad2 { quad1 as int } else if quad1 - quad2 == 2 || quad2 - quad1 == 2 { -1 } else if (quad1 + 1) % 4 == quad2 { quad1 as int } else { quad2 as int }"),
   Fn("is_in_half_plane", requires="0 <= quad < 4, 0 <= half_plane < 4", ensures="r == (quad == half_plane || quad == (half_plane + 1) % 4)"),
   Fn("is_northern", ensures="r == (quad == 0 || quad == 1)"),
 ]), dict(file="src/core/geom/position.rs", ty="Position", consts=["ON", "LEFT", "RIGHT"], fns=[Fn("opposite", ensures="r == if position == 1 { 2i32 } else if position == 2 { 1i32 } else { position }")])]
LEMMAS = ""
ASSUMPTIONS = ["rand's gen_range(0..k) returns a value below k", "std integer division by its usual contract"]
