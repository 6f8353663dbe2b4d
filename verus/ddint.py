from rsx import Fn
import c03, c06, common, copy
from common import BI
USES = ["f64"]
STRUCTS = [common.COORD, common.ORI, ("src/core/math/dd.rs", "DD", "#[derive(Copy, Clone)]"), ("src/core/algorithm/cg_algorithms_dd.rs", "CGAlgorithmsDD", ""),
  ("src/core/algorithm/hcoordinate.rs", "HCoordinate", ""), ("src/core/algorithm/intersection.rs", "Intersection", ""), ("src/core/algorithm/distance.rs", "Distance", "")]
PRELUDE = c03.DDI[:c03.DDI.index("pub open spec fn lim24")] + common.PTS + """
// IEEE: a non-finite operand makes sum, difference and product (and a quotient's numerator the quotient) non-finite;
// division by zero is non-finite
pub broadcast axiom fn ax_nf_add(a: f64, b: f64, o: f64) requires #[trigger] add_ensures(a, b, o), !fin(a) || !fin(b) ensures !fin(o);
pub broadcast axiom fn ax_nf_sub(a: f64, b: f64, o: f64) requires #[trigger] sub_ensures(a, b, o), !fin(a) || !fin(b) ensures !fin(o);
pub broadcast axiom fn ax_nf_mul(a: f64, b: f64, o: f64) requires #[trigger] mul_ensures(a, b, o), !fin(a) || !fin(b) ensures !fin(o);
pub broadcast axiom fn ax_nf_div(a: f64, b: f64, o: f64) requires #[trigger] div_ensures(a, b, o), !fin(a) ensures !fin(o);
pub broadcast axiom fn ax_div_zero(a: f64, b: f64, o: f64) requires #[trigger] div_ensures(a, b, o), fin(b), val(b) == 0real ensures !fin(o);
pub broadcast group nf { ax_nf_add, ax_nf_sub, ax_nf_mul, ax_nf_div, ax_div_zero }
pub assume_specification[ f64::is_infinite ](x: f64) -> (r: bool) ensures r == (!fin(x) && !fnan(x));
/// points whose coordinates are integers of magnitude at most b
pub open spec fn bpt(c: Coordinate, b: int) -> bool { isi(c.x) && isi(c.y) && -b <= it(c.x) <= b && -b <= it(c.y) <= b }
pub open spec fn hco(h: HCoordinate, x: int, y: int, w: int) -> bool { isi(h.x) && isi(h.y) && isi(h.w) && it(h.x) == x && it(h.y) == y && it(h.w) == w }
pub open spec fn hlim(h: HCoordinate) -> bool { bpt(Coordinate { x: h.x, y: h.y, z: h.w, m: h.w }, 33554432) && isi(h.w) && -33554432 <= it(h.w) <= 33554432 }
/// homogeneous crossing point (X, Y, W) of the two lines
pub open spec fn hw(p1: Coordinate, p2: Coordinate) -> int { it(p1.x) * it(p2.y) - it(p2.x) * it(p1.y) }
pub open spec fn hW(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> int {
    (it(p1.y) - it(p2.y)) * (it(q2.x) - it(q1.x)) - (it(q1.y) - it(q2.y)) * (it(p2.x) - it(p1.x)) }
pub open spec fn hX(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> int {
    (it(p2.x) - it(p1.x)) * hw(q1, q2) - (it(q2.x) - it(q1.x)) * hw(p1, p2) }
pub open spec fn hY(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> int {
    (it(q1.y) - it(q2.y)) * hw(p1, p2) - (it(p1.y) - it(p2.y)) * hw(q1, q2) }
pub proof fn lemma_hb(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate, b: int)
    requires bpt(p1, b), bpt(p2, b), bpt(q1, b), bpt(q2, b), 0 <= b <= 65536
    ensures -(b * b) <= it(p1.x) * it(p2.y) <= b * b, -(b * b) <= it(p2.x) * it(p1.y) <= b * b, -(b * b) <= it(q1.x) * it(q2.y) <= b * b, -(b * b) <= it(q2.x) * it(q1.y) <= b * b,
       -(4 * (b * b)) <= (it(p1.y) - it(p2.y)) * (it(q2.x) - it(q1.x)) <= 4 * (b * b), -(4 * (b * b)) <= (it(q1.y) - it(q2.y)) * (it(p2.x) - it(p1.x)) <= 4 * (b * b),
       -(4 * (b * (b * b))) <= (it(p2.x) - it(p1.x)) * hw(q1, q2) <= 4 * (b * (b * b)), -(4 * (b * (b * b))) <= (it(q2.x) - it(q1.x)) * hw(p1, p2) <= 4 * (b * (b * b)),
       -(4 * (b * (b * b))) <= (it(q1.y) - it(q2.y)) * hw(p1, p2) <= 4 * (b * (b * b)), -(4 * (b * (b * b))) <= (it(p1.y) - it(p2.y)) * hw(q1, q2) <= 4 * (b * (b * b)),
       b * b <= 4294967296, b * (b * b) <= 281474976710656, b <= 2048 ==> b * b <= 4194304 && b * (b * b) <= 8589934592
{
  lemma_pb(it(p1.x), it(p2.y), b, b); lemma_pb(it(p2.x), it(p1.y), b, b); lemma_pb(it(q1.x), it(q2.y), b, b); lemma_pb(it(q2.x), it(q1.y), b, b);
  let c = b * b;
  lemma_pb(it(p1.y) - it(p2.y), it(q2.x) - it(q1.x), 2 * b, 2 * b); lemma_pb(it(q1.y) - it(q2.y), it(p2.x) - it(p1.x), 2 * b, 2 * b);
  assert((2 * b) * (2 * b) == 4 * c) by (nonlinear_arith) requires c == b * b;
  lemma_pb(it(p2.x) - it(p1.x), hw(q1, q2), 2 * b, 2 * c); lemma_pb(it(q2.x) - it(q1.x), hw(p1, p2), 2 * b, 2 * c);
  lemma_pb(it(q1.y) - it(q2.y), hw(p1, p2), 2 * b, 2 * c); lemma_pb(it(p1.y) - it(p2.y), hw(q1, q2), 2 * b, 2 * c);
  assert((2 * b) * (2 * c) == 4 * (b * c)) by (nonlinear_arith);
  assert(c <= 4294967296) by (nonlinear_arith) requires c == b * b, 0 <= b <= 65536;
  assert(b * c <= 281474976710656) by (nonlinear_arith) requires 0 <= c <= 4294967296, 0 <= b <= 65536;
  if b <= 2048 { assert(c <= 4194304) by (nonlinear_arith) requires c == b * b, 0 <= b <= 2048; assert(b * c <= 8589934592) by (nonlinear_arith) requires 0 <= c <= 4194304, 0 <= b <= 2048; }
}
/// a rounded value is at most twice the value, plus one
pub proof fn lemma_rb(x: real) ensures rabs(rnd(x)) <= 2real * rabs(x) + 1real
{ ax_tiny(); ax_rnd_int(1); ax_rnd_int(-1);
  if x > 1real || x < -1real { ax_rnd_err(x); assert(rabs(x) * ulp() <= rabs(x)) by (nonlinear_arith) requires rabs(x) >= 0real, ulp() <= 1real; }
  else { ax_rnd_mono(-1real, x); ax_rnd_mono(x, 1real); } }
// finiteness: no operation here comes near overflow
pub open spec fn e28() -> real { 10000000000000000000000000000real }
pub open spec fn e64() -> real { 10000000000000000000000000000000000000000000000000000000000000000real }
pub broadcast proof fn lemma_badd(a: f64, b: f64, o: f64) requires fin(a), fin(b), rabs(val(a)) <= e64(), rabs(val(b)) <= e64(), #[trigger] add_ensures(a, b, o)
  ensures fin(o), rabs(val(o)) <= 2real * (rabs(val(a)) + rabs(val(b))) + 1real { broadcast use ax_add, ax_big; lemma_rb(val(a) + val(b)); }
pub broadcast proof fn lemma_bsub(a: f64, b: f64, o: f64) requires fin(a), fin(b), rabs(val(a)) <= e64(), rabs(val(b)) <= e64(), #[trigger] sub_ensures(a, b, o)
  ensures fin(o), rabs(val(o)) <= 2real * (rabs(val(a)) + rabs(val(b))) + 1real { broadcast use ax_sub, ax_big; lemma_rb(val(a) - val(b)); }
pub broadcast proof fn lemma_bmul(a: f64, b: f64, o: f64) requires fin(a), fin(b), rabs(val(a)) <= e28(), rabs(val(b)) <= e28(), #[trigger] mul_ensures(a, b, o)
  ensures fin(o), rabs(val(o)) <= 3real * (e28() * e28()), rabs(val(o)) <= 2real * rabs(val(a) * val(b)) + 1real
{ broadcast use ax_mul, ax_big; let (x, y) = (val(a), val(b)); let z = x * y;
  assert(-(e28() * e28()) <= z <= e28() * e28()) by (nonlinear_arith) requires z == x * y, -e28() <= x <= e28(), -e28() <= y <= e28();
  lemma_rb(z); }
pub broadcast proof fn lemma_bdiv(a: f64, b: f64, o: f64) requires fin(a), fin(b), rabs(val(a)) <= e64(), rabs(val(b)) >= 1real, #[trigger] div_ensures(a, b, o)
  ensures fin(o), rabs(val(o)) <= 2real * rabs(val(a)) + 1real
{ broadcast use ax_div, ax_big; let (x, y) = (val(a), val(b)); let q = x / y;
  assert(q * y == x) by (nonlinear_arith) requires q == x / y, y != 0real;
  assert(rabs(q) <= rabs(x)) by { lemma_absmul(q, y, x); }
  lemma_rb(q); }
proof fn lemma_absmul(q: real, y: real, x: real) requires q * y == x, rabs(y) >= 1real ensures rabs(q) <= rabs(x)
{ assert(rabs(q) * rabs(y) == rabs(x)) by (nonlinear_arith) requires q * y == x;
  let (a, b) = (rabs(q), rabs(y)); assert(a * b >= a) by (nonlinear_arith) requires a >= 0real, b >= 1real; }
pub broadcast group bd { lemma_badd, lemma_bsub, lemma_bmul, lemma_bdiv }
/// division without remainder is exact
pub open spec fn imul(q: int, w: int) -> int { q * w }
pub broadcast proof fn lemma_idiv(a: f64, b: f64, o: f64)
    requires isi(a), isi(b), #[trigger] div_ensures(a, b, o), it(b) != 0
    ensures fin(o), val(o) == rnd((it(a) as real) / (it(b) as real)),
       forall|q: int| it(a) == #[trigger] imul(q, it(b)) && in53(q) ==> isi(o) && it(o) == q
{ broadcast use f64_ax;
  let (x, y) = (it(a) as real, it(b) as real);
  assert(rabs(x / y) <= 9007199254740992real) by { let q = x / y; assert(q * y == x) by (nonlinear_arith) requires q == x / y, y != 0real; lemma_absmul(q, y, x); }
  assert forall|q: int| it(a) == #[trigger] imul(q, it(b)) && in53(q) implies isi(o) && it(o) == q by {
    let w = it(b);
    assert(x / y == q as real) by (nonlinear_arith) requires x == (q * w) as real, y == w as real, w != 0;
    ax_rnd_int(q); lemma_iv(o, q); } }
"""

BX = BI + "broadcast use nf, lemma_idiv;"
_I = lambda b: ", ".join("bpt(*%s, %s)" % (x, b) for x in ("p1", "p2", "q1", "q2"))
_A = "*p1, *p2, *q1, *q2"
# the DD contracts proved by c03, plus those used only here
_dd = {f.name: copy.deepcopy(f) for f in c03.IMPLS[0]["fns"]}
FOLLOW = """r.is_none() == (hW(%(A)s) == 0),
      // exact wherever the crossing point is an integer point of limited magnitude
      forall|k: int| r.is_some() && hX(%(A)s) == #[trigger] imul(k, hW(%(A)s)) && %(K)s ==> isi(r.unwrap().x) && it(r.unwrap().x) == k,
      forall|k: int| r.is_some() && hY(%(A)s) == #[trigger] imul(k, hW(%(A)s)) && %(K)s ==> isi(r.unwrap().y) && it(r.unwrap().y) == k"""
IMPLS = [common.coordinate("new_xy", "from_coordinate"), common.ORIENTATION,
 dict(file="src/core/math/dd.rs", ty="DD", consts=["SPLIT"], fns=[
   _dd["new_x"], _dd["is_nan"], _dd["self_add_hi_lo"], _dd["self_subtract_dd"], _dd["self_multiply_hi_lo"], _dd["self_multiply_dd"],
   Fn("copy", ensures="r == *dd"),
   Fn("create_nan"), Fn("new_nan"),
   Fn("new_hi_lo", ensures="r.hi == hi, r.lo == lo"),
   Fn("new_from_dd", ensures="r == *dd"),
   Fn("self_subtract_f64", requires="ddok(*old(self), 4503599627370496), isi(y), -4503599627370496 <= it(y) <= 4503599627370496", ensures="ddi(*final(self), dv(*old(self)) - it(y))", start=BI),
   Fn("self_multiply_f64", requires="ddok(*old(self), 33554432), isi(y), -33554432 <= it(y) <= 33554432", ensures="ddi(*final(self), dv(*old(self)) * it(y)), ddok(*final(self), 1125899906842624)", start=BI),
   Fn("multiply_dd", requires="ddok(*self, 33554432), ddok(*y, 33554432)", ensures="ddi(r, dv(*self) * dv(*y)), ddok(r, 1125899906842624)", start=BI),
   Fn("self_divide_hi_lo", requires="ddok(*old(self), 1125899906842624), isi(yhi), -33554432 <= it(yhi) <= 33554432, isi(ylo), it(ylo) == 0",
      ensures="""it(yhi) == 0 ==> !fin(final(self).hi), it(yhi) != 0 ==> fin(final(self).hi) && fin(final(self).lo) && rabs(val(final(self).hi)) <= e64() && rabs(val(final(self).lo)) <= e64(),
        forall|q: int| it(yhi) != 0 && dv(*old(self)) == #[trigger] imul(q, it(yhi)) && -33554432 <= q <= 33554432 ==> ddi(*final(self), q)""",
      start=BX + "broadcast use bd; let ghost n0 = dv(*old(self)); let ghost y0 = it(yhi);",
      after=[(r"cc = .*?;", """let ghost ex = y0 != 0 && exists|q: int| n0 == #[trigger] imul(q, y0) && -33554432 <= q <= 33554432;
        let ghost q0 = it(cc);
        proof { if ex { let q = choose|q: int| n0 == #[trigger] imul(q, y0) && -33554432 <= q <= 33554432; assert(it(self.hi) == imul(q, y0)); assert(isi(cc) && q0 == q && q0 * y0 == n0); }
          if y0 == 0 { assert(!fin(cc)); } else { assert(fin(cc) && rabs(val(cc)) <= 2251799813685249real); } }"""),
        (r"c = DD::SPLIT \* cc;", "proof { if ex { assert(isi(c) && it(c) == 134217729 * q0); } if y0 != 0 { assert(val(DD::SPLIT) == 134217729real); let k = val(cc); assert(rabs(134217729real * k) <= 134217729real * 2251799813685249real); assert(rabs(val(c)) <= 1000000000000000000000000real); } }"),
        (r"hc = c - cc;", "proof { if ex { assert(isi(hc) && it(hc) == 134217728 * q0); } }"),
        (r"u = DD::SPLIT \* yhi;", "assert(isi(u) && it(u) == 134217729 * y0);"),
        (r"hc = c - hc;", "proof { if ex { assert(isi(hc) && it(hc) == q0); } if y0 != 0 { assert(fin(hc) && rabs(val(hc)) <= e28()); } }"),
        (r"tc = .*?;", "proof { if ex { assert(isi(tc) && it(tc) == 0); } if y0 != 0 { assert(fin(tc) && rabs(val(tc)) <= e28()); } }"),
        (r"hy = u - yhi;", "assert(isi(hy) && it(hy) == 134217728 * y0);"),
        (r"uu = .*?;", "proof { if ex { assert(isi(uu) && it(uu) == n0); } }"),
        (r"hy = u - hy;", "assert(isi(hy) && it(hy) == y0); assert(rabs(val(hy)) <= 33554432real);"),
        (r"ty = .*?;", "assert(isi(ty) && it(ty) == 0); assert(val(ty) == 0real);"),
        (r"u = \(\(\(hc.*?;", "proof { if ex { assert(isi(u) && it(u) == 0); } if y0 != 0 { assert(fin(u) && rabs(val(u)) <= 100000000000000000000000000000000000000000000000000000000000real); } }"),
        (r"c = \(\(\(.*?;", "proof { if ex { assert(imul(0, y0) == 0); assert(isi(c) && it(c) == 0); } if y0 != 0 { assert(fin(c)); } }"),
        ]),
   Fn("self_divide_dd", requires="ddok(*old(self), 1125899906842624), ddok(*y, 33554432)",
      ensures="""dv(*y) == 0 ==> !fin(final(self).hi), dv(*y) != 0 ==> fin(final(self).hi) && fin(final(self).lo) && rabs(val(final(self).hi)) <= e64() && rabs(val(final(self).lo)) <= e64(),
        forall|q: int| dv(*y) != 0 && dv(*old(self)) == #[trigger] imul(q, dv(*y)) && -33554432 <= q <= 33554432 ==> ddi(*final(self), q)"""),
   Fn("double_value", ensures="!fin(self.hi) ==> !fin(r), fin(self.hi) && fin(self.lo) && rabs(val(self.hi)) <= e64() && rabs(val(self.lo)) <= e64() ==> fin(r), isi(self.hi) && isi(self.lo) && it(self.lo) == 0 ==> isi(r) && it(r) == it(self.hi)",
      start=BI + "broadcast use nf, bd;"),
 ]),
 dict(file="src/core/algorithm/cg_algorithms_dd.rs", ty="CGAlgorithmsDD", fns=[
   Fn("intersection", requires=_I(2048), ensures=FOLLOW % dict(A=_A, K="-33554432 <= k <= 33554432"),
      start=BI + "proof { lemma_hb(%s, 2048); }" % _A),
 ]),
 dict(file="src/core/algorithm/hcoordinate.rs", ty="HCoordinate", fns=[
   Fn("new_with_coordinates", requires="bpt(*p1, 65536), bpt(*p2, 65536)", ensures="hco(r, it(p1.y) - it(p2.y), it(p2.x) - it(p1.x), hw(*p1, *p2))",
      start=BI + "proof { lemma_hb(*p1, *p2, *p1, *p2, 65536); }"),
   Fn("new_with_coordinates_4", requires=_I(65536), ensures="hco(r, hX(%s), hY(%s), hW(%s))" % (_A, _A, _A), start=BI + "proof { lemma_hb(%s, 65536); }" % _A),
   Fn("new_with_hcoordinates", requires="hlim(*p1), hlim(*p2)", ensures="hco(r, it(p1.y) * it(p2.w) - it(p2.y) * it(p1.w), it(p2.x) * it(p1.w) - it(p1.x) * it(p2.w), it(p1.x) * it(p2.y) - it(p2.x) * it(p1.y))",
      start=BI + """proof { let b = 33554432; lemma_pb(it(p1.y), it(p2.w), b, b); lemma_pb(it(p2.y), it(p1.w), b, b); lemma_pb(it(p2.x), it(p1.w), b, b);
        lemma_pb(it(p1.x), it(p2.w), b, b); lemma_pb(it(p1.x), it(p2.y), b, b); lemma_pb(it(p2.x), it(p1.y), b, b); }"""),
   Fn("new_with_xyw", ensures="r.x == _x, r.y == _y, r.w == _w"),
   Fn("new_with_xy", ensures="r.x == _x, r.y == _y, isi(r.w) && it(r.w) == 1", start=BI),
   Fn("new_with_coordinate", ensures="r.x == p.x, r.y == p.y, isi(r.w) && it(r.w) == 1", start=BI),
   Fn("get_x", requires="isi(self.x), isi(self.y), isi(self.w)", ensures="it(self.w) == 0 ==> fnan(r), it(self.w) != 0 ==> fin(r) && val(r) == rnd((it(self.x) as real) / (it(self.w) as real))", start=BX),
   Fn("get_y", requires="isi(self.x), isi(self.y), isi(self.w)", ensures="it(self.w) == 0 ==> fnan(r), it(self.w) != 0 ==> fin(r) && val(r) == rnd((it(self.y) as real) / (it(self.w) as real))", start=BX),
   Fn("intersection", requires=_I(65536), ensures=FOLLOW % dict(A=_A, K="in53(k)") + ", r.is_some() ==> val(r.unwrap().x) == rnd((hX(%s) as real) / (hW(%s) as real)) && val(r.unwrap().y) == rnd((hY(%s) as real) / (hW(%s) as real))" % (_A, _A, _A, _A),
      start=BX + "proof { lemma_hb(%s, 65536); }" % _A),
 ]),
 dict(file="src/core/algorithm/distance.rs", ty="Distance", fns=[Fn("point_to_line_perpendicular", external=True)]),
 dict(file="src/core/algorithm/intersection.rs", ty="Intersection", fns=[
   Fn("intersection", external=True),
   Fn("line_segment", requires="ipt(*line1), ipt(*line2), ipt(*seg1), ipt(*seg2)",
      ensures="""r.is_none() == (dt(*line1, *line2, *seg1) > 0 && dt(*line1, *line2, *seg2) > 0 || dt(*line1, *line2, *seg1) < 0 && dt(*line1, *line2, *seg2) < 0),
        dt(*line1, *line2, *seg1) == 0 ==> r == Some(*seg1), dt(*line1, *line2, *seg1) != 0 && dt(*line1, *line2, *seg2) == 0 ==> r == Some(*seg2)""", start="broadcast use f64_ax;" + BI),
 ]),
]
LEMMAS = """
// laws over the contract: neither the order of the lines nor of the points on each changes the crossing point
pub proof fn theorem_order(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
  ensures hW(p1, p2, q1, q2) == -hW(p2, p1, q1, q2), hX(p1, p2, q1, q2) == -hX(p2, p1, q1, q2), hY(p1, p2, q1, q2) == -hY(p2, p1, q1, q2),
          hW(p1, p2, q1, q2) == -hW(q1, q2, p1, p2), hX(p1, p2, q1, q2) == -hX(q1, q2, p1, p2), hY(p1, p2, q1, q2) == -hY(q1, q2, p1, p2)
{
  let (dx, dy, ex, ey) = (it(p2.x) - it(p1.x), it(p1.y) - it(p2.y), it(q2.x) - it(q1.x), it(q1.y) - it(q2.y));
  let (a, b) = (hw(p1, p2), hw(q1, q2));
  assert(hw(p2, p1) == -a) by (nonlinear_arith) requires a == it(p1.x) * it(p2.y) - it(p2.x) * it(p1.y), hw(p2, p1) == it(p2.x) * it(p1.y) - it(p1.x) * it(p2.y);
  assert((-dx) * b == -(dx * b)) by (nonlinear_arith); assert(ex * (-a) == -(ex * a)) by (nonlinear_arith);
  assert(ey * (-a) == -(ey * a)) by (nonlinear_arith); assert((-dy) * b == -(dy * b)) by (nonlinear_arith);
  assert((-dy) * ex == -(dy * ex)) by (nonlinear_arith); assert(ey * (-dx) == -(ey * dx)) by (nonlinear_arith);
  assert(dy * ex == ex * dy && ey * dx == dx * ey) by (nonlinear_arith);
}
/// the crossing point lies on both lines: X*A + Y*B + C*W = 0 for the line's homogeneous triple
pub proof fn theorem_on_lines(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
  ensures hX(p1, p2, q1, q2) * (it(p1.y) - it(p2.y)) + hY(p1, p2, q1, q2) * (it(p2.x) - it(p1.x)) + hW(p1, p2, q1, q2) * hw(p1, p2) == 0,
          hX(p1, p2, q1, q2) * (it(q1.y) - it(q2.y)) + hY(p1, p2, q1, q2) * (it(q2.x) - it(q1.x)) + hW(p1, p2, q1, q2) * hw(q1, q2) == 0,
          // and the triple is that of the line through its two points
          (it(p1.y) - it(p2.y)) * it(p1.x) + (it(p2.x) - it(p1.x)) * it(p1.y) + hw(p1, p2) == 0, (it(p1.y) - it(p2.y)) * it(p2.x) + (it(p2.x) - it(p1.x)) * it(p2.y) + hw(p1, p2) == 0
{
  let (dx, dy, ex, ey) = (it(p2.x) - it(p1.x), it(p1.y) - it(p2.y), it(q2.x) - it(q1.x), it(q1.y) - it(q2.y));
  let (a, b) = (hw(p1, p2), hw(q1, q2));
  lemma_cross3(dx, dy, a, ex, ey, b);
  let (x1, y1, x2, y2) = (it(p1.x), it(p1.y), it(p2.x), it(p2.y));
  assert((y1 - y2) * x1 + (x2 - x1) * y1 + (x1 * y2 - x2 * y1) == 0) by (nonlinear_arith);
  assert((y1 - y2) * x2 + (x2 - x1) * y2 + (x1 * y2 - x2 * y1) == 0) by (nonlinear_arith);
}
proof fn lemma_cross3(dx: int, dy: int, a: int, ex: int, ey: int, b: int)
  ensures (dx * b - ex * a) * dy + (ey * a - dy * b) * dx + (dy * ex - ey * dx) * a == 0, (dx * b - ex * a) * ey + (ey * a - dy * b) * ex + (dy * ex - ey * dx) * b == 0
{
  assert((dx * b - ex * a) * dy == (dx * dy) * b - (dy * ex) * a) by (nonlinear_arith);
  assert((ey * a - dy * b) * dx == (ey * dx) * a - (dx * dy) * b) by (nonlinear_arith);
  assert((dy * ex - ey * dx) * a == (dy * ex) * a - (ey * dx) * a) by (nonlinear_arith);
  assert((dx * b - ex * a) * ey == (ey * dx) * b - (ex * ey) * a) by (nonlinear_arith);
  assert((ey * a - dy * b) * ex == (ex * ey) * a - (dy * ex) * b) by (nonlinear_arith);
  assert((dy * ex - ey * dx) * b == (dy * ex) * b - (ey * dx) * b) by (nonlinear_arith);
}
"""
ASSUMPTIONS = ["integer ordinates: up to 2^11 for the extended-precision computation, 2^16 for the homogeneous one, 2^24 for line against segment"]
