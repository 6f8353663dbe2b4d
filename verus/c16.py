from rsx import Fn
import common
from common import BI
USES = ["f64"]
STRUCTS = [common.COORD, common.CAS, ("src/core/algorithm/area.rs", "Area", ""), ("src/core/algorithm/length.rs", "Length", ""),
           ("src/core/geom/coordinates.rs", "Coordinates", "")]
# every twice-area of at most N points of magnitude at most B stays below 2^53
PRELUDE = common.DET + common.PTS + """
pub open spec fn x(s: Seq<Coordinate>, i: int) -> int { it(s[i].x) }
pub open spec fn y(s: Seq<Coordinate>, i: int) -> int { it(s[i].y) }
pub open spec fn B() -> int { 1048576 }
pub open spec fn N() -> int { 2048 }
pub open spec fn aok(s: Seq<Coordinate>) -> bool { s.len() <= N() && forall|i: int| 0 <= i < s.len() ==> aip(#[trigger] s[i]) }
pub open spec fn aip(c: Coordinate) -> bool { isi(c.x) && isi(c.y) && -B() <= it(c.x) <= B() && -B() <= it(c.y) <= B() }
pub open spec fn closed(s: Seq<Coordinate>) -> bool { s.len() > 0 ==> eqp(s[0], s[s.len() - 1]) }
/// the shoelace sum: twice the area, positive for clockwise rings
pub open spec fn cross(s: Seq<Coordinate>, i: int) -> int { x(s, i + 1) * y(s, i) - x(s, i) * y(s, i + 1) }
pub open spec fn shoe(s: Seq<Coordinate>, k: int) -> int decreases k { if k <= 0 { 0 } else { shoe(s, k - 1) + cross(s, k - 1) } }
/// the sum as computed: relative to the first abscissa, one term per inner vertex
pub open spec fn rel(s: Seq<Coordinate>, k: int) -> int decreases k { if k <= 1 { 0 } else { rel(s, k - 1) + (x(s, k - 1) - x(s, 0)) * (y(s, k - 2) - y(s, k)) } }
pub proof fn lemma_rel(s: Seq<Coordinate>, k: int) requires k >= 1
  ensures shoe(s, k) == rel(s, k) + (x(s, k) - x(s, 0)) * y(s, k - 1) - x(s, 0) * (y(s, k) - y(s, 0)) decreases k
{
  if k == 1 { let (a, b, c, d) = (x(s, 1), y(s, 0), x(s, 0), y(s, 1)); assert(shoe(s, 1) == shoe(s, 0) + cross(s, 0)); assert(shoe(s, 0) == 0); assert(rel(s, 1) == 0);
     assert(a * b - c * d == (a - c) * b - c * (d - b)) by (nonlinear_arith); }
  else { lemma_rel(s, k - 1);
     let (xk, xp, x0, yk, yp, yq, y0) = (x(s, k), x(s, k - 1), x(s, 0), y(s, k), y(s, k - 1), y(s, k - 2), y(s, 0));
     assert(cross(s, k - 1) == xk * yp - xp * yk);
     assert((xp - x0) * yq - x0 * (yp - y0) + (xk * yp - xp * yk) == (xp - x0) * (yq - yk) + (xk - x0) * yp - x0 * (yk - y0)) by (nonlinear_arith); }
}
pub open spec fn area2(s: Seq<Coordinate>) -> int { if s.len() < 3 { 0 } else { shoe(s, s.len() - 1) } }
pub proof fn lemma_area(s: Seq<Coordinate>) requires s.len() >= 3, closed(s) ensures area2(s) == rel(s, s.len() - 1)
{ let n = s.len() - 1; lemma_rel(s, n);
  let (d, yy, x0, e) = (x(s, n) - x(s, 0), y(s, n - 1), x(s, 0), y(s, n) - y(s, 0));
  assert(d * yy == 0) by (nonlinear_arith) requires d == 0; assert(x0 * e == 0) by (nonlinear_arith) requires e == 0; }
pub proof fn lemma_relb(s: Seq<Coordinate>, k: int) requires aok(s), 1 <= k <= s.len() - 1
  ensures -((k - 1) * 4398046511104) <= rel(s, k) <= (k - 1) * 4398046511104, k * 4398046511104 <= 9007199254740992 decreases k
{ if k > 1 { lemma_relb(s, k - 1); let a = x(s, k - 1) - x(s, 0); let b = y(s, k - 2) - y(s, k);
    assert(aip(s[k - 1]) && aip(s[0]) && aip(s[k - 2]) && aip(s[k]));
    assert(-4398046511104 <= a * b <= 4398046511104) by (nonlinear_arith) requires -2 * B() <= a <= 2 * B(), -2 * B() <= b <= 2 * B(), B() == 1048576; } }
/// half an integer below 2^53 is a double
pub axiom fn ax_rnd_half(k: int) requires -9007199254740992 <= k <= 9007199254740992 ensures rnd(k as real / 2real) == k as real / 2real;
pub assume_specification[ f64::abs ](x: f64) -> (r: f64) ensures fin(x) ==> fin(r) && val(r) == rabs(val(x));
pub open spec fn relh(s: Seq<Coordinate>) -> real { if s.len() < 3 { 0real } else { rel(s, s.len() - 1) as real / 2real } }
pub open spec fn hlf(s: Seq<Coordinate>) -> real { area2(s) as real / 2real }

// ---- length: any finite ordinates up to 2^20, any number of points
pub uninterp spec fn hypr(x: real, y: real) -> real;
/// what is assumed of libm's hypot: a function of the two magnitudes, between either of them and their sum, exact on the axes
pub broadcast axiom fn ax_hypr(x: real, y: real) ensures #[trigger] hypr(x, y) >= rabs(x), hypr(x, y) >= rabs(y), hypr(x, y) <= rabs(x) + rabs(y),
   hypr(x, y) == hypr(-x, -y);
pub assume_specification[ f64::hypot ](x: f64, y: f64) -> (r: f64) ensures fin(x) && fin(y) && rabs(val(x)) <= 4194304real && rabs(val(y)) <= 4194304real ==> fin(r) && val(r) == hypr(val(x), val(y));
pub open spec fn lpt(c: Coordinate) -> bool { fin(c.x) && fin(c.y) && rabs(val(c.x)) <= 1048576real && rabs(val(c.y)) <= 1048576real }
pub open spec fn lok(s: Seq<Coordinate>) -> bool { s.len() <= 2147483647 && forall|i: int| 0 <= i < s.len() ==> lpt(#[trigger] s[i]) }
/// length of the segment ending at point i, and of the first k of them, each addition correctly rounded
pub open spec fn seg(s: Seq<Coordinate>, i: int) -> real { hypr(rnd(val(s[i].x) - val(s[i - 1].x)), rnd(val(s[i].y) - val(s[i - 1].y))) }
pub open spec fn flen(s: Seq<Coordinate>, k: int) -> real decreases k { if k <= 1 { 0real } else { rnd(flen(s, k - 1) + seg(s, k - 1)) } }
pub proof fn lemma_d(a: f64, b: f64) requires fin(a), fin(b), rabs(val(a)) <= 1048576real, rabs(val(b)) <= 1048576real
  ensures rabs(rnd(val(a) - val(b))) <= 2097152real, (rnd(val(a) - val(b)) == 0real) == (val(a) == val(b)), rnd(val(a) - val(b)) == -rnd(val(b) - val(a))
{ ax_rnd_mono(val(a) - val(b), 2097152real); ax_rnd_mono(-2097152real, val(a) - val(b)); ax_rnd_int(2097152); ax_rnd_int(-2097152); ax_rnd_err_sum(a, b); ax_rnd_zero();
  ax_rnd_neg(val(a) - val(b)); assert(-(val(a) - val(b)) == val(b) - val(a)); }
pub proof fn lemma_seg(s: Seq<Coordinate>, i: int) requires lok(s), 1 <= i < s.len()
  ensures 0real <= seg(s, i) <= 4194304real, (seg(s, i) == 0real) == eqv(s[i], s[i - 1])
{ broadcast use ax_hypr; assert(lpt(s[i]) && lpt(s[i - 1])); lemma_d(s[i].x, s[i - 1].x); lemma_d(s[i].y, s[i - 1].y); }
pub proof fn lemma_flen(s: Seq<Coordinate>, k: int) requires lok(s), 0 <= k <= s.len()
  ensures 0real <= flen(s, k) <= (k * 4194304) as real, k > 1 ==> (flen(s, k - 1) + seg(s, k - 1) <= (k * 4194304) as real && 0real <= flen(s, k - 1) + seg(s, k - 1))  decreases k
{ if k > 1 { lemma_flen(s, k - 1); lemma_seg(s, k - 1); let t = flen(s, k - 1) + seg(s, k - 1); ax_rnd_zero(); ax_rnd_mono(0real, t); ax_rnd_int(k * 4194304); ax_rnd_mono(t, (k * 4194304) as real); } }
"""
# one term of the area sum
TERM = """proof { let k = $v as int; assert(aip(S[k]) && aip(S[k + 1]) && aip(S[k - 1]) && aip(S[0])); lemma_relb(S, k + 1); lemma_relb(S, k);
   lemma_pb(x(S, k) - x(S, 0), y(S, k - 1) - y(S, k + 1), 2 * B(), 2 * B()); }"""
DDI_PB = common.c03.DDI[common.c03.DDI.index("pub proof fn lemma_pb"):common.c03.DDI.index("pub open spec fn deti")]
PRELUDE += DDI_PB
AE = "fin(r), val(r) == relh(%s), closed(%s) ==> val(r) == hlf(%s)"
IMPLS = [common.coordinate("default", "set_coordinate", "new_coordinatexy_default", "new_coordinatexym_default", "new_coordinatexyzm_default"),
 dict(file="src/core/geom/coordinates.rs", ty="Coordinates", fns=[Fn("create_dim_measures")]),
 common.sequence("size", "get_dimension", "get_measures", "get_coordinate_index_coordinate", "create_coordinate_default"),
 dict(file="src/core/algorithm/area.rs", ty="Area", fns=[
   Fn("of_ring_signed_vec", requires="aok(ring@)", ensures=AE % (("ring@",) * 3),
      start=BI + "broadcast use ax_div; let ghost S = ring@; proof { if S.len() >= 3 { if closed(S) { lemma_area(S); } lemma_relb(S, S.len() - 1); ax_rnd_half(rel(S, S.len() - 1)); assert(aip(S[0])); lemma_h(rel(S, S.len() - 1)); } }",
      loops=[dict(kind="for", inv="invariant isi(sum), it(sum) == rel(S, $v as int), 1 <= $v,", start=TERM)]),
   Fn("of_ring_signed_coordinate_sequence", requires="aok(ring.coordinates@)", ensures=AE % (("ring.coordinates@",) * 3),
      start=BI + "broadcast use ax_div; let ghost S = ring.coordinates@; proof { if S.len() >= 3 { if closed(S) { lemma_area(S); } lemma_relb(S, S.len() - 1); ax_rnd_half(rel(S, S.len() - 1)); assert(aip(S[0])); assert(aip(S[1])); lemma_h(rel(S, S.len() - 1)); } }",
      loops=[dict(kind="for", inv="""invariant isi(sum), it(sum) == rel(S, $v as int), 1 <= $v, p1.y == S[$v - 1].y, p2.y == S[$v as int].y,
           isi(p2.x), it(p2.x) == x(S, $v as int) - x(S, 0),""", start=TERM)]),
   Fn("of_ring_vec", requires="aok(ring@)", ensures="fin(r), val(r) == rabs(relh(ring@)), closed(ring@) ==> val(r) == rabs(hlf(ring@))"),
   Fn("of_ring_coordinate_sequence", requires="aok(ring.coordinates@)", ensures="fin(r), val(r) == rabs(relh(ring.coordinates@)), closed(ring.coordinates@) ==> val(r) == rabs(hlf(ring.coordinates@))"),
 ]),
 dict(file="src/core/algorithm/length.rs", ty="Length", fns=[
   Fn("of_line", requires="lok(pts.coordinates@)", ensures="fin(r), val(r) == flen(pts.coordinates@, pts.coordinates@.len() as int)",
      start="broadcast use f64_ax, ty_ax; let ghost S = pts.coordinates@; proof { if S.len() >= 1 { assert(lpt(S[0])); } }",
      loops=[dict(kind="for", inv="invariant fin(len), val(len) == flen(S, $v as int), 1 <= $v, x0 == S[$v - 1].x, y0 == S[$v - 1].y,",
        start="""proof { let k = $v as int; assert(lpt(S[k]) && lpt(S[k - 1])); lemma_d(S[k].x, S[k - 1].x); lemma_d(S[k].y, S[k - 1].y); lemma_seg(S, k); lemma_flen(S, k); lemma_flen(S, k + 1); }""")]),
 ]),
]
LEMMAS = """
pub proof fn foil(a: int, b: int, c: int, d: int) ensures (a + b) * (c + d) == a * c + a * d + b * c + b * d { assert((a + b) * (c + d) == a * c + a * d + b * c + b * d) by (nonlinear_arith); }
pub proof fn lemma_neg(a: int, b: int) ensures (-a) * b == -(a * b), b * (-a) == -(a * b), a * b == b * a { assert((-a) * b == -(a * b) && b * (-a) == -(a * b) && a * b == b * a) by (nonlinear_arith); }
pub proof fn lemma_h(k: int) requires -9007199254740992 <= k <= 9007199254740992 ensures inrange(k as real / 2real) { broadcast use ax_big; }
// ---- laws of the area
pub open spec fn rev(s: Seq<Coordinate>) -> Seq<Coordinate> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
/// the edges a..b
pub open spec fn part(s: Seq<Coordinate>, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { part(s, a, b - 1) + cross(s, b - 1) } }
pub proof fn lemma_part(s: Seq<Coordinate>, k: int) ensures part(s, 0, k) == shoe(s, k) decreases k { if k > 0 { lemma_part(s, k - 1); } }
pub proof fn lemma_split(s: Seq<Coordinate>, a: int, m: int, b: int) requires a <= m <= b ensures part(s, a, b) == part(s, a, m) + part(s, m, b) decreases b - m
{ if m < b { lemma_split(s, a, m, b - 1); } }
pub proof fn lemma_rev(s: Seq<Coordinate>, k: int) requires 0 <= k < s.len() ensures part(rev(s), 0, k) == -part(s, s.len() - 1 - k, s.len() - 1) decreases k
{ if k > 0 { let n = s.len() as int; lemma_rev(s, k - 1); lemma_split(s, n - 1 - k, n - k, n - 1);
   assert(part(s, n - 1 - k, n - k) == part(s, n - 1 - k, n - 1 - k) + cross(s, n - 1 - k));
   assert(rev(s)[k] == s[n - 1 - k]); assert(rev(s)[k - 1] == s[n - k]);
   assert(cross(rev(s), k - 1) == x(s, n - 1 - k) * y(s, n - k) - x(s, n - k) * y(s, n - 1 - k)); } }
pub proof fn theorem_area_reverse(s: Seq<Coordinate>) ensures area2(rev(s)) == -area2(s)
{ if s.len() >= 3 { lemma_rev(s, s.len() - 1); lemma_part(s, s.len() - 1); lemma_part(rev(s), s.len() - 1); } }
pub open spec fn rot(s: Seq<Coordinate>) -> Seq<Coordinate> { s.subrange(1, s.len() as int).push(s[1]) }
pub proof fn lemma_shift(s: Seq<Coordinate>, k: int) requires 0 <= k <= s.len() - 2, s.len() >= 2 ensures part(rot(s), 0, k) == part(s, 1, k + 1) decreases k
{ if k > 0 { lemma_shift(s, k - 1); assert(rot(s)[k] == s[k + 1]); assert(rot(s)[k - 1] == s[k]); } }
pub proof fn theorem_area_rotate(s: Seq<Coordinate>) requires s.len() >= 3, closed(s) ensures closed(rot(s)), area2(rot(s)) == area2(s)
{ let n = s.len() as int; let r = rot(s);
  assert(r[n - 1] == s[1] && r[n - 2] == s[n - 1] && r[0] == s[1]);
  lemma_shift(s, n - 2); lemma_part(s, n - 1); lemma_part(r, n - 1); lemma_split(s, 0, 1, n - 1); lemma_split(r, 0, n - 2, n - 1);
  assert(part(s, 0, 1) == part(s, 0, 0) + cross(s, 0)); assert(part(r, n - 2, n - 1) == part(r, n - 2, n - 2) + cross(r, n - 2));
  assert(cross(r, n - 2) == cross(s, 0)); }
/// translation: t is s moved by (a, b)
pub open spec fn moved(s: Seq<Coordinate>, t: Seq<Coordinate>, a: int, b: int) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> x(t, i) == #[trigger] x(s, i) + a && y(t, i) == y(s, i) + b }
pub proof fn lemma_moved(s: Seq<Coordinate>, t: Seq<Coordinate>, a: int, b: int, k: int) requires moved(s, t, a, b), 0 <= k < s.len()
  ensures shoe(t, k) == shoe(s, k) + (x(s, k) - x(s, 0)) * b - a * (y(s, k) - y(s, 0)) decreases k
{ if k > 0 { lemma_moved(s, t, a, b, k - 1);
   let (u, v, p, q, x0, y0) = (x(s, k), y(s, k), x(s, k - 1), y(s, k - 1), x(s, 0), y(s, 0));
   assert(x(t, k) == u + a && y(t, k) == v + b && x(t, k - 1) == p + a && y(t, k - 1) == q + b);
   foil(u, a, q, b); foil(p, a, v, b); foil(u, -p, b, 0); foil(a, 0, v, -q); lemma_neg(p, b); lemma_neg(q, a);
   assert((u + a) * (q + b) - (p + a) * (v + b) == u * q - p * v + (u - p) * b - a * (v - q));
   assert((p - x0) * b + (u - p) * b == (u - x0) * b) by (nonlinear_arith);
   assert(a * (q - y0) + a * (v - q) == a * (v - y0)) by (nonlinear_arith);
 } else { assert((x(s, 0) - x(s, 0)) * b == 0) by (nonlinear_arith); assert(a * (y(s, 0) - y(s, 0)) == 0) by (nonlinear_arith); } }
pub proof fn theorem_area_translate(s: Seq<Coordinate>, t: Seq<Coordinate>, a: int, b: int) requires moved(s, t, a, b), closed(s) ensures area2(t) == area2(s)
{ if s.len() >= 3 { let n = s.len() - 1; lemma_moved(s, t, a, b, n);
  let (d, e) = (x(s, n) - x(s, 0), y(s, n) - y(s, 0)); assert(d * b == 0) by (nonlinear_arith) requires d == 0; assert(a * e == 0) by (nonlinear_arith) requires e == 0; } }
/// a triangle: positive exactly when clockwise
pub proof fn theorem_area_triangle(s: Seq<Coordinate>) requires s.len() == 4, closed(s) ensures area2(s) == -dt(s[0], s[1], s[2])
{ reveal_with_fuel(shoe, 4); let (a, b, c, d, e, f) = (x(s, 0), y(s, 0), x(s, 1), y(s, 1), x(s, 2), y(s, 2));
  assert(area2(s) == cross(s, 0) + cross(s, 1) + cross(s, 2));
  assert((c - a) * (f - d) == c * f - c * d - a * f + a * d) by (nonlinear_arith);
  assert((d - b) * (e - c) == d * e - d * c - b * e + b * c) by (nonlinear_arith);
  assert(c * b == b * c && e * d == d * e && e * b == b * e && c * d == d * c) by (nonlinear_arith); }
// ---- laws of the length
pub proof fn lemma_zero(s: Seq<Coordinate>, k: int) requires lok(s), 1 <= k <= s.len()
  ensures (flen(s, k) == 0real) == (forall|i: int| 0 <= i < k ==> eqv(#[trigger] s[i], s[0])) decreases k
{ if k > 1 { lemma_zero(s, k - 1); lemma_seg(s, k - 1); lemma_flen(s, k - 1); ax_rnd_zero(); let f = flen(s, k - 1); let g = seg(s, k - 1);
   if f == 0real && g == 0real { assert forall|i: int| 0 <= i < k implies eqv(#[trigger] s[i], s[0]) by { assert(eqv(s[k - 2], s[0])); } }
   else if flen(s, k) == 0real { lemma_pos(f, g, s, k); }
   else { } } }
/// a sum of non-negative lengths, one of them not zero, does not round to zero
pub proof fn lemma_pos(f: real, g: real, s: Seq<Coordinate>, k: int) requires lok(s), 1 < k <= s.len(), f == flen(s, k - 1), g == seg(s, k - 1), f > 0real || g > 0real, f >= 0real, g >= 0real
  ensures rnd(f + g) > 0real
{ if g > 0real { ax_rnd_mono(g, f + g); lemma_segf(s, k - 1); } else { assert(f + g == f); lemma_flenf(s, k - 1); } }
pub proof fn lemma_segf(s: Seq<Coordinate>, i: int) ensures rnd(seg(s, i)) == seg(s, i) { ax_rnd_idem(val(s[i].x) - val(s[i - 1].x)); ax_rnd_idem(val(s[i].y) - val(s[i - 1].y)); ax_hypr_float(rnd(val(s[i].x) - val(s[i - 1].x)), rnd(val(s[i].y) - val(s[i - 1].y))); }
pub axiom fn ax_hypr_float(x: real, y: real) requires rnd(x) == x, rnd(y) == y ensures rnd(hypr(x, y)) == hypr(x, y);
pub axiom fn ax_rnd_idem(x: real) ensures rnd(rnd(x)) == rnd(x);
pub proof fn lemma_flenf(s: Seq<Coordinate>, k: int) ensures rnd(flen(s, k)) == flen(s, k) { ax_rnd_zero(); if k > 1 { ax_rnd_idem(flen(s, k - 1) + seg(s, k - 1)); } }
pub proof fn theorem_length_zero(s: Seq<Coordinate>) requires lok(s), s.len() >= 1 ensures flen(s, s.len() as int) >= 0real,
   (flen(s, s.len() as int) == 0real) == (forall|i: int| 0 <= i < s.len() ==> eqv(#[trigger] s[i], s[0]))
{ lemma_zero(s, s.len() as int); lemma_flen(s, s.len() as int); }
/// when the segment lengths are integers the length is their exact sum, so the direction does not matter
pub open spec fn il(s: Seq<Coordinate>) -> bool { forall|i: int| 1 <= i < s.len() ==> (it_r(#[trigger] seg(s, i)) as real) == seg(s, i) }
pub open spec fn it_r(x: real) -> int { choose|k: int| #[trigger] ireal(k) == x }
pub open spec fn isum(s: Seq<Coordinate>, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { isum(s, a, b - 1) + it_r(seg(s, b)) } }
pub proof fn lemma_isum(s: Seq<Coordinate>, k: int) requires lok(s), il(s), 1 <= k <= s.len() ensures flen(s, k) == isum(s, 0, k - 1) as real decreases k
{ if k > 1 { lemma_isum(s, k - 1); lemma_seg(s, k - 1); lemma_flen(s, k); ax_rnd_int(isum(s, 0, k - 1)); } }
pub proof fn lemma_isplit(s: Seq<Coordinate>, a: int, m: int, b: int) requires a <= m <= b ensures isum(s, a, b) == isum(s, a, m) + isum(s, m, b) decreases b - m
{ if m < b { lemma_isplit(s, a, m, b - 1); } }
pub proof fn lemma_segrev(s: Seq<Coordinate>, i: int) requires lok(s), 1 <= i < s.len() ensures seg(rev(s), s.len() - i) == seg(s, i)
{ broadcast use ax_hypr; let n = s.len() as int; let r = rev(s); assert(r[n - i] == s[i - 1] && r[n - i - 1] == s[i]); assert(lpt(s[i]) && lpt(s[i - 1])); lemma_d(s[i].x, s[i - 1].x); lemma_d(s[i].y, s[i - 1].y);
  lemma_d(s[i - 1].x, s[i].x); lemma_d(s[i - 1].y, s[i].y);
  assert(hypr(-rnd(val(s[i].x) - val(s[i - 1].x)), -rnd(val(s[i].y) - val(s[i - 1].y))) == hypr(rnd(val(s[i].x) - val(s[i - 1].x)), rnd(val(s[i].y) - val(s[i - 1].y)))); }
pub proof fn lemma_isumrev(s: Seq<Coordinate>, k: int) requires lok(s), 0 <= k < s.len() ensures isum(rev(s), 0, k) == isum(s, s.len() - 1 - k, s.len() - 1) decreases k
{ if k > 0 { let n = s.len() as int; lemma_isumrev(s, k - 1); lemma_segrev(s, n - k); lemma_isplit(s, n - 1 - k, n - k, n - 1); assert(isum(s, n - 1 - k, n - k) == isum(s, n - 1 - k, n - 1 - k) + it_r(seg(s, n - k))); } }
pub proof fn theorem_length_reverse(s: Seq<Coordinate>) requires lok(s), il(s), s.len() >= 1 ensures flen(rev(s), s.len() as int) == flen(s, s.len() as int)
{ let n = s.len() as int; let r = rev(s); lemma_isum(s, n);
  assert(lok(r)) by { assert forall|i: int| 0 <= i < r.len() implies lpt(#[trigger] r[i]) by { assert(lpt(s[n - 1 - i])); } }
  assert(il(r)) by { assert forall|i: int| 1 <= i < r.len() implies (it_r(#[trigger] seg(r, i)) as real) == seg(r, i) by { lemma_segrev(s, n - i); assert((it_r(seg(s, n - i)) as real) == seg(s, n - i)); } }
  lemma_isum(r, n); lemma_isumrev(s, n - 1); }
"""
