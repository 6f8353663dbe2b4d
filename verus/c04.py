import copy
from rsx import Fn
import common, c16
from common import BI
USES = ["f64"]
STRUCTS = [common.COORD, common.CAS, common.ORI, ("src/core/algorithm/area.rs", "Area", "")]
area = copy.deepcopy([f for f in c16.IMPLS[3]["fns"] if f.name == "of_ring_signed_vec"][0])
area.external = True
PRELUDE = c16.PRELUDE + common.TOVEC + """
pub open spec fn rok(s: Seq<Coordinate>) -> bool { forall|i: int| 0 <= i < s.len() ==> ipt(#[trigger] s[i]) }
pub open spec fn flat(s: Seq<Coordinate>) -> bool { forall|k: int| 0 <= k < s.len() ==> it((#[trigger] s[k]).y) == it(s[0].y) }
/// the ring position d steps after i, on a ring of n distinct positions
pub open spec fn pos(n: int, i: int, d: int) -> int { if i + d >= n { i + d - n } else { i + d } }
pub open spec fn prev(n: int, j: int) -> int { if j > 0 { j - 1 } else { n - 1 } }
/// an edge rises to a highest point i; d steps later the ring first goes down again
pub open spec fn iscap(s: Seq<Coordinate>, i: int, d: int) -> bool {
  let n = s.len() - 1;
  1 <= i <= n && 1 <= d < n && it(s[i - 1].y) < it(s[i].y) && (forall|k: int| 0 <= k <= n ==> it((#[trigger] s[k]).y) <= it(s[i].y))
  && it(s[pos(n, i, d)].y) < it(s[i].y) && (forall|e: int| 1 <= e < d ==> it(s[#[trigger] pos(n, i, e)].y) == it(s[i].y)) }
/// the cap is counter-clockwise: a single top point turns left, a flat top runs to the left
pub open spec fn capccw(s: Seq<Coordinate>, i: int, d: int) -> bool {
  let n = s.len() - 1; let j = pos(n, i, d); let h = s[prev(n, j)];
  if eqp(s[i], h) { !eqp(s[i - 1], s[i]) && !eqp(s[j], s[i]) && !eqp(s[i - 1], s[j]) && dt(s[i - 1], s[i], s[j]) > 0 } else { it(h.x) < it(s[i].x) } }
/// what the orientation test must answer
pub open spec fn ccw(s: Seq<Coordinate>, r: bool) -> bool {
  if s.len() < 4 || flat(s) { !r } else { exists|i: int, d: int| #[trigger] iscap(s, i, d) && r == capccw(s, i, d) } }
pub proof fn lemma_mod1(x: int, n: int) requires 0 <= x <= n, n >= 2 ensures (x + 1) % n == if x + 1 >= n { x + 1 - n } else { x + 1 }
{ if x + 1 < n { assert((x + 1) % n == x + 1) by (nonlinear_arith) requires 0 <= x, x + 1 < n; }
  else { let y = x + 1 - n; assert((y + n) % n == y) by (nonlinear_arith) requires 0 <= y < n, n >= 2; } }
"""
IMPLS = [common.coordinate("default", "get_ordinate", "equals_2d"), common.sequence("size", "get_coordinate_index", "get_ordinate", "new_with_coordinates_dimension_measures"),
 dict(file="src/core/algorithm/area.rs", ty="Area", fns=[area]),
 dict(file="src/core/algorithm/orientation.rs", ty="Orientation", consts=["CLOCKWISE", "RIGHT", "COUNTERCLOCKWISE", "LEFT", "COLLINEAR", "STRAIGHT"], fns=[
   common.ORIENTATION["fns"][0],
   Fn("is_ccw_coordinate_array_sequence", requires="rok(ring.coordinates@), closed(ring.coordinates@)", ensures="ccw(ring.coordinates@, r)",
      start=BI + "let ghost S = ring.coordinates@; let ghost mut d = 0int; proof { let l = ring.coordinates.len(); assert(l == S.len()); }",
      loops=[dict(kind="for", inv="""invariant 1 <= $v <= S.len(), n_pts == S.len() - 1, 0 <= i_up_hi < $v, up_hi_pt == S[i_up_hi as int], prev_y == S[$v - 1].y,
              forall|k: int| 0 <= k < $v ==> it((#[trigger] S[k]).y) <= it(up_hi_pt.y),
              i_up_hi > 0 ==> up_low_pt == S[i_up_hi - 1] && it(S[i_up_hi - 1].y) < it(S[i_up_hi as int].y),
              i_up_hi == 0 ==> it(S[$v - 1].y) < it(S[0].y) || forall|k: int| 0 <= k < $v ==> it((#[trigger] S[k]).y) == it(S[0].y),""",
              start="proof { assert(ipt(S[$v as int])); assert(ipt(S[$v - 1])); assert(ipt(S[i_up_hi as int])); }",
              after="proof { if i_up_hi == 0 { assert(it(S[S.len() - 1].y) == it(S[0].y)); assert(flat(S)); } else { assert(!flat(S)) by { assert(it(S[i_up_hi - 1].y) < it(S[i_up_hi as int].y)); } } }"),
             dict(kind="loop", inv="""invariant 1 <= i_up_hi <= n_pts, 0 <= d < n_pts, i_down_low <= n_pts, d == 0 ==> i_down_low == i_up_hi, d > 0 ==> i_down_low == pos(n_pts as int, i_up_hi as int, d),
              d > 0 ==> i_down_low < n_pts, forall|e: int| 1 <= e <= d ==> it(S[#[trigger] pos(n_pts as int, i_up_hi as int, e)].y) == it(S[i_up_hi as int].y),
              ensures 1 <= d < n_pts, i_down_low == pos(n_pts as int, i_up_hi as int, d), iscap(S, i_up_hi as int, d),
              decreases n_pts - d""",
              start="""proof { d = d + 1; lemma_mod1(i_down_low as int, n_pts as int); assert(ipt(S[pos(n_pts as int, i_up_hi as int, d)])); assert(ipt(S[i_up_hi as int]));
                 assert(pos(n_pts as int, i_up_hi as int, n_pts - 1) == i_up_hi - 1 || (i_up_hi == n_pts && pos(n_pts as int, i_up_hi as int, n_pts - 1) == n_pts - 1)); }""",
              after="proof { let n = n_pts as int; lemma_ccw(S, i_up_hi as int, d); let jj = pos(n, i_up_hi as int, d); assert(i_down_low == jj); assert(prev(n, jj) == if i_down_low > 0 { i_down_low - 1 } else { n_pts - 1 }); assert(ipt(S[i_down_low as int])); assert(ipt(S[prev(n_pts as int, i_down_low as int)])); assert(ipt(S[i_up_hi as int])); assert(ipt(S[i_up_hi - 1])); }")]),
   Fn("is_ccw_vec", requires="rok(ring@), closed(ring@)", ensures="ccw(ring@, r)", start="proof { lemma_tv(ring@); }"),
   Fn("is_ccw_area_vec", requires="aok(ring@)", ensures="r == (relh(ring@) < 0real), closed(ring@) ==> r == (area2(ring@) < 0)", start="broadcast use f64_ax;"),
 ]),
]
LEMMAS = """
pub proof fn lemma_tv(s: Seq<Coordinate>) ensures true { }
pub proof fn lemma_ccw(s: Seq<Coordinate>, i: int, d: int) requires s.len() >= 4, !flat(s), iscap(s, i, d) ensures ccw(s, capccw(s, i, d)) { }
pub proof fn lemma_cyc(a: Coordinate, b: Coordinate, c: Coordinate) ensures dt(a, b, c) == dt(b, c, a), dt(a, b, c) == dt(c, a, b), dt(a, b, c) == -dt(a, c, b),
   eqp(a, b) || eqp(b, c) || eqp(a, c) ==> dt(a, b, c) == 0
{ let (p, q, r, s, t, u) = (it(a.x), it(a.y), it(b.x), it(b.y), it(c.x), it(c.y));
  let (e, f, g, h) = (r - p, s - q, t - r, u - s);
  assert(e * h - f * g == g * (-f - h) - h * (-e - g)) by (nonlinear_arith);
  assert(e * h - f * g == (-e - g) * f - (-f - h) * e) by (nonlinear_arith);
  assert(e * h - f * g == -((e + g) * (-h) - (f + h) * (-g))) by (nonlinear_arith);
  assert(dt(a, b, c) == e * h - f * g);
  assert(e == 0 && f == 0 ==> e * h - f * g == 0) by (nonlinear_arith);
  assert(g == 0 && h == 0 ==> e * h - f * g == 0) by (nonlinear_arith);
  assert(e == -g && f == -h ==> e * h - f * g == 0) by (nonlinear_arith);
}
pub proof fn lemma_level(l: Coordinate, a: Coordinate, b: Coordinate) requires it(a.y) == it(b.y), it(l.y) < it(a.y)
  ensures (dt(l, a, b) > 0) == (it(b.x) < it(a.x))
{ let (p, q, g, h) = (it(a.y) - it(l.y), it(a.x) - it(l.x), it(b.x) - it(a.x), it(b.y) - it(a.y));
  assert(dt(l, a, b) == q * h - p * g);
  assert((q * h - p * g > 0) == (g < 0)) by (nonlinear_arith) requires h == 0, p > 0; }
/// on triangles the contract is the sign of the enclosed area, whatever the start vertex and direction
pub proof fn theorem_triangle(s: Seq<Coordinate>, r: bool)
  requires s.len() == 4, eqp(s[0], s[3]), dt(s[0], s[1], s[2]) != 0, ccw(s, r) ensures r == (dt(s[0], s[1], s[2]) > 0)
{
  lemma_cyc(s[0], s[1], s[2]); lemma_cyc(s[3], s[1], s[2]);
  assert(dt(s[3], s[1], s[2]) == dt(s[0], s[1], s[2]));
  if flat(s) { assert(it(s[1].y) == it(s[0].y) && it(s[2].y) == it(s[0].y));
    let (e, f, g, h) = (it(s[1].x) - it(s[0].x), it(s[1].y) - it(s[0].y), it(s[2].x) - it(s[1].x), it(s[2].y) - it(s[1].y));
    assert(e * h - f * g == 0) by (nonlinear_arith) requires f == 0, h == 0; assert(false); }
  let (i, d) = choose|i: int, d: int| #[trigger] iscap(s, i, d) && r == capccw(s, i, d);
  assert(i == 1 || i == 2 || i == 3); assert(d == 1 || d == 2);
  let j = pos(3, i, d); let h = s[prev(3, j)];
  assert(j == 0 || j == 1 || j == 2);
  if d == 1 {
    assert(eqp(s[i], h));
    assert(dt(s[i - 1], s[i], s[j]) == dt(s[0], s[1], s[2])) by { if i == 1 { } else if i == 2 { assert(j == 0); lemma_cyc(s[1], s[2], s[0]); } else { assert(j == 1); lemma_cyc(s[2], s[3], s[1]); } }
    lemma_cyc(s[i - 1], s[i], s[j]);
  } else {
    let e = pos(3, i, 1); assert(it(s[e].y) == it(s[i].y));
    if i == 1 { assert(e == 2 && j == 0 && h == s[2]); lemma_level(s[0], s[1], s[2]); }
    else if i == 2 { assert(e == 0 && j == 1 && h == s[0]); lemma_level(s[1], s[2], s[0]); }
    else { assert(e == 1 && j == 2 && h == s[1]); lemma_level(s[2], s[3], s[1]); lemma_cyc(s[2], s[3], s[1]); }
    lemma_cyc(s[i - 1], s[i], h);
  }
}
"""
