from rsx import Fn
import c03, common
from common import BI
USES = ["f64"]
STRUCTS = [common.COORD, common.CAS, common.LOC, common.ORI, ("src/core/algorithm/ray_crossing_counter.rs", "RayCrossingCounter", ""),
           ("src/core/algorithm/point_location.rs", "PointLocation", ""), ("src/core/geom/envelope.rs", "Envelope", "#[derive(Copy, Clone)]"),
           ("src/core/geom/implementation/packed_coordinate_sequence_double.rs", "PackedCoordinateSequenceDouble", "")]
PRELUDE = common.DET + common.PTS + """
pub open spec fn mn(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn mx(a: int, b: int) -> int { if a >= b { a } else { b } }
/// p is a point of the closed segment a-b
pub open spec fn seg_on(p: Coordinate, a: Coordinate, b: Coordinate) -> bool {
    mn(it(a.x), it(b.x)) <= it(p.x) <= mx(it(a.x), it(b.x)) && mn(it(a.y), it(b.y)) <= it(p.y) <= mx(it(a.y), it(b.y)) && dt(a, b, p) == 0 }
/// the segment (with its lower end, without its upper one) crosses the open rightward ray from p
pub open spec fn crosses(p: Coordinate, a: Coordinate, b: Coordinate) -> bool {
    ((it(a.y) > it(p.y)) != (it(b.y) > it(p.y))) && (if it(a.y) < it(b.y) { dt(a, b, p) > 0 } else { dt(b, a, p) > 0 }) }
/// what one call of count_segment may leave undetected: p is the first point of a falling segment
pub open spec fn detects(p: Coordinate, a: Coordinate, b: Coordinate) -> bool {
    seg_on(p, a, b) && !(eqp(p, a) && !eqp(p, b) && it(b.y) < it(p.y)) }
pub proof fn lemma_sym(p: Coordinate, a: Coordinate, b: Coordinate)
  ensures seg_on(p, a, b) == seg_on(p, b, a), crosses(p, a, b) == crosses(p, b, a), dt(a, b, p) == -dt(b, a, p)
{ assert(dt(a, b, p) == -dt(b, a, p)) by (nonlinear_arith) requires
    dt(a, b, p) == (it(b.x) - it(a.x)) * (it(p.y) - it(b.y)) - (it(b.y) - it(a.y)) * (it(p.x) - it(b.x)),
    dt(b, a, p) == (it(a.x) - it(b.x)) * (it(p.y) - it(a.y)) - (it(a.y) - it(b.y)) * (it(p.x) - it(a.x)); }
/// the geometry of one segment against the ray
pub proof fn lemma_seg(p: Coordinate, a: Coordinate, b: Coordinate)
  ensures
    it(a.x) < it(p.x) && it(b.x) < it(p.x) ==> !seg_on(p, a, b) && !crosses(p, a, b),
    eqp(p, b) || eqp(p, a) ==> seg_on(p, a, b) && !crosses(p, a, b),
    it(a.y) == it(p.y) && it(b.y) == it(p.y) ==> (seg_on(p, a, b) == (mn(it(a.x), it(b.x)) <= it(p.x) <= mx(it(a.x), it(b.x)))) && !crosses(p, a, b),
    ((it(a.y) > it(p.y)) != (it(b.y) > it(p.y))) ==> seg_on(p, a, b) == (dt(a, b, p) == 0),
    ((it(a.y) > it(p.y)) == (it(b.y) > it(p.y))) && !(it(a.y) == it(p.y) && it(b.y) == it(p.y)) && seg_on(p, a, b) ==> eqp(p, a) || eqp(p, b),
    seg_on(p, a, b) ==> !crosses(p, a, b)
{
  let (ax, ay, bx, by, x, y) = (it(a.x), it(a.y), it(b.x), it(b.y), it(p.x), it(p.y));
  let d = dt(a, b, p);
  assert(d == (bx - ax) * (y - by) - (by - ay) * (x - bx));
  lemma_sym(p, a, b);
  // d as a combination of the two horizontal offsets
  assert(d == (by - y) * (ax - x) - (ay - y) * (bx - x)) by (nonlinear_arith) requires d == (bx - ax) * (y - by) - (by - ay) * (x - bx);
  let (u, v) = (by - y, ay - y); let (s, t) = (ax - x, bx - x);
  assert(d == u * s - v * t);
  assert(u >= 0 && v <= 0 && s <= 0 && t <= 0 ==> d <= 0) by (nonlinear_arith) requires d == u * s - v * t;
  assert(u <= 0 && v >= 0 && s <= 0 && t <= 0 ==> d >= 0) by (nonlinear_arith) requires d == u * s - v * t;
  assert(u > 0 && v <= 0 && s < 0 && t < 0 ==> d < 0) by (nonlinear_arith) requires d == u * s - v * t;
  assert(u <= 0 && v > 0 && s < 0 && t < 0 ==> d > 0) by (nonlinear_arith) requires d == u * s - v * t;
  assert(u > 0 && v <= 0 && s > 0 && t > 0 ==> d > 0) by (nonlinear_arith) requires d == u * s - v * t;
  assert(u <= 0 && v > 0 && s > 0 && t > 0 ==> d < 0) by (nonlinear_arith) requires d == u * s - v * t;
  assert(u == 0 && v == 0 ==> d == 0) by (nonlinear_arith) requires d == u * s - v * t;
  assert(v == 0 && u != 0 && d == 0 ==> s == 0) by (nonlinear_arith) requires d == u * s - v * t;
  assert(u == 0 && v != 0 && d == 0 ==> t == 0) by (nonlinear_arith) requires d == u * s - v * t;
  assert(s == 0 && v == 0 ==> d == 0) by (nonlinear_arith) requires d == u * s - v * t;
  assert(t == 0 && u == 0 ==> d == 0) by (nonlinear_arith) requires d == u * s - v * t;
}
pub open spec fn pts_ok(s: Seq<Coordinate>) -> bool { s.len() <= 2147483647 && forall|i: int| 0 <= i < s.len() ==> ipt(#[trigger] s[i]) }
/// the ring's edges are s[i-1]-s[i] for 1 <= i < len
pub open spec fn on_some(p: Coordinate, s: Seq<Coordinate>, k: int) -> bool { exists|i: int| 1 <= i < k && seg_on(p, #[trigger] s[i], s[i - 1]) }
pub open spec fn ncross(p: Coordinate, s: Seq<Coordinate>, k: int) -> int decreases k {
    if k <= 1 { 0 } else { ncross(p, s, k - 1) + if crosses(p, s[k - 1], s[k - 2]) { 1int } else { 0 } } }
pub open spec fn closed(s: Seq<Coordinate>) -> bool { s.len() > 0 ==> eqp(s[0], s[s.len() - 1]) }
/// where p is relative to the ring: 1 boundary, 0 interior, 2 exterior
pub open spec fn where_is(p: Coordinate, s: Seq<Coordinate>) -> i32 {
    if on_some(p, s, s.len() as int) { 1i32 } else if ncross(p, s, s.len() as int) % 2 == 1 { 0i32 } else { 2i32 } }
pub proof fn lemma_ncross_nonneg(p: Coordinate, s: Seq<Coordinate>, k: int) ensures 0 <= ncross(p, s, k), k >= 1 ==> ncross(p, s, k) < k decreases k
{ if k > 1 { lemma_ncross_nonneg(p, s, k - 1); } }
/// after scanning all edges without a hit, p is on no edge at all (the ring is closed)
pub proof fn lemma_no_hit(p: Coordinate, s: Seq<Coordinate>)
  requires closed(s), forall|j: int| 1 <= j < s.len() ==> !detects(p, #[trigger] s[j], s[j - 1])
  ensures !on_some(p, s, s.len() as int)
{
  if on_some(p, s, s.len() as int) {
    let i = choose|i: int| 1 <= i < s.len() && seg_on(p, #[trigger] s[i], s[i - 1]);
    let n = s.len() as int;
    assert(!detects(p, s[i], s[i - 1]));
    assert(eqp(p, s[i]));
    if i + 1 < n {
      lemma_seg(p, s[i + 1], s[i]);
      assert(detects(p, s[i + 1], s[i + 1 - 1]));
    } else {
      lemma_seg(p, s[1], s[0]);
      assert(detects(p, s[1], s[1 - 1]));
    }
  }
}
"""
PRELUDE += common.PACKED + """
pub open spec fn pseq(s: PackedCoordinateSequenceDouble) -> Seq<Coordinate> {
    Seq::new(plen(s) as nat, |i: int| Coordinate { x: s.coords@[i * s.dimension], y: s.coords@[i * s.dimension + 1], z: 0.0f64, m: 0.0f64 }) }
"""
LOOP = dict(kind="for", inv="""
    invariant ipt(*p), pts_ok(S), S == %s, %s counter.p == *p, !counter.is_point_on_segment,
       S.len() > 0 ==> counter.crossing_count == ncross(*p, S, $v as int) && 0 <= counter.crossing_count < $v, S.len() == 0 ==> counter.crossing_count == 0,
       S.len() > 0 ==> forall|j: int| 1 <= j < $v ==> !detects(*p, #[trigger] S[j], S[j - 1]),""",
    start="proof { lemma_seg(*p, S[$v as int], S[$v - 1]); lemma_ncross_nonneg(*p, S, $v as int); assert(ipt(S[$v as int])); assert(ipt(S[$v - 1])); }")
LOOP["after"] = "proof { lemma_no_hit(*p, S); if S.len() == 0 { assert(ncross(*p, S, 0) == 0); } }"
def loop(view, extra, xs):
    d = dict(LOOP); d["inv"] = LOOP["inv"] % (view, extra); d["start"] = LOOP["start"] + xs
    return d
IMPLS = [common.coordinate("default", "from_coordinate", "set_coordinate", "equals_2d", "get_ordinate"), common.ORIENTATION,
 dict(file="src/core/geom/location.rs", ty="Location", consts=["INTERIOR", "BOUNDARY", "EXTERIOR"], fns=[]),
 common.sequence("size", "get_ordinate", "get_coordinate_index_coordinate"),
 dict(file="src/core/geom/envelope.rs", ty="Envelope", fns=[
   Fn("intersects_3", requires="ipt(*p1), ipt(*p2), ipt(*q)", ensures="r == (mn(it(p1.x), it(p2.x)) <= it(q.x) <= mx(it(p1.x), it(p2.x)) && mn(it(p1.y), it(p2.y)) <= it(q.y) <= mx(it(p1.y), it(p2.y)))", start=BI)]),
 dict(file="src/core/algorithm/ray_crossing_counter.rs", ty="RayCrossingCounter", fns=[
   Fn("new_with_coordinate", ensures="r.p == *p, r.crossing_count == 0, !r.is_point_on_segment"),
   Fn("count_segment", fneg=False, requires="ipt(*p1), ipt(*p2), ipt(old(self).p), old(self).crossing_count < 2147483647",
      ensures="""final(self).p == old(self).p,
        final(self).is_point_on_segment == (old(self).is_point_on_segment || detects(old(self).p, *p1, *p2)),
        final(self).crossing_count == old(self).crossing_count + if crosses(old(self).p, *p1, *p2) { 1int } else { 0int }""",
      start=BI + "proof { lemma_seg(self.p, *p1, *p2); lemma_sym(self.p, *p1, *p2); }"),
   Fn("get_count", ensures="r == self.crossing_count"),
   Fn("is_on_segment", ensures="r == self.is_point_on_segment"),
   Fn("get_location", requires="self.crossing_count >= 0", ensures="r == (if self.is_point_on_segment { 1i32 } else if self.crossing_count % 2 == 1 { 0i32 } else { 2i32 })"),
   Fn("is_point_in_polygon", requires="self.crossing_count >= 0", ensures="r == (self.is_point_on_segment || self.crossing_count % 2 == 1)"),
   Fn("locate_point_in_ring_vec", requires="ipt(*p), pts_ok(ring@), closed(ring@)", ensures="r == where_is(*p, ring@)",
      start=BI + "let ghost S = ring@;", loops=[loop("ring@", "", "")]),
   Fn("locate_point_in_ring_coordinate_array_sequence", requires="ipt(*p), pts_ok(ring.coordinates@), closed(ring.coordinates@)", ensures="r == where_is(*p, ring.coordinates@)",
      start=BI + "let ghost S = ring.coordinates@;", loops=[loop("ring.coordinates@", "", "")]),
   Fn("locate_point_in_ring_packed_coordinate_sequence",
      requires="ipt(*p), pok(*ring), plen(*ring) <= 2147483647, pts_ok(pseq(*ring)), closed(pseq(*ring))", ensures="r == where_is(*p, pseq(*ring))",
      start=BI + "let ghost S = pseq(*ring);", loops=[loop("pseq(*ring)", "pok(*ring), ", "proof { lemma_pidx(*ring, $v as int); lemma_pidx(*ring, $v - 1); }")]),
 ]),
 dict(file="src/core/algorithm/point_location.rs", ty="PointLocation", fns=[
   Fn("is_on_segment", requires="ipt(*p), ipt(*p0), ipt(*p1)", ensures="r == seg_on(*p, *p0, *p1)", start="proof { lemma_seg(*p, *p0, *p1); }"),
   Fn("is_on_line_coordinates", requires="ipt(*p), pts_ok(line@)", ensures="r == on_some(*p, line@, line@.len() as int)",
      start="let ghost S = line@;", loops=[dict(kind="for", inv="invariant ipt(*p), pts_ok(S), S == line@, S.len() > 0 ==> forall|j: int| 1 <= j < $v ==> !seg_on(*p, #[trigger] S[j], S[j - 1]),",
        start="proof { lemma_sym(*p, S[$v as int], S[$v - 1]); assert(ipt(S[$v as int])); assert(ipt(S[$v - 1])); }")]),
   Fn("is_on_line_coordinate_array_sequence", requires="ipt(*p), pts_ok(line.coordinates@)", ensures="r == on_some(*p, line.coordinates@, line.coordinates@.len() as int)",
      start="let ghost S = line.coordinates@;", loops=[dict(kind="for", inv="invariant ipt(*p), pts_ok(S), S == line.coordinates@, S.len() > 0 ==> forall|j: int| 1 <= j < $v ==> !seg_on(*p, #[trigger] S[j], S[j - 1]),",
        start="proof { lemma_sym(*p, S[$v as int], S[$v - 1]); assert(ipt(S[$v as int])); assert(ipt(S[$v - 1])); }")]),
   Fn("locate_in_ring", requires="ipt(*p), pts_ok(ring@), closed(ring@)", ensures="r == where_is(*p, ring@)"),
   Fn("is_in_ring", requires="ipt(*p), pts_ok(ring@), closed(ring@)", ensures="r == (where_is(*p, ring@) != 2)"),
 ]),
 dict(file="src/core/geom/implementation/packed_coordinate_sequence_double.rs", ty="PackedCoordinateSequenceDouble", fns=[
   Fn("size", requires="self.dimension > 0", ensures="r == plen(*self)"),
   Fn("get_ordinate", requires="self.dimension > 0, 0 <= ordinate < self.dimension, index < plen(*self)", ensures="r == self.coords@[index * self.dimension + ordinate]",
      start="proof { lemma_pdim(*self, index as int, ordinate as int); }"),
 ]),
]
LEMMAS = """
// laws over the contract: neither reversing the ring nor starting it elsewhere changes the answer
pub open spec fn rev(s: Seq<Coordinate>) -> Seq<Coordinate> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn cr(p: Coordinate, a: Coordinate, b: Coordinate) -> int { if crosses(p, a, b) { 1 } else { 0 } }
/// crossings of edges a+1..b
pub open spec fn between(p: Coordinate, s: Seq<Coordinate>, a: int, b: int) -> int decreases b - a {
    if b <= a { 0 } else { between(p, s, a, b - 1) + cr(p, s[b], s[b - 1]) } }
pub proof fn lemma_between(p: Coordinate, s: Seq<Coordinate>, k: int) requires k >= 1 ensures between(p, s, 0, k - 1) == ncross(p, s, k) decreases k
{ if k > 1 { lemma_between(p, s, k - 1); } }
pub proof fn lemma_split(p: Coordinate, s: Seq<Coordinate>, a: int, m: int, b: int) requires a <= m <= b
  ensures between(p, s, a, b) == between(p, s, a, m) + between(p, s, m, b) decreases b - m
{ if m < b { lemma_split(p, s, a, m, b - 1); } }
pub proof fn lemma_rev(p: Coordinate, s: Seq<Coordinate>, k: int) requires 0 <= k < s.len()
  ensures between(p, rev(s), 0, k) == between(p, s, s.len() - 1 - k, s.len() - 1) decreases k
{ if k > 0 { let n = s.len() as int; lemma_rev(p, s, k - 1); lemma_sym(p, s[n - k], s[n - 1 - k]);
    lemma_split(p, s, n - 1 - k, n - k, n - 1); assert(between(p, s, n - 1 - k, n - k) == between(p, s, n - 1 - k, n - k - 1) + cr(p, s[n - k], s[n - k - 1])); } }
pub proof fn theorem_reverse(p: Coordinate, s: Seq<Coordinate>) ensures where_is(p, rev(s)) == where_is(p, s)
{ let n = s.len() as int; let r = rev(s);
  if n > 0 { lemma_rev(p, s, n - 1); lemma_between(p, s, n); lemma_between(p, r, n); }
  if on_some(p, s, n) { let i = choose|i: int| 1 <= i < n && seg_on(p, #[trigger] s[i], s[i - 1]); lemma_sym(p, s[i], s[i - 1]); assert(r[n - i] == s[i - 1]); assert(r[n - i - 1] == s[i]); assert(seg_on(p, r[n - i], r[n - i - 1])); }
  if on_some(p, r, n) { let i = choose|i: int| 1 <= i < n && seg_on(p, #[trigger] r[i], r[i - 1]); lemma_sym(p, r[i], r[i - 1]); assert(s[n - i] == r[i - 1]); assert(s[n - i - 1] == r[i]); assert(seg_on(p, s[n - i], s[n - i - 1])); }
}
/// the ring started one vertex later; every other start is reached by repeating this
pub open spec fn rot(s: Seq<Coordinate>) -> Seq<Coordinate> { s.subrange(1, s.len() as int).push(s[1]) }
pub proof fn lemma_shift(p: Coordinate, s: Seq<Coordinate>, k: int) requires 0 <= k <= s.len() - 2, s.len() >= 2
  ensures between(p, rot(s), 0, k) == between(p, s, 1, k + 1) decreases k
{ if k > 0 { lemma_shift(p, s, k - 1); assert(rot(s)[k] == s[k + 1]); assert(rot(s)[k - 1] == s[k]); } }
pub proof fn lemma_eqp(p: Coordinate, a: Coordinate, b: Coordinate, c: Coordinate) requires eqp(a, b)
  ensures seg_on(p, a, c) == seg_on(p, b, c), crosses(p, a, c) == crosses(p, b, c), seg_on(p, c, a) == seg_on(p, c, b), crosses(p, c, a) == crosses(p, c, b) { }
pub proof fn theorem_rotate(p: Coordinate, s: Seq<Coordinate>) requires s.len() >= 2, closed(s) ensures closed(rot(s)), where_is(p, rot(s)) == where_is(p, s)
{ let n = s.len() as int; let r = rot(s);
  assert(r[n - 1] == s[1] && r[n - 2] == s[n - 1] && r[0] == s[1]);
  lemma_shift(p, s, n - 2); lemma_between(p, s, n); lemma_between(p, r, n);
  lemma_split(p, s, 0, 1, n - 1); lemma_split(p, r, 0, n - 2, n - 1);
  lemma_eqp(p, s[0], s[n - 1], s[1]);
  assert(between(p, s, 0, 1) == between(p, s, 0, 0) + cr(p, s[1], s[0]));
  assert(between(p, r, n - 2, n - 1) == between(p, r, n - 2, n - 2) + cr(p, r[n - 1], r[n - 2]));
  if on_some(p, s, n) { let i = choose|i: int| 1 <= i < n && seg_on(p, #[trigger] s[i], s[i - 1]);
    if i == 1 { assert(seg_on(p, r[n - 1], r[n - 2])); } else { assert(r[i - 1] == s[i]); assert(r[i - 2] == s[i - 1]); assert(seg_on(p, r[i - 1], r[i - 1 - 1])); } }
  if on_some(p, r, n) { let i = choose|i: int| 1 <= i < n && seg_on(p, #[trigger] r[i], r[i - 1]);
    if i == n - 1 { assert(seg_on(p, s[1], s[0])); } else { assert(r[i] == s[i + 1]); assert(r[i - 1] == s[i]); assert(seg_on(p, s[i + 1], s[i + 1 - 1])); } }
}
/// on a line: on one of its segments
pub proof fn theorem_line_reverse(p: Coordinate, s: Seq<Coordinate>) ensures on_some(p, rev(s), s.len() as int) == on_some(p, s, s.len() as int)
{ let n = s.len() as int; let r = rev(s);
  if on_some(p, s, n) { let i = choose|i: int| 1 <= i < n && seg_on(p, #[trigger] s[i], s[i - 1]); lemma_sym(p, s[i], s[i - 1]); assert(r[n - i] == s[i - 1]); assert(seg_on(p, r[n - i], r[n - i - 1])); }
  if on_some(p, r, n) { let i = choose|i: int| 1 <= i < n && seg_on(p, #[trigger] r[i], r[i - 1]); lemma_sym(p, r[i], r[i - 1]); assert(s[n - i] == r[i - 1]); assert(seg_on(p, s[n - i], s[n - i - 1])); }
}
"""
