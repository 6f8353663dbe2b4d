from rsx import Fn
import c05, common
from common import BI
USES = ["f64"]
STRUCTS = [common.COORD, common.LOC, common.ORI, ("src/core/geom/envelope.rs", "Envelope", "#[derive(Copy, Clone)]"),
           ("src/core/geom/precision_model.rs", "PrecisionModel", "#[derive(Copy, Clone)]"), ("src/core/geom/precision_model.rs", "PrecisionModelType", "#[derive(Copy, Clone)]"),
           ("src/core/algorithm/intersection.rs", "Intersection", ""), ("src/core/algorithm/distance.rs", "Distance", ""), ("src/core/algorithm/robust_line_intersector.rs", "RobustLineIntersector", ""), ("src/core/geom/line_segment.rs", "LineSegment", "#[derive(Copy, Clone)]")]
_G = c05.PRELUDE
PRELUDE = common.DET + common.PTS + _G[_G.index("pub open spec fn mn("):_G.index("/// the segment (with its lower end")] + """
pub open spec fn sym(a: Coordinate, b: Coordinate, p: Coordinate) -> bool { dt(a, b, p) == -dt(b, a, p) }
pub open spec fn crs(ux: int, uy: int, vx: int, vy: int) -> int { ux * vy - uy * vx }
/// the segments p1-p2 and q1-q2 have a point in common: it is at fraction n/d of the one and m/d of the other
pub open spec fn at(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate, d: int, n: int, m: int) -> bool {
    d > 0 && 0 <= n <= d && 0 <= m <= d
    && it(p1.x) * d + n * (it(p2.x) - it(p1.x)) == it(q1.x) * d + m * (it(q2.x) - it(q1.x))
    && it(p1.y) * d + n * (it(p2.y) - it(p1.y)) == it(q1.y) * d + m * (it(q2.y) - it(q1.y)) }
pub open spec fn shared(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool {
    exists|d: int, n: int, m: int| at(p1, p2, q1, q2, d, n, m) }
/// the point is on both segments
pub open spec fn both(x: Coordinate, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool { seg_on(x, p1, p2) && seg_on(x, q1, q2) }
pub open spec fn inbox(x: Coordinate, a: Coordinate, b: Coordinate) -> bool {
    mn(it(a.x), it(b.x)) <= it(x.x) <= mx(it(a.x), it(b.x)) && mn(it(a.y), it(b.y)) <= it(x.y) <= mx(it(a.y), it(b.y)) }
pub open spec fn boxes(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool {
    mn(it(p1.x), it(p2.x)) <= mx(it(q1.x), it(q2.x)) && mn(it(q1.x), it(q2.x)) <= mx(it(p1.x), it(p2.x))
    && mn(it(p1.y), it(p2.y)) <= mx(it(q1.y), it(q2.y)) && mn(it(q1.y), it(q2.y)) <= mx(it(p1.y), it(p2.y)) }
pub open spec fn isend(x: Coordinate, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool { eqp(x, p1) || eqp(x, p2) || eqp(x, q1) || eqp(x, q2) }
pub open spec fn noend(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool {
    !seg_on(q1, p1, p2) && !seg_on(q2, p1, p2) && !seg_on(p1, q1, q2) && !seg_on(p2, q1, q2) }
/// the box spanned by a and b, for ordinates that need not be integers
pub open spec fn vbox(x: Coordinate, a: Coordinate, b: Coordinate) -> bool {
    mn(it(a.x), it(b.x)) as real <= val(x.x) <= mx(it(a.x), it(b.x)) as real && mn(it(a.y), it(b.y)) as real <= val(x.y) <= mx(it(a.y), it(b.y)) as real }
pub open spec fn ebox(e: Envelope, a: Coordinate, b: Coordinate) -> bool {
    isi(e.minx) && isi(e.maxx) && isi(e.miny) && isi(e.maxy) && it(e.minx) == mn(it(a.x), it(b.x)) && it(e.maxx) == mx(it(a.x), it(b.x)) && it(e.miny) == mn(it(a.y), it(b.y)) && it(e.maxy) == mx(it(a.y), it(b.y)) }
pub open spec fn efin(e: Envelope) -> bool { fin(e.minx) && fin(e.maxx) && fin(e.miny) && fin(e.maxy) && val(e.minx) <= val(e.maxx) && val(e.miny) <= val(e.maxy) }
pub open spec fn ein(e: Envelope, x: f64, y: f64) -> bool { val(e.minx) <= val(x) <= val(e.maxx) && val(e.miny) <= val(y) <= val(e.maxy) }
pub proof fn lemma_env(e: Envelope, a: Coordinate, b: Coordinate) requires ebox(e, a, b) ensures efin(e), forall|c: Coordinate| #[trigger] ein(e, c.x, c.y) == vbox(c, a, b) { }
/// the ends of each are strictly on opposite sides of the other
pub open spec fn straddles(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool {
    ((dt(p1, p2, q1) < 0 < dt(p1, p2, q2)) || (dt(p1, p2, q1) > 0 > dt(p1, p2, q2))) && ((dt(q1, q2, p1) < 0 < dt(q1, q2, p2)) || (dt(q1, q2, p1) > 0 > dt(q1, q2, p2))) }
pub open spec fn lines_ok(s: RobustLineIntersector) -> bool { ipt(s.input_lines[0][0]) && ipt(s.input_lines[0][1]) && ipt(s.input_lines[1][0]) && ipt(s.input_lines[1][1]) }
/// the intersector holds these segments and no precision model
pub open spec fn held(s: RobustLineIntersector, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) -> bool {
    s.precision_model.is_none() && same_pt(s.input_lines[0][0], p1) && same_pt(s.input_lines[0][1], p2) && same_pt(s.input_lines[1][0], q1) && same_pt(s.input_lines[1][1], q2) }
pub open spec fn same_pt(a: Coordinate, b: Coordinate) -> bool { a.x == b.x && a.y == b.y }

proof fn lemma_lin(a: int, u: int, v: int, w: int, s: int, t: int) ensures a * (u + v) == a * u + a * v, a * (s - t) == a * s - a * t { assert(a * (u + v) == a * u + a * v) by (nonlinear_arith); assert(a * (s - t) == a * s - a * t) by (nonlinear_arith); }
/// between the ends along one axis
proof fn lemma_conv(a: int, b: int, d: int, n: int, x: int) requires d > 0, 0 <= n <= d, x == a * d + n * (b - a)
    ensures mn(a, b) * d <= x <= mx(a, b) * d
{ if a <= b { assert(a * d <= x <= b * d) by (nonlinear_arith) requires d > 0, 0 <= n <= d, x == a * d + n * (b - a), a <= b; }
  else { assert(b * d <= x <= a * d) by (nonlinear_arith) requires d > 0, 0 <= n <= d, x == a * d + n * (b - a), a > b; } }
proof fn lemma_le(a: int, b: int, d: int) requires d > 0, a * d <= b * d ensures a <= b { assert(a <= b) by (nonlinear_arith) requires d > 0, a * d <= b * d; }
/// a common point puts the ends of q on no single side of p
proof fn lemma_sides(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate, d: int, n: int, m: int)
    requires at(p1, p2, q1, q2, d, n, m)
    ensures (d - m) * dt(p1, p2, q1) + m * dt(p1, p2, q2) == 0,
       !(dt(p1, p2, q1) > 0 && dt(p1, p2, q2) > 0), !(dt(p1, p2, q1) < 0 && dt(p1, p2, q2) < 0)
{
  let (ux, uy) = (it(p2.x) - it(p1.x), it(p2.y) - it(p1.y));
  let (vx, vy) = (it(q2.x) - it(q1.x), it(q2.y) - it(q1.y));
  let (wx, wy) = (it(q1.x) - it(p1.x), it(q1.y) - it(p1.y));
  let (e1, e2) = (dt(p1, p2, q1), dt(p1, p2, q2));
  assert(e1 == ux * wy - uy * wx) by (nonlinear_arith) requires e1 == ux * (wy - uy) - uy * (wx - ux);
  assert(it(q1.y) - it(p2.y) == wy - uy); assert(it(q1.x) - it(p2.x) == wx - ux);
  assert(it(q2.y) - it(p2.y) == wy - uy + vy); assert(it(q2.x) - it(p2.x) == wx - ux + vx);
  let (a, b) = (wy - uy, wx - ux);
  assert(ux * (a + vy) == ux * a + ux * vy) by (nonlinear_arith);
  assert(uy * (b + vx) == uy * b + uy * vx) by (nonlinear_arith);
  assert(e2 == e1 + (ux * vy - uy * vx));
  // d*w + m*v = n*u
  assert(it(q1.x) * d - it(p1.x) * d == wx * d) by (nonlinear_arith) requires wx == it(q1.x) - it(p1.x);
  assert(it(q1.y) * d - it(p1.y) * d == wy * d) by (nonlinear_arith) requires wy == it(q1.y) - it(p1.y);
  assert(wx * d + m * vx == n * ux); assert(wy * d + m * vy == n * uy);
  let k = ux * vy - uy * vx;
  assert(d * e1 + m * k == 0) by {
    assert(ux * (wy * d + m * vy) == ux * (n * uy)); assert(uy * (wx * d + m * vx) == uy * (n * ux));
    assert(ux * (n * uy) == uy * (n * ux)) by (nonlinear_arith);
    assert(ux * (wy * d + m * vy) == d * (ux * wy) + m * (ux * vy)) by (nonlinear_arith);
    assert(uy * (wx * d + m * vx) == d * (uy * wx) + m * (uy * vx)) by (nonlinear_arith);
    assert(d * (ux * wy - uy * wx) == d * (ux * wy) - d * (uy * wx)) by (nonlinear_arith);
    assert(m * (ux * vy - uy * vx) == m * (ux * vy) - m * (uy * vx)) by (nonlinear_arith);
  }
  assert((d - m) * e1 + m * e2 == d * e1 + m * k) by (nonlinear_arith) requires e2 == e1 + k;
  if e1 > 0 && e2 > 0 { assert((d - m) * e1 + m * e2 > 0) by (nonlinear_arith) requires e1 > 0, e2 > 0, d > 0, 0 <= m <= d; }
  if e1 < 0 && e2 < 0 { assert((d - m) * e1 + m * e2 < 0) by (nonlinear_arith) requires e1 < 0, e2 < 0, d > 0, 0 <= m <= d; }
}
proof fn lemma_at_swap(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate, d: int, n: int, m: int) requires at(p1, p2, q1, q2, d, n, m) ensures at(q1, q2, p1, p2, d, m, n) { }
proof fn lemma_shared_swap(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) ensures shared(p1, p2, q1, q2) == shared(q1, q2, p1, p2)
{ if shared(p1, p2, q1, q2) { let (d, n, m) = choose|d: int, n: int, m: int| at(p1, p2, q1, q2, d, n, m); lemma_at_swap(p1, p2, q1, q2, d, n, m); }
  if shared(q1, q2, p1, p2) { let (d, n, m) = choose|d: int, n: int, m: int| at(q1, q2, p1, p2, d, n, m); lemma_at_swap(q1, q2, p1, p2, d, n, m); } }
/// necessary conditions for a common point
proof fn lemma_sep(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
    requires shared(p1, p2, q1, q2)
    ensures boxes(p1, p2, q1, q2), !(dt(p1, p2, q1) > 0 && dt(p1, p2, q2) > 0), !(dt(p1, p2, q1) < 0 && dt(p1, p2, q2) < 0),
       !(dt(q1, q2, p1) > 0 && dt(q1, q2, p2) > 0), !(dt(q1, q2, p1) < 0 && dt(q1, q2, p2) < 0)
{
  let (d, n, m) = choose|d: int, n: int, m: int| at(p1, p2, q1, q2, d, n, m);
  lemma_sides(p1, p2, q1, q2, d, n, m); lemma_at_swap(p1, p2, q1, q2, d, n, m); lemma_sides(q1, q2, p1, p2, d, m, n);
  let x = it(p1.x) * d + n * (it(p2.x) - it(p1.x)); let y = it(p1.y) * d + n * (it(p2.y) - it(p1.y));
  lemma_conv(it(p1.x), it(p2.x), d, n, x); lemma_conv(it(q1.x), it(q2.x), d, m, x); lemma_conv(it(p1.y), it(p2.y), d, n, y); lemma_conv(it(q1.y), it(q2.y), d, m, y);
  lemma_le(mn(it(p1.x), it(p2.x)), mx(it(q1.x), it(q2.x)), d); lemma_le(mn(it(q1.x), it(q2.x)), mx(it(p1.x), it(p2.x)), d);
  lemma_le(mn(it(p1.y), it(p2.y)), mx(it(q1.y), it(q2.y)), d); lemma_le(mn(it(q1.y), it(q2.y)), mx(it(p1.y), it(p2.y)), d);
}
/// an end point on the other segment is a common point
proof fn lemma_end_shared(p1: Coordinate, p2: Coordinate, q: Coordinate, r: Coordinate) requires seg_on(q, p1, p2) ensures shared(p1, p2, q, r), shared(p1, p2, r, q)
{
  let (ux, uy) = (it(p2.x) - it(p1.x), it(p2.y) - it(p1.y)); let (wx, wy) = (it(q.x) - it(p1.x), it(q.y) - it(p1.y));
  let e = dt(p1, p2, q);
  assert(it(q.y) - it(p2.y) == wy - uy); assert(it(q.x) - it(p2.x) == wx - ux);
  assert(e == ux * wy - uy * wx) by (nonlinear_arith) requires e == ux * (wy - uy) - uy * (wx - ux);
  // fraction along the axis of larger extent that is not zero
  let (d, n) = if ux > 0 { (ux, wx) } else if ux < 0 { (-ux, -wx) } else if uy > 0 { (uy, wy) } else if uy < 0 { (-uy, -wy) } else { (1int, 0int) };
  assert(d > 0 && 0 <= n <= d);
  assert(n * ux == wx * d && n * uy == wy * d) by {
    assert(ux > 0 ==> wx * uy == wy * ux && wx * ux == wx * ux) by (nonlinear_arith) requires 0 == ux * wy - uy * wx;
    assert(ux < 0 ==> (-wx) * uy == wy * (-ux) && (-wx) * ux == wx * (-ux)) by (nonlinear_arith) requires 0 == ux * wy - uy * wx;
    assert(ux == 0 && uy != 0 ==> wx == 0) by (nonlinear_arith) requires 0 == ux * wy - uy * wx;
    assert(ux == 0 && uy < 0 ==> (-wy) * uy == wy * (-uy)) by (nonlinear_arith);
  }
  assert(it(p1.x) * d + n * ux == it(q.x) * d) by (nonlinear_arith) requires n * ux == wx * d, wx == it(q.x) - it(p1.x);
  assert(it(p1.y) * d + n * uy == it(q.y) * d) by (nonlinear_arith) requires n * uy == wy * d, wy == it(q.y) - it(p1.y);
  assert(at(p1, p2, q, r, d, n, 0)) by { assert(0 * (it(r.x) - it(q.x)) == 0); assert(0 * (it(r.y) - it(q.y)) == 0); }
  assert(at(p1, p2, r, q, d, n, d)) by {
    assert(it(r.x) * d + d * (it(q.x) - it(r.x)) == it(q.x) * d) by (nonlinear_arith);
    assert(it(r.y) * d + d * (it(q.y) - it(r.y)) == it(q.y) * d) by (nonlinear_arith); }
}
/// the ends on opposite sides of each other's lines: a common point
proof fn lemma_straddle(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
    requires (dt(p1, p2, q1) <= 0 <= dt(p1, p2, q2)) || (dt(p1, p2, q1) >= 0 >= dt(p1, p2, q2)), (dt(q1, q2, p1) <= 0 <= dt(q1, q2, p2)) || (dt(q1, q2, p1) >= 0 >= dt(q1, q2, p2)),
       dt(p1, p2, q1) != dt(p1, p2, q2)
    ensures shared(p1, p2, q1, q2)
{
  let (ux, uy) = (it(p2.x) - it(p1.x), it(p2.y) - it(p1.y));
  let (vx, vy) = (it(q2.x) - it(q1.x), it(q2.y) - it(q1.y));
  let (wx, wy) = (it(q1.x) - it(p1.x), it(q1.y) - it(p1.y));
  let (e1, e2, f1, f2) = (dt(p1, p2, q1), dt(p1, p2, q2), dt(q1, q2, p1), dt(q1, q2, p2));
  let k = ux * vy - uy * vx;
  assert(it(q1.y) - it(p2.y) == wy - uy); assert(it(q1.x) - it(p2.x) == wx - ux);
  assert(it(q2.y) - it(p2.y) == wy - uy + vy); assert(it(q2.x) - it(p2.x) == wx - ux + vx);
  assert(e1 == ux * wy - uy * wx) by (nonlinear_arith) requires e1 == ux * (wy - uy) - uy * (wx - ux);
  assert(e2 == e1 + k) by { let (a, b) = (wy - uy, wx - ux); assert(ux * (a + vy) == ux * a + ux * vy) by (nonlinear_arith); assert(uy * (b + vx) == uy * b + uy * vx) by (nonlinear_arith); }
  assert(it(p1.y) - it(q2.y) == 0 - wy - vy); assert(it(p1.x) - it(q2.x) == 0 - wx - vx);
  assert(it(p2.y) - it(q2.y) == uy - wy - vy); assert(it(p2.x) - it(q2.x) == ux - wx - vx);
  let g = vy * wx - vx * wy;
  assert(f1 == g) by (nonlinear_arith) requires f1 == vx * (0 - wy - vy) - vy * (0 - wx - vx), g == vy * wx - vx * wy;
  assert(f2 == g - k) by {
    assert(vx * (uy - wy - vy) == vx * uy - vx * wy - vx * vy) by (nonlinear_arith);
    assert(vy * (ux - wx - vx) == vy * ux - vy * wx - vy * vx) by (nonlinear_arith);
    assert(vx * vy == vy * vx) by (nonlinear_arith); assert(vx * uy == uy * vx) by (nonlinear_arith); assert(vy * ux == ux * vy) by (nonlinear_arith); }
  // w k = u (w x v) - v (w x u): fractions -g/-k... with the sign of k made positive
  let (d, n, m) = if k > 0 { (k, g, -e1) } else { (-k, -g, e1) };
  assert(d > 0 && 0 <= n <= d && 0 <= m <= d);
  assert(g * ux + e1 * vx == wx * k) by {
    assert(g * ux == (vy * wx) * ux - (vx * wy) * ux) by (nonlinear_arith) requires g == vy * wx - vx * wy;
    assert(e1 * vx == (ux * wy) * vx - (uy * wx) * vx) by (nonlinear_arith) requires e1 == ux * wy - uy * wx;
    assert(wx * k == wx * (ux * vy) - wx * (uy * vx)) by (nonlinear_arith) requires k == ux * vy - uy * vx;
    assert((vx * wy) * ux == (ux * wy) * vx) by (nonlinear_arith); assert((vy * wx) * ux == wx * (ux * vy)) by (nonlinear_arith); assert((uy * wx) * vx == wx * (uy * vx)) by (nonlinear_arith); }
  assert(g * uy + e1 * vy == wy * k) by {
    assert(g * uy == (vy * wx) * uy - (vx * wy) * uy) by (nonlinear_arith) requires g == vy * wx - vx * wy;
    assert(e1 * vy == (ux * wy) * vy - (uy * wx) * vy) by (nonlinear_arith) requires e1 == ux * wy - uy * wx;
    assert(wy * k == wy * (ux * vy) - wy * (uy * vx)) by (nonlinear_arith) requires k == ux * vy - uy * vx;
    assert((vy * wx) * uy == (uy * wx) * vy) by (nonlinear_arith); assert((vx * wy) * uy == wy * (uy * vx)) by (nonlinear_arith); assert((ux * wy) * vy == wy * (ux * vy)) by (nonlinear_arith); }
  assert(n * ux == wx * d + m * vx && n * uy == wy * d + m * vy) by (nonlinear_arith) requires g * ux + e1 * vx == wx * k, g * uy + e1 * vy == wy * k,
     (d == k && n == g && m == -e1) || (d == -k && n == -g && m == e1);
  assert(it(q1.x) * d == it(p1.x) * d + wx * d) by (nonlinear_arith) requires wx == it(q1.x) - it(p1.x);
  assert(it(q1.y) * d == it(p1.y) * d + wy * d) by (nonlinear_arith) requires wy == it(q1.y) - it(p1.y);
  assert(at(p1, p2, q1, q2, d, n, m));
}
/// collinear segments with overlapping boxes: some end is inside the other's box
proof fn lemma_collinear(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
    requires boxes(p1, p2, q1, q2), dt(p1, p2, q1) == 0, dt(p1, p2, q2) == 0, dt(q1, q2, p1) == 0, dt(q1, q2, p2) == 0
    ensures inbox(q1, p1, p2) || inbox(q2, p1, p2) || inbox(p1, q1, q2) || inbox(p2, q1, q2)
{
  let (ux, uy) = (it(p2.x) - it(p1.x), it(p2.y) - it(p1.y)); let (vx, vy) = (it(q2.x) - it(q1.x), it(q2.y) - it(q1.y));
  if ux == 0 && uy == 0 {  } else {
    lemma_pos(p1, p2, q1); lemma_pos(p1, p2, q2);
    if !inbox(q1, p1, p2) && !inbox(q2, p1, p2) {
      // both ends of q are off p; on different sides, else the boxes are apart
      let (s1, s2) = (along(p1, p2, q1), along(p1, p2, q2)); let l = ux * ux + uy * uy;
      lemma_apart(p1, p2, q1, q2);
      lemma_spread(p1, p2, q1, q2);
    }
  }
}
/// position along p1-p2, times its squared length
pub open spec fn along(a: Coordinate, b: Coordinate, p: Coordinate) -> int { (it(p.x) - it(a.x)) * (it(b.x) - it(a.x)) + (it(p.y) - it(a.y)) * (it(b.y) - it(a.y)) }
pub open spec fn len2(a: Coordinate, b: Coordinate) -> int { (it(b.x) - it(a.x)) * (it(b.x) - it(a.x)) + (it(b.y) - it(a.y)) * (it(b.y) - it(a.y)) }
proof fn lemma_posaxis(l: int, s: int, u: int, w: int) requires l > 0, l * w == s * u
    ensures s < 0 && u > 0 ==> w < 0, s < 0 && u < 0 ==> w > 0, s > l && u > 0 ==> w > u, s > l && u < 0 ==> w < u, 0 <= s <= l && u >= 0 ==> 0 <= w <= u, 0 <= s <= l && u <= 0 ==> u <= w <= 0, u == 0 ==> w == 0
{ assert(s < 0 && u > 0 ==> w < 0) by (nonlinear_arith) requires l > 0, l * w == s * u;
  assert(s < 0 && u < 0 ==> w > 0) by (nonlinear_arith) requires l > 0, l * w == s * u;
  assert(s > l && u > 0 ==> w > u) by (nonlinear_arith) requires l > 0, l * w == s * u;
  assert(s > l && u < 0 ==> w < u) by (nonlinear_arith) requires l > 0, l * w == s * u;
  assert(0 <= s <= l && u >= 0 ==> 0 <= w <= u) by (nonlinear_arith) requires l > 0, l * w == s * u;
  assert(0 <= s <= l && u <= 0 ==> u <= w <= 0) by (nonlinear_arith) requires l > 0, l * w == s * u;
  assert(u == 0 ==> w == 0) by (nonlinear_arith) requires l > 0, l * w == s * u; }
proof fn lemma_pos(a: Coordinate, b: Coordinate, p: Coordinate) requires dt(a, b, p) == 0, !eqp(a, b)
    ensures len2(a, b) > 0, len2(a, b) * (it(p.x) - it(a.x)) == along(a, b, p) * (it(b.x) - it(a.x)), len2(a, b) * (it(p.y) - it(a.y)) == along(a, b, p) * (it(b.y) - it(a.y)),
       inbox(p, a, b) == (0 <= along(a, b, p) <= len2(a, b))
{
  let (ux, uy) = (it(b.x) - it(a.x), it(b.y) - it(a.y)); let (wx, wy) = (it(p.x) - it(a.x), it(p.y) - it(a.y));
  let e = dt(a, b, p); let l = len2(a, b); let s = along(a, b, p);
  assert(it(p.y) - it(b.y) == wy - uy); assert(it(p.x) - it(b.x) == wx - ux);
  assert(ux * wy == uy * wx) by (nonlinear_arith) requires 0 == ux * (wy - uy) - uy * (wx - ux);
  assert(l > 0) by (nonlinear_arith) requires l == ux * ux + uy * uy, ux != 0 || uy != 0;
  assert(l * wx == s * ux) by {
    assert(l * wx == (ux * ux) * wx + uy * (uy * wx)) by (nonlinear_arith) requires l == ux * ux + uy * uy;
    assert(s * ux == (wx * ux) * ux + uy * (ux * wy)) by (nonlinear_arith) requires s == wx * ux + wy * uy;
    assert((ux * ux) * wx == (wx * ux) * ux) by (nonlinear_arith); }
  assert(l * wy == s * uy) by {
    assert(l * wy == ux * (ux * wy) + (uy * uy) * wy) by (nonlinear_arith) requires l == ux * ux + uy * uy;
    assert(s * uy == ux * (uy * wx) + (wy * uy) * uy) by (nonlinear_arith) requires s == wx * ux + wy * uy;
    assert((uy * uy) * wy == (wy * uy) * uy) by (nonlinear_arith); }
  lemma_posaxis(l, s, ux, wx); lemma_posaxis(l, s, uy, wy);
}
/// both ends of q beyond the same end of p: the boxes are apart
proof fn lemma_apart(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
    requires dt(p1, p2, q1) == 0, dt(p1, p2, q2) == 0, !eqp(p1, p2)
    ensures boxes(p1, p2, q1, q2) ==> !(along(p1, p2, q1) < 0 && along(p1, p2, q2) < 0) && !(along(p1, p2, q1) > len2(p1, p2) && along(p1, p2, q2) > len2(p1, p2))
{
  lemma_pos(p1, p2, q1); lemma_pos(p1, p2, q2);
  let (ux, uy) = (it(p2.x) - it(p1.x), it(p2.y) - it(p1.y)); let l = len2(p1, p2);
  lemma_posaxis(l, along(p1, p2, q1), ux, it(q1.x) - it(p1.x)); lemma_posaxis(l, along(p1, p2, q1), uy, it(q1.y) - it(p1.y));
  lemma_posaxis(l, along(p1, p2, q2), ux, it(q2.x) - it(p1.x)); lemma_posaxis(l, along(p1, p2, q2), uy, it(q2.y) - it(p1.y));
}
/// q reaches beyond both ends of p: it covers p's box
proof fn lemma_spread(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
    requires dt(p1, p2, q1) == 0, dt(p1, p2, q2) == 0, !eqp(p1, p2)
    ensures (along(p1, p2, q1) < 0 && along(p1, p2, q2) > len2(p1, p2)) || (along(p1, p2, q2) < 0 && along(p1, p2, q1) > len2(p1, p2)) ==> inbox(p1, q1, q2) && inbox(p2, q1, q2)
{
  lemma_pos(p1, p2, q1); lemma_pos(p1, p2, q2);
  let (ux, uy) = (it(p2.x) - it(p1.x), it(p2.y) - it(p1.y)); let l = len2(p1, p2);
  lemma_posaxis(l, along(p1, p2, q1), ux, it(q1.x) - it(p1.x)); lemma_posaxis(l, along(p1, p2, q1), uy, it(q1.y) - it(p1.y));
  lemma_posaxis(l, along(p1, p2, q2), ux, it(q2.x) - it(p1.x)); lemma_posaxis(l, along(p1, p2, q2), uy, it(q2.y) - it(p1.y));
}
/// three points of a line, each in the box of the other two only when between them
proof fn lemma_seg_sym(p: Coordinate, a: Coordinate, b: Coordinate) ensures seg_on(p, a, b) == seg_on(p, b, a), dt(a, b, p) == -dt(b, a, p)
{ assert(dt(a, b, p) == -dt(b, a, p)) by (nonlinear_arith) requires
    dt(a, b, p) == (it(b.x) - it(a.x)) * (it(p.y) - it(b.y)) - (it(b.y) - it(a.y)) * (it(p.x) - it(b.x)),
    dt(b, a, p) == (it(a.x) - it(b.x)) * (it(p.y) - it(a.y)) - (it(a.y) - it(b.y)) * (it(p.x) - it(a.x)); }
/// collinearity passes to any pair of the four points when both segments have length
proof fn lemma_cyc(a: Coordinate, b: Coordinate, c: Coordinate) ensures dt(a, b, c) == dt(b, c, a), dt(a, b, c) == dt(c, a, b), dt(a, b, a) == 0, dt(a, b, b) == 0, dt(a, a, b) == 0
{ let (ax, ay, bx, by, cx, cy) = (it(a.x), it(a.y), it(b.x), it(b.y), it(c.x), it(c.y)); let (ux, uy, wx, wy) = (bx - ax, by - ay, cx - bx, cy - by);
  assert(dt(a, b, c) == ux * wy - uy * wx);
  assert(dt(b, c, a) == wx * (-uy - wy) - wy * (-ux - wx)) by { assert(ay - cy == -uy - wy); assert(ax - cx == -ux - wx); }
  assert(wx * (-uy - wy) - wy * (-ux - wx) == ux * wy - uy * wx) by (nonlinear_arith);
  assert(dt(c, a, b) == (-ux - wx) * uy - (-uy - wy) * ux) by { assert(ax - cx == -ux - wx); assert(ay - cy == -uy - wy); }
  assert((-ux - wx) * uy - (-uy - wy) * ux == ux * wy - uy * wx) by (nonlinear_arith);
  assert(dt(a, b, a) == ux * (-uy) - uy * (-ux)); assert(ux * (-uy) - uy * (-ux) == 0) by (nonlinear_arith);
  assert(dt(a, b, b) == ux * 0 - uy * 0) ; assert(dt(a, a, b) == 0 * uy - 0 * ux); }
"""
_I = "ipt(*p1), ipt(*p2), ipt(*q1), ipt(*q2)"
_A = "*p1, *p2, *q1, *q2"
_P0, _P1 = "final(self).int_pt[0]", "final(self).int_pt[1]"
COLL = """
    dt(*p1, *p2, *q1) == 0, dt(*p1, *p2, *q2) == 0, dt(*q1, *q2, *p1) == 0, dt(*q1, *q2, *p2) == 0"""
COLL_E = """
    r == 1 || r == 2,
     ipt(%(P0)s) && both(%(P0)s, %(A)s) && isend(%(P0)s, %(A)s),
    r == 2 ==> ipt(%(P1)s) && both(%(P1)s, %(A)s) && isend(%(P1)s, %(A)s) && (!eqp(*p1, *p2) && !eqp(*q1, *q2) ==> !eqp(%(P0)s, %(P1)s))
       && (both(*p1, %(A)s) ==> inbox(*p1, %(P0)s, %(P1)s)) && (both(*p2, %(A)s) ==> inbox(*p2, %(P0)s, %(P1)s))
       && (both(*q1, %(A)s) ==> inbox(*q1, %(P0)s, %(P1)s)) && (both(*q2, %(A)s) ==> inbox(*q2, %(P0)s, %(P1)s)),
    r == 1 ==> (both(*p1, %(A)s) ==> eqp(*p1, %(P0)s)) && (both(*p2, %(A)s) ==> eqp(*p2, %(P0)s)) && (both(*q1, %(A)s) ==> eqp(*q1, %(P0)s)) && (both(*q2, %(A)s) ==> eqp(*q2, %(P0)s)),
""" % dict(A=_A, P0=_P0, P1=_P1)
KEEP = "final(self).is_proper == old(self).is_proper, final(self).precision_model == old(self).precision_model, final(self).input_lines == old(self).input_lines"
BA = "broadcast use f64_ax, f64_int, ty_ax;"
IMPLS = [common.coordinate("default", "from_coordinate", "set_z", "get_z", "equals_2d"), common.ORIENTATION,
 dict(file="src/core/geom/envelope.rs", ty="Envelope", fns=[
   Fn("intersects_3", requires="ipt(*p1), ipt(*p2), ipt(*q)", ensures="r == inbox(*q, *p1, *p2)", start=BI),
   Fn("intersects_4", requires=_I, ensures="r == boxes(%s)" % _A, start=BI),
   Fn("new_coordinates", requires="ipt(*p1), ipt(*p2)", ensures="ebox(r, *p1, *p2)", start=BI),
   Fn("is_null", requires="fin(self.minx), fin(self.maxx)", ensures="r == (val(self.maxx) < val(self.minx))", start=BA),
   Fn("covers_xy", requires="efin(*self), fin(x), fin(y)", ensures="r == ein(*self, x, y)", start=BA),
   Fn("covers_coordinate", requires="efin(*self), fpt(*p)", ensures="r == ein(*self, p.x, p.y)", start="broadcast use ty_ax;"),
   Fn("contains_coordinate", requires="efin(*self), fpt(*p)", ensures="r == ein(*self, p.x, p.y)"),
 ]),
 dict(file="src/core/algorithm/intersection.rs", ty="Intersection", fns=[
   Fn("intersection", requires=_I, ensures="straddles(%s) ==> r.is_some() && fin(r.unwrap().x) && fin(r.unwrap().y) && vbox(r.unwrap(), *p1, *p2) && vbox(r.unwrap(), *q1, *q2)" % _A, external=True)]),
 dict(file="src/core/algorithm/distance.rs", ty="Distance", fns=[Fn("point_to_segment", external=True)]),
 dict(file="src/core/geom/precision_model.rs", ty="PrecisionModel", fns=[Fn("make_precise_coordinate", external=True)]),
 dict(file="src/core/algorithm/robust_line_intersector.rs", ty="RobustLineIntersector", consts=["NO_INTERSECTION", "POINT_INTERSECTION", "COLLINEAR_INTERSECTION"], fns=[
   Fn("default", ensures="r.result == 0, r.precision_model.is_none()"),
   Fn("has_intersection", ensures="r == (self.result != 0)"),
   Fn("get_intersection", requires="int_index < 2", ensures="r == self.int_pt[int_index as int]"),
   Fn("z_interpolate_3", ensures="*final(self) == *old(self)", start="broadcast use f64_ax, ty_ax;"),
   Fn("get_z_or_interpolate", ensures="*final(self) == *old(self)"),
   Fn("get_z", ensures="*final(self) == *old(self), fnan(p.z) ==> r == q.z, !fnan(p.z) ==> r == p.z"),
   Fn("z_interpolate_5", ensures="*final(self) == *old(self)", start="broadcast use f64_ax, ty_ax;"),
   Fn("copy_with_z", ensures="*final(self) == *old(self), r.x == p.x, r.y == p.y, r.m == p.m, fnan(z) ==> r.z == p.z, !fnan(z) ==> r.z == z"),
   Fn("copy_with_z_interpolate", ensures="*final(self) == *old(self), r.x == p.x, r.y == p.y"),
   Fn("intersection_safe", requires=_I + ", straddles(%s)" % _A, ensures="*final(self) == *old(self), fin(r.x), fin(r.y), vbox(r, *p1, *p2), vbox(r, *q1, *q2)", start=BI),
   Fn("is_in_segment_envelopes", requires="fpt(*int_pt), " + ", ".join("ipt(old(self).input_lines[%d][%d])" % (i, j) for i in (0, 1) for j in (0, 1)),
      ensures="*final(self) == *old(self), r == (vbox(*int_pt, old(self).input_lines[0][0], old(self).input_lines[0][1]) && vbox(*int_pt, old(self).input_lines[1][0], old(self).input_lines[1][1]))",
      start=BA, after=[(r"let env1 = Envelope::new_coordinates\([^;]*;", "proof { lemma_env(env0, self.input_lines[0][0], self.input_lines[0][1]); lemma_env(env1, self.input_lines[1][0], self.input_lines[1][1]); }")]),
   Fn("nearest_endpoint", ensures="*final(self) == *old(self), same_pt(r, *p1) || same_pt(r, *p2) || same_pt(r, *q1) || same_pt(r, *q2)", start="broadcast use f64_ax;"),
   Fn("intersection", requires=_I + ", straddles(%s), lines_ok(*old(self))" % _A, ensures="*final(self) == *old(self), held(*old(self), %s) ==> vbox(r, *p1, *p2) && vbox(r, *q1, *q2)" % _A),
   Fn("compute_collinear_intersection", requires=_I + ", boxes(%s), " % _A + COLL, ensures=KEEP + "," + COLL_E,
      start=BI + "proof { reveal_collinear(%s); }" % _A),
   Fn("compute_intersect", requires=_I + ", lines_ok(*old(self))",
      ensures="""r == 0 || r == 1 || r == 2, (r != 0) == shared(%(A)s),
       final(self).is_proper == (r == 1 && noend(%(A)s)),
       r == 2 ==> dt(*p1, *p2, *q1) == 0 && dt(*p1, *p2, *q2) == 0 && dt(*q1, *q2, *p1) == 0 && dt(*q1, *q2, *p2) == 0,
       r == 2 || (r == 1 && !final(self).is_proper) ==> ipt(%(P0)s) && both(%(P0)s, %(A)s) && isend(%(P0)s, %(A)s),
       r == 2 ==> ipt(%(P1)s) && both(%(P1)s, %(A)s) && isend(%(P1)s, %(A)s) && (!eqp(*p1, *p2) && !eqp(*q1, *q2) ==> !eqp(%(P0)s, %(P1)s))
         && (both(*p1, %(A)s) ==> inbox(*p1, %(P0)s, %(P1)s)) && (both(*p2, %(A)s) ==> inbox(*p2, %(P0)s, %(P1)s))
         && (both(*q1, %(A)s) ==> inbox(*q1, %(P0)s, %(P1)s)) && (both(*q2, %(A)s) ==> inbox(*q2, %(P0)s, %(P1)s)),
       r == 1 ==> (both(*p1, %(A)s) ==> eqp(*p1, %(P0)s)) && (both(*p2, %(A)s) ==> eqp(*p2, %(P0)s)) && (both(*q1, %(A)s) ==> eqp(*q1, %(P0)s)) && (both(*q2, %(A)s) ==> eqp(*q2, %(P0)s)),
       r != 0 && held(*old(self), %(A)s) && final(self).is_proper ==> vbox(%(P0)s, *p1, *p2) && vbox(%(P0)s, *q1, *q2),
       final(self).precision_model == old(self).precision_model, final(self).input_lines == old(self).input_lines,
      """ % dict(A=_A, P0=_P0, P1=_P1), start=BI + "proof { reveal_all(%s); }" % _A),
   Fn("compute_intersection_4", requires="ipt(*p1), ipt(*p2), ipt(*p3), ipt(*p4)",
      ensures="""(final(self).result != 0) == shared(*p1, *p2, *p3, *p4), final(self).result == 0 || final(self).result == 1 || final(self).result == 2,
        old(self).precision_model.is_none() && final(self).result == 1 ==> vbox(final(self).int_pt[0], *p1, *p2) && vbox(final(self).int_pt[0], *p3, *p4),
        old(self).precision_model.is_none() && final(self).result == 2 ==> vbox(final(self).int_pt[0], *p1, *p2) && vbox(final(self).int_pt[0], *p3, *p4) && vbox(final(self).int_pt[1], *p1, *p2) && vbox(final(self).int_pt[1], *p3, *p4)"""),
   Fn("compute_intersection_3", requires="ipt(*p), ipt(*p1), ipt(*p2)",
      ensures="(final(self).result != 0) == seg_on(*p, *p1, *p2), final(self).result == 0 || final(self).result == 1, final(self).is_proper == (seg_on(*p, *p1, *p2) && !eqp(*p, *p1) && !eqp(*p, *p2))",
      start=BI + "proof { lemma_seg_sym(*p, *p1, *p2); }"),
 ]),
 dict(file="src/core/geom/line_segment.rs", ty="LineSegment", fns=[
   Fn("intersection", requires="ipt(self.p0), ipt(self.p1), ipt(line.p0), ipt(line.p1)",
      ensures="r.is_some() == shared(self.p0, self.p1, line.p0, line.p1), r.is_some() ==> vbox(r.unwrap(), self.p0, self.p1) && vbox(r.unwrap(), line.p0, line.p1)"),
 ]),
]
PRELUDE += """
/// everything the collinear case needs: order along the common line
proof fn reveal_collinear(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
    requires boxes(p1, p2, q1, q2), dt(p1, p2, q1) == 0, dt(p1, p2, q2) == 0, dt(q1, q2, p1) == 0, dt(q1, q2, p2) == 0
    ensures !(!inbox(q1, p1, p2) && !inbox(q2, p1, p2) && !inbox(p1, q1, q2) && !inbox(p2, q1, q2)),
       // an end in the other box implies a second relation
       inbox(q1, p1, p2) && !inbox(q2, p1, p2) ==> inbox(p1, q1, q2) || inbox(p2, q1, q2),
       inbox(q2, p1, p2) && !inbox(q1, p1, p2) ==> inbox(p1, q1, q2) || inbox(p2, q1, q2),
       inbox(p1, q1, q2) && !inbox(p2, q1, q2) ==> inbox(q1, p1, p2) || inbox(q2, p1, p2),
       inbox(p2, q1, q2) && !inbox(p1, q1, q2) ==> inbox(q1, p1, p2) || inbox(q2, p1, p2),
       dt(p1, p2, p1) == 0, dt(p1, p2, p2) == 0, dt(q1, q2, q1) == 0, dt(q1, q2, q2) == 0,
{
  lemma_collinear(p1, p2, q1, q2);
  lemma_cyc(p1, p2, q1); lemma_cyc(q1, q2, p1);
  if !eqp(p1, p2) { lemma_pos(p1, p2, q1); lemma_pos(p1, p2, q2); lemma_apart(p1, p2, q1, q2); lemma_spread(p1, p2, q1, q2); lemma_mid(p1, p2, q1, q2); }
  if !eqp(q1, q2) { lemma_pos(q1, q2, p1); lemma_pos(q1, q2, p2); lemma_apart(q1, q2, p1, p2); lemma_spread(q1, q2, p1, p2); lemma_mid(q1, q2, p1, p2); }
}
/// q1 in p and q2 beyond an end of p: that end is in q
proof fn lemma_mid(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
    requires dt(p1, p2, q1) == 0, dt(p1, p2, q2) == 0, !eqp(p1, p2)
    ensures 0 <= along(p1, p2, q1) <= len2(p1, p2) && along(p1, p2, q2) < 0 ==> inbox(p1, q1, q2),
            0 <= along(p1, p2, q1) <= len2(p1, p2) && along(p1, p2, q2) > len2(p1, p2) ==> inbox(p2, q1, q2),
            0 <= along(p1, p2, q2) <= len2(p1, p2) && along(p1, p2, q1) < 0 ==> inbox(p1, q1, q2),
            0 <= along(p1, p2, q2) <= len2(p1, p2) && along(p1, p2, q1) > len2(p1, p2) ==> inbox(p2, q1, q2),
{
  lemma_pos(p1, p2, q1); lemma_pos(p1, p2, q2);
  let (ux, uy) = (it(p2.x) - it(p1.x), it(p2.y) - it(p1.y)); let l = len2(p1, p2);
  lemma_posaxis(l, along(p1, p2, q1), ux, it(q1.x) - it(p1.x)); lemma_posaxis(l, along(p1, p2, q1), uy, it(q1.y) - it(p1.y));
  lemma_posaxis(l, along(p1, p2, q2), ux, it(q2.x) - it(p1.x)); lemma_posaxis(l, along(p1, p2, q2), uy, it(q2.y) - it(p1.y));
}
proof fn reveal_all(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
    ensures shared(p1, p2, q1, q2) ==> boxes(p1, p2, q1, q2) && !(dt(p1, p2, q1) > 0 && dt(p1, p2, q2) > 0) && !(dt(p1, p2, q1) < 0 && dt(p1, p2, q2) < 0)
        && !(dt(q1, q2, p1) > 0 && dt(q1, q2, p2) > 0) && !(dt(q1, q2, p1) < 0 && dt(q1, q2, p2) < 0),
      !noend(p1, p2, q1, q2) ==> shared(p1, p2, q1, q2),
      ((dt(p1, p2, q1) <= 0 <= dt(p1, p2, q2)) || (dt(p1, p2, q1) >= 0 >= dt(p1, p2, q2))) && ((dt(q1, q2, p1) <= 0 <= dt(q1, q2, p2)) || (dt(q1, q2, p1) >= 0 >= dt(q1, q2, p2)))
        && dt(p1, p2, q1) != dt(p1, p2, q2) ==> shared(p1, p2, q1, q2),
      dt(p1, p2, q1) - dt(p1, p2, q2) == dt(q1, q2, p2) - dt(q1, q2, p1),
      dt(p1, p2, q1) == 0 && boxes(p1, p2, q1, q2) && dt(p1, p2, q1) != dt(p1, p2, q2) && ((dt(q1, q2, p1) <= 0 <= dt(q1, q2, p2)) || (dt(q1, q2, p1) >= 0 >= dt(q1, q2, p2))) ==> inbox(q1, p1, p2),
      dt(p1, p2, q2) == 0 && boxes(p1, p2, q1, q2) && dt(p1, p2, q1) != dt(p1, p2, q2) && ((dt(q1, q2, p1) <= 0 <= dt(q1, q2, p2)) || (dt(q1, q2, p1) >= 0 >= dt(q1, q2, p2))) ==> inbox(q2, p1, p2),
      dt(q1, q2, p1) == 0 && boxes(p1, p2, q1, q2) && dt(p1, p2, q1) != dt(p1, p2, q2) && ((dt(p1, p2, q1) <= 0 <= dt(p1, p2, q2)) || (dt(p1, p2, q1) >= 0 >= dt(p1, p2, q2))) ==> inbox(p1, q1, q2),
      dt(q1, q2, p2) == 0 && boxes(p1, p2, q1, q2) && dt(p1, p2, q1) != dt(p1, p2, q2) && ((dt(p1, p2, q1) <= 0 <= dt(p1, p2, q2)) || (dt(p1, p2, q1) >= 0 >= dt(p1, p2, q2))) ==> inbox(p2, q1, q2),
      // segments of different lines have at most one point in common
      dt(p1, p2, q1) != dt(p1, p2, q2) ==> (dt(p1, p2, q1) == 0 && dt(q1, q2, p1) == 0 ==> eqp(p1, q1)) && (dt(p1, p2, q1) == 0 && dt(q1, q2, p2) == 0 ==> eqp(p2, q1))
        && (dt(p1, p2, q2) == 0 && dt(q1, q2, p1) == 0 ==> eqp(p1, q2)) && (dt(p1, p2, q2) == 0 && dt(q1, q2, p2) == 0 ==> eqp(p2, q2)),
      eqp(p1, q1) || eqp(p1, q2) ==> dt(q1, q2, p1) == 0, eqp(p2, q1) || eqp(p2, q2) ==> dt(q1, q2, p2) == 0,
      eqp(q1, p1) || eqp(q1, p2) ==> dt(p1, p2, q1) == 0, eqp(q2, p1) || eqp(q2, p2) ==> dt(p1, p2, q2) == 0,
      dt(p1, p2, p1) == 0, dt(p1, p2, p2) == 0, dt(q1, q2, q1) == 0, dt(q1, q2, q2) == 0,
{
  if shared(p1, p2, q1, q2) { lemma_sep(p1, p2, q1, q2); }
  if seg_on(q1, p1, p2) { lemma_end_shared(p1, p2, q1, q2); }
  if seg_on(q2, p1, p2) { lemma_end_shared(p1, p2, q2, q1); }
  if seg_on(p1, q1, q2) { lemma_end_shared(q1, q2, p1, p2); lemma_shared_swap(p1, p2, q1, q2); }
  if seg_on(p2, q1, q2) { lemma_end_shared(q1, q2, p2, p1); lemma_shared_swap(p1, p2, q1, q2); }
  if ((dt(p1, p2, q1) <= 0 <= dt(p1, p2, q2)) || (dt(p1, p2, q1) >= 0 >= dt(p1, p2, q2))) && ((dt(q1, q2, p1) <= 0 <= dt(q1, q2, p2)) || (dt(q1, q2, p1) >= 0 >= dt(q1, q2, p2)))
        && dt(p1, p2, q1) != dt(p1, p2, q2) { lemma_straddle(p1, p2, q1, q2); }
  lemma_cyc(p1, p2, q1); lemma_cyc(q1, q2, p1);
  lemma_diff(p1, p2, q1, q2);
  lemma_cyc(p1, p2, q2); lemma_cyc(q1, q2, p2);
  lemma_same(p1, p2, q1, q2); lemma_same(p1, p2, q2, q1); lemma_same(p2, p1, q1, q2); lemma_same(p2, p1, q2, q1);
  lemma_on_line(p1, p2, q1, q2); lemma_on_line(p1, p2, q2, q1); lemma_on_line(q1, q2, p1, p2); lemma_on_line(q1, q2, p2, p1);
  lemma_seg_sym(p1, q1, q2); lemma_seg_sym(p2, q1, q2); lemma_seg_sym(q1, p1, p2); lemma_seg_sym(q2, p1, p2);
}
/// both segments' first points on the other's line, lines different: the points are one
proof fn lemma_same(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
    ensures dt(p1, p2, q1) == 0 && dt(q1, q2, p1) == 0 && dt(p1, p2, q1) != dt(p1, p2, q2) ==> eqp(p1, q1)
{ if dt(p1, p2, q1) == 0 && dt(q1, q2, p1) == 0 && dt(p1, p2, q1) != dt(p1, p2, q2) {
    lemma_diff(p1, p2, q1, q2);
    lemma_straddle(p1, p2, q1, q2); lemma_two(p1, p2, q1, q2); } }
proof fn lemma_two(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
    requires dt(p1, p2, q1) == 0, dt(q1, q2, p1) == 0, dt(p1, p2, q2) != 0 ensures eqp(p1, q1)
{
  let (ux, uy) = (it(p2.x) - it(p1.x), it(p2.y) - it(p1.y));
  let (vx, vy) = (it(q2.x) - it(q1.x), it(q2.y) - it(q1.y));
  let (wx, wy) = (it(q1.x) - it(p1.x), it(q1.y) - it(p1.y));
  let k = ux * vy - uy * vx;
  assert(it(q1.y) - it(p2.y) == wy - uy); assert(it(q1.x) - it(p2.x) == wx - ux);
  assert(it(q2.y) - it(p2.y) == wy - uy + vy); assert(it(q2.x) - it(p2.x) == wx - ux + vx);
  let (e1, e2, f1) = (dt(p1, p2, q1), dt(p1, p2, q2), dt(q1, q2, p1));
  assert(e1 == ux * wy - uy * wx) by (nonlinear_arith) requires e1 == ux * (wy - uy) - uy * (wx - ux);
  assert(e2 == e1 + k) by { let (a, b) = (wy - uy, wx - ux); assert(ux * (a + vy) == ux * a + ux * vy) by (nonlinear_arith); assert(uy * (b + vx) == uy * b + uy * vx) by (nonlinear_arith); }
  assert(it(p1.y) - it(q2.y) == 0 - wy - vy); assert(it(p1.x) - it(q2.x) == 0 - wx - vx);
  assert(vx * wy == vy * wx) by (nonlinear_arith) requires 0 == vx * (0 - wy - vy) - vy * (0 - wx - vx);
  assert(wx * k == 0) by (nonlinear_arith) requires k == ux * vy - uy * vx, ux * wy == uy * wx, vx * wy == vy * wx;
  assert(wy * k == 0) by (nonlinear_arith) requires k == ux * vy - uy * vx, ux * wy == uy * wx, vx * wy == vy * wx;
  assert(wx == 0 && wy == 0) by (nonlinear_arith) requires wx * k == 0, wy * k == 0, k != 0;
}
proof fn lemma_diff(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) ensures dt(p1, p2, q1) - dt(p1, p2, q2) == dt(q1, q2, p2) - dt(q1, q2, p1)
{
  let (ux, uy) = (it(p2.x) - it(p1.x), it(p2.y) - it(p1.y));
  let (vx, vy) = (it(q2.x) - it(q1.x), it(q2.y) - it(q1.y));
  let k = ux * vy - uy * vx;
  let (a, b) = (it(q1.y) - it(p2.y), it(q1.x) - it(p2.x));
  assert(it(q2.y) - it(p2.y) == a + vy && it(q2.x) - it(p2.x) == b + vx);
  assert(ux * (a + vy) == ux * a + ux * vy && uy * (b + vx) == uy * b + uy * vx) by (nonlinear_arith);
  assert(dt(p1, p2, q2) == dt(p1, p2, q1) + k);
  let (c, e) = (it(p1.y) - it(q2.y), it(p1.x) - it(q2.x));
  assert(it(p2.y) - it(q2.y) == c + uy && it(p2.x) - it(q2.x) == e + ux);
  assert(vx * (c + uy) == vx * c + vx * uy && vy * (e + ux) == vy * e + vy * ux) by (nonlinear_arith);
  assert(vx * uy == uy * vx && vy * ux == ux * vy) by (nonlinear_arith);
}
/// q1 on the line of p, q2 not, p's ends not strictly on one side of the line of q: q1 is within p
proof fn lemma_on_line(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
    ensures dt(p1, p2, q1) == 0 && dt(p1, p2, q1) != dt(p1, p2, q2) && ((dt(q1, q2, p1) <= 0 <= dt(q1, q2, p2)) || (dt(q1, q2, p1) >= 0 >= dt(q1, q2, p2))) ==> inbox(q1, p1, p2)
{
  if dt(p1, p2, q1) == 0 && dt(p1, p2, q1) != dt(p1, p2, q2) && ((dt(q1, q2, p1) <= 0 <= dt(q1, q2, p2)) || (dt(q1, q2, p1) >= 0 >= dt(q1, q2, p2))) {
    lemma_straddle(p1, p2, q1, q2);
    let (d, n, m) = choose|d: int, n: int, m: int| at(p1, p2, q1, q2, d, n, m);
    lemma_sides(p1, p2, q1, q2, d, n, m);
    let e2 = dt(p1, p2, q2);
    assert(m == 0) by (nonlinear_arith) requires (d - m) * 0 + m * e2 == 0, e2 != 0;
    let x = it(q1.x) * d; let y = it(q1.y) * d;
    assert(0 * (it(q2.x) - it(q1.x)) == 0 && 0 * (it(q2.y) - it(q1.y)) == 0);
    lemma_conv(it(p1.x), it(p2.x), d, n, x); lemma_conv(it(p1.y), it(p2.y), d, n, y);
    lemma_le(mn(it(p1.x), it(p2.x)), it(q1.x), d); lemma_le(it(q1.x), mx(it(p1.x), it(p2.x)), d);
    lemma_le(mn(it(p1.y), it(p2.y)), it(q1.y), d); lemma_le(it(q1.y), mx(it(p1.y), it(p2.y)), d);
  }
}
"""
ASSUMPTIONS = ["integer ordinates up to 2^24"]

LEMMAS = """
pub assume_specification[ f64::sqrt ](x: f64) -> (r: f64);
"""
