from rsx import Fn
import c05, c06, c08, c09, c22, common
from common import BI
USES = ["f64"]
STRUCTS = [common.COORD, ("src/core/geom/envelope.rs", "Envelope", "#[derive(Copy, Clone)]"), ("src/core/algorithm/distance.rs", "Distance", ""),
   ("src/core/util/math_util.rs", "MathUtil", ""), ("src/core/algorithm/cg_algorithms_3d.rs", "CGAlgorithms3D", ""), ("src/core/math/vector_3d.rs", "Vector3D", ""), common.ORI, ("src/core/geom/line_segment.rs", "LineSegment", "#[derive(Copy, Clone)]")]
_6 = c06.PRELUDE
_8 = c08.PRELUDE
_22 = c22.PRELUDE
_9 = c09.PRELUDE
def _cut(t, a, b): return t[t.index(a):t.index(b)]
QUO = _cut(_9, "/// division without remainder-loss", "/// finiteness of intermediate") + _9[_9.index("pub proof fn lemma_iq("):_9.index("pub proof fn lemma_at0(")]
QUO = QUO[:QUO.index("pub open spec fn at(s")] + QUO[QUO.index("pub proof fn lemma_iq("):]
PRELUDE = _cut(_6, "", "/// the box spanned by a and b, for ordinates") + _6[_6.index("proof fn lemma_lin("):] + _8[_8.index("pub assume_specification[ f64::abs ]"):] + """
pub broadcast axiom fn ax_sqrr1(x: real) ensures x >= 1real ==> 1real <= #[trigger] sqrr(x) <= x;
pub proof fn lemma_di(a: f64, b: f64) requires isi(a), isi(b), in53(it(a) - it(b)) ensures d(a, b) == (it(a) - it(b)) as real { let k = it(a) - it(b); ax_rnd_int(k); assert(val(a) - val(b) == k as real); }
pub proof fn lemma_ip(a: Coordinate, b: Coordinate) requires ipt(a), ipt(b) ensures lip(a), lip(b), dist(a, b) == hypr((it(a.x) - it(b.x)) as real, (it(a.y) - it(b.y)) as real)
{ lemma_di(a.x, b.x); lemma_di(a.y, b.y); }
pub open spec fn mi(a: real, b: real) -> real { if a < b { a } else { b } }
pub open spec fn mi4(a: real, b: real, c: real, d: real) -> real { mi(mi(mi(a, b), c), d) }
/// twice the area of a, b, p as the code computes it
pub open spec fn cr(a: Coordinate, b: Coordinate, p: Coordinate) -> int { (it(a.y) - it(p.y)) * (it(b.x) - it(a.x)) - (it(a.x) - it(p.x)) * (it(b.y) - it(a.y)) }
pub proof fn lemma_pb(a: int, b: int, m: int, n: int) requires -m <= a <= m, -n <= b <= n, 0 <= m, 0 <= n ensures -(m * n) <= a * b <= m * n
{ assert(a * b <= m * n && -(m * n) <= a * b) by (nonlinear_arith) requires -m <= a <= m, -n <= b <= n, 0 <= m, 0 <= n; }
/// sizes of the products of differences of ordinates up to 2^24
pub proof fn lemma_nb(a: Coordinate, b: Coordinate, p: Coordinate) requires ipt(a), ipt(b), ipt(p)
  ensures ({ let (ux, uy, wx, wy) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(p.x) - it(a.x), it(p.y) - it(a.y)); let m = 1125899906842624int;
    0 <= ux * ux <= m && 0 <= uy * uy <= m && (len2(a, b) == 0) == eqp(a, b) && len2(a, b) >= 0 && -m <= wx * ux <= m && -m <= wy * uy <= m && -m <= wx * uy <= m && -m <= wy * ux <= m
    && -m <= (-wx) * uy <= m && -m <= (-wy) * ux <= m && cr(a, b, p) == -dt(a, b, p) && cr(a, b, p) == (-wy) * ux - (-wx) * uy })
{ let (ux, uy, wx, wy) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(p.x) - it(a.x), it(p.y) - it(a.y)); let h = 33554432;
  lemma_pb(ux, ux, h, h); lemma_pb(uy, uy, h, h); lemma_pb(wx, ux, h, h); lemma_pb(wy, uy, h, h); lemma_pb(wx, uy, h, h); lemma_pb(wy, ux, h, h); lemma_pb(-wx, uy, h, h); lemma_pb(-wy, ux, h, h);
  assert(ux * ux >= 0 && uy * uy >= 0 && (ux * ux == 0) == (ux == 0) && (uy * uy == 0) == (uy == 0)) by (nonlinear_arith);
  assert(it(p.y) - it(b.y) == wy - uy && it(p.x) - it(b.x) == wx - ux && it(a.y) - it(p.y) == -wy && it(a.x) - it(p.x) == -wx);
  assert((-wy) * ux - (-wx) * uy == -(ux * (wy - uy) - uy * (wx - ux))) by (nonlinear_arith); }
""" + QUO + """
/// the perpendicular term: a rounded quotient times a rounded root
pub open spec fn perp(c: int, l: int) -> real { rnd(rabs(quo(c, l)) * sqrr(l as real)) }
pub open spec fn perps(c: int, l: int) -> real { rnd(quo(c, l) * sqrr(l as real)) }
pub proof fn lemma_perp(c: int, l: int) requires 0 < l <= 2251799813685248, -2251799813685248 <= c <= 2251799813685248
  ensures inrange(rabs(quo(c, l)) * sqrr(l as real)), inrange(quo(c, l) * sqrr(l as real)), perp(c, l) >= 0real, (perp(c, l) == 0real) == (c == 0), perp(-c, l) == perp(c, l), perps(-c, l) == -perps(c, l),
    rabs(perps(c, l)) == perp(c, l), (perps(c, l) > 0real) == (c > 0), (perps(c, l) < 0real) == (c < 0), -9007199254740992real <= quo(c, l) <= 9007199254740992real, quo(-c, l) == -quo(c, l)
{ broadcast use ax_sqrr, ax_sqrr1, f64_ax; lemma_quo(c, l); lemma_iq(c, l); let q = quo(c, l); let s = sqrr(l as real); let x = (c as real) / (l as real);
  ax_rnd_int(9007199254740992); ax_rnd_int(-9007199254740992); ax_rnd_mono(x, 9007199254740992real); ax_rnd_mono(-9007199254740992real, x); ax_rnd_zero(); ax_tiny();
  assert(((-c) as real) / (l as real) == -x) by { let (a, b) = (c as real, l as real); assert((-a) / b == -(a / b)) by (nonlinear_arith) requires b > 0real; assert(((-c) as real) == -a); } ax_rnd_neg(x);
  let m = 9007199254740992real; assert(0real <= s <= m);
  assert(-81129638414606681695789005144064real <= q * s <= 81129638414606681695789005144064real) by (nonlinear_arith) requires -9007199254740992real <= q <= 9007199254740992real, 0real <= s <= 9007199254740992real;
  assert(rabs(q) * s == rabs(q * s)) by (nonlinear_arith) requires s >= 0real;
  assert(rabs(-q) == rabs(q)); assert((-q) * s == -(q * s)) by (nonlinear_arith); ax_rnd_neg(q * s); ax_rnd_mono(0real, rabs(q * s));
  if c != 0 { lemma_qmin(c, l); let z = rabs(q) * s; assert(z >= rabs(q)) by (nonlinear_arith) requires s >= 1real, z == rabs(q) * s, rabs(q) >= 0real;
    assert((q > 0real) ==> q * s > 0real) by (nonlinear_arith) requires s >= 1real; assert((q < 0real) ==> q * s < 0real) by (nonlinear_arith) requires s >= 1real;
    ax_rnd_err(z); assert(z * ulp() < z) by (nonlinear_arith) requires ulp() < 1real, z > 0real;
  } else { assert(q * s == 0real) by (nonlinear_arith) requires q == 0real; } }
/// a quotient of integers below 2^53 stays clear of underflow
pub proof fn lemma_qmin(n: int, d: int) requires 0 < d <= 9007199254740992, n != 0, -9007199254740992 <= n <= 9007199254740992 ensures rabs(quo(n, d)) >= tiny()
{ let (q, nr, dr) = ((n as real) / (d as real), n as real, d as real); let e = 1real / 9007199254740992real; ax_tiny();
  assert(q * dr == nr) by (nonlinear_arith) requires q == nr / dr, dr != 0real;
  assert(rabs(q) >= e) by (nonlinear_arith) requires q * dr == nr, 0real < dr <= 9007199254740992real, nr >= 1real || nr <= -1real, e == 1real / 9007199254740992real;
  ax_rnd_err(q); let a = rabs(q); assert(a * ulp() <= a / 2real) by (nonlinear_arith) requires ulp() <= 0.5real, a > 0real; }
pub open spec fn quos(n: int, d: int) -> real { rnd((n as real) / (d as real)) }
/// whatever the sign of the divisor: in range, and between 0 and 1 exactly when the exact quotient is
pub proof fn lemma_qs(n: int, d: int) requires d != 0, -2251799813685248 <= d <= 2251799813685248, -9007199254740992 <= n <= 9007199254740992
  ensures inrange((n as real) / (d as real)), (quos(n, d) < 0real || quos(n, d) > 1real) == !unit(n, d), (d as real) != 0real
{ if d > 0 { lemma_quo(n, d); lemma_iq(n, d); } else { lemma_quo(-n, -d); lemma_iq(-n, -d);
    let (a, b) = (n as real, d as real); assert((-a) / (-b) == a / b) by (nonlinear_arith) requires b != 0real; assert((-n) as real == -a && (-d) as real == -b); } }
/// distance from p to the segment a-b, as the code computes it: to the nearer end where the foot is not strictly inside
pub open spec fn pd(p: Coordinate, a: Coordinate, b: Coordinate) -> real {
  if eqp(a, b) { dist(p, a) } else if along(a, b, p) <= 0 { dist(p, a) } else if along(a, b, p) >= len2(a, b) { dist(p, b) } else { perp(cr(a, b, p), len2(a, b)) } }
pub proof fn lemma_dist(a: Coordinate, b: Coordinate) requires ipt(a), ipt(b) ensures dist(a, b) >= 0real, (dist(a, b) == 0real) == eqp(a, b), dist(a, b) == dist(b, a)
{ broadcast use ax_hypr; lemma_ip(a, b); lemma_ip(b, a); let (x, y) = ((it(a.x) - it(b.x)) as real, (it(a.y) - it(b.y)) as real); assert(hypr(x, y) == hypr(-x, -y)); assert((it(b.x) - it(a.x)) as real == -x && (it(b.y) - it(a.y)) as real == -y); }
/// distance from the line through a and b (from the point where they coincide), as the code computes it
pub open spec fn ldist(p: Coordinate, a: Coordinate, b: Coordinate) -> real { if eqp(a, b) { dist(a, p) } else { perp(cr(a, b, p), len2(a, b)) } }
/// exactly zero on the segment, blind to its direction
pub proof fn lemma_pd(p: Coordinate, a: Coordinate, b: Coordinate) requires ipt(p), ipt(a), ipt(b)
  ensures pd(p, a, b) >= 0real, (pd(p, a, b) == 0real) == seg_on(p, a, b), pd(p, a, b) == pd(p, b, a)
{ lemma_nb(a, b, p); lemma_nb(b, a, p); lemma_dist(p, a); lemma_dist(p, b); lemma_seg_sym(p, a, b); lemma_rev(a, b, p); lemma_cyc(a, b, p);
  if !eqp(a, b) { lemma_perp(cr(a, b, p), len2(a, b)); if dt(a, b, p) == 0 { lemma_pos(a, b, p); let (l, t, ux, uy, wx, wy) = (len2(a, b), along(a, b, p), it(b.x) - it(a.x), it(b.y) - it(a.y), it(p.x) - it(a.x), it(p.y) - it(a.y));
      assert(t == 0 ==> wx == 0 && wy == 0) by (nonlinear_arith) requires l > 0, l * wx == t * ux, l * wy == t * uy; assert(t == l ==> wx == ux && wy == uy) by (nonlinear_arith) requires l > 0, l * wx == t * ux, l * wy == t * uy; }
    lemma_ends(a, b); } }
pub proof fn lemma_rev(a: Coordinate, b: Coordinate, p: Coordinate) ensures len2(b, a) == len2(a, b), along(b, a, p) == len2(a, b) - along(a, b, p)
{ let (x, y) = (it(b.x) - it(a.x), it(b.y) - it(a.y)); let (u, v) = (it(p.x) - it(a.x), it(p.y) - it(a.y));
  assert((-x) * (-x) == x * x && (-y) * (-y) == y * y) by (nonlinear_arith);
  assert((u - x) * (-x) == x * x - u * x) by (nonlinear_arith); assert((v - y) * (-y) == y * y - v * y) by (nonlinear_arith);
  assert(it(p.x) - it(b.x) == u - x && it(p.y) - it(b.y) == v - y && it(a.x) - it(b.x) == -x && it(a.y) - it(b.y) == -y); }
pub proof fn lemma_ends(a: Coordinate, b: Coordinate) ensures along(a, b, a) == 0, along(a, b, b) == len2(a, b)
{ let (x, y) = (it(b.x) - it(a.x), it(b.y) - it(a.y)); assert(0 * x + 0 * y == 0) by (nonlinear_arith); }
/// the lines of a-b and c-d cross, and where in terms of the two
pub open spec fn den(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) -> int { (it(b.x) - it(a.x)) * (it(d.y) - it(c.y)) - (it(b.y) - it(a.y)) * (it(d.x) - it(c.x)) }
pub open spec fn rn(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) -> int { (it(a.y) - it(c.y)) * (it(d.x) - it(c.x)) - (it(a.x) - it(c.x)) * (it(d.y) - it(c.y)) }
pub open spec fn sn(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) -> int { (it(a.y) - it(c.y)) * (it(b.x) - it(a.x)) - (it(a.x) - it(c.x)) * (it(b.y) - it(a.y)) }
/// n/d is in [0,1], whatever the sign of d
pub open spec fn unit(n: int, d: int) -> bool { d > 0 && 0 <= n <= d || d < 0 && d <= n <= 0 }
pub open spec fn cross(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) -> bool {
  boxes(a, b, c, d) && unit(rn(a, b, c, d), den(a, b, c, d)) && unit(sn(a, b, c, d), den(a, b, c, d)) }
pub proof fn lemma_db(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) requires ipt(a), ipt(b), ipt(c), ipt(d)
  ensures ({ let m = 1125899906842624int; let (ux, uy, vx, vy, zx, zy) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(d.x) - it(c.x), it(d.y) - it(c.y), it(a.x) - it(c.x), it(a.y) - it(c.y));
    -m <= ux * vy <= m && -m <= uy * vx <= m && -m <= zy * vx <= m && -m <= zx * vy <= m && -m <= zy * ux <= m && -m <= zx * uy <= m })
{ let h = 33554432; let (ux, uy, vx, vy, zx, zy) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(d.x) - it(c.x), it(d.y) - it(c.y), it(a.x) - it(c.x), it(a.y) - it(c.y));
  lemma_pb(ux, vy, h, h); lemma_pb(uy, vx, h, h); lemma_pb(zy, vx, h, h); lemma_pb(zx, vy, h, h); lemma_pb(zy, ux, h, h); lemma_pb(zx, uy, h, h); }
/// the parameters in terms of the sides the ends are on
pub proof fn lemma_param(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate)
  ensures den(a, b, c, d) == dt(a, b, d) - dt(a, b, c), sn(a, b, c, d) == -dt(a, b, c), rn(a, b, c, d) == dt(c, d, a), den(a, b, c, d) == dt(c, d, a) - dt(c, d, b)
{ let (ux, uy, vx, vy, wx, wy) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(d.x) - it(c.x), it(d.y) - it(c.y), it(c.x) - it(a.x), it(c.y) - it(a.y));
  assert(it(c.y) - it(b.y) == wy - uy && it(c.x) - it(b.x) == wx - ux && it(d.y) - it(b.y) == wy - uy + vy && it(d.x) - it(b.x) == wx - ux + vx && it(a.x) - it(c.x) == -wx && it(a.y) - it(c.y) == -wy
    && it(a.y) - it(d.y) == -wy - vy && it(a.x) - it(d.x) == -wx - vx && it(b.y) - it(d.y) == uy - wy - vy && it(b.x) - it(d.x) == ux - wx - vx);
  let (e, f) = (wy - uy, wx - ux); assert(ux * (e + vy) == ux * e + ux * vy && uy * (f + vx) == uy * f + uy * vx) by (nonlinear_arith);
  assert((-wy) * ux - (-wx) * uy == -(ux * (wy - uy) - uy * (wx - ux))) by (nonlinear_arith);
  assert((-wy) * vx - (-wx) * vy == vx * (-wy - vy) - vy * (-wx - vx)) by (nonlinear_arith);
  let (g, h) = (-wy - vy, -wx - vx); assert(vx * (uy + g) == vx * uy + vx * g && vy * (ux + h) == vy * ux + vy * h) by (nonlinear_arith);
  assert(vx * uy == uy * vx && vy * ux == ux * vy) by (nonlinear_arith); }
pub open spec fn sd(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) -> real {
  if eqp(a, b) { pd(a, c, d) } else if eqp(c, d) { pd(d, a, b) } else if cross(a, b, c, d) { 0real } else { mi4(pd(a, c, d), pd(b, c, d), pd(c, a, b), pd(d, a, b)) } }
/// for segments of positive length: crossing or an end of one on the other exactly when they share a point
pub proof fn lemma_touch(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) requires !eqp(a, b), !eqp(c, d)
  ensures cross(a, b, c, d) ==> shared(a, b, c, d), seg_on(a, c, d) || seg_on(b, c, d) || seg_on(c, a, b) || seg_on(d, a, b) ==> shared(a, b, c, d),
     shared(a, b, c, d) ==> cross(a, b, c, d) || seg_on(a, c, d) || seg_on(b, c, d) || seg_on(c, a, b) || seg_on(d, a, b)
{ lemma_param(a, b, c, d);
  if cross(a, b, c, d) { lemma_straddle(a, b, c, d); }
  if seg_on(a, c, d) { lemma_end_shared(c, d, a, b); lemma_shared_swap(a, b, c, d); }
  if seg_on(b, c, d) { lemma_end_shared(c, d, b, a); lemma_shared_swap(a, b, c, d); }
  if seg_on(c, a, b) { lemma_end_shared(a, b, c, d); }
  if seg_on(d, a, b) { lemma_end_shared(a, b, d, c); }
  if shared(a, b, c, d) { lemma_sep(a, b, c, d);
    if den(a, b, c, d) == 0 { let (dd, n, m) = choose|dd: int, n: int, m: int| at(a, b, c, d, dd, n, m); lemma_sides(a, b, c, d, dd, n, m);
      let e = dt(a, b, c); assert((dd - m) * e + m * e == dd * e) by (nonlinear_arith); assert(e == 0) by (nonlinear_arith) requires dd * e == 0, dd > 0;
      lemma_at_swap(a, b, c, d, dd, n, m); lemma_sides(c, d, a, b, dd, m, n); let f = dt(c, d, a); assert((dd - n) * f + n * f == dd * f) by (nonlinear_arith); assert(f == 0) by (nonlinear_arith) requires dd * f == 0, dd > 0;
      lemma_collinear(a, b, c, d); } } }

/// least distance over the first n segments of a string
pub open spec fn smin(p: Coordinate, l: Seq<Coordinate>, n: int) -> real decreases n { if n <= 0 { dist(p, l[0]) } else { mi(pd(p, l[n - 1], l[n]), smin(p, l, n - 1)) } }
pub open spec fn ipts(l: Seq<Coordinate>) -> bool { forall|i: int| 0 <= i < l.len() ==> ipt(#[trigger] l[i]) }
// ---- in space, ordinates up to 2^10
pub open spec fn i10(x: f64) -> bool { isi(x) && -1024 <= it(x) <= 1024 }
pub open spec fn p10(c: Coordinate) -> bool { i10(c.x) && i10(c.y) && i10(c.z) }
pub open spec fn eq3(a: Coordinate, b: Coordinate) -> bool { it(a.x) == it(b.x) && it(a.y) == it(b.y) && it(a.z) == it(b.z) }
pub open spec fn zok(c: Coordinate) -> bool { lim(c.z) || fnan(c.z) }
pub open spec fn dot4(a: Coordinate, b: Coordinate, c: Coordinate, e: Coordinate) -> int {
  (it(b.x) - it(a.x)) * (it(e.x) - it(c.x)) + (it(b.y) - it(a.y)) * (it(e.y) - it(c.y)) + (it(b.z) - it(a.z)) * (it(e.z) - it(c.z)) }
pub proof fn lemma_d4(a: Coordinate, b: Coordinate, c: Coordinate, e: Coordinate) requires p10(a), p10(b), p10(c), p10(e)
  ensures ({ let m = 4194304int; -m <= (it(b.x) - it(a.x)) * (it(e.x) - it(c.x)) <= m && -m <= (it(b.y) - it(a.y)) * (it(e.y) - it(c.y)) <= m && -m <= (it(b.z) - it(a.z)) * (it(e.z) - it(c.z)) <= m })
{ lemma_pb(it(b.x) - it(a.x), it(e.x) - it(c.x), 2048, 2048); lemma_pb(it(b.y) - it(a.y), it(e.y) - it(c.y), 2048, 2048); lemma_pb(it(b.z) - it(a.z), it(e.z) - it(c.z), 2048, 2048); }
pub proof fn lemma_sq3(a: Coordinate, b: Coordinate) requires p10(a), p10(b) ensures dot4(a, b, a, b) >= 0, (dot4(a, b, a, b) == 0) == eq3(a, b)
{ let (x, y, z) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(b.z) - it(a.z)); assert(x * x >= 0 && y * y >= 0 && z * z >= 0 && (x * x == 0) == (x == 0) && (y * y == 0) == (y == 0) && (z * z == 0) == (z == 0)) by (nonlinear_arith); }
/// spatial distance as computed, from real differences
pub open spec fn ssr(x: real, y: real, z: real) -> real { rnd(rnd(sq(x) + sq(y)) + sq(z)) }
pub proof fn lemma_ssr(x: real, y: real, z: real) requires rabs(x) <= 4000000000000000000000000000000real, rabs(y) <= 4000000000000000000000000000000real, rabs(z) <= 4000000000000000000000000000000real
  ensures ssr(x, y, z) >= 0real, rnd(sq(x) + sq(y)) >= 0real, inrange(x * x), inrange(y * y), inrange(z * z), inrange(sq(x) + sq(y)), inrange(rnd(sq(x) + sq(y)) + sq(z))
{ broadcast use f64_ax; lemma_sq(x); lemma_sq(y); lemma_sq(z); let p = sq(x) + sq(y); ax_rnd_zero(); lemma_rb(p); ax_rnd_mono(0real, p); let q = rnd(p) + sq(z); lemma_rb(q); ax_rnd_mono(0real, q); }
pub open spec fn d3(a: Coordinate, b: Coordinate) -> real { sqrr(ss(a, b)) }
pub open spec fn mixd(p: f64, a: f64, b: f64, f: real) -> real { rnd(val(p) - mix(it(a), it(b), f)) }
pub open spec fn mixx(a: f64, b: f64, s: real, c: f64, e: f64, t: real) -> real { rnd(mix(it(a), it(b), s) - mix(it(c), it(e), t)) }
/// point to segment in space, as computed
pub open spec fn pd3(p: Coordinate, a: Coordinate, b: Coordinate) -> real { let n = dot4(a, p, a, b); let l = dot4(a, b, a, b); let f = quo(n, l);
  if eq3(a, b) || n <= 0 { d3(p, a) } else if n >= l { d3(p, b) } else { sqrr(ssr(mixd(p.x, a.x, b.x, f), mixd(p.y, a.y, b.y, f), mixd(p.z, a.z, b.z, f))) } }
/// a fraction between two ordinates, as computed
pub broadcast proof fn lemma_mixb(a: int, b: int, f: real) requires -1024 <= a <= 1024, -1024 <= b <= 1024, 0real <= f <= 1real
  ensures -1024real <= #[trigger] mix(a, b, f) <= 1024real, inrange(f * (b - a) as real), inrange(a as real + rnd(f * (b - a) as real)), rabs(rnd(f * (b - a) as real)) <= 2048real
{ broadcast use f64_ax; lemma_mix(a, b, f); let d = (b - a) as real; assert(-2048real <= f * d <= 2048real) by (nonlinear_arith) requires 0real <= f <= 1real, -2048real <= d <= 2048real;
  ax_rnd_int(2048); ax_rnd_int(-2048); ax_rnd_mono(f * d, 2048real); ax_rnd_mono(-2048real, f * d); }
pub proof fn lemma_df(x: real) requires rabs(x) <= 2048real ensures inrange(x), rabs(rnd(x)) <= 2048real { broadcast use f64_ax; ax_rnd_int(2048); ax_rnd_int(-2048); ax_rnd_mono(x, 2048real); ax_rnd_mono(-2048real, x); }
/// the quotients that place the nearest points of two lines in space
pub open spec fn par3(a: Coordinate, b: Coordinate, c: Coordinate, e: Coordinate) -> int { dot4(a, b, a, b) * dot4(c, e, c, e) - dot4(a, b, c, e) * dot4(a, b, c, e) }
pub open spec fn s3(a: Coordinate, b: Coordinate, c: Coordinate, e: Coordinate) -> real { if par3(a, b, c, e) <= 0 { 0real } else { quo(dot4(a, b, c, e) * dot4(c, e, c, a) - dot4(c, e, c, e) * dot4(a, b, c, a), par3(a, b, c, e)) } }
pub open spec fn t3(a: Coordinate, b: Coordinate, c: Coordinate, e: Coordinate) -> real {
  if par3(a, b, c, e) <= 0 { if dot4(a, b, c, e) > dot4(c, e, c, e) { quo(dot4(a, b, c, a), dot4(a, b, c, e)) } else { quo(dot4(c, e, c, a), dot4(c, e, c, e)) } }
  else { quo(dot4(a, b, a, b) * dot4(c, e, c, a) - dot4(a, b, c, e) * dot4(a, b, c, a), par3(a, b, c, e)) } }
pub open spec fn sd3(a: Coordinate, b: Coordinate, c: Coordinate, e: Coordinate) -> real { let s = s3(a, b, c, e); let t = t3(a, b, c, e);
  if eq3(a, b) { pd3(a, c, e) } else if eq3(c, e) { pd3(c, a, b) }
  else if s < 0real || s > 1real || t < 0real || t > 1real { mi(mi(pd3(a, c, e), pd3(b, c, e)), mi(pd3(c, a, b), pd3(e, a, b))) }
  else { sqrr(ssr(mixx(a.x, b.x, s, c.x, e.x, t), mixx(a.y, b.y, s, c.y, e.y, t), mixx(a.z, b.z, s, c.z, e.z, t))) } }
pub proof fn lemma_b3(a: Coordinate, b: Coordinate, c: Coordinate, e: Coordinate) requires p10(a), p10(b), p10(c), p10(e)
  ensures ({ let m = 12582912int; let (aa, bb, cc, dd, ee) = (dot4(a, b, a, b), dot4(a, b, c, e), dot4(c, e, c, e), dot4(a, b, c, a), dot4(c, e, c, a)); let k = 158329674399744int;
    -m <= aa <= m && -m <= bb <= m && -m <= cc <= m && -m <= dd <= m && -m <= ee <= m && -k <= aa * cc <= k && -k <= bb * bb <= k && -k <= bb * ee <= k && -k <= cc * dd <= k && -k <= aa * ee <= k && -k <= bb * dd <= k })
{ let m = 12582912int; let (aa, bb, cc, dd, ee) = (dot4(a, b, a, b), dot4(a, b, c, e), dot4(c, e, c, e), dot4(a, b, c, a), dot4(c, e, c, a));
  lemma_d4(a, b, a, b); lemma_d4(a, b, c, e); lemma_d4(c, e, c, e); lemma_d4(a, b, c, a); lemma_d4(c, e, c, a);
  lemma_pb(aa, cc, m, m); lemma_pb(bb, bb, m, m); lemma_pb(bb, ee, m, m); lemma_pb(cc, dd, m, m); lemma_pb(aa, ee, m, m); lemma_pb(bb, dd, m, m); }
"""
F = "src/core/algorithm/distance.rs"
F3 = "src/core/algorithm/cg_algorithms_3d.rs"
_q = """proof { lemma_nb(*a, *b, *p); lemma_ip(*p, *a); lemma_ip(*p, *b); if !eqp(*a, *b) { lemma_quo(along(*a, *b, *p), len2(*a, *b)); lemma_iq(along(*a, *b, *p), len2(*a, *b)); lemma_iq(cr(*a, *b, *p), len2(*a, *b)); lemma_perp(cr(*a, *b, *p), len2(*a, *b)); } }"""
_abc = "ipt(*p), ipt(*a), ipt(*b)"
_c8 = {f.name: f for i in c08.IMPLS if i["ty"] == "Coordinate" for f in i["fns"]}
_ABCD = "*a, *b, *c, *d"
_4 = "*ac, *bc, *cc, *dd"
MM = "broadcast use f64_ax, f64_int, ty_ax;"
IMPLS = [
 dict(common.coordinate("new_xyz", "get_z", "equals_2d", "default"), fns=common.coordinate("new_xyz", "get_z", "equals_2d", "default")["fns"] + [_c8["distance"],
   Fn("equals_3d", requires="fpt(*self), fpt(*other)", ensures="!fnan(self.z) && !fnan(other.z) && fin(self.z) && fin(other.z) ==> r == (eqv(*self, *other) && val(self.z) == val(other.z))", start="broadcast use f64_ax, ty_ax;")]),
 dict(file="src/core/geom/envelope.rs", ty="Envelope", fns=[Fn("intersects_4", requires="ipt(*p1), ipt(*p2), ipt(*q1), ipt(*q2)", ensures="r == boxes(*p1, *p2, *q1, *q2)", start=BI)]),
 dict(file="src/core/util/math_util.rs", ty="MathUtil", fns=[Fn("min", requires="fin(v1), fin(v2), fin(v3), fin(v4)", ensures="fin(r), val(r) == mi4(val(v1), val(v2), val(v3), val(v4))", start="broadcast use f64_ax;")]),
 dict(file="src/core/math/vector_3d.rs", ty="Vector3D", fns=[Fn("dot_4", requires="p10(*ac), p10(*bc), p10(*cc), p10(*dc)", ensures="isi(r), it(r) == dot4(*ac, *bc, *cc, *dc)", start=BI + "proof { lemma_d4(*ac, *bc, *cc, *dc); }")]),
 dict(file=F, ty="Distance", fns=[
   Fn("point_to_segment", requires=_abc, ensures="fin(r), val(r) == pd(*p, *a, *b)", start=MM + _q),
   Fn("point_to_line_perpendicular", requires=_abc + ", !eqp(*a, *b)", ensures="fin(r), val(r) == perp(cr(*a, *b, *p), len2(*a, *b))", start=MM + _q),
   Fn("point_to_line_perpendicular_signed", requires=_abc + ", !eqp(*a, *b)", ensures="fin(r), val(r) == perps(cr(*a, *b, *p), len2(*a, *b))", start=MM + _q),
   Fn("point_to_segment_string", requires="ipt(*p), ipts(line@)", ensures="line@.len() == 0 ==> fnan(r), line@.len() > 0 ==> fin(r) && val(r) == smin(*p, line@, line@.len() - 1)",
      start="broadcast use f64_ax; proof { if line@.len() > 0 { lemma_ip(*p, line@[0]); } }", loops=[dict(kind="for", inv="invariant ipt(*p), ipts(line@), line@.len() > 0, fin(min_distance), val(min_distance) == smin(*p, line@, $v as int),")]),
   Fn("segment_to_segment", requires="ipt(*a), ipt(*b), ipt(*c), ipt(*d)", ensures="fin(r), val(r) == sd(*a, *b, *c, *d), val(r) >= 0real, (val(r) == 0real) == shared(*a, *b, *c, *d)",
      start=MM + "proof { lemma_db(*a, *b, *c, *d); let n = den(*a, *b, *c, *d); if n != 0 { lemma_qs(rn(*a, *b, *c, *d), n); lemma_qs(sn(*a, *b, *c, *d), n); } theorem_zero(*a, *b, *c, *d); }"),
 ]),
 dict(file=F3, ty="CGAlgorithms3D", fns=[
   Fn("distance", requires="lip(*p0), lip(*p1), zok(*p0), zok(*p1)", ensures="fin(r), val(r) >= 0real, fnan(p0.z) || fnan(p1.z) ==> val(r) == dist(*p0, *p1), !fnan(p0.z) && !fnan(p1.z) ==> val(r) == d3(*p0, *p1)",
      start="broadcast use f64_ax, ty_ax, ax_sqrr, ax_fnan; proof { lemma_d(p0.x, p1.x); lemma_d(p0.y, p1.y); if lim(p0.z) && lim(p1.z) { lemma_d(p0.z, p1.z); lemma_ssr(d(p0.x, p1.x), d(p0.y, p1.y), d(p0.z, p1.z)); } }"),
   Fn("distance_point_segment", requires="p10(*p), p10(*ac), p10(*bc)", ensures="fin(r), val(r) >= 0real, val(r) == pd3(*p, *ac, *bc)",
      start="broadcast use f64_ax, f64_int, ty_ax, ax_sqrr, ax_fnan; proof { lemma_d4(*ac, *p, *ac, *bc); lemma_d4(*ac, *bc, *ac, *bc); lemma_sq3(*ac, *bc); let (n, l) = (dot4(*ac, *p, *ac, *bc), dot4(*ac, *bc, *ac, *bc)); if l > 0 { lemma_quo(n, l); lemma_iq(n, l); } if 0 < n < l { lemma_m3(*p, *ac, *bc, quo(n, l)); } }"),
   Fn("distance_segment_segment", requires="p10(*ac), p10(*bc), p10(*cc), p10(*dd)", ensures="fin(r), val(r) >= 0real, val(r) == sd3(%s)" % _4,
      start="broadcast use f64_ax, f64_int, ty_ax, ax_sqrr, ax_fnan; proof { lemma_b3(%(A)s); lemma_sq3(*ac, *bc); lemma_sq3(*cc, *dd); if !eq3(*ac, *bc) && !eq3(*cc, *dd) { lemma_st(%(A)s); } let (s, t) = (s3(%(A)s), t3(%(A)s)); if 0real <= s <= 1real && 0real <= t <= 1real { lemma_m4(%(A)s, s, t); } }" % dict(A=_4)),
 ]),
 common.ORIENTATION,
 dict(file="src/core/geom/line_segment.rs", ty="LineSegment", fns=[
   Fn("orientation_index_coordinate", requires="ipt(self.p0), ipt(self.p1), ipt(*p)", ensures="r == sgi(dt(self.p0, self.p1, *p))"),
   Fn("distance_line_segment", requires="ipt(self.p0), ipt(self.p1), ipt(ls.p0), ipt(ls.p1)", ensures="fin(r), val(r) == sd(self.p0, self.p1, ls.p0, ls.p1), val(r) >= 0real, (val(r) == 0real) == shared(self.p0, self.p1, ls.p0, ls.p1)"),
   Fn("distance_coordinate", requires="ipt(self.p0), ipt(self.p1), ipt(*p)", ensures="fin(r), val(r) == pd(*p, self.p0, self.p1)"),
   Fn("distance_perpendicular", requires="ipt(self.p0), ipt(self.p1), ipt(*p)", ensures="fin(r), val(r) == ldist(*p, self.p0, self.p1)", start="broadcast use f64_ax, f64_int, ty_ax; proof { lemma_ip(self.p0, *p); }"),
   Fn("distance_perpendicular_oriented", requires="ipt(self.p0), ipt(self.p1), ipt(*p)",
      ensures="fin(r), !eqp(self.p0, self.p1) && dt(self.p0, self.p1, *p) < 0 ==> val(r) == -ldist(*p, self.p0, self.p1), eqp(self.p0, self.p1) || dt(self.p0, self.p1, *p) >= 0 ==> val(r) == ldist(*p, self.p0, self.p1)",
      start="broadcast use f64_ax, f64_int, ty_ax; proof { lemma_ip(self.p0, *p); }"),
 ])]
PRELUDE += """
pub proof fn lemma_ax(p: int, a: int, b: int, f: real) requires -1024 <= p <= 1024, -1024 <= a <= 1024, -1024 <= b <= 1024, 0real <= f <= 1real
  ensures inrange(f * (b - a) as real), inrange(a as real + rnd(f * (b - a) as real)), -1024real <= mix(a, b, f) <= 1024real, inrange(p as real - mix(a, b, f)), rabs(rnd(p as real - mix(a, b, f))) <= 2048real
{ lemma_mixb(a, b, f); lemma_df(p as real - mix(a, b, f)); }
/// everything in range when the nearest point is inside
pub proof fn lemma_m3(p: Coordinate, a: Coordinate, b: Coordinate, f: real) requires p10(p), p10(a), p10(b), 0real <= f <= 1real
  ensures ({ let (x, y, z) = (mixd(p.x, a.x, b.x, f), mixd(p.y, a.y, b.y, f), mixd(p.z, a.z, b.z, f));
      rabs(x) <= 2048real && rabs(y) <= 2048real && rabs(z) <= 2048real && inrange(x * x) && inrange(y * y) && inrange(z * z) && inrange(sq(x) + sq(y)) && inrange(rnd(sq(x) + sq(y)) + sq(z)) && ssr(x, y, z) >= 0real }),
    inrange(f * (it(b.x) - it(a.x)) as real), inrange(f * (it(b.y) - it(a.y)) as real), inrange(f * (it(b.z) - it(a.z)) as real),
    inrange(it(a.x) as real + rnd(f * (it(b.x) - it(a.x)) as real)), inrange(it(a.y) as real + rnd(f * (it(b.y) - it(a.y)) as real)), inrange(it(a.z) as real + rnd(f * (it(b.z) - it(a.z)) as real)),
    inrange(val(p.x) - mix(it(a.x), it(b.x), f)), inrange(val(p.y) - mix(it(a.y), it(b.y), f)), inrange(val(p.z) - mix(it(a.z), it(b.z), f))
{ lemma_ax(it(p.x), it(a.x), it(b.x), f); lemma_ax(it(p.y), it(a.y), it(b.y), f); lemma_ax(it(p.z), it(a.z), it(b.z), f);
  lemma_ssr(mixd(p.x, a.x, b.x, f), mixd(p.y, a.y, b.y, f), mixd(p.z, a.z, b.z, f)); }
pub open spec fn axok(a: f64, b: f64, f: real) -> bool { inrange(f * (it(b) - it(a)) as real) && inrange(it(a) as real + rnd(f * (it(b) - it(a)) as real)) && -1024real <= mix(it(a), it(b), f) <= 1024real }
pub proof fn lemma_m4(a: Coordinate, b: Coordinate, c: Coordinate, e: Coordinate, s: real, t: real) requires p10(a), p10(b), p10(c), p10(e), 0real <= s <= 1real, 0real <= t <= 1real
  ensures axok(a.x, b.x, s), axok(a.y, b.y, s), axok(a.z, b.z, s), axok(c.x, e.x, t), axok(c.y, e.y, t), axok(c.z, e.z, t)
{ lemma_mixb(it(a.x), it(b.x), s); lemma_mixb(it(a.y), it(b.y), s); lemma_mixb(it(a.z), it(b.z), s); lemma_mixb(it(c.x), it(e.x), t); lemma_mixb(it(c.y), it(e.y), t); lemma_mixb(it(c.z), it(e.z), t); }
pub proof fn lemma_st(a: Coordinate, b: Coordinate, c: Coordinate, e: Coordinate) requires p10(a), p10(b), p10(c), p10(e), !eq3(a, b), !eq3(c, e)
  ensures ({ let (aa, bb, cc, dd, ee) = (dot4(a, b, a, b), dot4(a, b, c, e), dot4(c, e, c, e), dot4(a, b, c, a), dot4(c, e, c, a)); let q = par3(a, b, c, e);
    cc > 0 && (bb > cc ==> bb > 0) && (bb > cc ==> inrange((dd as real) / (bb as real))) && inrange((ee as real) / (cc as real)) && (q > 0 ==> inrange(((bb * ee - cc * dd) as real) / (q as real)) && inrange(((aa * ee - bb * dd) as real) / (q as real))) })
{ lemma_b3(a, b, c, e); lemma_sq3(c, e); let (aa, bb, cc, dd, ee) = (dot4(a, b, a, b), dot4(a, b, c, e), dot4(c, e, c, e), dot4(a, b, c, a), dot4(c, e, c, a)); let q = par3(a, b, c, e);
  lemma_iq(dd, bb); lemma_iq(ee, cc); lemma_iq(bb * ee - cc * dd, q); lemma_iq(aa * ee - bb * dd, q); }
"""
LEMMAS = """
proof fn lemma_at_rev(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate, k: int, n: int, m: int) requires at(a, b, c, d, k, n, m) ensures at(b, a, c, d, k, k - n, m)
{ let (x, y, u, v) = (it(a.x), it(a.y), it(b.x), it(b.y));
  assert(u * k + (k - n) * (x - u) == x * k + n * (u - x)) by (nonlinear_arith); assert(v * k + (k - n) * (y - v) == y * k + n * (v - y)) by (nonlinear_arith); }
pub proof fn theorem_shared_rev(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) ensures shared(a, b, c, d) == shared(b, a, c, d), shared(a, b, c, d) == shared(c, d, a, b), shared(a, b, c, d) == shared(a, b, d, c)
{ if shared(a, b, c, d) { let (k, n, m) = choose|k: int, n: int, m: int| at(a, b, c, d, k, n, m); lemma_at_rev(a, b, c, d, k, n, m); lemma_at_swap(a, b, c, d, k, n, m); lemma_at_rev(c, d, a, b, k, m, n); lemma_at_swap(d, c, a, b, k, k - m, n); }
  if shared(b, a, c, d) { let (k, n, m) = choose|k: int, n: int, m: int| at(b, a, c, d, k, n, m); lemma_at_rev(b, a, c, d, k, n, m); }
  if shared(a, b, d, c) { let (k, n, m) = choose|k: int, n: int, m: int| at(a, b, d, c, k, n, m); lemma_at_swap(a, b, d, c, k, n, m); lemma_at_rev(d, c, a, b, k, m, n); lemma_at_swap(c, d, a, b, k, k - m, n); }
  lemma_shared_swap(a, b, c, d); }
/// a segment that is a point meets another exactly when the point is on it
proof fn lemma_point(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) requires eqp(a, b) ensures seg_on(a, c, d) == shared(a, b, c, d)
{ if seg_on(a, c, d) { lemma_end_shared(c, d, a, b); lemma_shared_swap(a, b, c, d); }
  if shared(a, b, c, d) { lemma_shared_swap(a, b, c, d); let (k, n, m) = choose|k: int, n: int, m: int| at(c, d, a, b, k, n, m);
    lemma_sides(c, d, a, b, k, n, m); assert(dt(c, d, a) == dt(c, d, b)); let f = dt(c, d, a); assert((k - m) * f + m * f == k * f) by (nonlinear_arith); assert(f == 0) by (nonlinear_arith) requires k * f == 0, k > 0;
    lemma_sep(c, d, a, b); } }
/// symmetric in the segments and in the direction of each
pub proof fn theorem_symmetric(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) requires ipt(a), ipt(b), ipt(c), ipt(d)
  ensures sd(a, b, c, d) == sd(b, a, c, d), sd(a, b, c, d) == sd(a, b, d, c), sd(a, b, c, d) == sd(c, d, a, b)
{ lemma_pd(a, c, d); lemma_pd(b, c, d); lemma_pd(c, a, b); lemma_pd(d, a, b); if !eqp(a, b) && !eqp(c, d) { lemma_crossing(a, b, c, d); lemma_crossing(b, a, c, d); lemma_crossing(a, b, d, c); lemma_crossing(c, d, a, b); } theorem_shared_rev(a, b, c, d);
  lemma_dist(a, c); lemma_dist(a, d); lemma_dist(b, c); lemma_dist(b, d); theorem_same_pt(a, b, c); theorem_same_pt(a, b, d); theorem_same_pt(c, d, a); theorem_same_pt(c, d, b);
  if eqp(a, b) { lemma_pdpt(a, b, c, d); } if eqp(c, d) { lemma_pdpt(c, d, a, b); } if eqp(a, b) && eqp(c, d) { lemma_ip(a, d); lemma_ip(d, a); lemma_ip(a, c); lemma_ip(c, a); lemma_ip(b, c); lemma_ip(b, d); lemma_ip(d, b); lemma_ip(c, b); } }
proof fn lemma_pdpt(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) requires ipt(a), ipt(b), ipt(c), ipt(d), eqp(a, b) ensures pd(a, c, d) == pd(b, c, d)
{ lemma_ip(a, c); lemma_ip(b, c); lemma_ip(a, d); lemma_ip(b, d); }
proof fn theorem_same_pt(a: Coordinate, b: Coordinate, p: Coordinate) requires ipt(a), ipt(b), ipt(p) ensures eqp(a, b) ==> dist(a, p) == dist(b, p) && dist(p, a) == dist(p, b)
{ lemma_ip(a, p); lemma_ip(b, p); lemma_ip(p, a); lemma_ip(p, b); }
/// crossing or not decides nothing where an end touches: both give zero
proof fn lemma_crossing(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) requires ipt(a), ipt(b), ipt(c), ipt(d), !eqp(a, b), !eqp(c, d)
  ensures sd(a, b, c, d) == if shared(a, b, c, d) { 0real } else { mi4(pd(a, c, d), pd(b, c, d), pd(c, a, b), pd(d, a, b)) }
{ theorem_zero(a, b, c, d); lemma_touch(a, b, c, d); }
/// the perpendicular is never longer than the way to either end
pub proof fn theorem_lagrange(a: Coordinate, b: Coordinate, p: Coordinate) ensures ({ let w = len2(a, p); let (u, s, c) = (len2(a, b), along(a, b, p), cr(a, b, p)); c * c + s * s == u * w && c * c <= u * w })
{ let (ux, uy, wx, wy) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(p.x) - it(a.x), it(p.y) - it(a.y)); let c = cr(a, b, p); let s = along(a, b, p);
  assert(c == (-wy) * ux - (-wx) * uy); let (i, j, k, l) = (wx * ux, wy * uy, wy * ux, wx * uy); assert((-wy) * ux == -k && (-wx) * uy == -l) by (nonlinear_arith) requires k == wy * ux, l == wx * uy;
  assert(c * c == k * k - 2 * (k * l) + l * l) by (nonlinear_arith) requires c == -k + l; assert(s * s == i * i + 2 * (i * j) + j * j) by (nonlinear_arith) requires s == i + j;
  assert(k * l == i * j) by (nonlinear_arith) requires i == wx * ux, j == wy * uy, k == wy * ux, l == wx * uy;
  let (A, B, C, D) = (ux * ux, uy * uy, wx * wx, wy * wy); assert((A + B) * (C + D) == A * C + A * D + B * C + B * D) by (nonlinear_arith);
  assert(A * C == i * i) by (nonlinear_arith) requires A == ux * ux, C == wx * wx, i == wx * ux; assert(B * D == j * j) by (nonlinear_arith) requires B == uy * uy, D == wy * wy, j == wy * uy;
  assert(A * D == k * k) by (nonlinear_arith) requires A == ux * ux, D == wy * wy, k == wy * ux; assert(B * C == l * l) by (nonlinear_arith) requires B == uy * uy, C == wx * wx, l == wx * uy;
  assert(s * s >= 0) by (nonlinear_arith); }
/// the string distance is the least of those to its segments, and zero exactly on one of them
pub proof fn theorem_string(p: Coordinate, l: Seq<Coordinate>, n: int) requires ipt(p), ipts(l), 1 <= n < l.len()
  ensures smin(p, l, n) >= 0real, forall|i: int| 1 <= i <= n ==> smin(p, l, n) <= #[trigger] pd(p, l[i - 1], l[i]), smin(p, l, n) <= dist(p, l[0]),
    (smin(p, l, n) == 0real) == (exists|i: int| 1 <= i <= n && #[trigger] seg_on(p, l[i - 1], l[i]))
  decreases n
{ lemma_pd(p, l[n - 1], l[n]); lemma_dist(p, l[0]); reveal_with_fuel(smin, 2); 
  if n > 1 { theorem_string(p, l, n - 1); } else { lemma_pd(p, l[0], l[1]); if eqp(p, l[0]) { lemma_cyc(p, l[0], l[1]); lemma_ends(l[0], l[1]); assert(seg_on(p, l[0], l[1])) by { assert(it(p.x) == it(l[0].x)); lemma_cyc(l[0], l[1], l[0]); } } }
  if exists|i: int| 1 <= i <= n && #[trigger] seg_on(p, l[i - 1], l[i]) { let i = choose|i: int| 1 <= i <= n && #[trigger] seg_on(p, l[i - 1], l[i]); lemma_pd(p, l[i - 1], l[i]); }
  if smin(p, l, n) == 0real { if pd(p, l[n - 1], l[n]) == 0real { assert(seg_on(p, l[n - 1], l[n])); } } }
/// zero exactly when the segments share a point
pub proof fn theorem_zero(a: Coordinate, b: Coordinate, c: Coordinate, d: Coordinate) requires ipt(a), ipt(b), ipt(c), ipt(d)
  ensures sd(a, b, c, d) >= 0real, (sd(a, b, c, d) == 0real) == shared(a, b, c, d)
{ lemma_pd(a, c, d); lemma_pd(b, c, d); lemma_pd(c, a, b); lemma_pd(d, a, b);
  if eqp(a, b) { lemma_point(a, b, c, d); } else if eqp(c, d) { lemma_point(d, c, a, b); theorem_shared_rev(d, c, a, b); theorem_shared_rev(a, b, c, d); theorem_shared_rev(c, d, a, b); } else { lemma_touch(a, b, c, d); } }
"""
ASSUMPTIONS = ["integer ordinates up to 2^24 in the plane and 2^10 in space (where every dot product and determinant is exact); any finite ordinates up to 1e30 for the distance of two points", "hypot lies between either magnitude and their sum and is even; sqrt is zero only at zero and lies between 1 and its argument from 1 on"]
