from rsx import Fn
import c03, c06, c14, common, copy, ddint
from common import BI
USES = ["f64"]
STRUCTS = ddint.STRUCTS + [("src/core/geom/line_segment.rs", "LineSegment", "")]
_d, _6 = ddint.PRELUDE, c06.PRELUDE
PRELUDE = c14.PRELUDE + common.DET + common.PTS + _d[_d.index("pub assume_specification[ f64::is_infinite"):_d.index("/// a rounded value is at most")] \
  + _6[_6.index("pub open spec fn mn("):_6.index("pub open spec fn ebox")] + _6[_6.index("/// the ends of each are strictly"):_6.index("pub open spec fn lines_ok")] + _6[_6.index("/// between the ends along one axis"):_6.index("proof fn lemma_le")] + """
// ---- exact differences of integers held in two words
/// a rounded integer is whole
pub axiom fn ax_rnd_whole(k: int) ensures flo(rnd(k as real)) == rnd(k as real);
/// a number this close to a double rounds to it
pub axiom fn ax_rnd_near(x: real, v: real) requires rnd(x) == x, rabs(v - x) <= rabs(x) * ulp() / 4real ensures rnd(v) == x;
pub open spec fn p75() -> int { 37778931862957161709568 }
pub open spec fn wide(d: DD, k: int) -> bool { is(d, k as real) && -p75() <= k <= p75() }
/// the words of a wide integer are integers, the low one small
pub proof fn lemma_words(k: int) -> (r: (int, int)) requires -2 * p75() <= k <= 2 * p75() ensures rnd(k as real) == r.0 as real, r.1 == k - r.0, -16777216 <= r.1 <= 16777216, -4 * p75() <= r.0 <= 4 * p75()
{ ax_rnd_whole(k); ax_tiny(); ax_rnd_zero(); let x = k as real; let a = rnd(x).floor(); assert(a as real == rnd(x)); ax_rnd_err(x); let l = k - a;
  assert(rabs(x) * ulp() <= 16777216real) by { let y = rabs(x); assert(y * ulp() <= 16777216real) by (nonlinear_arith) requires 0real <= y <= 2real * 37778931862957161709568real, ulp() == 0.00000000000000011102230246251565404236316680908203125real; }
  (a, l) }
pub proof fn lemma_wide(a: DD, b: DD, i: int, j: int) requires wide(a, i), wide(b, j)
  ensures lt60(a.hi), lt60(a.lo), lt60(b.hi), lt60(b.lo), neat(val(a.hi), val(a.lo), -val(b.hi), -val(b.lo))
{ let (ah, al) = lemma_words(i); let (bh, bl) = lemma_words(j);
  lemma_half(i, ah, al); lemma_half(j, bh, bl);
  let p = ah - bh; assert(-2 * p75() <= p <= 2 * p75()); let (ph, pl) = lemma_words(p); let t = al - bl; let e = pl + t;
  assert(val(a.hi) + -val(b.hi) == p as real); assert(val(a.lo) + -val(b.lo) == t as real);
  ax_rnd_int(t); ax_rnd_int(e); if -67108864 <= ph <= 67108864 { ax_rnd_int(ph + e); } }
pub proof fn lemma_wides(a: DD, i: int, j: int, c: f64, d: f64) requires wide(a, i), -p75() <= j <= p75(), isi(c), isi(d), it(c) * it(d) == j ensures forall|b: DD| #[trigger] is(b, val(c) * val(d)) ==> lt60(a.hi) && lt60(a.lo) && lt60(b.hi) && lt60(b.lo) && neat(val(a.hi), val(a.lo), -val(b.hi), -val(b.lo)) && rv(b) == j as real
{ assert forall|b: DD| #[trigger] is(b, val(c) * val(d)) implies lt60(a.hi) && lt60(a.lo) && lt60(b.hi) && lt60(b.lo) && neat(val(a.hi), val(a.lo), -val(b.hi), -val(b.lo)) && rv(b) == j as real by { lemma_ir(it(c), it(d)); lemma_wide(a, b, i, j); } }
/// a wide integer is below 2^75 in its high word too
proof fn lemma_half(k: int, a: int, l: int) requires -p75() <= k <= p75(), rnd(k as real) == a as real ensures -p75() <= a <= p75()
{ ax_p75(); ax_rnd_neg(p75() as real); ax_rnd_mono(-(p75() as real), k as real); ax_rnd_mono(k as real, p75() as real); }
/// 2^75 is a double
pub axiom fn ax_p75() ensures rnd(37778931862957161709568real) == 37778931862957161709568real;
pub proof fn lemma_one_word(d: DD, k: int) requires is(d, k as real), in53(k) ensures ddi(d, k), single(d), isi(d.hi), val(d.hi) == k as real { lemma_ints(d, k as real, k); }
/// the difference of two doubles
pub proof fn lemma_diff(a: f64, b: f64) requires isi(a), isi(b) ensures lt60(a), lt60(b), neat(val(a), 0real, -val(b), 0real), neat(val(a), 0real, -val(b), -0real)
{ theorem_neat(a, b); }
proof fn theorem_neat(x: f64, y: f64) requires lt60(x), lt60(y) ensures neat(val(x), 0real, -val(y), 0real), neat(val(x), 0real, -val(y), -0real)
{ ax_fneg(y); lemma_neat(val(x), -val(y), x, fneg_f(y)); }
pub proof fn lemma_solids(a: f64, b: f64) requires isi(a), isi(b) ensures solid(val(a) * val(b)), val(a) * val(b) == (it(a) * it(b)) as real, val(b) * val(a) == (it(a) * it(b)) as real { lemma_solid(it(a), it(b)); lemma_ir(it(a), it(b)); }
/// dividing the homogeneous coordinate by the weight
pub proof fn lemma_dividend(x: DD, k: int, w: f64, n: int) requires wide(x, k), isi(w), it(w) == n, n != 0, -9007199254740992 <= n <= 9007199254740992 ensures divisible(x, w)
{ lemma_norm(x, k as real); ax_rnd_zero(); ax_rnd_int(1); ax_rnd_int(-1); if k >= 1 { ax_rnd_mono(1real, k as real); } if k <= -1 { ax_rnd_mono(k as real, -1real); } let (a, l) = lemma_words(k); }
// ---- the crossing point
pub open spec fn bp24(c: Coordinate) -> bool { bpt(c, 16777216) }
/// v is the rounded value of a number within 2^-101 of x / w
pub open spec fn crounded(v: real, x: int, w: int) -> bool { exists|t: real| #[trigger] near_quot(t, x as real, w as real) && v == rnd(t) }
pub open spec fn crossing(c: Coordinate, x: int, y: int, w: int) -> bool { fin(c.x) && fin(c.y) && crounded(val(c.x), x, w) && crounded(val(c.y), y, w) }
pub proof fn lemma_finish(x0: DD, k: int, x: DD, w: f64, n: int) requires wide(x0, k), isi(w), it(w) == n, n != 0, quot(x, x0, val(w)) ensures norm(x), inrange(rv(x)), crounded(val(x.hi), k, n)
{ broadcast use ax_big; lemma_norm(x0, k as real); let (xr, wr) = (k as real, n as real); let q = xr / wr; assert(q * wr == xr) by (nonlinear_arith) requires q == xr / wr, wr != 0real; lemma_rel(rv(x), xr, wr, q); lemma_absprod(q, wr); let (a, b) = (rabs(q), rabs(wr)); assert(a <= a * b) by (nonlinear_arith) requires a >= 0real, b >= 1real;
  assert(near_quot(rv(x), k as real, n as real)); }
pub proof fn lemma_finish_all(x: f64, y: f64, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
  requires bp24(p1), bp24(p2), bp24(q1), bp24(q2), hW(p1, p2, q1, q2) != 0, fin(x), fin(y), crounded(val(x), hX(p1, p2, q1, q2), hW(p1, p2, q1, q2)), crounded(val(y), hY(p1, p2, q1, q2), hW(p1, p2, q1, q2))
  ensures forall|q: real| rnd(q) == q && hX(p1, p2, q1, q2) as real == #[trigger] rmul(q, hW(p1, p2, q1, q2) as real) ==> val(x) == q, forall|q: real| rnd(q) == q && hY(p1, p2, q1, q2) as real == #[trigger] rmul(q, hW(p1, p2, q1, q2) as real) ==> val(y) == q,
    forall|c: Coordinate| c.x == x && c.y == y ==> #[trigger] crossing(c, hX(p1, p2, q1, q2), hY(p1, p2, q1, q2), hW(p1, p2, q1, q2)), straddles(p1, p2, q1, q2) ==> (forall|c: Coordinate| c.x == x && c.y == y ==> #[trigger] vbox(c, p1, p2)) && (forall|c: Coordinate| c.x == x && c.y == y ==> #[trigger] vbox(c, q1, q2))
{ let (X, Y, W) = (hX(p1, p2, q1, q2), hY(p1, p2, q1, q2), hW(p1, p2, q1, q2));
  assert forall|q: real| rnd(q) == q && X as real == #[trigger] rmul(q, W as real) implies val(x) == q by { lemma_exact(val(x), X, W, q); }
  assert forall|q: real| rnd(q) == q && Y as real == #[trigger] rmul(q, W as real) implies val(y) == q by { lemma_exact(val(y), Y, W, q); }
  if straddles(p1, p2, q1, q2) { assert forall|c: Coordinate| c.x == x && c.y == y implies #[trigger] vbox(c, p1, p2) by { lemma_straddling(c, p1, p2, q1, q2); } assert forall|c: Coordinate| c.x == x && c.y == y implies #[trigger] vbox(c, q1, q2) by { lemma_straddling(c, p1, p2, q1, q2); } } }
/// exact where the quotient is a double
pub proof fn lemma_exact(v: real, x: int, w: int, q: real) requires crounded(v, x, w), w != 0, rnd(q) == q, x as real == rmul(q, w as real) ensures v == q
{ let t = choose|t: real| #[trigger] near_quot(t, x as real, w as real) && v == rnd(t); lemma_rel(t, x as real, w as real, q); ax_rnd_near(q, t); }
/// relative error of the quotient
proof fn lemma_rel(t: real, x: real, w: real, q: real) requires near_quot(t, x, w), w != 0real, x == q * w ensures rabs(t - q) <= 0.0001real * (rabs(q) * ulp()), rabs(t - q) <= 0.000001real * rabs(q)
{ assert(t * w - x == (t - q) * w) by (nonlinear_arith) requires x == q * w; lemma_absprod(t - q, w); lemma_absprod(q, w); let (m, a, b) = (rabs(t - q), rabs(q), rabs(w)); let k = 32real * (ulp() * ulp());
  assert(k * (a * b) == (k * a) * b) by (nonlinear_arith); assert(m <= k * a) by (nonlinear_arith) requires m * b <= (k * a) * b, b > 0real;
  assert(k * a <= 0.0001real * (a * ulp())) by (nonlinear_arith) requires k == 32real * (ulp() * ulp()), a >= 0real, 0real <= ulp() <= 0.000001real; assert(a * ulp() <= 0.01real * a) by (nonlinear_arith) requires a >= 0real, 0real <= ulp() <= 0.000001real; }
/// never beyond a double the quotient does not pass
pub proof fn lemma_upper(v: real, x: int, w: int, hi: real) requires crounded(v, x, w), w != 0, rnd(hi) == hi, w > 0 ==> x as real <= hi * (w as real), w < 0 ==> x as real >= hi * (w as real) ensures v <= hi
{ let t = choose|t: real| #[trigger] near_quot(t, x as real, w as real) && v == rnd(t); let (xr, wr) = (x as real, w as real); let q = xr / wr; assert(q * wr == xr) by (nonlinear_arith) requires q == xr / wr, wr != 0real;
  assert(q <= hi) by (nonlinear_arith) requires q * wr == xr, wr > 0real ==> xr <= hi * wr, wr < 0real ==> xr >= hi * wr, wr != 0real;
  lemma_rel(t, xr, wr, q);
  if t <= hi { ax_rnd_mono(t, hi); } else { if hi > 0real { assert(q >= 0real); assert(rabs(q) * ulp() <= hi * ulp()) by (nonlinear_arith) requires rabs(q) <= hi, ulp() >= 0real; } else { assert(rabs(q) <= 1.01real * rabs(hi)); assert(rabs(q) * ulp() <= 1.01real * rabs(hi) * ulp()) by (nonlinear_arith) requires rabs(q) <= 1.01real * rabs(hi), ulp() >= 0real; }
    ax_rnd_near(hi, t); } }
pub proof fn lemma_lower(v: real, x: int, w: int, lo: real) requires crounded(v, x, w), w != 0, rnd(lo) == lo, w > 0 ==> x as real >= lo * (w as real), w < 0 ==> x as real <= lo * (w as real) ensures lo <= v
{ let t = choose|t: real| #[trigger] near_quot(t, x as real, w as real) && v == rnd(t); let (xr, wr) = (x as real, w as real); let u = -t; ax_rnd_neg(t); ax_rnd_neg(lo);
  assert(u * wr - -xr == -(t * wr - xr)) by (nonlinear_arith) requires u == -t; assert(near_quot(u, (-x) as real, wr)); assert(crounded(-v, -x, w));
  assert((-lo) * wr == -(lo * wr)) by (nonlinear_arith); lemma_upper(-v, -x, w, -lo); }
/// the crossing point of straddling segments, along one axis
proof fn lemma_axis(v: real, x: int, w: int, a: int, b: int, n: int) requires crounded(v, x, w), w != 0, in53(a), in53(b), x == a * w + n * (b - a), w > 0 ==> 0 <= n <= w, w < 0 ==> w <= n <= 0 ensures mn(a, b) as real <= v <= mx(a, b) as real
{ let (d, m, s) = if w > 0 { (w, n, x) } else { (-w, -n, -x) }; if w < 0 { assert(-x == a * (-w) + (-n) * (b - a)) by (nonlinear_arith) requires x == a * w + n * (b - a); }
  lemma_conv(a, b, d, m, s); let (lo, hi) = (mn(a, b), mx(a, b)); ax_rnd_int(lo); ax_rnd_int(hi); lemma_ir(lo, d); lemma_ir(hi, d);
  if w < 0 { assert(lo * d == -(lo * w) && hi * d == -(hi * w)) by (nonlinear_arith) requires d == -w; } lemma_ir(lo, w); lemma_ir(hi, w); lemma_upper(v, x, w, hi as real); lemma_lower(v, x, w, lo as real); }
/// the weight is the difference of the sides, the coordinates the points at that ratio
proof fn lemma_ratio(x1: int, y1: int, ux: int, uy: int, qx: int, qy: int, vx: int, vy: int)
  ensures ux * (qx * (qy + vy) - (qx + vx) * qy) - vx * (x1 * (y1 + uy) - (x1 + ux) * y1) == x1 * (ux * vy - uy * vx) + (vx * (y1 - (qy + vy)) - vy * (x1 - (qx + vx))) * ux,
     uy * (qx * (qy + vy) - (qx + vx) * qy) - vy * (x1 * (y1 + uy) - (x1 + ux) * y1) == y1 * (ux * vy - uy * vx) + (vx * (y1 - (qy + vy)) - vy * (x1 - (qx + vx))) * uy
{ let h = qx * vy - vx * qy; let g = x1 * uy - ux * y1;
  assert(qx * (qy + vy) - (qx + vx) * qy == h) by (nonlinear_arith) requires h == qx * vy - vx * qy; assert(x1 * (y1 + uy) - (x1 + ux) * y1 == g) by (nonlinear_arith) requires g == x1 * uy - ux * y1;
  let f = vx * (y1 - qy) - vy * (x1 - qx); assert(vx * (y1 - (qy + vy)) - vy * (x1 - (qx + vx)) == f) by (nonlinear_arith) requires f == vx * (y1 - qy) - vy * (x1 - qx);
  assert(f == vx * y1 - vy * x1 + h) by (nonlinear_arith) requires f == vx * (y1 - qy) - vy * (x1 - qx), h == qx * vy - vx * qy;
  assert(ux * h - vx * g == x1 * (ux * vy - uy * vx) + f * ux) by (nonlinear_arith) requires f == vx * y1 - vy * x1 + h, g == x1 * uy - ux * y1;
  assert(uy * h - vy * g == y1 * (ux * vy - uy * vx) + f * uy) by (nonlinear_arith) requires f == vx * y1 - vy * x1 + h, g == x1 * uy - ux * y1; }
/// the crossing point of straddling segments divides both
pub open spec fn ratio(x: int, w: int, a: int, b: int, n: int) -> bool { x == a * w + n * (b - a) }
pub proof fn lemma_straddle(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
  requires straddles(p1, p2, q1, q2) ensures hW(p1, p2, q1, q2) != 0, hW(p1, p2, q1, q2) > 0 ==> 0 <= dt(q1, q2, p1) <= hW(p1, p2, q1, q2) && 0 <= -dt(p1, p2, q1) <= hW(p1, p2, q1, q2), hW(p1, p2, q1, q2) < 0 ==> hW(p1, p2, q1, q2) <= dt(q1, q2, p1) <= 0 && hW(p1, p2, q1, q2) <= -dt(p1, p2, q1) <= 0,
    ratio(hX(p1, p2, q1, q2), hW(p1, p2, q1, q2), it(p1.x), it(p2.x), dt(q1, q2, p1)), ratio(hY(p1, p2, q1, q2), hW(p1, p2, q1, q2), it(p1.y), it(p2.y), dt(q1, q2, p1)), ratio(hX(p1, p2, q1, q2), hW(p1, p2, q1, q2), it(q1.x), it(q2.x), -dt(p1, p2, q1)), ratio(hY(p1, p2, q1, q2), hW(p1, p2, q1, q2), it(q1.y), it(q2.y), -dt(p1, p2, q1))
{ let (x1, y1, ux, uy) = (it(p1.x), it(p1.y), it(p2.x) - it(p1.x), it(p2.y) - it(p1.y)); let (qx, qy, vx, vy) = (it(q1.x), it(q1.y), it(q2.x) - it(q1.x), it(q2.y) - it(q1.y));
  let (e1, e2, f1, f2) = (dt(p1, p2, q1), dt(p1, p2, q2), dt(q1, q2, p1), dt(q1, q2, p2)); let w = hW(p1, p2, q1, q2);
  lemma_ratio(x1, y1, ux, uy, qx, qy, vx, vy); lemma_ratio(qx, qy, vx, vy, x1, y1, ux, uy);
  assert(w == ux * vy - uy * vx) by (nonlinear_arith) requires w == (-uy) * vx - (-vy) * ux;
  assert(it(p1.y) - it(q2.y) == y1 - (qy + vy)); assert(it(p1.x) - it(q2.x) == x1 - (qx + vx)); assert(it(q1.y) - it(p2.y) == qy - (y1 + uy)); assert(it(q1.x) - it(p2.x) == qx - (x1 + ux));
  assert(f1 == vx * (y1 - (qy + vy)) - vy * (x1 - (qx + vx))); assert(e1 == ux * (qy - (y1 + uy)) - uy * (qx - (x1 + ux)));
  assert(it(p2.y) - it(q2.y) == y1 + uy - (qy + vy)); assert(it(p2.x) - it(q2.x) == x1 + ux - (qx + vx)); assert(it(q2.y) - it(p2.y) == qy + vy - (y1 + uy)); assert(it(q2.x) - it(p2.x) == qx + vx - (x1 + ux));
  lemma_sidediff(x1, y1, ux, uy, qx, qy, vx, vy); lemma_sidediff(qx, qy, vx, vy, x1, y1, ux, uy);
  assert(w == f1 - f2); assert(w == e2 - e1);
  let (X, Y) = (hX(p1, p2, q1, q2), hY(p1, p2, q1, q2));
  assert(X == x1 * w + f1 * ux); lemma_neg2(uy, hw(q1, q2), vy, hw(p1, p2)); assert(Y == y1 * w + f1 * uy);
  lemma_other(vx, hw(p1, p2), ux, hw(q1, q2), vy, uy, w, qx, qy, e1); assert(X == qx * w + (-e1) * vx); assert(Y == qy * w + (-e1) * vy); }
pub proof fn lemma_straddling(c: Coordinate, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
  requires bp24(p1), bp24(p2), bp24(q1), bp24(q2), straddles(p1, p2, q1, q2) ensures hW(p1, p2, q1, q2) != 0, crossing(c, hX(p1, p2, q1, q2), hY(p1, p2, q1, q2), hW(p1, p2, q1, q2)) ==> vbox(c, p1, p2) && vbox(c, q1, q2)
{ lemma_straddle(p1, p2, q1, q2); let (X, Y, w) = (hX(p1, p2, q1, q2), hY(p1, p2, q1, q2), hW(p1, p2, q1, q2)); let (f1, e1) = (dt(q1, q2, p1), dt(p1, p2, q1));
  if crossing(c, X, Y, w) { lemma_axis(val(c.x), X, w, it(p1.x), it(p2.x), f1); lemma_axis(val(c.y), Y, w, it(p1.y), it(p2.y), f1); lemma_axis(val(c.x), X, w, it(q1.x), it(q2.x), -e1); lemma_axis(val(c.y), Y, w, it(q1.y), it(q2.y), -e1); } }
pub proof fn lemma_fpbox(c: Coordinate, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
  requires bp15(p1), bp15(p2), bp15(q1), bp15(q2), straddles(p1, p2, q1, q2) ensures hW(p1, p2, q1, q2) != 0, fpoint(c, hX(p1, p2, q1, q2), hY(p1, p2, q1, q2), hW(p1, p2, q1, q2)) ==> vbox(c, p1, p2) && vbox(c, q1, q2)
{ lemma_straddle(p1, p2, q1, q2); let (X, Y, w) = (hX(p1, p2, q1, q2), hY(p1, p2, q1, q2), hW(p1, p2, q1, q2)); let (f1, e1) = (dt(q1, q2, p1), dt(p1, p2, q1));
  lemma_between(X, w, it(p1.x), it(p2.x), f1); lemma_between(Y, w, it(p1.y), it(p2.y), f1); lemma_between(X, w, it(q1.x), it(q2.x), -e1); lemma_between(Y, w, it(q1.y), it(q2.y), -e1); }
pub proof fn lemma_fpboxes(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
  requires bp15(p1), bp15(p2), bp15(q1), bp15(q2) ensures straddles(p1, p2, q1, q2) ==> hW(p1, p2, q1, q2) != 0 && (forall|c: Coordinate| fpoint(c, hX(p1, p2, q1, q2), hY(p1, p2, q1, q2), hW(p1, p2, q1, q2)) ==> #[trigger] vbox(c, p1, p2)) && (forall|c: Coordinate| fpoint(c, hX(p1, p2, q1, q2), hY(p1, p2, q1, q2), hW(p1, p2, q1, q2)) ==> #[trigger] vbox(c, q1, q2))
{ if straddles(p1, p2, q1, q2) { lemma_fpbox(p1, p1, p2, q1, q2); assert forall|c: Coordinate| fpoint(c, hX(p1, p2, q1, q2), hY(p1, p2, q1, q2), hW(p1, p2, q1, q2)) implies #[trigger] vbox(c, p1, p2) by { lemma_fpbox(c, p1, p2, q1, q2); } assert forall|c: Coordinate| fpoint(c, hX(p1, p2, q1, q2), hY(p1, p2, q1, q2), hW(p1, p2, q1, q2)) implies #[trigger] vbox(c, q1, q2) by { lemma_fpbox(c, p1, p2, q1, q2); } } }
/// the ends of q strictly on opposite sides of p: the lines are not parallel
pub proof fn lemma_opposite(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) ensures hW(p1, p2, q1, q2) == dt(p1, p2, q2) - dt(p1, p2, q1)
{ let (x1, y1, ux, uy) = (it(p1.x), it(p1.y), it(p2.x) - it(p1.x), it(p2.y) - it(p1.y)); let (qx, qy, vx, vy) = (it(q1.x), it(q1.y), it(q2.x) - it(q1.x), it(q2.y) - it(q1.y));
  let (e1, e2) = (dt(p1, p2, q1), dt(p1, p2, q2)); let w = hW(p1, p2, q1, q2);
  assert(w == ux * vy - uy * vx) by (nonlinear_arith) requires w == (-uy) * vx - (-vy) * ux;
  assert(it(q1.y) - it(p2.y) == qy - (y1 + uy)); assert(it(q1.x) - it(p2.x) == qx - (x1 + ux)); assert(it(q2.y) - it(p2.y) == qy + vy - (y1 + uy)); assert(it(q2.x) - it(p2.x) == qx + vx - (x1 + ux));
  lemma_sidediff(qx, qy, vx, vy, x1, y1, ux, uy); assert(ux * vy - uy * vx == -(vx * uy - vy * ux)) by (nonlinear_arith); }
proof fn lemma_neg2(uy: int, a: int, vy: int, b: int) ensures (-vy) * b - (-uy) * a == uy * a - vy * b { assert((-vy) * b - (-uy) * a == uy * a - vy * b) by (nonlinear_arith); }
proof fn lemma_other(vx: int, a: int, ux: int, b: int, vy: int, uy: int, w: int, qx: int, qy: int, e: int) requires vx * a - ux * b == qx * (vx * uy - vy * ux) + e * vx, vy * a - uy * b == qy * (vx * uy - vy * ux) + e * vy, w == ux * vy - uy * vx
  ensures ux * b - vx * a == qx * w + (-e) * vx, uy * b - vy * a == qy * w + (-e) * vy
{ assert(vx * uy - vy * ux == -w) by (nonlinear_arith) requires w == ux * vy - uy * vx; assert(qx * (-w) == -(qx * w)) by (nonlinear_arith); assert(qy * (-w) == -(qy * w)) by (nonlinear_arith); assert((-e) * vx == -(e * vx)) by (nonlinear_arith); assert((-e) * vy == -(e * vy)) by (nonlinear_arith); }
/// the sides of the two ends of u differ by the weight
proof fn lemma_sidediff(x1: int, y1: int, ux: int, uy: int, qx: int, qy: int, vx: int, vy: int)
  ensures (vx * (y1 - (qy + vy)) - vy * (x1 - (qx + vx))) - (vx * (y1 + uy - (qy + vy)) - vy * (x1 + ux - (qx + vx))) == ux * vy - uy * vx
{ let (a, b) = (y1 - (qy + vy), x1 - (qx + vx)); assert(vx * (a + uy) == vx * a + vx * uy) by (nonlinear_arith); assert(vy * (b + ux) == vy * b + vy * ux) by (nonlinear_arith); assert(y1 + uy - (qy + vy) == a + uy); assert(x1 + ux - (qx + vx) == b + ux); assert(ux * vy == vy * ux && uy * vx == vx * uy) by (nonlinear_arith); }
/// sizes for ordinates up to 2^24
pub proof fn lemma_h24(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) requires bp24(p1), bp24(p2), bp24(q1), bp24(q2)
    ensures in48(it(p1.x) * it(p2.y)), in48(it(p2.x) * it(p1.y)), in48(it(q1.x) * it(q2.y)), in48(it(q2.x) * it(q1.y)), in53(hw(p1, p2)), in53(hw(q1, q2)), in53(hW(p1, p2, q1, q2)),
       in53((it(p1.y) - it(p2.y)) * (it(q2.x) - it(q1.x))), in53((it(q1.y) - it(q2.y)) * (it(p2.x) - it(p1.x))),
       in74((it(p2.x) - it(p1.x)) * hw(q1, q2)), in74((it(q2.x) - it(q1.x)) * hw(p1, p2)), in74((it(q1.y) - it(q2.y)) * hw(p1, p2)), in74((it(p1.y) - it(p2.y)) * hw(q1, q2)),
       -p75() <= hX(p1, p2, q1, q2) <= p75(), -p75() <= hY(p1, p2, q1, q2) <= p75()
{ let b = 16777216; lemma_pb(it(p1.x), it(p2.y), b, b); lemma_pb(it(p2.x), it(p1.y), b, b); lemma_pb(it(q1.x), it(q2.y), b, b); lemma_pb(it(q2.x), it(q1.y), b, b); let c = 33554432; let e = 562949953421312;
  lemma_pb(it(p1.y) - it(p2.y), it(q2.x) - it(q1.x), c, c); lemma_pb(it(q1.y) - it(q2.y), it(p2.x) - it(p1.x), c, c);
  lemma_pb(it(p2.x) - it(p1.x), hw(q1, q2), c, e); lemma_pb(it(q2.x) - it(q1.x), hw(p1, p2), c, e); lemma_pb(it(q1.y) - it(q2.y), hw(p1, p2), c, e); lemma_pb(it(p1.y) - it(p2.y), hw(q1, q2), c, e); }
// ---- the conditioned computation: ordinates shifted by a half-integer
pub axiom fn ax_rnd_half(k: int) requires -9007199254740992 <= k <= 9007199254740992 ensures rnd(k as real / 2real) == k as real / 2real;
pub axiom fn ax_rnd_quarter(k: int) requires -9007199254740992 <= k <= 9007199254740992 ensures rnd(k as real / 4real) == k as real / 4real;
pub open spec fn bp15(c: Coordinate) -> bool { bpt(c, 32768) }
/// x holds k / 2, k / 4
pub open spec fn hf(x: f64, k: int) -> bool { fin(x) && 2real * val(x) == k as real }
pub open spec fn qt(x: f64, k: int) -> bool { fin(x) && 4real * val(x) == k as real }
pub open spec fn within(k: int, b: int) -> bool { -b <= k <= b }
/// the quotient x / w is at least, at most k
pub open spec fn atleast(k: int, x: int, w: int) -> bool { if w > 0 { k * w <= x } else { k * w >= x } }
pub open spec fn atmost(k: int, x: int, w: int) -> bool { if w > 0 { x <= k * w } else { x >= k * w } }
/// v is x / w with three roundings, none of which passes a whole number
pub open spec fn fprounded(v: real, x: int, w: int) -> bool {
  rabs(v * (w as real) - x as real) <= 3real * ulp() * (rabs(x as real) + 65536real * rabs(w as real))
  && (forall|k: int| in50(k) && #[trigger] atleast(k, x, w) ==> k as real <= v) && (forall|k: int| in50(k) && #[trigger] atmost(k, x, w) ==> v <= k as real) }
pub open spec fn fpoint(c: Coordinate, x: int, y: int, w: int) -> bool { fin(c.x) && fin(c.y) && fprounded(val(c.x), x, w) && fprounded(val(c.y), y, w) }
pub proof fn lemma_mid(k: int) requires within(k, 131072) ensures rnd(k as real / 2real) == k as real / 2real, inrange(k as real / 2real) { broadcast use ax_big; ax_rnd_half(k); }
/// the shift is exact
pub proof fn lemma_shift(x: f64, mid: f64, m: int) requires isi(x), within(it(x), 32768), hf(mid, m), within(m, 65536)
  ensures rnd(val(x) - val(mid)) == val(x) - val(mid), inrange(val(x) - val(mid)), 2real * (val(x) - val(mid)) == (2 * it(x) - m) as real
{ broadcast use ax_big; let k = 2 * it(x) - m; ax_rnd_half(k); assert(val(x) - val(mid) == k as real / 2real); }
pub proof fn lemma_shifts(c: Coordinate, mx: f64, my: f64, m: int, n: int) requires bp15(c), hf(mx, m), hf(my, n), within(m, 65536), within(n, 65536)
  ensures rnd(val(c.x) - val(mx)) == val(c.x) - val(mx), inrange(val(c.x) - val(mx)), 2real * (val(c.x) - val(mx)) == (2 * it(c.x) - m) as real, rnd(val(c.y) - val(my)) == val(c.y) - val(my), inrange(val(c.y) - val(my)), 2real * (val(c.y) - val(my)) == (2 * it(c.y) - n) as real
{ lemma_shift(c.x, mx, m); lemma_shift(c.y, my, n); }
/// shifted ordinates of one line: the difference is that of the unshifted ones, the products are quarters
pub proof fn lemma_shifted(ax: f64, ay: f64, bx: f64, by: f64, a: int, b: int, c: int, d: int) requires hf(ax, a), hf(ay, b), hf(bx, c), hf(by, d), within(a, 131072), within(b, 131072), within(c, 131072), within(d, 131072)
  ensures inrange(val(ax) * val(by)), inrange(val(bx) * val(ay)), rnd(val(ax) * val(by)) == val(ax) * val(by), rnd(val(bx) * val(ay)) == val(bx) * val(ay), 
    inrange(val(ax) * val(by) - val(bx) * val(ay)), rnd(val(ax) * val(by) - val(bx) * val(ay)) == val(ax) * val(by) - val(bx) * val(ay), 4real * (val(ax) * val(by) - val(bx) * val(ay)) == (a * d - c * b) as real, within(a * d - c * b, 34359738368)
{ broadcast use ax_big; lemma_hmul(val(ax), val(by), a, d); lemma_hmul(val(bx), val(ay), c, b); ax_rnd_quarter(a * d - c * b); let t = val(ax) * val(by) - val(bx) * val(ay); assert(t == (a * d - c * b) as real / 4real); }
proof fn lemma_hmul(x: real, y: real, i: int, j: int) requires 2real * x == i as real, 2real * y == j as real, within(i, 131072), within(j, 131072)
  ensures rnd(x * y) == x * y, 4real * (x * y) == (i * j) as real, within(i * j, 17179869184), inrange(x * y)
{ broadcast use ax_big; lemma_pb(i, j, 131072, 131072); ax_rnd_quarter(i * j); let (a, b) = (i as real, j as real); lemma_ir(i, j); assert(4real * (x * y) == a * b) by (nonlinear_arith) requires 2real * x == a, 2real * y == b; assert(x * y == (i * j) as real / 4real); }
pub proof fn lemma_iqmul(a: f64, b: f64, i: int, k: int) requires isi(a), it(a) == i, qt(b, k), within(i, 65536), within(k, 34359738368)
  ensures rnd(val(a) * val(b)) == val(a) * val(b), 4real * (val(a) * val(b)) == (i * k) as real, within(i * k, 2251799813685248), inrange(val(a) * val(b))
{ broadcast use ax_big; lemma_pb(i, k, 65536, 34359738368); ax_rnd_quarter(i * k); let (x, y, u, v) = (val(a), val(b), i as real, k as real); lemma_ir(i, k); assert(4real * (x * y) == u * v) by (nonlinear_arith) requires x == u, 4real * y == v; assert(x * y == (i * k) as real / 4real); }
/// one homogeneous ordinate of the crossing point
pub proof fn lemma_ordinate(a: f64, b: f64, c: f64, d: f64, i: int, k: int, j: int, l: int) requires isi(a), it(a) == i, qt(b, k), within(i, 65536), within(k, 34359738368), isi(c), it(c) == j, qt(d, l), within(j, 65536), within(l, 34359738368)
  ensures rnd(val(a) * val(b)) == val(a) * val(b), inrange(val(a) * val(b)), rnd(val(c) * val(d)) == val(c) * val(d), inrange(val(c) * val(d)),
    rnd(val(a) * val(b) - val(c) * val(d)) == val(a) * val(b) - val(c) * val(d), inrange(val(a) * val(b) - val(c) * val(d)), 4real * (val(a) * val(b) - val(c) * val(d)) == (i * k - j * l) as real, within(i * k - j * l, 4503599627370496)
{ broadcast use ax_big; lemma_iqmul(a, b, i, k); lemma_iqmul(c, d, j, l); ax_rnd_quarter(i * k - j * l); let t = val(a) * val(b) - val(c) * val(d); assert(t == (i * k - j * l) as real / 4real); }
/// shifting a line
proof fn lemma_trans1(a: int, b: int, c: int, d: int, m: int, n: int) ensures (2 * a - m) * (2 * d - n) - (2 * c - m) * (2 * b - n) == 4 * (a * d - c * b) + 2 * (n * (c - a)) + 2 * (m * (b - d))
{ assert((2 * a - m) * (2 * d - n) == 4 * (a * d) - 2 * (n * a) - 2 * (m * d) + m * n) by (nonlinear_arith); assert((2 * c - m) * (2 * b - n) == 4 * (c * b) - 2 * (n * c) - 2 * (m * b) + m * n) by (nonlinear_arith);
  assert(n * (c - a) == n * c - n * a) by (nonlinear_arith); assert(m * (b - d) == m * b - m * d) by (nonlinear_arith); }
proof fn lemma_trans2(px: int, py: int, pw: int, qx: int, qy: int, qw: int, m: int, n: int, ps: int, qs: int) requires ps == 4 * pw + 2 * (n * py) + 2 * (m * px), qs == 4 * qw + 2 * (n * qy) + 2 * (m * qx)
  ensures py * qs - qy * ps == 4 * (py * qw - qy * pw) - 2 * (m * (px * qy - qx * py)), qx * ps - px * qs == 4 * (qx * pw - px * qw) - 2 * (n * (px * qy - qx * py))
{ lemma_lin(py, qs, qw, n, qy, m, qx); lemma_lin(qy, ps, pw, n, py, m, px); lemma_lin(qx, ps, pw, n, py, m, px); lemma_lin(px, qs, qw, n, qy, m, qx);
  assert(n * (py * qy) == n * (qy * py) && m * (px * qx) == m * (qx * px)) by (nonlinear_arith); 
  assert(m * (px * qy - qx * py) == m * (px * qy) - m * (qx * py)) by (nonlinear_arith); assert(n * (px * qy - qx * py) == n * (px * qy) - n * (qx * py)) by (nonlinear_arith);
  assert(py * qx == qx * py && qy * px == px * qy) by (nonlinear_arith); }
proof fn lemma_lin(u: int, s: int, w: int, n: int, y: int, m: int, x: int) requires s == 4 * w + 2 * (n * y) + 2 * (m * x) ensures u * s == 4 * (u * w) + 2 * (n * (u * y)) + 2 * (m * (u * x))
{ assert(u * (4 * w) == 4 * (u * w)) by (nonlinear_arith); assert(u * (2 * (n * y)) == 2 * (n * (u * y))) by (nonlinear_arith); assert(u * (2 * (m * x)) == 2 * (m * (u * x))) by (nonlinear_arith); let (a, b, c) = (4 * w, 2 * (n * y), 2 * (m * x)); assert(u * (a + b + c) == u * a + u * b + u * c) by (nonlinear_arith); }
pub open spec fn hws(p1: Coordinate, p2: Coordinate, m: int, n: int) -> int { (2 * it(p1.x) - m) * (2 * it(p2.y) - n) - (2 * it(p2.x) - m) * (2 * it(p1.y) - n) }
pub proof fn lemma_trans(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate, m: int, n: int)
  ensures (it(p2.x) - it(p1.x)) * hws(q1, q2, m, n) - (it(q2.x) - it(q1.x)) * hws(p1, p2, m, n) == 4 * hX(p1, p2, q1, q2) - 2 * (m * hW(p1, p2, q1, q2)), (it(q1.y) - it(q2.y)) * hws(p1, p2, m, n) - (it(p1.y) - it(p2.y)) * hws(q1, q2, m, n) == 4 * hY(p1, p2, q1, q2) - 2 * (n * hW(p1, p2, q1, q2))
{ lemma_trans1(it(p1.x), it(p1.y), it(p2.x), it(p2.y), m, n); lemma_trans1(it(q1.x), it(q1.y), it(q2.x), it(q2.y), m, n);
  lemma_trans2(it(p1.y) - it(p2.y), it(p2.x) - it(p1.x), hw(p1, p2), it(q1.y) - it(q2.y), it(q2.x) - it(q1.x), hw(q1, q2), m, n, hws(p1, p2, m, n), hws(q1, q2, m, n)); }
pub proof fn lemma_wsize(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) requires bp15(p1), bp15(p2), bp15(q1), bp15(q2)
  ensures within((it(p1.y) - it(p2.y)) * (it(q2.x) - it(q1.x)), 4294967296), within((it(q1.y) - it(q2.y)) * (it(p2.x) - it(p1.x)), 4294967296)
{ lemma_pb(it(p1.y) - it(p2.y), it(q2.x) - it(q1.x), 65536, 65536); lemma_pb(it(q1.y) - it(q2.y), it(p2.x) - it(p1.x), 65536, 65536); }
/// the quotient is in range
pub proof fn lemma_fq(x: f64, w: f64, k: int, n: int) requires qt(x, k), isi(w), it(w) == n, n != 0, within(k, 4503599627370496) ensures inrange(val(x) / val(w)), (val(x) / val(w)) * val(w) == val(x)
{ broadcast use ax_big; let (h, z) = (val(x), val(w)); let q = h / z; assert(q * z == h) by (nonlinear_arith) requires q == h / z, z != 0real; lemma_absprod(q, z); let (a, b) = (rabs(q), rabs(z)); assert(a <= a * b) by (nonlinear_arith) requires a >= 0real, b >= 1real; }
/// dividing, and shifting back
pub proof fn lemma_fp(v: real, x: f64, w: f64, t: f64, mid: f64, m: int, X: int, W: int)
  requires qt(x, 4 * X - 2 * (m * W)), within(4 * X - 2 * (m * W), 4503599627370496), isi(w), it(w) == W, W != 0, within(W, 8589934592), hf(mid, m), within(m, 65536), fin(t), val(t) == rnd(val(x) / val(w)), v == rnd(val(t) + val(mid)), within(X, 1125899906842624) ensures fprounded(v, X, W), inrange(val(t) + val(mid))
{ lemma_fq(x, w, 4 * X - 2 * (m * W), W); let q = val(x) / val(w); let (xr, wr, h) = (X as real, W as real, val(mid)); lemma_ir(m, W); let mr = m as real;
  assert(val(x) == xr - h * wr) by (nonlinear_arith) requires 4real * val(x) == 4real * xr - 2real * (mr * wr), 2real * h == mr;
  assert((q + h) * wr == xr) by (nonlinear_arith) requires q * wr == xr - h * wr; let z = q + h;
  let s = val(t) + h; let u = ulp(); ax_rnd_zero(); ax_tiny();
  assert(q == 0real || rabs(q) >= tiny()) by { if q != 0real { let k = 4 * X - 2 * (m * W); assert(k != 0) by { if k == 0 { assert(val(x) == 0real); assert(q == 0real) by (nonlinear_arith) requires q * wr == 0real, wr != 0real; } }
     assert(rabs(val(x)) >= 0.25real); lemma_absprod(q, wr); let (a, b) = (rabs(q), rabs(wr)); assert(a >= 0.00000000001real) by (nonlinear_arith) requires a * b >= 0.25real, a >= 0real, 0real < b <= 8589934592real; } }
  ax_rnd_err(q); ax_rnd_err_sum(t, mid);
  lemma_fperr(z, q, h, val(t), s, v, xr, wr);
  assert(inrange(s)) by { broadcast use ax_big; lemma_absprod(z, wr); let (a, b) = (rabs(z), rabs(wr)); assert(a <= a * b) by (nonlinear_arith) requires a >= 0real, b >= 1real; let qa = rabs(q); assert(qa * u <= qa) by (nonlinear_arith) requires qa >= 0real, u <= 1real; }
  assert forall|k: int| in50(k) && #[trigger] atleast(k, X, W) implies k as real <= v by { lemma_ir(k, W); let kr = k as real; assert(kr <= z) by (nonlinear_arith) requires z * wr == xr, wr > 0real ==> kr * wr <= xr, wr < 0real ==> kr * wr >= xr, wr != 0real;
     ax_rnd_half(2 * k - m); assert((2 * k - m) as real / 2real == kr - h); ax_rnd_mono(kr - h, q); ax_rnd_int(k); ax_rnd_mono(kr, s); }
  assert forall|k: int| in50(k) && #[trigger] atmost(k, X, W) implies v <= k as real by { lemma_ir(k, W); let kr = k as real; assert(z <= kr) by (nonlinear_arith) requires z * wr == xr, wr > 0real ==> kr * wr >= xr, wr < 0real ==> kr * wr <= xr, wr != 0real;
     ax_rnd_half(2 * k - m); assert((2 * k - m) as real / 2real == kr - h); ax_rnd_mono(q, kr - h); ax_rnd_int(k); ax_rnd_mono(s, kr); } }
proof fn lemma_fperr(z: real, q: real, h: real, t: real, s: real, v: real, x: real, w: real) requires z == q + h, z * w == x, rabs(h) <= 32768real, s == t + h, rabs(t - q) <= rabs(q) * ulp(), rabs(v - s) <= rabs(s) * ulp()
  ensures rabs(v * w - x) <= 3real * ulp() * (rabs(x) + 65536real * rabs(w))
{ let u = ulp(); let (za, qa, sa) = (rabs(z), rabs(q), rabs(s)); assert(qa <= za + 32768real); 
  assert(qa * u <= (za + 32768real) * u) by (nonlinear_arith) requires qa <= za + 32768real, u >= 0real; let e = (za + 32768real) * u; assert(rabs(s - z) <= e); assert(e <= za + 32768real) by (nonlinear_arith) requires e == (za + 32768real) * u, 0real <= u <= 1real, za >= 0real;
  assert(sa <= 2real * (za + 32768real)); assert(sa * u <= 2real * e) by (nonlinear_arith) requires sa <= 2real * (za + 32768real), e == (za + 32768real) * u, u >= 0real;
  assert(rabs(v - z) <= 3real * e); lemma_absprod(v - z, w); lemma_absprod(z, w); assert((v - z) * w == v * w - x) by (nonlinear_arith) requires z * w == x; let (d, b) = (rabs(v - z), rabs(w));
  assert(d * b <= 3real * u * (za * b + 65536real * b)) by (nonlinear_arith) requires 0real <= d <= 3real * e, e == (za + 32768real) * u, b >= 0real, u >= 0real, za >= 0real; }
pub proof fn lemma_between(x: int, w: int, a: int, b: int, n: int) requires w != 0, x == a * w + n * (b - a), w > 0 ==> 0 <= n <= w, w < 0 ==> w <= n <= 0 ensures atleast(mn(a, b), x, w), atmost(mx(a, b), x, w)
{ let (d, m, s) = if w > 0 { (w, n, x) } else { (-w, -n, -x) }; if w < 0 { assert(-x == a * (-w) + (-n) * (b - a)) by (nonlinear_arith) requires x == a * w + n * (b - a); }
  lemma_conv(a, b, d, m, s); let (lo, hi) = (mn(a, b), mx(a, b)); if w < 0 { assert(lo * d == -(lo * w) && hi * d == -(hi * w)) by (nonlinear_arith) requires d == -w; } }
pub proof fn lemma_fpsize(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) requires bp15(p1), bp15(p2), bp15(q1), bp15(q2)
  ensures within(hX(p1, p2, q1, q2), 1125899906842624), within(hY(p1, p2, q1, q2), 1125899906842624)
{ let b = 32768; lemma_pb(it(p1.x), it(p2.y), b, b); lemma_pb(it(p2.x), it(p1.y), b, b); lemma_pb(it(q1.x), it(q2.y), b, b); lemma_pb(it(q2.x), it(q1.y), b, b); let c = 65536; let e = 2147483648;
  lemma_pb(it(p2.x) - it(p1.x), hw(q1, q2), c, e); lemma_pb(it(q2.x) - it(q1.x), hw(p1, p2), c, e); lemma_pb(it(q1.y) - it(q2.y), hw(p1, p2), c, e); lemma_pb(it(p1.y) - it(p2.y), hw(q1, q2), c, e); }

pub proof fn lemma_ints2(x: f64, k: int) requires fin(x), val(x) == k as real, within(k, 65536) ensures isi(x), it(x) == k { lemma_iv(x, k); }
/// differences of shifted ordinates
pub proof fn lemma_hdiffs(a: Coordinate, b: Coordinate, ax: f64, ay: f64, bx: f64, by: f64, m: int, n: int) requires bp15(a), bp15(b), hf(ax, 2 * it(a.x) - m), hf(ay, 2 * it(a.y) - n), hf(bx, 2 * it(b.x) - m), hf(by, 2 * it(b.y) - n)
  ensures val(ay) - val(by) == (it(a.y) - it(b.y)) as real, val(bx) - val(ax) == (it(b.x) - it(a.x)) as real, rnd((it(a.y) - it(b.y)) as real) == (it(a.y) - it(b.y)) as real, rnd((it(b.x) - it(a.x)) as real) == (it(b.x) - it(a.x)) as real, inrange(val(ay) - val(by)), inrange(val(bx) - val(ax))
{ broadcast use ax_big; ax_rnd_int(it(a.y) - it(b.y)); ax_rnd_int(it(b.x) - it(a.x)); }
pub open spec fn in48(k: int) -> bool { -281474976710656 <= k <= 281474976710656 }
pub open spec fn in74(k: int) -> bool { -18889465931478580854784 <= k <= 18889465931478580854784 }
"""
BX = c14.BX + "broadcast use nf; "
_L = ("p1", "p2", "q1", "q2")
_A = "*p1, *p2, *q1, *q2"
_I24 = ", ".join("bp24(*%s)" % x for x in _L)
XSEC = "straddles(%(A)s) ==> r.is_some() && fin(r.unwrap().x) && fin(r.unwrap().y) && vbox(r.unwrap(), *p1, *p2) && vbox(r.unwrap(), *q1, *q2)" % dict(A=_A)
CROSS = """r.is_none() == (hW(%(A)s) == 0), r.is_some() ==> crossing(r.unwrap(), hX(%(A)s), hY(%(A)s), hW(%(A)s)) && fnan(r.unwrap().z) && fnan(r.unwrap().m),
      // exact wherever the crossing point is a double
      forall|q: real| r.is_some() && rnd(q) == q && hX(%(A)s) as real == #[trigger] rmul(q, hW(%(A)s) as real) ==> val(r.unwrap().x) == q,
      forall|q: real| r.is_some() && rnd(q) == q && hY(%(A)s) as real == #[trigger] rmul(q, hW(%(A)s) as real) ==> val(r.unwrap().y) == q,
      """ % dict(A=_A) + XSEC
FPX = """r.is_none() == (hW(%(A)s) == 0), r.is_some() ==> fpoint(r.unwrap(), hX(%(A)s), hY(%(A)s), hW(%(A)s)) && fnan(r.unwrap().z) && fnan(r.unwrap().m),
      """ % dict(A=_A) + XSEC
CUT = """(dt(*line1, *line2, *seg1) > 0 && dt(*line1, *line2, *seg2) < 0 || dt(*line1, *line2, *seg1) < 0 && dt(*line1, *line2, *seg2) > 0) ==> r.is_some() && hW(*line1, *line2, *seg1, *seg2) != 0
      && crossing(r.unwrap(), hX(*line1, *line2, *seg1, *seg2), hY(*line1, *line2, *seg1, *seg2), hW(*line1, *line2, *seg1, *seg2)) && fnan(r.unwrap().z) && fnan(r.unwrap().m)"""
def _seg(t):
    for a, b in (("*p1", "self.p0"), ("*p2", "self.p1"), ("*q1", "line.p0"), ("*q2", "line.p1")): t = t.replace(a, b)
    return t
_I24s, CROSS_S = _seg(_I24), _seg(CROSS)
_dd = {f.name: copy.deepcopy(f) for f in c14.IMPLS[0]["fns"]}
def _line(a, b, x):
    """differences and product of one line"""
    n = dict(a=a, b=b, x=x, k="hw(*%s, *%s)" % (a, b))
    return n
def _diff(v, k): return "proof { lemma_one_word(%s, %s); }" % (v, k)
def _steps(l, p1, p2, tmp):
    e = dict(l=l, p1=p1, p2=p2, t=tmp)
    return [
      (r"\b%(l)sx\.self_subtract_f64\([^;]*;" % e, "proof { lemma_one_word(%(l)sx, it(%(p1)s.y) - it(%(p2)s.y)); lemma_diff(%(p2)s.x, %(p1)s.x); }" % e),
      (r"\b%(l)sy\.self_subtract_f64\([^;]*;" % e, "proof { lemma_one_word(%(l)sy, it(%(p2)s.x) - it(%(p1)s.x)); lemma_solids(%(p1)s.x, %(p2)s.y); lemma_solids(%(p2)s.x, %(p1)s.y); }" % e),
      (r"\b%(l)sw\.self_multiply_f64\([^;]*;" % e, "proof { lemma_one_word(%(l)sw, it(%(p1)s.x) * it(%(p2)s.y)); }" % e),
      (r"\b%(t)s\.self_multiply_f64\([^;]*;" % e, "proof { lemma_one_word(%(t)s, it(%(p2)s.x) * it(%(p1)s.y)); lemma_diff(%(l)sw.hi, %(t)s.hi); }" % e),
      (r"\b%(l)sw\.self_subtract_dd\([^;]*;" % e, "proof { lemma_one_word(%(l)sw, hw(*%(p1)s, *%(p2)s)); }" % e)]
def _prod(v, a, b, c, d, i, j, k, l):
    return "proof { lemma_solids(%s.hi, %s.hi); lemma_solids(%s.hi, %s.hi); assert(it(%s.hi) == %s && it(%s.hi) == %s && it(%s.hi) == %s && it(%s.hi) == %s); assert(is(%s, ((%s) * (%s)) as real)); lemma_wides(%s, (%s) * (%s), (%s) * (%s), %s.hi, %s.hi); }" % (a, b, c, d, a, i, b, j, c, k, d, l, v, i, j, v, i, j, k, l, c, d)
IMPLS = [common.coordinate("new_xy", "from_coordinate", "default"), common.ORIENTATION,
 dict(file="src/core/math/dd.rs", ty="DD", consts=["SPLIT"], fns=[_dd[n] for n in ("new_x", "is_nan", "copy", "create_nan", "new_nan", "new_hi_lo", "new_from_dd", "self_add_f64", "self_add_hi_lo", "self_subtract_dd", "self_subtract_f64",
    "self_multiply_hi_lo", "self_multiply_dd", "self_multiply_f64", "multiply_dd", "self_divide_hi_lo", "self_divide_dd", "double_value")]),
 dict(file="src/core/algorithm/cg_algorithms_dd.rs", ty="CGAlgorithmsDD", fns=[
   Fn("intersection", requires=_I24, ensures=CROSS,
      start=BX + "proof { lemma_h24(%s); lemma_diff(p1.y, p2.y); lemma_diff(q1.y, q2.y); if straddles(%s) { lemma_straddling(*p1, %s); } } let ghost (X, Y, W) = (hX(%s), hY(%s), hW(%s));" % ((_A,) * 6),
      after=_steps("p", "p1", "p2", "new_x") + _steps("q", "q1", "q2", "new_qw") + [
        (r"\bx = [^;]*;", _prod("x", "py", "qw", "qy", "pw", "it(p2.x) - it(p1.x)", "hw(*q1, *q2)", "it(q2.x) - it(q1.x)", "hw(*p1, *p2)")),
        (r"\bx\.self_subtract_dd\([^;]*;", "let ghost x0 = x; proof { assert(is(x, X as real)); }"),
        (r"\by = [^;]*;", _prod("y", "qx", "pw", "px", "qw", "it(q1.y) - it(q2.y)", "hw(*p1, *p2)", "it(p1.y) - it(p2.y)", "hw(*q1, *q2)")),
        (r"\by\.self_subtract_dd\([^;]*;", "let ghost y0 = y; proof { assert(is(y, Y as real)); }"),
        (r"\bw = [^;]*;", _prod("w", "px", "qy", "qx", "py", "it(p1.y) - it(p2.y)", "it(q2.x) - it(q1.x)", "it(q1.y) - it(q2.y)", "it(p2.x) - it(p1.x)")),
        (r"\bw\.self_subtract_dd\([^;]*;", "proof { assert(is(w, W as real)); lemma_one_word(w, W); if W != 0 { lemma_dividend(x, X, w.hi, W); lemma_dividend(y, Y, w.hi, W); } }"),
        (r"y_int = [^;]*;", "proof { if W != 0 { lemma_finish(x0, X, x, w.hi, W); lemma_finish(y0, Y, y, w.hi, W); lemma_finish_all(x_int, y_int, %s); } }" % _A),
      ])]),
] + [copy.deepcopy(e) for e in ddint.IMPLS if e.get("ty") in ("HCoordinate", "Distance", "Intersection")]
for e in IMPLS:
    if e.get("ty") == "Intersection":
        e["fns"][0] = Fn("intersection", requires=_I24, ensures=CROSS)
        e["fns"].append(Fn("intersection_fp", requires=_I24.replace("bp24", "bp15"), ensures=FPX, start=BI + "broadcast use nf, f64_ax; proof { lemma_wsize(%s); lemma_fpsize(%s); lemma_fpboxes(%s); } let ghost (X, Y, W) = (hX(%s), hY(%s), hW(%s));" % ((_A,) * 6),
          after=[(r"\blet midx = [^;]*;", "let ghost m = it(int_min_x) + it(int_max_x); proof { lemma_mid(m); }"),
                 (r"\blet midy = [^;]*;", "let ghost n = it(int_min_y) + it(int_max_y); proof { lemma_mid(n); assert(hf(midx, m) && hf(midy, n)); lemma_shifts(*p1, midx, midy, m, n); lemma_shifts(*p2, midx, midy, m, n); lemma_shifts(*q1, midx, midy, m, n); lemma_shifts(*q2, midx, midy, m, n); }"),
                 (r"\blet q2y = [^;]*;", """let ghost (ps, qs) = (hws(*p1, *p2, m, n), hws(*q1, *q2, m, n)); proof { lemma_shifted(p1x, p1y, p2x, p2y, 2 * it(p1.x) - m, 2 * it(p1.y) - n, 2 * it(p2.x) - m, 2 * it(p2.y) - n);
                    lemma_shifted(q1x, q1y, q2x, q2y, 2 * it(q1.x) - m, 2 * it(q1.y) - n, 2 * it(q2.x) - m, 2 * it(q2.y) - n); lemma_hdiffs(*p1, *p2, p1x, p1y, p2x, p2y, m, n); lemma_hdiffs(*q1, *q2, q1x, q1y, q2x, q2y, m, n); }"""),
                 (r"\blet qw = [^;]*;", """proof { lemma_ints2(px, it(p1.y) - it(p2.y)); lemma_ints2(py, it(p2.x) - it(p1.x)); lemma_ints2(qx, it(q1.y) - it(q2.y)); lemma_ints2(qy, it(q2.x) - it(q1.x)); assert(qt(pw, ps) && qt(qw, qs)); lemma_trans(%s, m, n);
                    lemma_ordinate(py, qw, qy, pw, it(py), qs, it(qy), ps); lemma_ordinate(qx, pw, px, qw, it(qx), ps, it(px), qs); }""" % _A),
                 (r"\blet w = [^;]*;", "proof { assert(qt(x, 4 * X - 2 * (m * W)) && qt(y, 4 * Y - 2 * (n * W)) && isi(w) && it(w) == W); if W != 0 { lemma_fq(x, w, 4 * X - 2 * (m * W), W); lemma_fq(y, w, 4 * Y - 2 * (n * W), W); } }"),
                 (r"\blet y_int = [^;]*;", "proof { if W != 0 { lemma_fp(rnd(val(x_int) + val(midx)), x, w, x_int, midx, m, X, W); lemma_fp(rnd(val(y_int) + val(midy)), y, w, y_int, midy, n, Y, W); } }")]))
        for f in e["fns"]:
            if f.name == "line_segment":
                # strictly opposite sides: the crossing point itself, never one of the ends
                f.ensures += ", " + CUT; f.start += "proof { lemma_opposite(*line1, *line2, *seg1, *seg2); }"
    if e.get("ty") == "HCoordinate":
        e["fns"] += [Fn("default", ensures="isi(r.x) && it(r.x) == 0 && isi(r.y) && it(r.y) == 0 && isi(r.w) && it(r.w) == 1", start=BI),
          Fn("get_coordinate", requires="isi(self.x), isi(self.y), isi(self.w)", ensures="it(self.w) == 0 ==> fnan(r.x) && fnan(r.y), it(self.w) != 0 ==> fin(r.x) && fin(r.y) && val(r.x) == rnd((it(self.x) as real) / (it(self.w) as real)) && val(r.y) == rnd((it(self.y) as real) / (it(self.w) as real))")]
IMPLS.append(dict(file="src/core/geom/line_segment.rs", ty="LineSegment", fns=[
   Fn("line_intersection", requires=_I24s, ensures=CROSS_S)]))
LEMMAS = """
/// the sign of the homogeneous triple does not matter: with theorem_order, neither the order of the lines nor of their points moves the point beyond its rounding
pub proof fn theorem_sign(c: Coordinate, x: int, y: int, w: int) requires crossing(c, x, y, w) ensures crossing(c, -x, -y, -w)
{ lemma_flip(val(c.x), x, w); lemma_flip(val(c.y), y, w); }
proof fn lemma_flip(v: real, x: int, w: int) requires crounded(v, x, w) ensures crounded(v, -x, -w)
{ let t = choose|t: real| #[trigger] near_quot(t, x as real, w as real) && v == rnd(t); let (xr, wr) = (x as real, w as real); assert(t * (-wr) - -xr == -(t * wr - xr)) by (nonlinear_arith); assert((-x) as real == -xr && (-w) as real == -wr); assert(near_quot(t, (-x) as real, (-w) as real)); }
/// the same for the conditioned computation
pub proof fn theorem_fp_sign(c: Coordinate, x: int, y: int, w: int) requires fpoint(c, x, y, w), w != 0 ensures fpoint(c, -x, -y, -w)
{ lemma_fpflip(val(c.x), x, w); lemma_fpflip(val(c.y), y, w); }
proof fn lemma_fpflip(v: real, x: int, w: int) requires fprounded(v, x, w), w != 0 ensures fprounded(v, -x, -w)
{ let (xr, wr) = (x as real, w as real); assert((-x) as real == -xr && (-w) as real == -wr); assert(v * (-wr) - -xr == -(v * wr - xr)) by (nonlinear_arith);
  assert forall|k: int| in50(k) && #[trigger] atleast(k, -x, -w) implies k as real <= v by { assert(k * (-w) == -(k * w)) by (nonlinear_arith); assert(atleast(k, x, w)); }
  assert forall|k: int| in50(k) && #[trigger] atmost(k, -x, -w) implies v <= k as real by { assert(k * (-w) == -(k * w)) by (nonlinear_arith); assert(atmost(k, x, w)); } }
/// exact at whole crossing points
pub proof fn theorem_fp_exact(c: Coordinate, x: int, y: int, w: int, k: int) requires fpoint(c, x, y, w), in50(k), w != 0 ensures x == k * w ==> val(c.x) == k as real, y == k * w ==> val(c.y) == k as real
{ if x == k * w { assert(atleast(k, x, w) && atmost(k, x, w)); } if y == k * w { assert(atleast(k, y, w) && atmost(k, y, w)); } }
/// parallel lines are those without a crossing point, a crossing point is finite and never beyond the box of straddling segments
pub proof fn theorem_box(c: Coordinate, p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate) requires bp24(p1), bp24(p2), bp24(q1), bp24(q2), straddles(p1, p2, q1, q2), crossing(c, hX(p1, p2, q1, q2), hY(p1, p2, q1, q2), hW(p1, p2, q1, q2))
  ensures vbox(c, p1, p2), vbox(c, q1, q2) { lemma_straddling(c, p1, p2, q1, q2); }

// laws over the contract: neither the order of the lines nor of the points on each changes the crossing point
pub proof fn theorem_order(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
  ensures hW(p1, p2, q1, q2) == -hW(p2, p1, q1, q2), hX(p1, p2, q1, q2) == -hX(p2, p1, q1, q2), hY(p1, p2, q1, q2) == -hY(p2, p1, q1, q2),
          hW(p1, p2, q1, q2) == -hW(q1, q2, p1, p2), hX(p1, p2, q1, q2) == -hX(q1, q2, p1, p2), hY(p1, p2, q1, q2) == -hY(q1, q2, p1, p2)
{
  let (dx, dy, ex, ey) = (it(p2.x) - it(p1.x), it(p1.y) - it(p2.y), it(q2.x) - it(q1.x), it(q1.y) - it(q2.y));
  let (a, b) = (hw(p1, p2), hw(q1, q2));
  assert(hw(p2, p1) == -a) by (nonlinear_arith) requires a == it(p1.x) * it(p2.y) - it(p2.x) * it(p1.y), hw(p2, p1) == it(p2.x) * it(p1.y) - it(p1.x) * it(p2.y);
  assert((-dx) * b == -(dx * b)) by (nonlinear_arith); assert(ex * (-a) == -(ex * a)) by (nonlinear_arith);
  assert(ey * (-a) == -(ey * a)) by (nonlinear_arith); assert((-dy) * b == -(dy * b)) by (nonlinear_arith);
  assert((-dy) * ex == -(dy * ex)) by (nonlinear_arith); assert(ey * (-dx) == -(ey * dx)) by (nonlinear_arith);
  assert(dy * ex == ex * dy && ey * dx == dx * ey) by (nonlinear_arith);
}
/// the crossing point lies on both lines: X*A + Y*B + C*W = 0 for the line's homogeneous triple
pub proof fn theorem_on_lines(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate)
  ensures hX(p1, p2, q1, q2) * (it(p1.y) - it(p2.y)) + hY(p1, p2, q1, q2) * (it(p2.x) - it(p1.x)) + hW(p1, p2, q1, q2) * hw(p1, p2) == 0,
          hX(p1, p2, q1, q2) * (it(q1.y) - it(q2.y)) + hY(p1, p2, q1, q2) * (it(q2.x) - it(q1.x)) + hW(p1, p2, q1, q2) * hw(q1, q2) == 0,
          // and the triple is that of the line through its two points
          (it(p1.y) - it(p2.y)) * it(p1.x) + (it(p2.x) - it(p1.x)) * it(p1.y) + hw(p1, p2) == 0, (it(p1.y) - it(p2.y)) * it(p2.x) + (it(p2.x) - it(p1.x)) * it(p2.y) + hw(p1, p2) == 0
{
  let (dx, dy, ex, ey) = (it(p2.x) - it(p1.x), it(p1.y) - it(p2.y), it(q2.x) - it(q1.x), it(q1.y) - it(q2.y));
  let (a, b) = (hw(p1, p2), hw(q1, q2));
  lemma_cross3(dx, dy, a, ex, ey, b);
  let (x1, y1, x2, y2) = (it(p1.x), it(p1.y), it(p2.x), it(p2.y));
  assert((y1 - y2) * x1 + (x2 - x1) * y1 + (x1 * y2 - x2 * y1) == 0) by (nonlinear_arith);
  assert((y1 - y2) * x2 + (x2 - x1) * y2 + (x1 * y2 - x2 * y1) == 0) by (nonlinear_arith);
}
proof fn lemma_cross3(dx: int, dy: int, a: int, ex: int, ey: int, b: int)
  ensures (dx * b - ex * a) * dy + (ey * a - dy * b) * dx + (dy * ex - ey * dx) * a == 0, (dx * b - ex * a) * ey + (ey * a - dy * b) * ex + (dy * ex - ey * dx) * b == 0
{
  assert((dx * b - ex * a) * dy == (dx * dy) * b - (dy * ex) * a) by (nonlinear_arith);
  assert((ey * a - dy * b) * dx == (ey * dx) * a - (dx * dy) * b) by (nonlinear_arith);
  assert((dy * ex - ey * dx) * a == (dy * ex) * a - (ey * dx) * a) by (nonlinear_arith);
  assert((dx * b - ex * a) * ey == (ey * dx) * b - (ex * ey) * a) by (nonlinear_arith);
  assert((ey * a - dy * b) * ex == (ex * ey) * a - (dy * ex) * b) by (nonlinear_arith);
  assert((dy * ex - ey * dx) * b == (dy * ex) * b - (ey * dx) * b) by (nonlinear_arith);
}
"""
ASSUMPTIONS = ["integer ordinates: up to 2^24 for the extended-precision computation and for line against segment, 2^16 for the homogeneous one, 2^15 for the conditioned one"]
