from rsx import Fn
import c03, c08, c09, c19, ddint, common, copy
from common import BI
USES = ["f64"]
T = "src/core/geom/triangle.rs"
H = "src/core/algorithm/hcoordinate.rs"
STRUCTS = [common.COORD, common.ORI, ("src/core/math/dd.rs", "DD", "#[derive(Copy, Clone)]"), (T, "Triangle", ""), (H, "HCoordinate", ""), ("src/core/algorithm/angle.rs", "Angle", "")]
def _cut(t, a, b): return t[t.index(a):t.index(b)]
_26 = ddint.PRELUDE
PRELUDE = c03.DDI[:c03.DDI.index("pub open spec fn lim24")] + common.PTS + c08.PRELUDE[c08.PRELUDE.index("pub assume_specification[ f64::abs ]"):] + \
  _cut(_26, "// IEEE: a non-finite operand", "pub assume_specification[ f64::is_infinite ]") + _26[_26.index("// finiteness: no operation"):] + """
pub proof fn lemma_di(a: f64, b: f64) requires isi(a), isi(b), in53(it(a) - it(b)) ensures d(a, b) == (it(a) - it(b)) as real { let k = it(a) - it(b); ax_rnd_int(k); assert(val(a) - val(b) == k as real); }
pub proof fn lemma_ip(a: Coordinate, b: Coordinate) requires ipt(a), ipt(b) ensures lip(a), lip(b), dist(a, b) == hypr((it(a.x) - it(b.x)) as real, (it(a.y) - it(b.y)) as real), 0real <= dist(a, b) <= 67108864real,
   (dist(a, b) == 0real) == eqp(a, b), dist(a, b) == dist(b, a), rnd(dist(a, b)) == dist(a, b), !eqp(a, b) ==> dist(a, b) >= 1real
{ broadcast use ax_hypr; ax_rnd_idem(val(a.x) - val(b.x)); ax_rnd_idem(val(a.y) - val(b.y)); ax_hypr_double(d(a.x, b.x), d(a.y, b.y)); lemma_di(a.x, b.x); lemma_di(a.y, b.y); lemma_di(b.x, a.x); lemma_di(b.y, a.y); let (x, y) = ((it(a.x) - it(b.x)) as real, (it(a.y) - it(b.y)) as real); assert(hypr(x, y) == hypr(-x, -y)); assert((it(b.x) - it(a.x)) as real == -x && (it(b.y) - it(a.y)) as real == -y); }
pub open spec fn dotp(a: Coordinate, b: Coordinate, c: Coordinate) -> int { (it(a.x) - it(b.x)) * (it(c.x) - it(b.x)) + (it(a.y) - it(b.y)) * (it(c.y) - it(b.y)) }
pub proof fn lemma_db(a: Coordinate, b: Coordinate, c: Coordinate) requires ipt(a), ipt(b), ipt(c)
  ensures -1125899906842624 <= (it(a.x) - it(b.x)) * (it(c.x) - it(b.x)) <= 1125899906842624, -1125899906842624 <= (it(a.y) - it(b.y)) * (it(c.y) - it(b.y)) <= 1125899906842624
{ lemma_pb(it(a.x) - it(b.x), it(c.x) - it(b.x), 33554432, 33554432); lemma_pb(it(a.y) - it(b.y), it(c.y) - it(b.y), 33554432, 33554432); }
pub axiom fn ax_rnd_half(k: int) requires -9007199254740992 <= k <= 9007199254740992 ensures rnd(k as real / 2real) == k as real / 2real;
pub axiom fn ax_rnd_quarter(k: int) requires -9007199254740992 <= k <= 9007199254740992 ensures rnd(k as real / 4real) == k as real / 4real;
pub broadcast axiom fn ax_34() ensures #[trigger] val(3.0f64) == 3real, fin(3.0f64), val(4.0f64) == 4real, fin(4.0f64);
pub open spec fn acute(a: Coordinate, b: Coordinate, c: Coordinate) -> bool { dotp(a, b, c) > 0 && dotp(b, c, a) > 0 && dotp(c, a, b) > 0 }
/// p is on the inner side of, or on, each side (of the side chosen when all corners are on a line)
pub open spec fn within(a: Coordinate, b: Coordinate, c: Coordinate, p: Coordinate) -> bool {
  let (x, y, z) = (dt(a, b, p), dt(b, c, p), dt(c, a, p)); if dt(a, b, c) > 0 { x >= 0 && y >= 0 && z >= 0 } else { x <= 0 && y <= 0 && z <= 0 } }
/// the double of the signed area, clockwise positive
pub open spec fn ar2(a: Coordinate, b: Coordinate, c: Coordinate) -> int { (it(c.x) - it(a.x)) * (it(b.y) - it(a.y)) - (it(b.x) - it(a.x)) * (it(c.y) - it(a.y)) }
pub proof fn lemma_ar(a: Coordinate, b: Coordinate, c: Coordinate) requires ipt(a), ipt(b), ipt(c)
  ensures ar2(a, b, c) == -dt(a, b, c), ({ let m = 1125899906842624int; -m <= (it(c.x) - it(a.x)) * (it(b.y) - it(a.y)) <= m && -m <= (it(b.x) - it(a.x)) * (it(c.y) - it(a.y)) <= m }), rnd(ar2(a, b, c) as real / 2real) == ar2(a, b, c) as real / 2real
{ let (ux, uy, wx, wy) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(c.x) - it(a.x), it(c.y) - it(a.y)); lemma_pb(wx, uy, 33554432, 33554432); lemma_pb(ux, wy, 33554432, 33554432);
  assert(it(c.x) - it(b.x) == wx - ux && it(c.y) - it(b.y) == wy - uy); assert(wx * uy - ux * wy == -(ux * (wy - uy) - uy * (wx - ux))) by (nonlinear_arith); ax_rnd_half(wx * uy - ux * wy); }
pub open spec fn l3(a: Coordinate, b: Coordinate, c: Coordinate) -> real { rnd(rnd(dist(a, b) + dist(b, c)) + dist(c, a)) }
pub open spec fn ma(a: real, b: real) -> real { if a > b { a } else { b } }
/// sums of two and three lengths
pub proof fn lemma_sum(x: real, y: real, z: real) requires 0real <= x <= 67108864real, 0real <= y <= 67108864real, 0real <= z <= 67108864real
  ensures inrange(x + y), inrange(rnd(x + y) + z), 0real <= rnd(x + y) <= 134217728real, 0real <= rnd(rnd(x + y) + z) <= 201326592real, x >= 1real || y >= 1real ==> rnd(x + y) >= 1real, x >= 1real || y >= 1real || z >= 1real ==> rnd(rnd(x + y) + z) >= 1real
{ broadcast use ax_big; ax_rnd_int(134217728); ax_rnd_int(201326592); ax_rnd_zero(); ax_rnd_int(1); ax_rnd_mono(0real, x + y); ax_rnd_mono(x + y, 134217728real); let s = rnd(x + y) + z; if x >= 1real || y >= 1real { ax_rnd_mono(1real, x + y); } ax_rnd_mono(0real, s); ax_rnd_mono(s, 201326592real); if s >= 1real { ax_rnd_mono(1real, s); } }
/// a weight times an ordinate
pub proof fn lemma_w(l: real, k: int) requires 0real <= l <= 67108864real, -16777216 <= k <= 16777216 ensures inrange(l * k as real), rabs(rnd(l * k as real)) <= 1125899906842624real
{ broadcast use ax_big; let r = k as real; assert(-1125899906842624real <= l * r <= 1125899906842624real) by (nonlinear_arith) requires 0real <= l <= 67108864real, -16777216real <= r <= 16777216real;
  ax_rnd_int(1125899906842624); ax_rnd_int(-1125899906842624); ax_rnd_mono(l * r, 1125899906842624real); ax_rnd_mono(-1125899906842624real, l * r); }
pub proof fn lemma_s3(x: real, y: real, z: real) requires rabs(x) <= 1125899906842624real, rabs(y) <= 1125899906842624real, rabs(z) <= 1125899906842624real
  ensures inrange(x + y), inrange(rnd(x + y) + z), rabs(rnd(rnd(x + y) + z)) <= 4503599627370496real
{ broadcast use ax_big; ax_rnd_int(2251799813685248); ax_rnd_int(-2251799813685248); ax_rnd_int(4503599627370496); ax_rnd_int(-4503599627370496); let p = x + y; ax_rnd_mono(p, 2251799813685248real); ax_rnd_mono(-2251799813685248real, p);
  let q = rnd(p) + z; ax_rnd_mono(q, 4503599627370496real); ax_rnd_mono(-4503599627370496real, q); }
pub proof fn lemma_dv(x: real, y: real) requires rabs(x) <= 9007199254740992real, rabs(y) >= 1real ensures inrange(x / y), rabs(x / y) <= rabs(x)
{ broadcast use ax_big; let q = x / y; assert(q * y == x) by (nonlinear_arith) requires q == x / y, y != 0real; lemma_absmul(q, y, x); }
/// corner weighed by the opposite side
pub open spec fn wt(l0: real, l1: real, l2: real, x: int, y: int, z: int) -> real { rnd(rnd(rnd(rnd(l0 * x as real) + rnd(l1 * y as real)) + rnd(l2 * z as real)) / rnd(rnd(l0 + l1) + l2)) }
pub proof fn lemma_wt(l0: real, l1: real, l2: real, x: int, y: int, z: int)
  requires 0real <= l0 <= 67108864real, 0real <= l1 <= 67108864real, 0real <= l2 <= 67108864real, l0 >= 1real || l1 >= 1real || l2 >= 1real, -16777216 <= x <= 16777216, -16777216 <= y <= 16777216, -16777216 <= z <= 16777216
  ensures inrange(l0 * x as real), inrange(l1 * y as real), inrange(l2 * z as real), inrange(rnd(l0 * x as real) + rnd(l1 * y as real)), inrange(rnd(rnd(l0 * x as real) + rnd(l1 * y as real)) + rnd(l2 * z as real)),
    inrange(l0 + l1), inrange(rnd(l0 + l1) + l2), rnd(rnd(l0 + l1) + l2) >= 1real, inrange(rnd(rnd(rnd(l0 * x as real) + rnd(l1 * y as real)) + rnd(l2 * z as real)) / rnd(rnd(l0 + l1) + l2))
{ lemma_w(l0, x); lemma_w(l1, y); lemma_w(l2, z); lemma_s3(rnd(l0 * x as real), rnd(l1 * y as real), rnd(l2 * z as real)); lemma_sum(l0, l1, l2); lemma_dv(rnd(rnd(rnd(l0 * x as real) + rnd(l1 * y as real)) + rnd(l2 * z as real)), rnd(rnd(l0 + l1) + l2)); }
/// the bisector of the angle at b
pub open spec fn bis(l0: real, l2: real, x: int, y: int) -> real { rnd(x as real + rnd(rnd(l0 / rnd(l0 + l2)) * (y - x) as real)) }
pub proof fn lemma_bis(l0: real, l2: real, x: int, y: int) requires 0real <= l0 <= 67108864real, 0real <= l2 <= 67108864real, l0 >= 1real || l2 >= 1real, rnd(l0) == l0, -16777216 <= x <= 16777216, -16777216 <= y <= 16777216
  ensures inrange(l0 + l2), rnd(l0 + l2) >= 1real, inrange(l0 / rnd(l0 + l2)), 0real <= rnd(l0 / rnd(l0 + l2)) <= 1real, inrange(rnd(l0 / rnd(l0 + l2)) * (y - x) as real), inrange(x as real + rnd(rnd(l0 / rnd(l0 + l2)) * (y - x) as real)), l0 == 0real ==> bis(l0, l2, x, y) == x as real
{ broadcast use ax_big; lemma_sum(l0, l2, 0real); let s = rnd(l0 + l2); lemma_dv(l0, s); let q = l0 / s; assert(q * s == l0) by (nonlinear_arith) requires q == l0 / s, s != 0real;
  lemma_below(l0, l2); assert(0real <= q <= 1real) by (nonlinear_arith) requires q * s == l0, s >= 1real, 0real <= l0 <= s; ax_rnd_zero(); ax_rnd_int(1); ax_rnd_int(x); ax_rnd_mono(0real, q); ax_rnd_mono(q, 1real); let f = rnd(q); let r = (y - x) as real;
  assert(-33554432real <= f * r <= 33554432real) by (nonlinear_arith) requires 0real <= f <= 1real, -33554432real <= r <= 33554432real; ax_rnd_int(33554432); ax_rnd_int(-33554432); ax_rnd_mono(f * r, 33554432real); ax_rnd_mono(-33554432real, f * r);
  if l0 == 0real { assert(q == 0real) by (nonlinear_arith) requires q * s == 0real, s >= 1real; assert(f * r == 0real) by (nonlinear_arith) requires f == 0real; assert(x as real + 0real == x as real); } }
/// the length is a double
pub axiom fn ax_rnd_idem(x: real) ensures rnd(rnd(x)) == rnd(x);
pub axiom fn ax_hypr_double(x: real, y: real) requires rnd(x) == x, rnd(y) == y ensures rnd(hypr(x, y)) == hypr(x, y);
/// a length does not exceed its rounded sum with another (lengths are doubles)
pub proof fn lemma_below(x: real, y: real) requires x >= 0real, y >= 0real ensures rnd(x) <= rnd(x + y) { ax_rnd_mono(x, x + y); }
"""
PRELUDE += """
pub open spec fn bpt(c: Coordinate, b: int) -> bool { isi(c.x) && isi(c.y) && -b <= it(c.x) <= b && -b <= it(c.y) <= b }
pub open spec fn len2(a: Coordinate, b: Coordinate) -> int { (it(b.x) - it(a.x)) * (it(b.x) - it(a.x)) + (it(b.y) - it(a.y)) * (it(b.y) - it(a.y)) }
/// circumcentre relative to c, over twice the determinant
pub open spec fn cd(a: Coordinate, b: Coordinate, c: Coordinate) -> int { 2 * ((it(a.x) - it(c.x)) * (it(b.y) - it(c.y)) - (it(a.y) - it(c.y)) * (it(b.x) - it(c.x))) }
pub open spec fn cnx(a: Coordinate, b: Coordinate, c: Coordinate) -> int { (it(a.y) - it(c.y)) * len2(c, b) - len2(c, a) * (it(b.y) - it(c.y)) }
pub open spec fn cny(a: Coordinate, b: Coordinate, c: Coordinate) -> int { (it(a.x) - it(c.x)) * len2(c, b) - len2(c, a) * (it(b.x) - it(c.x)) }
pub proof fn lemma_cb(a: Coordinate, b: Coordinate, c: Coordinate, h: int) requires bpt(a, h), bpt(b, h), bpt(c, h), 0 <= h <= 65536
  ensures ({ let (ax, ay, bx, by, a2, b2) = (it(a.x) - it(c.x), it(a.y) - it(c.y), it(b.x) - it(c.x), it(b.y) - it(c.y), len2(c, a), len2(c, b)); let m = 17179869184int; let n = 4503599627370496int; let k = 4 * (h * h); let l = 16 * (h * (h * h));
     k <= m && l <= n && (h <= 1024 ==> k <= 4194304 && l <= 17179869184) && 0 <= ax * ax <= k && 0 <= ay * ay <= k && 0 <= bx * bx <= k && 0 <= by * by <= k && -k <= ax * by <= k && -k <= ay * bx <= k
     && -l <= ay * b2 <= l && -l <= by * a2 <= l && -l <= ax * b2 <= l && -l <= bx * a2 <= l && 0 <= a2 <= 2 * k && 0 <= b2 <= 2 * k && by * a2 == a2 * by && bx * a2 == a2 * bx })
{ let (ax, ay, bx, by, a2, b2) = (it(a.x) - it(c.x), it(a.y) - it(c.y), it(b.x) - it(c.x), it(b.y) - it(c.y), len2(c, a), len2(c, b)); let w = 2 * h; let k = 4 * (h * h); let q = h * h;
  assert(w * w == k) by (nonlinear_arith) requires w == 2 * h, k == 4 * (h * h);
  lemma_pb(ax, ax, w, w); lemma_pb(ay, ay, w, w); lemma_pb(bx, bx, w, w); lemma_pb(by, by, w, w); lemma_pb(ax, by, w, w); lemma_pb(ay, bx, w, w);
  assert(ax * ax >= 0 && ay * ay >= 0 && bx * bx >= 0 && by * by >= 0) by (nonlinear_arith);
  lemma_pb(ay, b2, w, 2 * k); lemma_pb(by, a2, w, 2 * k); lemma_pb(ax, b2, w, 2 * k); lemma_pb(bx, a2, w, 2 * k);
  assert(w * (2 * k) == 16 * (h * q)) by (nonlinear_arith) requires w == 2 * h, k == 4 * q;
  assert(q <= 4294967296) by (nonlinear_arith) requires q == h * h, 0 <= h <= 65536; assert(h * q <= 281474976710656) by (nonlinear_arith) requires 0 <= q <= 4294967296, 0 <= h <= 65536;
  if h <= 1024 { assert(q <= 1048576) by (nonlinear_arith) requires q == h * h, 0 <= h <= 1024; assert(h * q <= 1073741824) by (nonlinear_arith) requires 0 <= q <= 1048576, 0 <= h <= 1024; }
  assert(by * a2 == a2 * by && bx * a2 == a2 * bx) by (nonlinear_arith); }
pub proof fn lemma_iqs(n: int, d: int) requires d != 0, in53(n) ensures inrange((n as real) / (d as real)), rabs((n as real) / (d as real)) <= 9007199254740992real, rabs(rnd((n as real) / (d as real))) <= 9007199254740992real
{ lemma_dv(n as real, d as real); let q = (n as real) / (d as real); ax_rnd_int(9007199254740992); ax_rnd_int(-9007199254740992); ax_rnd_mono(q, 9007199254740992real); ax_rnd_mono(-9007199254740992real, q); }
pub open spec fn quo(n: int, d: int) -> real { rnd((n as real) / (d as real)) }
// in space, ordinates up to 2^11
pub open spec fn i11(x: f64) -> bool { isi(x) && -2048 <= it(x) <= 2048 }
pub open spec fn p11(c: Coordinate) -> bool { i11(c.x) && i11(c.y) && i11(c.z) }
pub open spec fn nx3(a: Coordinate, b: Coordinate, c: Coordinate) -> int { (it(b.y) - it(a.y)) * (it(c.z) - it(a.z)) - (it(b.z) - it(a.z)) * (it(c.y) - it(a.y)) }
pub open spec fn ny3(a: Coordinate, b: Coordinate, c: Coordinate) -> int { (it(b.z) - it(a.z)) * (it(c.x) - it(a.x)) - (it(b.x) - it(a.x)) * (it(c.z) - it(a.z)) }
pub open spec fn nz3(a: Coordinate, b: Coordinate, c: Coordinate) -> int { (it(b.x) - it(a.x)) * (it(c.y) - it(a.y)) - (it(b.y) - it(a.y)) * (it(c.x) - it(a.x)) }
/// squared length of the cross product of two sides
pub open spec fn n2(a: Coordinate, b: Coordinate, c: Coordinate) -> int { nx3(a, b, c) * nx3(a, b, c) + ny3(a, b, c) * ny3(a, b, c) + nz3(a, b, c) * nz3(a, b, c) }
pub proof fn lemma_n3(a: Coordinate, b: Coordinate, c: Coordinate) requires p11(a), p11(b), p11(c)
  ensures ({ let (ux, uy, uz, vx, vy, vz) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(b.z) - it(a.z), it(c.x) - it(a.x), it(c.y) - it(a.y), it(c.z) - it(a.z)); let m = 16777216int; let k = 1125899906842624int; let (x, y, z) = (nx3(a, b, c), ny3(a, b, c), nz3(a, b, c));
    -m <= uy * vz <= m && -m <= uz * vy <= m && -m <= uz * vx <= m && -m <= ux * vz <= m && -m <= ux * vy <= m && -m <= uy * vx <= m && 0 <= x * x <= k && 0 <= y * y <= k && 0 <= z * z <= k })
{ let (ux, uy, uz, vx, vy, vz) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(b.z) - it(a.z), it(c.x) - it(a.x), it(c.y) - it(a.y), it(c.z) - it(a.z)); let h = 4096; let g = 33554432; let (x, y, z) = (nx3(a, b, c), ny3(a, b, c), nz3(a, b, c));
  lemma_pb(uy, vz, h, h); lemma_pb(uz, vy, h, h); lemma_pb(uz, vx, h, h); lemma_pb(ux, vz, h, h); lemma_pb(ux, vy, h, h); lemma_pb(uy, vx, h, h); lemma_pb(x, x, g, g); lemma_pb(y, y, g, g); lemma_pb(z, z, g, g); assert(x * x >= 0 && y * y >= 0 && z * z >= 0) by (nonlinear_arith); }
// height at p from the plane through the corners
pub open spec fn zd(v0: Coordinate, v1: Coordinate, v2: Coordinate) -> int { (it(v1.x) - it(v0.x)) * (it(v2.y) - it(v0.y)) - (it(v2.x) - it(v0.x)) * (it(v1.y) - it(v0.y)) }
pub open spec fn zt(p: Coordinate, v0: Coordinate, v1: Coordinate, v2: Coordinate) -> int { (it(v2.y) - it(v0.y)) * (it(p.x) - it(v0.x)) - (it(v2.x) - it(v0.x)) * (it(p.y) - it(v0.y)) }
pub open spec fn zu(p: Coordinate, v0: Coordinate, v1: Coordinate, v2: Coordinate) -> int { (it(v1.x) - it(v0.x)) * (it(p.y) - it(v0.y)) - (it(v1.y) - it(v0.y)) * (it(p.x) - it(v0.x)) }
pub open spec fn zr(p: Coordinate, v0: Coordinate, v1: Coordinate, v2: Coordinate) -> real {
  rnd(rnd(it(v0.z) as real + rnd(quo(zt(p, v0, v1, v2), zd(v0, v1, v2)) * (it(v1.z) - it(v0.z)) as real)) + rnd(quo(zu(p, v0, v1, v2), zd(v0, v1, v2)) * (it(v2.z) - it(v0.z)) as real)) }
pub open spec fn ip3(c: Coordinate) -> bool { ipt(c) && i24(c.z) }
pub proof fn lemma_zb(p: Coordinate, v0: Coordinate, v1: Coordinate, v2: Coordinate) requires ipt(p), ip3(v0), ip3(v1), ip3(v2)
  ensures ({ let (a, b, c, e, dx, dy) = (it(v1.x) - it(v0.x), it(v2.x) - it(v0.x), it(v1.y) - it(v0.y), it(v2.y) - it(v0.y), it(p.x) - it(v0.x), it(p.y) - it(v0.y)); let m = 1125899906842624int;
    -m <= a * e <= m && -m <= b * c <= m && -m <= e * dx <= m && -m <= b * dy <= m && -m <= (-c) * dx <= m && -m <= a * dy <= m && (-c) * dx + a * dy == zu(p, v0, v1, v2) }),
    zd(v0, v1, v2) != 0 ==> inrange((zt(p, v0, v1, v2) as real) / (zd(v0, v1, v2) as real)) && inrange((zu(p, v0, v1, v2) as real) / (zd(v0, v1, v2) as real))
    && ({ let (t, u, f, g, z) = (quo(zt(p, v0, v1, v2), zd(v0, v1, v2)), quo(zu(p, v0, v1, v2), zd(v0, v1, v2)), (it(v1.z) - it(v0.z)) as real, (it(v2.z) - it(v0.z)) as real, it(v0.z) as real);
      inrange(t * f) && inrange(u * g) && inrange(z + rnd(t * f)) && inrange(rnd(z + rnd(t * f)) + rnd(u * g)) })
{ let (a, b, c, e, dx, dy) = (it(v1.x) - it(v0.x), it(v2.x) - it(v0.x), it(v1.y) - it(v0.y), it(v2.y) - it(v0.y), it(p.x) - it(v0.x), it(p.y) - it(v0.y)); let h = 33554432;
  lemma_pb(a, e, h, h); lemma_pb(b, c, h, h); lemma_pb(e, dx, h, h); lemma_pb(b, dy, h, h); lemma_pb(-c, dx, h, h); lemma_pb(c, dx, h, h); lemma_pb(a, dy, h, h); assert((-c) * dx == -(c * dx)) by (nonlinear_arith);
  if zd(v0, v1, v2) != 0 { lemma_iqs(zt(p, v0, v1, v2), zd(v0, v1, v2)); lemma_iqs(zu(p, v0, v1, v2), zd(v0, v1, v2));
    let (t, u, f, g, z) = (quo(zt(p, v0, v1, v2), zd(v0, v1, v2)), quo(zu(p, v0, v1, v2), zd(v0, v1, v2)), (it(v1.z) - it(v0.z)) as real, (it(v2.z) - it(v0.z)) as real, it(v0.z) as real);
    lemma_tf(t, f); lemma_tf(u, g); lemma_rb(t * f); lemma_rb(u * g); lemma_rb(z + rnd(t * f)); broadcast use ax_big; } }
pub proof fn lemma_tf(t: real, f: real) requires rabs(t) <= 9007199254740992real, rabs(f) <= 33554432real ensures rabs(t * f) <= 302231454903657293676544real, inrange(t * f)
{ broadcast use ax_big; assert(-302231454903657293676544real <= t * f <= 302231454903657293676544real) by (nonlinear_arith) requires -9007199254740992real <= t <= 9007199254740992real, -33554432real <= f <= 33554432real; }
// halves of integers
pub open spec fn hf(x: f64, k: int) -> bool { fin(x) && val(x) == k as real / 2real }
pub open spec fn hcr(h: HCoordinate, x: real, y: real, w: real) -> bool { fin(h.x) && fin(h.y) && fin(h.w) && val(h.x) == x && val(h.y) == y && val(h.w) == w }
pub open spec fn cross(a: f64, b: f64, c: f64, e: f64) -> real { rnd(rnd(val(a) * val(b)) - rnd(val(c) * val(e))) }
pub open spec fn l27(x: f64) -> bool { fin(x) && rabs(val(x)) <= 1000000000000000real }
pub broadcast proof fn lemma_m27(a: f64, b: f64, o: f64) requires l27(a), l27(b), #[trigger] mul_ensures(a, b, o) ensures fin(o), val(o) == rnd(val(a) * val(b)), rabs(val(o)) <= 3000000000000000000000000000000real
{ broadcast use f64_ax; let (x, y) = (val(a), val(b)); assert(-1000000000000000000000000000000real <= x * y <= 1000000000000000000000000000000real) by (nonlinear_arith) requires -1000000000000000real <= x <= 1000000000000000real, -1000000000000000real <= y <= 1000000000000000real; lemma_rb(x * y); }
/// the homogeneous line through (m/2, n/2) along (-q, p): the perpendicular bisector
pub proof fn lemma_pbis(m: int, n: int, p: int, q: int) requires -2097152 <= m <= 2097152, -2097152 <= n <= 2097152, -2097152 <= p <= 2097152, -2097152 <= q <= 2097152
  ensures ({ let (x, y) = (m as real / 2real, n as real / 2real); let (u, v) = ((m - 2 * q) as real / 2real, (n + 2 * p) as real / 2real);
     rnd(rnd(x * v) - rnd(u * y)) == (p * m + q * n) as real / 2real && rnd(rnd(y * 1real) - rnd(v * 1real)) == -p as real && rnd(rnd(u * 1real) - rnd(x * 1real)) == -q as real })
{ let (x, y) = (m as real / 2real, n as real / 2real); let (u, v) = ((m - 2 * q) as real / 2real, (n + 2 * p) as real / 2real);
  let (s, t) = (m * (n + 2 * p), (m - 2 * q) * n); lemma_pb(m, n + 2 * p, 2097152, 6291456); lemma_pb(m - 2 * q, n, 6291456, 2097152);
  assert(x * v == s as real / 4real) by { lemma_hm(m, n + 2 * p); } assert(u * y == t as real / 4real) by { lemma_hm(m - 2 * q, n); }
  ax_rnd_quarter(s); ax_rnd_quarter(t); assert(s - t == 2 * (p * m + q * n)) by (nonlinear_arith) requires s == m * (n + 2 * p), t == (m - 2 * q) * n;
  let k = p * m + q * n; assert(s as real / 4real - t as real / 4real == k as real / 2real); lemma_pb(p, m, 2097152, 2097152); lemma_pb(q, n, 2097152, 2097152); ax_rnd_half(k);
  ax_rnd_half(n); ax_rnd_half(m); ax_rnd_half(n + 2 * p); ax_rnd_half(m - 2 * q); assert(y * 1real == y && v * 1real == v && u * 1real == u && x * 1real == x);
  assert(y - v == -p as real); assert(u - x == -q as real); ax_rnd_int(-p); ax_rnd_int(-q); }
proof fn lemma_hm(i: int, j: int) ensures (i as real / 2real) * (j as real / 2real) == (i * j) as real / 4real
{ let (a, b) = (i as real, j as real); assert(a * b == (i * j) as real) by (nonlinear_arith) requires a == i as real, b == j as real; assert((a / 2real) * (b / 2real) == (a * b) / 4real) by (nonlinear_arith); }
pub proof fn lemma_halves(a: int, b: int) requires -1048576 <= a <= 1048576, -1048576 <= b <= 1048576 ensures rnd((b - a) as real / 2real) == (b - a) as real / 2real, a as real + (b - a) as real / 2real == (a + b) as real / 2real, rnd((a + b) as real / 2real) == (a + b) as real / 2real
{ ax_rnd_half(b - a); ax_rnd_half(a + b); }
pub open spec fn dok(r: DD, k: int, b: int) -> bool { ddi(r, k) && -b <= k <= b }
"""
MM = "broadcast use f64_ax, f64_int, ty_ax, ax_34;"
A3 = "ipt(*a), ipt(*b), ipt(*c)"
IP = "proof { lemma_ip(*a, *b); lemma_ip(*b, *c); lemma_ip(*c, *a); lemma_ip(*a, *c); lemma_ip(*b, *a); }"
P3 = "ipt(self.p0), ipt(self.p1), ipt(self.p2)"
_dd = {f.name: copy.deepcopy(f) for i in c03.IMPLS if i["ty"] == "DD" for f in i["fns"]}
_26f = {f.name: copy.deepcopy(f) for i in ddint.IMPLS if i["ty"] == "DD" for f in i["fns"]}
_div = _26f["self_divide_hi_lo"]
DIVE = """ddok(*self, 1125899906842624) && ddok(*y, 33554432) && dv(*y) != 0 ==> fin(r.hi) && fin(r.lo),
  forall|q: int| ddok(*self, 1125899906842624) && ddok(*y, 33554432) && dv(*y) != 0 && dv(*self) == #[trigger] imul(q, dv(*y)) && -33554432 <= q <= 33554432 ==> ddi(r, q)"""
_ya = [(a.replace("yhi", r"y\.hi"), g.replace("self.hi", "self.hi")) for a, g in _div.after]
OKC = "ddok(*%s, 4503599627370496)"
_c8 = {f.name: f for i in c08.IMPLS if i["ty"] == "Coordinate" for f in i["fns"]}
_o = common.coordinate("new_xy", "from_coordinate")
CCDD = "cd(*a, *b, *c) != 0"
IMPLS = [dict(_o, fns=_o["fns"] + [_c8["distance"]]), common.ORIENTATION,
 dict(file="src/core/algorithm/angle.rs", ty="Angle", fns=[Fn("is_acute", requires="ipt(*p0), ipt(*p1), ipt(*p2)", ensures="r == (dotp(*p0, *p1, *p2) > 0)", start="broadcast use f64_int, ty_ax; proof { lemma_db(*p0, *p1, *p2); }")]),
 dict(file=H, ty="HCoordinate", fns=[
   Fn("new_with_xyw", ensures="r.x == _x, r.y == _y, r.w == _w"),
   Fn("new_with_hcoordinates", requires="l27(p1.x), l27(p1.y), l27(p1.w), l27(p2.x), l27(p2.y), l27(p2.w)", ensures="hcr(r, cross(p1.y, p2.w, p2.y, p1.w), cross(p2.x, p1.w, p1.x, p2.w), cross(p1.x, p2.y, p2.x, p1.y))", start="broadcast use f64_ax, ty_ax, lemma_m27;"),
 ]),
 dict(file="src/core/math/dd.rs", ty="DD", consts=["SPLIT"], fns=[_dd["new_x"], _dd["value_of_f64"], _dd["is_nan"], _dd["self_multiply_hi_lo"], _dd["self_multiply_dd"],
   Fn("new_hi_lo", ensures="r.hi == hi, r.lo == lo"), Fn("new_from_dd", ensures="r == *dd"), Fn("copy", ensures="r == *dd"), Fn("copy_self", ensures="r == *self"), Fn("create_nan"), Fn("new_nan"),
   Fn("self_add_f64", ensures="ddok(*old(self), 4503599627370496) && isi(y) && -4503599627370496 <= it(y) <= 4503599627370496 ==> ddi(*final(self), dv(*old(self)) + it(y))", start=BI),
   Fn("self_add_hi_lo", ensures="ddok(*old(self), 4503599627370496) && isi(yhi) && -4503599627370496 <= it(yhi) <= 4503599627370496 && isi(ylo) && it(ylo) == 0 ==> ddi(*final(self), dv(*old(self)) + it(yhi))", start=BI),
   Fn("self_add_dd", ensures="ddok(*old(self), 4503599627370496) && ddok(*y, 4503599627370496) ==> ddi(*final(self), dv(*old(self)) + dv(*y))"),
   Fn("self_subtract_dd", ensures="ddok(*old(self), 4503599627370496) && ddok(*y, 4503599627370496) ==> ddi(*final(self), dv(*old(self)) - dv(*y))", start=BI),
   Fn("add_f64", ensures="ddok(*self, 4503599627370496) && isi(y) && -4503599627370496 <= it(y) <= 4503599627370496 ==> ddi(r, dv(*self) + it(y))"),
   Fn("add_dd", ensures="ddok(*self, 4503599627370496) && ddok(*y, 4503599627370496) ==> ddi(r, dv(*self) + dv(*y))"),
   Fn("negate", ensures="ddok(*self, 9007199254740992) ==> ddi(r, -dv(*self))", start=BI),
   Fn("subtract_f64", ensures="ddok(*self, 4503599627370496) && isi(y) && -4503599627370496 <= it(y) <= 4503599627370496 ==> ddi(r, dv(*self) - it(y))", start=BI),
   Fn("subtract_dd", ensures="ddok(*self, 4503599627370496) && ddok(*y, 4503599627370496) ==> ddi(r, dv(*self) - dv(*y))", start=BI),
   Fn("multiply_dd", requires="ddok(*self, 33554432), ddok(*y, 33554432)", ensures="ddi(r, dv(*self) * dv(*y)), ddok(r, 1125899906842624)", start=BI),
   Fn("multiply_f64", requires="ddok(*self, 33554432), isi(y), -33554432 <= it(y) <= 33554432", ensures="ddi(r, dv(*self) * it(y)), ddok(r, 1125899906842624)", start=BI + "proof { broadcast use ax_fnan; }"),
   Fn("sqr", requires="ddok(*self, 33554432)", ensures="ddi(r, dv(*self) * dv(*self)), ddok(r, 1125899906842624)"),
   Fn("determinant_xy_dd", requires="ddok(*x1, 33554432), ddok(*y1, 33554432), ddok(*x2, 33554432), ddok(*y2, 33554432)", ensures="ddi(r, dv(*x1) * dv(*y2) - dv(*y1) * dv(*x2))"),
   Fn("divide_dd", requires="ddok(*self, 1125899906842624), ddok(*y, 33554432)", ensures=DIVE, start=BI + "broadcast use nf, lemma_idiv, bd; let ghost n0 = dv(*self); let ghost y0 = it(y.hi);", after=_ya),
   Fn("double_value", ensures="isi(self.hi) && isi(self.lo) && it(self.lo) == 0 ==> isi(r) && it(r) == it(self.hi)", start=BI + "broadcast use nf, bd;"),
 ]),
 dict(file=T, ty="Triangle", fns=[
   Fn("new", ensures="r.p0 == *p0, r.p1 == *p1, r.p2 == *p2"),
   Fn("is_acute_coordinates", requires=A3, ensures="r == acute(*a, *b, *c)"),
   Fn("is_ccw_coordinates", requires=A3, ensures="r == (dt(*a, *b, *c) > 0)"),
   Fn("intersects_coordinates", requires=A3 + ", ipt(*p)", ensures="r == within(*a, *b, *c, *p)"),
   Fn("det_f64", requires="isi(m00), isi(m01), isi(m10), isi(m11), in53(it(m00) * it(m11)), in53(it(m01) * it(m10)), in53(it(m00) * it(m11) - it(m01) * it(m10))", ensures="isi(r), it(r) == it(m00) * it(m11) - it(m01) * it(m10)", start=BI),
   Fn("area_coordinates", requires=A3, ensures="fin(r), val(r) == rabs(ar2(*a, *b, *c) as real / 2real)", start=MM + "proof { lemma_ar(*a, *b, *c); }"),
   Fn("signed_area_coordinates", requires=A3, ensures="fin(r), val(r) == ar2(*a, *b, *c) as real / 2real", start=MM + "proof { lemma_ar(*a, *b, *c); }"),
   Fn("length_coordinates", requires=A3, ensures="fin(r), val(r) == l3(*a, *b, *c)", start="broadcast use f64_ax;" + IP + "proof { lemma_sum(dist(*a, *b), dist(*b, *c), dist(*c, *a)); }"),
   Fn("longest_side_length_coordinates", requires=A3, ensures="fin(r), val(r) == ma(ma(dist(*a, *b), dist(*b, *c)), dist(*c, *a))", start="broadcast use f64_ax;" + IP),
   Fn("centroid_coordinates", requires=A3, ensures="fin(r.x), fin(r.y), val(r.x) == quo(it(a.x) + it(b.x) + it(c.x), 3), val(r.y) == quo(it(a.y) + it(b.y) + it(c.y), 3)",
      start=MM + "proof { lemma_iqs(it(a.x) + it(b.x) + it(c.x), 3); lemma_iqs(it(a.y) + it(b.y) + it(c.y), 3); }"),
   Fn("in_centre_coordinates", requires=A3 + ", !(eqp(*a, *b) && eqp(*b, *c))", ensures="fin(r.x), fin(r.y), val(r.x) == wt(dist(*b, *c), dist(*a, *c), dist(*a, *b), it(a.x), it(b.x), it(c.x)), val(r.y) == wt(dist(*b, *c), dist(*a, *c), dist(*a, *b), it(a.y), it(b.y), it(c.y))",
      start="broadcast use f64_ax, ty_ax;" + IP + "proof { lemma_wt(dist(*b, *c), dist(*a, *c), dist(*a, *b), it(a.x), it(b.x), it(c.x)); lemma_wt(dist(*b, *c), dist(*a, *c), dist(*a, *b), it(a.y), it(b.y), it(c.y)); }"),
   Fn("angle_bisector_coordinates", requires=A3 + ", !(eqp(*a, *b) && eqp(*b, *c))", ensures="fin(r.x), fin(r.y), val(r.x) == bis(dist(*a, *b), dist(*b, *c), it(a.x), it(c.x)), val(r.y) == bis(dist(*a, *b), dist(*b, *c), it(a.y), it(c.y))",
      start=MM + IP + "proof { lemma_bis(dist(*a, *b), dist(*b, *c), it(a.x), it(c.x)); lemma_bis(dist(*a, *b), dist(*b, *c), it(a.y), it(c.y)); }"),
   Fn("circumradius_coordinates", requires="ipt(*ca), ipt(*cb), ipt(*cc)", ensures="dt(*ca, *cb, *cc) == 0 ==> !fin(r), dt(*ca, *cb, *cc) != 0 ==> fin(r) && val(r) == crad(*ca, *cb, *cc)",
      start=MM + "proof { lemma_crad(*ca, *cb, *cc); lemma_ar(*ca, *cb, *cc); }"),
   Fn("circumcentre_coordinates", requires="bpt(*a, 65536), bpt(*b, 65536), bpt(*c, 65536), cd(*a, *b, *c) != 0",
      ensures="fin(r.x), fin(r.y), val(r.x) == rnd(it(c.x) as real - quo(cnx(*a, *b, *c), cd(*a, *b, *c))), val(r.y) == rnd(it(c.y) as real + quo(cny(*a, *b, *c), cd(*a, *b, *c)))",
      start=MM + "proof { lemma_cb(*a, *b, *c, 65536); lemma_iqs(cnx(*a, *b, *c), cd(*a, *b, *c)); lemma_iqs(cny(*a, *b, *c), cd(*a, *b, *c)); }"),
   Fn("circumcentre_dd_coordinates", requires="bpt(*a, 1024), bpt(*b, 1024), bpt(*c, 1024), cd(*a, *b, *c) != 0",
      ensures="forall|q: int| cnx(*a, *b, *c) == #[trigger] imul(q, cd(*a, *b, *c)) && -33554432 <= q <= 33554432 ==> isi(r.x) && it(r.x) == it(c.x) - q, forall|q: int| cny(*a, *b, *c) == #[trigger] imul(q, cd(*a, *b, *c)) && -33554432 <= q <= 33554432 ==> isi(r.y) && it(r.y) == it(c.y) + q",
      start=BI + "proof { lemma_cb(*a, *b, *c, 1024); }"),
   Fn("perpendicular_bisector_coordinates", requires="bpt(*a, 524288), bpt(*b, 524288)", ensures="hcr(r, -((it(b.x) - it(a.x)) as real), -((it(b.y) - it(a.y)) as real), ((it(b.x) - it(a.x)) * (it(a.x) + it(b.x)) + (it(b.y) - it(a.y)) * (it(a.y) + it(b.y))) as real / 2real)",
      start=MM + "proof { lemma_pbx(*a, *b); }"),
   Fn("area_3d_coordinates", requires="p11(*a), p11(*b), p11(*c)", ensures="fin(r), val(r) == rnd(sqrr(n2(*a, *b, *c) as real) / 2real)", start=MM + "broadcast use ax_sqrr; proof { lemma_n3(*a, *b, *c); lemma_sq2(n2(*a, *b, *c)); }"),
   Fn("interpolate_z_coordinates", requires="ipt(*p), ip3(*v0), ip3(*v1), ip3(*v2), zd(*v0, *v1, *v2) != 0", ensures="fin(r), val(r) == zr(*p, *v0, *v1, *v2)", start=MM + "proof { lemma_zb(*p, *v0, *v1, *v2); }"),
   Fn("is_acute", requires=P3, ensures="r == acute(self.p0, self.p1, self.p2)"),
   Fn("is_ccw", requires=P3, ensures="r == (dt(self.p0, self.p1, self.p2) > 0)"),
   Fn("area", requires=P3, ensures="fin(r), val(r) == rabs(ar2(self.p0, self.p1, self.p2) as real / 2real)"),
   Fn("signed_area", requires=P3, ensures="fin(r), val(r) == ar2(self.p0, self.p1, self.p2) as real / 2real"),
   Fn("length", requires=P3, ensures="fin(r), val(r) == l3(self.p0, self.p1, self.p2)"),
   Fn("longest_side_length", requires=P3, ensures="fin(r), val(r) == ma(ma(dist(self.p0, self.p1), dist(self.p1, self.p2)), dist(self.p2, self.p0))"),
   Fn("centroid", requires=P3, ensures="fin(r.x), fin(r.y), val(r.x) == quo(it(self.p0.x) + it(self.p1.x) + it(self.p2.x), 3), val(r.y) == quo(it(self.p0.y) + it(self.p1.y) + it(self.p2.y), 3)"),
   Fn("in_centre", requires=P3 + ", !(eqp(self.p0, self.p1) && eqp(self.p1, self.p2))", ensures="fin(r.x), fin(r.y), val(r.x) == wt(dist(self.p1, self.p2), dist(self.p0, self.p2), dist(self.p0, self.p1), it(self.p0.x), it(self.p1.x), it(self.p2.x)), val(r.y) == wt(dist(self.p1, self.p2), dist(self.p0, self.p2), dist(self.p0, self.p1), it(self.p0.y), it(self.p1.y), it(self.p2.y))"),
   Fn("circumradius", requires=P3, ensures="dt(self.p0, self.p1, self.p2) == 0 ==> !fin(r), dt(self.p0, self.p1, self.p2) != 0 ==> fin(r) && val(r) == crad(self.p0, self.p1, self.p2)"),
   Fn("circumcentre", requires="bpt(self.p0, 65536), bpt(self.p1, 65536), bpt(self.p2, 65536), cd(self.p0, self.p1, self.p2) != 0",
      ensures="fin(r.x), fin(r.y), val(r.x) == rnd(it(self.p2.x) as real - quo(cnx(self.p0, self.p1, self.p2), cd(self.p0, self.p1, self.p2))), val(r.y) == rnd(it(self.p2.y) as real + quo(cny(self.p0, self.p1, self.p2), cd(self.p0, self.p1, self.p2)))"),
   Fn("area_3d", requires="p11(self.p0), p11(self.p1), p11(self.p2)", ensures="fin(r), val(r) == rnd(sqrr(n2(self.p0, self.p1, self.p2) as real) / 2real)"),
   Fn("interpolate_z", requires="ipt(*p), ip3(self.p0), ip3(self.p1), ip3(self.p2), zd(self.p0, self.p1, self.p2) != 0", ensures="fin(r), val(r) == zr(*p, self.p0, self.p1, self.p2)"),
 ])]
PRELUDE += """
pub broadcast axiom fn ax_sqrr1(x: real) ensures x >= 1real ==> 1real <= #[trigger] sqrr(x) <= x;
pub proof fn lemma_sq2(k: int) requires 0 <= k <= 4503599627370496 ensures inrange(sqrr(k as real) / 2real), sqrr(k as real) >= 0real { broadcast use ax_sqrr, ax_sqrr1, ax_big; }
pub open spec fn crad(a: Coordinate, b: Coordinate, c: Coordinate) -> real { rnd(rnd(rnd(dist(a, b) * dist(b, c)) * dist(c, a)) / rnd(4real * rabs(ar2(a, b, c) as real / 2real))) }
pub proof fn lemma_crad(a: Coordinate, b: Coordinate, c: Coordinate) requires ipt(a), ipt(b), ipt(c)
  ensures inrange(dist(a, b) * dist(b, c)), inrange(rnd(dist(a, b) * dist(b, c)) * dist(c, a)), inrange(4real * rabs(ar2(a, b, c) as real / 2real)), rnd(4real * rabs(ar2(a, b, c) as real / 2real)) == 2real * rabs(ar2(a, b, c) as real),
    dt(a, b, c) != 0 ==> inrange(rnd(rnd(dist(a, b) * dist(b, c)) * dist(c, a)) / rnd(4real * rabs(ar2(a, b, c) as real / 2real))) && rnd(4real * rabs(ar2(a, b, c) as real / 2real)) >= 2real
{ broadcast use ax_big; lemma_ip(a, b); lemma_ip(b, c); lemma_ip(c, a); lemma_ar(a, b, c); let (x, y, z) = (dist(a, b), dist(b, c), dist(c, a)); let k = ar2(a, b, c); let n = 67108864real;
  assert(0real <= x * y <= 4503599627370496real) by (nonlinear_arith) requires 0real <= x <= 67108864real, 0real <= y <= 67108864real; ax_rnd_zero(); ax_rnd_int(4503599627370496); ax_rnd_mono(0real, x * y); ax_rnd_mono(x * y, 4503599627370496real); let p = rnd(x * y);
  assert(0real <= p * z <= 302231454903657293676544real) by (nonlinear_arith) requires 0real <= p <= 4503599627370496real, 0real <= z <= 67108864real; lemma_rb(p * z); let w = rnd(p * z);
  let j = if k >= 0 { 2 * k } else { -2 * k }; assert(4real * rabs(k as real / 2real) == j as real); ax_rnd_int(j);
  if k != 0 { let u = j as real; assert(u >= 2real); let q = w / u; assert(q * u == w) by (nonlinear_arith) requires q == w / u, u != 0real; lemma_absmul(q, u, w); } }
pub proof fn lemma_pbx(a: Coordinate, b: Coordinate) requires bpt(a, 524288), bpt(b, 524288)
  ensures ({ let (p, q, m, n) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(a.x) + it(b.x), it(a.y) + it(b.y)); let (x, y) = (m as real / 2real, n as real / 2real); let (u, v) = ((m - 2 * q) as real / 2real, (n + 2 * p) as real / 2real);
    rnd(p as real / 2real) == p as real / 2real && rnd(q as real / 2real) == q as real / 2real && rnd(it(a.x) as real + p as real / 2real) == x && rnd(it(a.y) as real + q as real / 2real) == y
    && rnd((it(a.x) - q) as real + p as real / 2real) == u && rnd((it(a.y) + p) as real + q as real / 2real) == v
    && rnd(rnd(x * v) - rnd(u * y)) == (p * m + q * n) as real / 2real && rnd(rnd(y * 1real) - rnd(v * 1real)) == -(p as real) && rnd(rnd(u * 1real) - rnd(x * 1real)) == -(q as real) }), big() > 9007199254740992real
{ broadcast use ax_big; let (p, q, m, n) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(a.x) + it(b.x), it(a.y) + it(b.y)); ax_rnd_half(p); ax_rnd_half(q); ax_rnd_half(m); ax_rnd_half(n); ax_rnd_half(m - 2 * q); ax_rnd_half(n + 2 * p); lemma_pbis(m, n, p, q);
  assert(it(a.x) as real + p as real / 2real == m as real / 2real); assert(it(a.y) as real + q as real / 2real == n as real / 2real);
  assert((it(a.x) - q) as real + p as real / 2real == (m - 2 * q) as real / 2real); assert((it(a.y) + p) as real + q as real / 2real == (n + 2 * p) as real / 2real); }
"""
LEMMAS = """
// laws over the contracts
/// area and side: twice the signed area is minus the determinant; swapping two corners negates, rotating keeps
pub proof fn theorem_area(a: Coordinate, b: Coordinate, c: Coordinate) requires ipt(a), ipt(b), ipt(c)
  ensures ar2(a, b, c) == -dt(a, b, c), ar2(b, a, c) == -ar2(a, b, c), ar2(b, c, a) == ar2(a, b, c), ar2(a, c, b) == -ar2(a, b, c)
{ lemma_ar(a, b, c); lemma_ar(b, a, c); lemma_ar(b, c, a); lemma_ar(a, c, b); lemma_perm(a, b, c); lemma_perm(a, c, b); }
pub proof fn lemma_perm(a: Coordinate, b: Coordinate, c: Coordinate) ensures dt(b, a, c) == -dt(a, b, c), dt(b, c, a) == dt(a, b, c), dt(c, a, b) == dt(a, b, c), dt(a, c, b) == -dt(a, b, c)
{ let (ux, uy, wx, wy) = (it(b.x) - it(a.x), it(b.y) - it(a.y), it(c.x) - it(a.x), it(c.y) - it(a.y)); let e = ux * wy - uy * wx;
  assert(dt(a, b, c) == ux * (wy - uy) - uy * (wx - ux)); assert(ux * (wy - uy) - uy * (wx - ux) == e) by (nonlinear_arith) requires e == ux * wy - uy * wx;
  assert(dt(b, a, c) == (-ux) * wy - (-uy) * wx); assert((-ux) * wy - (-uy) * wx == -e) by (nonlinear_arith) requires e == ux * wy - uy * wx;
  assert(dt(b, c, a) == (wx - ux) * (-wy) - (wy - uy) * (-wx)); assert((wx - ux) * (-wy) - (wy - uy) * (-wx) == e) by (nonlinear_arith) requires e == ux * wy - uy * wx;
  assert(dt(c, a, b) == (-wx) * uy - (-wy) * ux); assert((-wx) * uy - (-wy) * ux == e) by (nonlinear_arith) requires e == ux * wy - uy * wx;
  assert(dt(a, c, b) == wx * (uy - wy) - wy * (ux - wx)); assert(wx * (uy - wy) - wy * (ux - wx) == -e) by (nonlinear_arith) requires e == ux * wy - uy * wx; }
/// the order of the corners does not matter: not to whether a point is within, nor acuteness, perimeter sides or longest side
pub proof fn theorem_within(a: Coordinate, b: Coordinate, c: Coordinate, p: Coordinate) requires dt(a, b, c) != 0
  ensures within(a, b, c, p) == within(b, c, a, p), within(a, b, c, p) == within(b, a, c, p), within(a, b, c, p) == within(a, c, b, p),
    within(a, b, c, a), within(a, b, c, b), within(a, b, c, c)
{ lemma_perm(a, b, c); lemma_perm(a, b, p); lemma_perm(b, c, p); lemma_perm(c, a, p); lemma_same(a, b); lemma_same(b, c); lemma_same(c, a); }
pub proof fn lemma_same(a: Coordinate, b: Coordinate) ensures dt(a, b, a) == 0, dt(a, b, b) == 0, dt(b, a, a) == 0, dt(b, a, b) == 0
{ let (x, y) = (it(b.x) - it(a.x), it(b.y) - it(a.y)); assert(dt(a, b, a) == x * (-y) - y * (-x)); assert(x * (-y) - y * (-x) == 0) by (nonlinear_arith); assert(dt(a, b, b) == x * 0 - y * 0); assert(x * 0 - y * 0 == 0) by (nonlinear_arith);
  assert(dt(b, a, b) == (-x) * y - (-y) * x); assert((-x) * y - (-y) * x == 0) by (nonlinear_arith); assert(dt(b, a, a) == (-x) * 0 - (-y) * 0); assert((-x) * 0 - (-y) * 0 == 0) by (nonlinear_arith); }
/// the point of a triangle sum to it: exactly the convex combinations
pub proof fn theorem_convex(a: Coordinate, b: Coordinate, c: Coordinate, p: Coordinate) ensures dt(a, b, p) + dt(b, c, p) + dt(c, a, p) == dt(a, b, c)
{ let (ax, ay, bx, by, cx, cy) = (it(a.x) - it(p.x), it(a.y) - it(p.y), it(b.x) - it(p.x), it(b.y) - it(p.y), it(c.x) - it(p.x), it(c.y) - it(p.y));
  assert(dt(a, b, p) == (bx - ax) * (-by) - (by - ay) * (-bx)); assert(dt(b, c, p) == (cx - bx) * (-cy) - (cy - by) * (-cx)); assert(dt(c, a, p) == (ax - cx) * (-ay) - (ay - cy) * (-ax)); assert(dt(a, b, c) == (bx - ax) * (cy - by) - (by - ay) * (cx - bx));
  assert((bx - ax) * (-by) - (by - ay) * (-bx) == ax * by - ay * bx) by (nonlinear_arith); assert((cx - bx) * (-cy) - (cy - by) * (-cx) == bx * cy - by * cx) by (nonlinear_arith); assert((ax - cx) * (-ay) - (ay - cy) * (-ax) == cx * ay - cy * ax) by (nonlinear_arith);
  assert((bx - ax) * (cy - by) == bx * cy - bx * by - ax * cy + ax * by) by (nonlinear_arith); assert((by - ay) * (cx - bx) == by * cx - by * bx - ay * cx + ay * bx) by (nonlinear_arith); assert(bx * by == by * bx && ay * cx == cx * ay && ax * cy == cy * ax) by (nonlinear_arith); }
pub proof fn theorem_acute(a: Coordinate, b: Coordinate, c: Coordinate) ensures acute(a, b, c) == acute(b, c, a), acute(a, b, c) == acute(b, a, c), acute(a, b, c) == acute(a, c, b)
{ lemma_dp(a, b, c); lemma_dp(b, c, a); lemma_dp(c, a, b); }
proof fn lemma_dp(a: Coordinate, b: Coordinate, c: Coordinate) ensures dotp(a, b, c) == dotp(c, b, a)
{ let (ux, uy, wx, wy) = (it(a.x) - it(b.x), it(a.y) - it(b.y), it(c.x) - it(b.x), it(c.y) - it(b.y)); assert(ux * wx == wx * ux && uy * wy == wy * uy) by (nonlinear_arith); }
pub proof fn theorem_sides(a: Coordinate, b: Coordinate, c: Coordinate) requires ipt(a), ipt(b), ipt(c)
  ensures ({ let m = |p: Coordinate, q: Coordinate, r: Coordinate| ma(ma(dist(p, q), dist(q, r)), dist(r, p)); m(a, b, c) == m(b, c, a) && m(a, b, c) == m(b, a, c) && m(a, b, c) == m(a, c, b) })
{ lemma_ip(a, b); lemma_ip(b, c); lemma_ip(c, a); lemma_ip(b, a); lemma_ip(c, b); lemma_ip(a, c); }
/// the circumcentre is as far from a and b as from c: |u|^2 = |u - a|^2 with u = (-cnx, cny)/cd
pub proof fn theorem_equidistant(a: Coordinate, b: Coordinate, c: Coordinate)
  ensures 2 * ((-cnx(a, b, c)) * (it(a.x) - it(c.x)) + cny(a, b, c) * (it(a.y) - it(c.y))) == len2(c, a) * cd(a, b, c), 2 * ((-cnx(a, b, c)) * (it(b.x) - it(c.x)) + cny(a, b, c) * (it(b.y) - it(c.y))) == len2(c, b) * cd(a, b, c)
{ let (ax, ay, bx, by, a2, b2) = (it(a.x) - it(c.x), it(a.y) - it(c.y), it(b.x) - it(c.x), it(b.y) - it(c.y), len2(c, a), len2(c, b)); lemma_eq(ax, ay, bx, by, a2, b2); }
proof fn lemma_eq(ax: int, ay: int, bx: int, by: int, a2: int, b2: int)
  ensures ({ let (x, y, w) = (ay * b2 - a2 * by, ax * b2 - a2 * bx, 2 * (ax * by - ay * bx)); 2 * ((-x) * ax + y * ay) == a2 * w && 2 * ((-x) * bx + y * by) == b2 * w })
{ let (x, y) = (ay * b2 - a2 * by, ax * b2 - a2 * bx); let w = 2 * (ax * by - ay * bx); let (k, l, m) = (ax * ay, ax * by, ay * bx); let n = bx * by;
  assert((-x) * ax == a2 * l - b2 * k) by (nonlinear_arith) requires x == ay * b2 - a2 * by, l == ax * by, k == ax * ay; assert(y * ay == b2 * k - a2 * m) by (nonlinear_arith) requires y == ax * b2 - a2 * bx, k == ax * ay, m == ay * bx;
  assert(a2 * w == 2 * (a2 * l) - 2 * (a2 * m)) by (nonlinear_arith) requires w == 2 * (l - m);
  assert((-x) * bx == a2 * n - b2 * m) by (nonlinear_arith) requires x == ay * b2 - a2 * by, n == bx * by, m == ay * bx; assert(y * by == b2 * l - a2 * n) by (nonlinear_arith) requires y == ax * b2 - a2 * bx, l == ax * by, n == bx * by;
  assert(b2 * w == 2 * (b2 * l) - 2 * (b2 * m)) by (nonlinear_arith) requires w == 2 * (l - m); }
/// and it is one point whatever the order of the corners: there is no other point equidistant from all three
pub proof fn theorem_unique(ax: int, ay: int, bx: int, by: int, x: int, y: int, w: int) requires x * ax + y * ay == 0, x * bx + y * by == 0, ax * by - ay * bx != 0 ensures x == 0, y == 0
{ let d = ax * by - ay * bx; assert(x * d == by * (x * ax + y * ay) - ay * (x * bx + y * by)) by (nonlinear_arith) requires d == ax * by - ay * bx; assert(y * d == ax * (x * bx + y * by) - bx * (x * ax + y * ay)) by (nonlinear_arith) requires d == ax * by - ay * bx;
  assert(by * 0 - ay * 0 == 0 && ax * 0 - bx * 0 == 0) by (nonlinear_arith); assert(x == 0) by (nonlinear_arith) requires x * d == 0, d != 0; assert(y == 0) by (nonlinear_arith) requires y * d == 0, d != 0; }
/// the divisor is twice the determinant
pub proof fn theorem_divisor(a: Coordinate, b: Coordinate, c: Coordinate) ensures cd(a, b, c) == 2 * dt(a, b, c)
{ let (ax, ay, bx, by) = (it(a.x) - it(c.x), it(a.y) - it(c.y), it(b.x) - it(c.x), it(b.y) - it(c.y)); assert(dt(a, b, c) == (bx - ax) * (-by) - (by - ay) * (-bx)); assert((bx - ax) * (-by) - (by - ay) * (-bx) == ax * by - ay * bx) by (nonlinear_arith); }
/// heights: exactly the corner's at a corner, and those of the plane through the three corners
pub proof fn theorem_corners(v0: Coordinate, v1: Coordinate, v2: Coordinate) requires ip3(v0), ip3(v1), ip3(v2), zd(v0, v1, v2) != 0
  ensures zr(v0, v0, v1, v2) == it(v0.z) as real, zr(v1, v0, v1, v2) == it(v1.z) as real, zr(v2, v0, v1, v2) == it(v2.z) as real
{ let (a, b, c, e) = (it(v1.x) - it(v0.x), it(v2.x) - it(v0.x), it(v1.y) - it(v0.y), it(v2.y) - it(v0.y)); let w = zd(v0, v1, v2);
  assert(e * 0 - b * 0 == 0 && a * 0 - c * 0 == 0) by (nonlinear_arith); assert(e * a - b * c == w && a * c - c * a == 0 && e * b - b * e == 0 && a * e - c * b == w) by (nonlinear_arith) requires w == a * e - b * c;
  let (q, o) = (w as real / w as real, 0real / w as real); let r = w as real; assert(q == 1real) by (nonlinear_arith) requires q == r / r, r != 0real; assert(o == 0real) by (nonlinear_arith) requires o == 0real / r, r != 0real; ax_rnd_int(1); ax_rnd_zero();
  let (z0, z1, z2) = (it(v0.z), it(v1.z), it(v2.z)); ax_rnd_int(z0); ax_rnd_int(z1); ax_rnd_int(z2); ax_rnd_int(z1 - z0); ax_rnd_int(z2 - z0); let (f, g) = ((z1 - z0) as real, (z2 - z0) as real);
  assert(0real * f == 0real && 1real * f == f && 0real * g == 0real && 1real * g == g); assert(0 as real == 0real); assert(z0 as real + f == z1 as real); assert(z0 as real + g == z2 as real); }
pub proof fn theorem_plane(p: Coordinate, v0: Coordinate, v1: Coordinate, v2: Coordinate, k: int, l: int, m: int)
  requires it(v0.z) == k * it(v0.x) + l * it(v0.y) + m, it(v1.z) == k * it(v1.x) + l * it(v1.y) + m, it(v2.z) == k * it(v2.x) + l * it(v2.y) + m
  ensures it(v0.z) * zd(v0, v1, v2) + zt(p, v0, v1, v2) * (it(v1.z) - it(v0.z)) + zu(p, v0, v1, v2) * (it(v2.z) - it(v0.z)) == (k * it(p.x) + l * it(p.y) + m) * zd(v0, v1, v2)
{ let (a, b, c, e, dx, dy) = (it(v1.x) - it(v0.x), it(v2.x) - it(v0.x), it(v1.y) - it(v0.y), it(v2.y) - it(v0.y), it(p.x) - it(v0.x), it(p.y) - it(v0.y)); let (t, u, w) = (zt(p, v0, v1, v2), zu(p, v0, v1, v2), zd(v0, v1, v2));
  assert(it(v1.z) - it(v0.z) == k * a + l * c) by (nonlinear_arith) requires it(v0.z) == k * it(v0.x) + l * it(v0.y) + m, it(v1.z) == k * it(v1.x) + l * it(v1.y) + m, a == it(v1.x) - it(v0.x), c == it(v1.y) - it(v0.y);
  assert(it(v2.z) - it(v0.z) == k * b + l * e) by (nonlinear_arith) requires it(v0.z) == k * it(v0.x) + l * it(v0.y) + m, it(v2.z) == k * it(v2.x) + l * it(v2.y) + m, b == it(v2.x) - it(v0.x), e == it(v2.y) - it(v0.y);
  assert(k * it(p.x) + l * it(p.y) + m == it(v0.z) + k * dx + l * dy) by (nonlinear_arith) requires it(v0.z) == k * it(v0.x) + l * it(v0.y) + m, dx == it(p.x) - it(v0.x), dy == it(p.y) - it(v0.y);
  lemma_bary(a, b, c, e, dx, dy); let z = it(v0.z); assert(t * a + u * b == dx * w && t * c + u * e == dy * w);
  lemma_tkl(t, k, a, l, c); lemma_tkl(u, k, b, l, e); lemma_tkl(w, k, dx, l, dy); let (ta, ub, tc, ue) = (t * a, u * b, t * c, u * e); assert(k * (ta + ub) == k * ta + k * ub && l * (tc + ue) == l * tc + l * ue) by (nonlinear_arith);
  let r = k * dx + l * dy; assert((z + r) * w == z * w + w * r) by (nonlinear_arith); assert(w * dx == dx * w && w * dy == dy * w) by (nonlinear_arith); }
proof fn lemma_tkl(t: int, k: int, a: int, l: int, c: int) ensures t * (k * a + l * c) == k * (t * a) + l * (t * c)
{ let (p, q) = (k * a, l * c); assert(t * (p + q) == t * p + t * q) by (nonlinear_arith); assert(t * p == k * (t * a)) by (nonlinear_arith) requires p == k * a; assert(t * q == l * (t * c)) by (nonlinear_arith) requires q == l * c; }
proof fn lemma_bary(a: int, b: int, c: int, e: int, dx: int, dy: int) ensures ({ let (t, u, w) = (e * dx - b * dy, a * dy - c * dx, a * e - b * c); t * a + u * b == dx * w && t * c + u * e == dy * w })
{ let (t, u, w) = (e * dx - b * dy, a * dy - c * dx, a * e - b * c); 
  assert(t * a + u * b == dx * w) by (nonlinear_arith) requires t == e * dx - b * dy, u == a * dy - c * dx, w == a * e - b * c; assert(t * c + u * e == dy * w) by (nonlinear_arith) requires t == e * dx - b * dy, u == a * dy - c * dx, w == a * e - b * c; }
/// a point on the perpendicular bisector is equally far from both ends: its homogeneous line is 2(b-a).(x) = |b|^2-|a|^2
pub proof fn theorem_bisector(a: Coordinate, b: Coordinate, x: int, y: int)
  ensures (2 * ((it(b.x) - it(a.x)) * x + (it(b.y) - it(a.y)) * y) == (it(b.x) - it(a.x)) * (it(a.x) + it(b.x)) + (it(b.y) - it(a.y)) * (it(a.y) + it(b.y)))
    == ((x - it(a.x)) * (x - it(a.x)) + (y - it(a.y)) * (y - it(a.y)) == (x - it(b.x)) * (x - it(b.x)) + (y - it(b.y)) * (y - it(b.y)))
{ lemma_b1(it(a.x), it(b.x), x); lemma_b1(it(a.y), it(b.y), y); }
proof fn lemma_b1(a: int, b: int, x: int) ensures (x - a) * (x - a) - (x - b) * (x - b) == 2 * ((b - a) * x) - (b - a) * (a + b) { assert((x - a) * (x - a) - (x - b) * (x - b) == 2 * ((b - a) * x) - (b - a) * (a + b)) by (nonlinear_arith); }
"""
ASSUMPTIONS = ["integer ordinates: up to 2^24 (circumcentre 2^16, in extended precision 2^10, bisector line 2^19, in space 2^11)", "hypot lies between either magnitude and their sum and is even, and is a double; sqrt lies between 1 and its argument from 1 on"]
