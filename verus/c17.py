from rsx import Fn
import copy
import common, c13
from common import BI
USES = ["f64"]
C = "src/core/algorithm/centroid.rs"
STRUCTS = [x for x in c13.STRUCTS if x[1] not in ("Area", "Length")] + [(C, "Centroid", "")]
PRELUDE = c13.PRELUDE + """
pub broadcast axiom fn ax_three() ensures #[trigger] val(3.0f64) == 3real, fin(3.0f64);
#[verifier::external_body]
pub fn cast_f64(k: i32) -> (r: f64) ensures isi(r), it(r) == k { k as f64 }
/// integer points up to 1024, with room for K of them
pub open spec fn K() -> int { 131072 }
pub open spec fn cp(c: Coordinate) -> bool { isi(c.x) && isi(c.y) && -1024 <= it(c.x) <= 1024 && -1024 <= it(c.y) <= 1024 }
pub open spec fn cpk(s: Seq<Coordinate>) -> bool { forall|i: int| 0 <= i < s.len() ==> cp(#[trigger] s[i]) }
pub open spec fn ix(c: Coordinate) -> int { it(c.x) }
pub open spec fn iy(c: Coordinate) -> int { it(c.y) }
// ---- areas: weight 0 is twice the area of the triangle, 1 and 2 its first moments (times six)
pub open spec fn a2(b: Coordinate, p: Coordinate, q: Coordinate) -> int { (ix(p) - ix(b)) * (iy(q) - iy(b)) - (ix(q) - ix(b)) * (iy(p) - iy(b)) }
pub open spec fn wt(w: int, b: Coordinate, p: Coordinate, q: Coordinate) -> int { if w == 0 { 1 } else if w == 1 { ix(b) + ix(p) + ix(q) } else { iy(b) + iy(p) + iy(q) } }
pub open spec fn bv(w: int, b: Coordinate, p: Coordinate, q: Coordinate) -> int { a2(b, p, q) * wt(w, b, p, q) }
pub open spec fn bf(w: int, b: Coordinate, s: Seq<Coordinate>, k: int) -> int decreases k { if k <= 0 { 0 } else { bf(w, b, s, k - 1) + bv(w, b, s[k - 1], s[k]) } }
pub open spec fn sn(p: bool) -> int { if p { 1 } else { -1 } }
/// what a ring adds: shells count positive when clockwise, holes when counter-clockwise
pub open spec fn shv(w: int, s: Seq<Coordinate>) -> int { if s.len() == 0 { 0 } else { sn(!ccws(s)) * bf(w, s[0], s, s.len() - 1) } }
pub open spec fn hov(w: int, b: Coordinate, s: Seq<Coordinate>) -> int { sn(ccws(s)) * bf(w, b, s, s.len() - 1) }
pub open spec fn pov(w: int, p: Polygon, k: int) -> int decreases k { if k <= 0 { shv(w, rv(p.shell)) } else { pov(w, p, k - 1) + hov(w, rv(p.shell)[0], rv(p.holes@[k - 1])) } }
pub open spec fn mov(w: int, v: Seq<Polygon>, k: int) -> int decreases k { if k <= 0 { 0 } else { mov(w, v, k - 1) + pov(w, v[k - 1], v[k - 1].holes@.len() as int) } }
// ---- lines: rounded sums over the segments that have length
pub open spec fn mid(a: f64, b: f64) -> real { (it(a) + it(b)) as real / 2real }
pub open spec fn ll(s: Seq<Coordinate>, k: int) -> real decreases k { if k <= 0 { 0real } else if eqv(s[k - 1], s[k]) { ll(s, k - 1) } else { rnd(ll(s, k - 1) + dist(s[k - 1], s[k])) } }
pub open spec fn lx(a: real, s: Seq<Coordinate>, k: int) -> real decreases k { if k <= 0 { a } else if eqv(s[k - 1], s[k]) { lx(a, s, k - 1) } else { rnd(lx(a, s, k - 1) + rnd(dist(s[k - 1], s[k]) * mid(s[k - 1].x, s[k].x))) } }
pub open spec fn ly(a: real, s: Seq<Coordinate>, k: int) -> real decreases k { if k <= 0 { a } else if eqv(s[k - 1], s[k]) { ly(a, s, k - 1) } else { rnd(ly(a, s, k - 1) + rnd(dist(s[k - 1], s[k]) * mid(s[k - 1].y, s[k].y))) } }
pub open spec fn nseg(s: Seq<Coordinate>) -> int { if s.len() == 0 { 0 } else { s.len() - 1 } }
/// no segment has length: the string is one point
pub open spec fn allone(s: Seq<Coordinate>, k: int) -> bool { forall|i: int| 0 < i <= k ==> eqv(s[i - 1], #[trigger] s[i]) }
pub open spec fn alone(s: Seq<Coordinate>) -> bool { s.len() > 0 && allone(s, s.len() - 1) }
// ---- the accumulator: what it holds is bounded by the number m of pieces put in
pub open spec fn wb(x: real, k: int) -> bool { -(k as real) <= x <= k as real }
#[verifier::opaque]
pub open spec fn fits(c: Centroid, m: int) -> bool {
  isi(c.areasum2) && isi(c.cg3.x) && isi(c.cg3.y) && isi(c.pt_cent_sum.x) && isi(c.pt_cent_sum.y) && fin(c.line_cent_sum.x) && fin(c.line_cent_sum.y) && fin(c.total_length)
  && -m * 8388608 <= it(c.areasum2) <= m * 8388608 && -m * 34359738368 <= it(c.cg3.x) <= m * 34359738368 && -m * 34359738368 <= it(c.cg3.y) <= m * 34359738368
  && wb(val(c.line_cent_sum.x), m * 4194304) && wb(val(c.line_cent_sum.y), m * 4194304) && 0real <= val(c.total_length) <= (m * 4096) as real && (val(c.total_length) == 0real || val(c.total_length) >= 1real)
  && -m * 1024 <= it(c.pt_cent_sum.x) <= m * 1024 && -m * 1024 <= it(c.pt_cent_sum.y) <= m * 1024 && 0 <= c.pt_count <= m && 0 <= m <= K() }
pub open spec fn same_lines(a: Centroid, b: Centroid) -> bool { a.line_cent_sum.x == b.line_cent_sum.x && a.line_cent_sum.y == b.line_cent_sum.y && a.total_length == b.total_length }
pub open spec fn same_pts(a: Centroid, b: Centroid) -> bool { a.pt_count == b.pt_count && a.pt_cent_sum.x == b.pt_cent_sum.x && a.pt_cent_sum.y == b.pt_cent_sum.y }
pub open spec fn same_area(a: Centroid, b: Centroid) -> bool { a.areasum2 == b.areasum2 && a.cg3.x == b.cg3.x && a.cg3.y == b.cg3.y }
/// b is a with the areas moved by these amounts
pub open spec fn area_by(a: Centroid, b: Centroid, p: int, q: int, r: int) -> bool { isi(b.areasum2) && isi(b.cg3.x) && isi(b.cg3.y) && it(b.areasum2) == it(a.areasum2) + p && it(b.cg3.x) == it(a.cg3.x) + q && it(b.cg3.y) == it(a.cg3.y) + r }
/// b is a after the segments of s, and its one point when none has length
pub open spec fn line_by(a: Centroid, b: Centroid, s: Seq<Coordinate>) -> bool {
  fin(b.line_cent_sum.x) && fin(b.line_cent_sum.y) && fin(b.total_length) && val(b.line_cent_sum.x) == lx(val(a.line_cent_sum.x), s, nseg(s)) && val(b.line_cent_sum.y) == ly(val(a.line_cent_sum.y), s, nseg(s))
  && val(b.total_length) == rnd(val(a.total_length) + ll(s, nseg(s))) && if alone(s) { point_by(a, b, s[0]) } else { same_pts(a, b) } }
pub open spec fn point_by(a: Centroid, b: Centroid, p: Coordinate) -> bool { b.pt_count == a.pt_count + 1 && isi(b.pt_cent_sum.x) && isi(b.pt_cent_sum.y) && it(b.pt_cent_sum.x) == it(a.pt_cent_sum.x) + ix(p) && it(b.pt_cent_sum.y) == it(a.pt_cent_sum.y) + iy(p) }
pub open spec fn lines_alike(a: Centroid, b: Centroid) -> bool { same_lines(a, b) && same_pts(a, b) }
/// after a ring that adds p, q, r to the areas
pub open spec fn ring_by(a: Centroid, b: Centroid, s: Seq<Coordinate>, p: int, q: int, r: int) -> bool { area_by(a, b, p, q, r) && line_by(a, b, s) }
/// growing the accumulator by n pieces
pub open spec fn grows(a: Centroid, b: Centroid, n: int) -> bool { forall|m: int| #[trigger] fits(a, m) && m + n <= K() ==> fits(b, m + n) }
pub open spec fn roomy(a: Centroid, n: int) -> bool { exists|m: int| #[trigger] fits(a, m) && m + n <= K() }
pub proof fn lemma_grow(a: Centroid, b: Centroid, c: Centroid, n: int, k: int) requires grows(a, b, n), grows(b, c, k), n >= 0, k >= 0 ensures grows(a, c, n + k)
{ assert forall|m: int| #[trigger] fits(a, m) && m + (n + k) <= K() implies fits(c, m + (n + k)) by { assert(fits(b, m + n)); } }
pub proof fn lemma_room(a: Centroid, b: Centroid, n: int, k: int) requires grows(a, b, n), roomy(a, n + k), n >= 0, k >= 0 ensures roomy(b, k)
{ let m = choose|m: int| #[trigger] fits(a, m) && m + (n + k) <= K(); assert(fits(b, m + n)); }
pub proof fn lemma_a2(b: Coordinate, p: Coordinate, q: Coordinate) requires cp(b), cp(p), cp(q)
  ensures -8388608 <= a2(b, p, q) <= 8388608, -34359738368 <= bv(1, b, p, q) <= 34359738368, -34359738368 <= bv(2, b, p, q) <= 34359738368, bv(0, b, p, q) == a2(b, p, q),
   -4194304 <= (ix(p) - ix(b)) * (iy(q) - iy(b)) <= 4194304, -4194304 <= (ix(q) - ix(b)) * (iy(p) - iy(b)) <= 4194304
{ let (u, v, s, t) = (ix(p) - ix(b), iy(q) - iy(b), ix(q) - ix(b), iy(p) - iy(b)); lemma_m(u, v, 2048, 2048); lemma_m(s, t, 2048, 2048);
  let a = a2(b, p, q); assert(-8388608 <= a <= 8388608); lemma_m(a, wt(1, b, p, q), 8388608, 3072); lemma_m(a, wt(2, b, p, q), 8388608, 3072); assert(a * 1 == a); }
pub proof fn lemma_m(u: int, v: int, a: int, b: int) requires -a <= u <= a, -b <= v <= b, a >= 0, b >= 0 ensures -(a * b) <= u * v <= a * b
{ assert(-(a * b) <= u * v <= a * b) by (nonlinear_arith) requires -a <= u <= a, -b <= v <= b, a >= 0, b >= 0; }
/// one segment
pub open spec fn sgl(p: Coordinate, q: Coordinate) -> real { dist(p, q) }
pub proof fn lemma_seg1(p: Coordinate, q: Coordinate) requires cp(p), cp(q)
  ensures lip(p), lip(q), 0real <= dist(p, q) <= 4096real, !eqv(p, q) ==> dist(p, q) >= 1real, mid(p.x, q.x) == rnd(mid(p.x, q.x)), mid(p.y, q.y) == rnd(mid(p.y, q.y)), rabs(mid(p.x, q.x)) <= 1024real, rabs(mid(p.y, q.y)) <= 1024real,
   inrange(mid(p.x, q.x)), inrange(mid(p.y, q.y)), eqv(p, q) == (ix(p) == ix(q) && iy(p) == iy(q))
{ broadcast use ax_hypr, ax_big; assert(val(p.x) == ix(p) as real); ax_rnd_half(it(p.x) + it(q.x)); ax_rnd_half(it(p.y) + it(q.y)); ax_rnd_int(it(p.x) - it(q.x)); ax_rnd_int(it(p.y) - it(q.y));
  assert(val(p.x) - val(q.x) == (it(p.x) - it(q.x)) as real); assert(val(p.y) - val(q.y) == (it(p.y) - it(q.y)) as real); }
pub proof fn lemma_pr(d: real, m: real) requires 0real <= d <= 4096real, rabs(m) <= 1024real ensures rabs(d * m) <= 4194304real, inrange(d * m), rabs(rnd(d * m)) <= 4194304real
{ broadcast use ax_big; assert(rabs(d * m) <= 4194304real) by (nonlinear_arith) requires 0real <= d <= 4096real, -1024real <= m <= 1024real, rabs(d * m) == (if d * m >= 0real { d * m } else { -(d * m) });
  ax_rnd_int(4194304); ax_rnd_int(-4194304); ax_rnd_mono(d * m, 4194304real); ax_rnd_mono(-4194304real, d * m); }
/// a rounded sum stays within the number of pieces
pub proof fn lemma_wb(x: real, t: real, k: int, j: int) requires wb(x, k), wb(t, j), 0 <= k, 0 <= j, k + j <= 9007199254740992 ensures wb(rnd(x + t), k + j), inrange(x + t)
{ broadcast use ax_big; ax_rnd_int(k + j); ax_rnd_int(-(k + j)); ax_rnd_mono(x + t, (k + j) as real); ax_rnd_mono((-(k + j)) as real, x + t); }
pub proof fn lemma_lb(a: real, s: Seq<Coordinate>, k: int, m: int) requires cpk(s), 0 <= k <= nseg(s), 0 <= m, m + k <= K(), wb(a, m * 4194304)
  ensures wb(lx(a, s, k), (m + k) * 4194304), wb(ly(a, s, k), (m + k) * 4194304), 0real <= ll(s, k) <= (k * 4096) as real, ll(s, k) == 0real || ll(s, k) >= 1real, (ll(s, k) == 0real) == allone(s, k), rnd(ll(s, k)) == ll(s, k) decreases k
{ ax_rnd_zero();
  if k > 0 { lemma_lb(a, s, k - 1, m); let (p, q) = (s[k - 1], s[k]); assert(cp(p) && cp(q)); lemma_seg1(p, q); let d = dist(p, q); lemma_pr(d, mid(p.x, q.x)); lemma_pr(d, mid(p.y, q.y));
    let j = m + k - 1; assert((j + 1) * 4194304 == j * 4194304 + 4194304); lemma_wb(lx(a, s, k - 1), rnd(d * mid(p.x, q.x)), j * 4194304, 4194304); lemma_wb(ly(a, s, k - 1), rnd(d * mid(p.y, q.y)), j * 4194304, 4194304);
    let l = ll(s, k - 1) + d; ax_rnd_int(k * 4096); ax_rnd_int(1); if eqv(p, q) { assert(allone(s, k) == allone(s, k - 1)) by { if allone(s, k - 1) { assert forall|i: int| 0 < i <= k implies eqv(s[i - 1], #[trigger] s[i]) by { if i == k { } } } } }
    else { assert(!allone(s, k)) by { if allone(s, k) { assert(eqv(s[k - 1], s[k])); } } ax_rnd_mono(l, (k * 4096) as real); ax_rnd_mono(1real, l); ax_rnd_idm(l); } }
  else { assert(allone(s, k)); } }
/// rounding is idempotent
pub axiom fn ax_rnd_idm(x: real) ensures rnd(rnd(x)) == rnd(x);
pub proof fn lemma_q(x: real, a: real) requires rabs(a) >= 1real ensures rabs(x / a) <= rabs(x)
{ assert((x / a) * a == x) by (nonlinear_arith) requires a != 0real; let q = x / a; assert(rabs(q) <= rabs(x)) by (nonlinear_arith) requires q * a == x, rabs(a) >= 1real, rabs(q) == (if q >= 0real { q } else { -q }), rabs(x) == (if x >= 0real { x } else { -x }), rabs(a) == (if a >= 0real { a } else { -a }); }
/// the weights of a polygon: twice its points
pub open spec fn glens(p: Polygon, k: int) -> int decreases k { if k <= 0 { rv(p.shell).len() as int } else { glens(p, k - 1) + rv(p.holes@[k - 1]).len() } }
pub open spec fn mlens(v: Seq<Polygon>, k: int) -> int decreases k { if k <= 0 { 0 } else { mlens(v, k - 1) + glens(v[k - 1], v[k - 1].holes@.len() as int) } }
pub proof fn lemma_gl(p: Polygon, k: int, n: int) requires 0 <= k <= n ensures 0 <= glens(p, k) <= glens(p, n) decreases n { if n > 0 { if k < n { lemma_gl(p, k, n - 1); } else { lemma_gl(p, k - 1, k - 1); } } }
pub proof fn lemma_ml(v: Seq<Polygon>, k: int, n: int) requires 0 <= k <= n ensures 0 <= mlens(v, k) <= mlens(v, n) decreases n { if n > 0 { lemma_gl(v[n - 1], 0, v[n - 1].holes@.len() as int); if k < n { lemma_ml(v, k, n - 1); } else { lemma_ml(v, k - 1, k - 1); } } }
pub open spec fn cpg(p: Polygon) -> bool { cpk(rv(p.shell)) && (forall|i: int| 0 <= i < p.holes@.len() ==> cpk(rv(#[trigger] p.holes@[i]))) && (rv(p.shell).len() == 0 ==> p.holes@.len() == 0) }
pub open spec fn cpm(v: Seq<Polygon>) -> bool { forall|i: int| 0 <= i < v.len() ==> cpg(#[trigger] v[i]) }
/// the lines of a polygon, in the order in which they are met
pub open spec fn plx(w: int, a: real, p: Polygon, k: int) -> real decreases k { if k <= 0 { lw(w, a, rv(p.shell)) } else { lw(w, plx(w, a, p, k - 1), rv(p.holes@[k - 1])) } }
pub open spec fn lw(w: int, a: real, s: Seq<Coordinate>) -> real { if w == 0 { rnd(a + ll(s, nseg(s))) } else if w == 1 { lx(a, s, nseg(s)) } else { ly(a, s, nseg(s)) } }
/// the points: one for each ring without length
pub open spec fn op(w: int, s: Seq<Coordinate>) -> int { if !alone(s) { 0 } else if w == 0 { 1 } else if w == 1 { ix(s[0]) } else { iy(s[0]) } }
pub open spec fn pop(w: int, p: Polygon, k: int) -> int decreases k { if k <= 0 { op(w, rv(p.shell)) } else { pop(w, p, k - 1) + op(w, rv(p.holes@[k - 1])) } }
pub open spec fn mlx(w: int, a: real, v: Seq<Polygon>, k: int) -> real decreases k { if k <= 0 { a } else { plx(w, mlx(w, a, v, k - 1), v[k - 1], v[k - 1].holes@.len() as int) } }
pub open spec fn mpop(w: int, v: Seq<Polygon>, k: int) -> int decreases k { if k <= 0 { 0 } else { mpop(w, v, k - 1) + pop(w, v[k - 1], v[k - 1].holes@.len() as int) } }
/// b is a after all this
pub open spec fn by(a: Centroid, b: Centroid, p: int, q: int, r: int, l: real, x: real, y: real, n: int, u: int, v: int) -> bool { area_by(a, b, p, q, r) && fin(b.line_cent_sum.x) && fin(b.line_cent_sum.y) && fin(b.total_length)
  && val(b.total_length) == l && val(b.line_cent_sum.x) == x && val(b.line_cent_sum.y) == y && b.pt_count == a.pt_count + n && it(b.pt_cent_sum.x) == it(a.pt_cent_sum.x) + u && it(b.pt_cent_sum.y) == it(a.pt_cent_sum.y) + v && isi(b.pt_cent_sum.x) && isi(b.pt_cent_sum.y) }
pub open spec fn poly_by(a: Centroid, b: Centroid, p: Polygon, k: int) -> bool { by(a, b, pov(0, p, k), pov(1, p, k), pov(2, p, k), plx(0, val(a.total_length), p, k), plx(1, val(a.line_cent_sum.x), p, k), plx(2, val(a.line_cent_sum.y), p, k), pop(0, p, k), pop(1, p, k), pop(2, p, k)) }
pub open spec fn multi_by(a: Centroid, b: Centroid, m: Seq<Polygon>, k: int) -> bool { by(a, b, mov(0, m, k), mov(1, m, k), mov(2, m, k), mlx(0, val(a.total_length), m, k), mlx(1, val(a.line_cent_sum.x), m, k), mlx(2, val(a.line_cent_sum.y), m, k), mpop(0, m, k), mpop(1, m, k), mpop(2, m, k)) }
/// the same polygon, whatever the copies
pub proof fn lemma_eqg(p: Polygon, q: Polygon, k: int, l: real, x: real, y: real) requires eqg(p, q), 0 <= k <= p.holes@.len()
  ensures pov(0, p, k) == pov(0, q, k), pov(1, p, k) == pov(1, q, k), pov(2, p, k) == pov(2, q, k), plx(0, l, p, k) == plx(0, l, q, k), plx(1, x, p, k) == plx(1, x, q, k), plx(2, y, p, k) == plx(2, y, q, k),
    pop(0, p, k) == pop(0, q, k), pop(1, p, k) == pop(1, q, k), pop(2, p, k) == pop(2, q, k), glens(p, k) == glens(q, k), cpg(p) == cpg(q) decreases k
{ assert(cpg(p) == cpg(q)) by { assert forall|i: int| 0 <= i < p.holes@.len() implies rv(p.holes@[i]) == rv(q.holes@[i]) by { assert(eqr(p.holes@[i], q.holes@[i])); }
    if cpg(p) { assert forall|i: int| 0 <= i < q.holes@.len() implies cpk(rv(#[trigger] q.holes@[i])) by { assert(cpk(rv(p.holes@[i]))); } } if cpg(q) { assert forall|i: int| 0 <= i < p.holes@.len() implies cpk(rv(#[trigger] p.holes@[i])) by { assert(cpk(rv(q.holes@[i]))); } } }
  if k > 0 { assert(eqr(p.holes@[k - 1], q.holes@[k - 1])); lemma_eqg(p, q, k - 1, l, x, y); } }
/// empty accumulator
pub open spec fn zero(c: Centroid) -> bool { isi(c.areasum2) && isi(c.cg3.x) && isi(c.cg3.y) && it(c.areasum2) == 0 && it(c.cg3.x) == 0 && it(c.cg3.y) == 0 && fin(c.line_cent_sum.x) && fin(c.line_cent_sum.y) && fin(c.total_length) && val(c.line_cent_sum.x) == 0real && val(c.line_cent_sum.y) == 0real && val(c.total_length) == 0real
   && c.pt_count == 0 && isi(c.pt_cent_sum.x) && isi(c.pt_cent_sum.y) && it(c.pt_cent_sum.x) == 0 && it(c.pt_cent_sum.y) == 0 && c.area_base_pt.is_none() }
/// the centroid of what has been put in: of the areas, else of the lines, else of the points
pub open spec fn answer(c: Centroid, r: Option<Coordinate>) -> bool {
  if it(c.areasum2) != 0 { r.is_some() && fin(r.unwrap().x) && fin(r.unwrap().y) && val(r.unwrap().x) == rnd(rnd(val(c.cg3.x) / 3real) / val(c.areasum2)) && val(r.unwrap().y) == rnd(rnd(val(c.cg3.y) / 3real) / val(c.areasum2)) }
  else if val(c.total_length) != 0real { r.is_some() && fin(r.unwrap().x) && fin(r.unwrap().y) && val(r.unwrap().x) == rnd(val(c.line_cent_sum.x) / val(c.total_length)) && val(r.unwrap().y) == rnd(val(c.line_cent_sum.y) / val(c.total_length)) }
  else if c.pt_count != 0 { r.is_some() && fin(r.unwrap().x) && fin(r.unwrap().y) && val(r.unwrap().x) == rnd(val(c.pt_cent_sum.x) / (c.pt_count as real)) && val(r.unwrap().y) == rnd(val(c.pt_cent_sum.y) / (c.pt_count as real)) }
  else { r.is_none() } }
/// the centroid of one polygon, of several
pub open spec fn panswer(p: Polygon, r: Option<Coordinate>) -> bool { exists|z: Centroid, c: Centroid| zero(z) && #[trigger] poly_by(z, c, p, p.holes@.len() as int) && answer(c, r) }
pub open spec fn manswer(v: Seq<Polygon>, r: Option<Coordinate>) -> bool { exists|z: Centroid, c: Centroid| zero(z) && #[trigger] multi_by(z, c, v, v.len() as int) && answer(c, r) }
pub proof fn lemma_zero(z: Centroid) requires zero(z) ensures fits(z, 0) { reveal(fits); }
"""
def ext(ty, *names):
    d = copy.deepcopy([x for x in c13.IMPLS if x.get("ty") == ty][0])
    d["fns"] = [f for f in d["fns"] if f.name in names]
    assert len(d["fns"]) == len(names), (ty, names)
    for f in d["fns"]:
        f.external = True
    return d
INV = """invariant cpk(S), cp(BP) || S.len() == 0, O == *old(self), 0 <= NN <= nseg(S), grows(O, *self, $v as int), roomy(*self, 2 * S.len() - $v), S.len() > 0 ==> self.area_base_pt == Some(BP), S.len() == 0 ==> self.area_base_pt == old(self).area_base_pt, is_positive_area == SP,
   area_by(O, *self, sn(SP) * bf(0, BP, S, $v as int), sn(SP) * bf(1, BP, S, $v as int), sn(SP) * bf(2, BP, S, $v as int)), lines_alike(O, *self), NN == nseg(S),"""
LOOP = dict(kind="for", inv=INV,
   start="let ghost Q = *self; proof { assert(cp(S[$v as int]) && cp(S[$v + 1])); lemma_less(*self, 1, 2 * S.len() - $v); lemma_dst(bf(0, BP, S, $v as int), bv(0, BP, S[$v as int], S[$v + 1])); lemma_dst(bf(1, BP, S, $v as int), bv(1, BP, S[$v as int], S[$v + 1])); lemma_dst(bf(2, BP, S, $v as int), bv(2, BP, S[$v as int], S[$v + 1])); }",
   end="proof { lemma_grow(O, Q, *self, $v as int, 1); lemma_room(Q, *self, 1, 2 * S.len() - $v - 1); }",
   before="proof { lemma_room(O, *self, 0, 2 * S.len() as int); }",
   after="let ghost P = *self; proof { lemma_less(*self, S.len() as int, 2 * S.len() - NN); }")
BODY = "let ghost S = pts@; let ghost O = *self; let ghost NN = nseg(pts@); proof { let l = pts.len(); assert(l == S.len()); lemma_fi(O, 2 * S.len() as int); lemma_id(O); "
END = "proof { lemma_grow(O, P, *self, NN, S.len() as int); lemma_more(O, *self, NN + S.len(), 2 * S.len() as int); }"
def more(d, fns): d["fns"] += fns; return d
PT = [Fn("create_point_from_internal_coord", ensures="self.precision_model.is_none() ==> pv(r) =~= seq![*old(coord)]")]
IMPLS = [dict(c13.CO, fns=[copy.deepcopy(f) for f in c13.CO["fns"] if f.name in ("default", "from_coordinate", "distance", "new_coordinatexy_default", "get_z", "get_m", "get_x", "get_y")]),
 ext("CoordinateArraySequence", "new_with_coordinates_dimension_measures"),
 dict(file="src/core/algorithm/orientation.rs", ty="Orientation", header="pub struct Orientation {}\nimpl Orientation {", fns=[Fn("is_ccw_coordinate_array_sequence", ensures="r == ccws(ring.coordinates@)", external=True), Fn("is_ccw_vec", ensures="r == ccws(ring@)")]),
 ext("Point", "get_coordinate", "default"), ext("LineString", "get_coordinates"), ext("LinearRing", "get_coordinates"),
 more(ext("Polygon", "get_exterior_ring", "get_num_interior_ring", "get_interior_ring_n", "is_empty"), PT + [
   Fn("get_centroid", requires="cpg(*self), 2 * glens(*self, self.holes@.len() as int) <= K()", ensures="rv(self.shell).len() == 0 ==> pv(r).len() == 0, rv(self.shell).len() > 0 && self.precision_model.is_none() ==> exists|o: Option<Coordinate>| #[trigger] panswer(*self, o) && match o { Some(c) => pv(r) =~= seq![c], None => pv(r).len() == 0 }")]), more(ext("MultiPolygon", "get_num_polygons", "get_polygon_at_index", "is_empty"), PT + [
   Fn("get_centroid", requires="cpm(self.polygons@), 2 * mlens(self.polygons@, self.polygons@.len() as int) <= K()", ensures="(forall|i: int| 0 <= i < self.polygons@.len() ==> rv((#[trigger] self.polygons@[i]).shell).len() == 0) ==> pv(r).len() == 0, !(forall|i: int| 0 <= i < self.polygons@.len() ==> rv((#[trigger] self.polygons@[i]).shell).len() == 0) && self.precision_model.is_none() ==> exists|o: Option<Coordinate>| #[trigger] manswer(self.polygons@, o) && match o { Some(c) => pv(r) =~= seq![c], None => pv(r).len() == 0 }")]),
 ext("GeometryFactory", "create_point_from_coordinate"), dict(file="src/core/geom/precision_model.rs", ty="PrecisionModel", fns=[Fn("make_precise_coordinate", external=True)]),
 dict(file=C, ty="Centroid", fns=[
   Fn("default", ensures="zero(r)", start=BI),
   Fn("set_area_base_point", ensures="final(self).area_base_pt == Some(*base_pt), same_area(*old(self), *final(self)), lines_alike(*old(self), *final(self)), grows(*old(self), *final(self), 0)", start="proof { reveal(fits); }"),
   Fn("area2", requires="cp(*p1), cp(*p2), cp(*p3)", ensures="isi(r), it(r) == a2(*p1, *p2, *p3)", start=BI + "proof { lemma_a2(*p1, *p2, *p3); }"),
   Fn("centroid3", requires="cp(*p1), cp(*p2), cp(*p3)", ensures="isi(final(c).x), isi(final(c).y), it(final(c).x) == wt(1, *p1, *p2, *p3), it(final(c).y) == wt(2, *p1, *p2, *p3)", start=BI),
   Fn("add_triangle", requires="cp(*p0), cp(*p1), cp(*p2), roomy(*old(self), 1)", ensures="""grows(*old(self), *final(self), 1), lines_alike(*old(self), *final(self)), final(self).area_base_pt == old(self).area_base_pt,
        area_by(*old(self), *final(self), sn(is_positive_area) * bv(0, *p0, *p1, *p2), sn(is_positive_area) * bv(1, *p0, *p1, *p2), sn(is_positive_area) * bv(2, *p0, *p1, *p2))""",
      start=BI + "let ghost O = *self; proof { reveal(fits); lemma_a2(*p0, *p1, *p2); let (a, x, y) = (a2(*p0, *p1, *p2), wt(1, *p0, *p1, *p2), wt(2, *p0, *p1, *p2)); assert((-a) * x == -(a * x)) by (nonlinear_arith); assert((-a) * y == -(a * y)) by (nonlinear_arith); assert((-1) * a == -a && 1 * a == a); }",
      end="proof { let (a, x, y) = (a2(*p0, *p1, *p2), wt(1, *p0, *p1, *p2), wt(2, *p0, *p1, *p2)); if is_positive_area { assert(sign == 1.0f64); assert(it(self.cg3.x) == it(O.cg3.x) + a * x); assert(it(self.cg3.y) == it(O.cg3.y) + a * y); } else { assert(it(self.cg3.x) == it(O.cg3.x) - a * x); assert(it(self.cg3.y) == it(O.cg3.y) - a * y); } let (u, v) = (a * x, a * y); assert(1 * u == u && (-1) * u == -u && 1 * v == v && (-1) * v == -v && 1 * a == a && (-1) * a == -a && a * 1 == a); assert(bv(0, *p0, *p1, *p2) == a && bv(1, *p0, *p1, *p2) == u && bv(2, *p0, *p1, *p2) == v); assert(it(self.areasum2) == it(O.areasum2) + sn(is_positive_area) * a); assert forall|m: int| #[trigger] fits(O, m) && m + 1 <= K() implies fits(*self, m + 1) by { } }"),
   Fn("add_point", requires="cp(*pt), roomy(*old(self), 1)", ensures="grows(*old(self), *final(self), 1), point_by(*old(self), *final(self), *pt), same_area(*old(self), *final(self)), same_lines(*old(self), *final(self)), final(self).area_base_pt == old(self).area_base_pt",
      start=BI + "proof { reveal(fits); }"),
   Fn("add_line_segments", requires="cpk(pts@), roomy(*old(self), pts@.len() as int)", ensures="grows(*old(self), *final(self), pts@.len() as int), line_by(*old(self), *final(self), pts@), same_area(*old(self), *final(self)), final(self).area_base_pt == old(self).area_base_pt",
      start="broadcast use f64_ax, ty_ax; let ghost S = pts@; let ghost O = *self; let ghost M = choose|m: int| #[trigger] fits(*self, m) && m + S.len() <= K(); proof { reveal(fits); let l = pts.len(); assert(l == S.len()); }",
      loops=[dict(kind="for", inv="""invariant cpk(S), fin(line_len), val(line_len) == ll(S, $v as int), fin(self.line_cent_sum.x), fin(self.line_cent_sum.y), val(self.line_cent_sum.x) == lx(val(O.line_cent_sum.x), S, $v as int), val(self.line_cent_sum.y) == ly(val(O.line_cent_sum.y), S, $v as int),
            same_area(O, *self), same_pts(O, *self), self.total_length == O.total_length, self.area_base_pt == O.area_base_pt,""",
        start="""proof { let k = $v as int; let (p, q) = (S[k], S[k + 1]); assert(cp(p) && cp(q)); lemma_seg1(p, q); lemma_pr(dist(p, q), mid(p.x, q.x)); lemma_pr(dist(p, q), mid(p.y, q.y)); lemma_lb(val(O.line_cent_sum.x), S, k, M); lemma_lb(val(O.line_cent_sum.y), S, k, M);
          lemma_wb(lx(val(O.line_cent_sum.x), S, k), rnd(dist(p, q) * mid(p.x, q.x)), (M + k) * 4194304, 4194304); lemma_wb(ly(val(O.line_cent_sum.y), S, k), rnd(dist(p, q) * mid(p.y, q.y)), (M + k) * 4194304, 4194304); lemma_wb(ll(S, k), dist(p, q), k * 4096, 4096);
          ax_rnd_int(it(p.x) + it(q.x)); ax_rnd_int(it(p.y) + it(q.y)); assert(val(p.x) + val(q.x) == (it(p.x) + it(q.x)) as real); assert(val(p.y) + val(q.y) == (it(p.y) + it(q.y)) as real); assert(inrange((it(p.x) + it(q.x)) as real)); assert(inrange((it(p.y) + it(q.y)) as real)); }""",
        after="""proof { let n = nseg(S); lemma_lb(val(O.line_cent_sum.x), S, n, M); lemma_lb(val(O.line_cent_sum.y), S, n, M); lemma_wb(val(O.total_length), ll(S, n), M * 4096, n * 4096); if S.len() > 0 { assert(cp(S[0])); }
           assert forall|m: int| #[trigger] fits(O, m) && m + S.len() <= K() implies wb(lx(val(O.line_cent_sum.x), S, n), (m + n) * 4194304) && wb(ly(val(O.line_cent_sum.y), S, n), (m + n) * 4194304) && 0real <= rnd(val(O.total_length) + ll(S, n)) <= ((m + n) * 4096) as real && (rnd(val(O.total_length) + ll(S, n)) == 0real || rnd(val(O.total_length) + ll(S, n)) >= 1real)
             by { lemma_lb(val(O.line_cent_sum.x), S, n, m); lemma_lb(val(O.line_cent_sum.y), S, n, m); lemma_wb(val(O.total_length), ll(S, n), m * 4096, n * 4096); let t = val(O.total_length) + ll(S, n); ax_rnd_zero(); ax_rnd_int(1); ax_rnd_mono(0real, t); if t != 0real { ax_rnd_mono(1real, t); } assert(m * 4096 + n * 4096 == (m + n) * 4096); } }""")],
      before=[(r"if line_len == 0", "let ghost P = *self; proof { assert forall|m: int| #[trigger] fits(O, m) && m + S.len() <= K() implies fits(P, m + nseg(S)) by { } assert(fits(P, M + nseg(S))); }")],
      end="proof { let n = nseg(S); if alone(S) { assert forall|m: int| #[trigger] fits(O, m) && m + S.len() <= K() implies fits(*self, m + S.len()) by { assert(fits(P, m + n)); } } else { assert forall|m: int| #[trigger] fits(O, m) && m + S.len() <= K() implies fits(*self, m + S.len()) by { assert(fits(P, m + n)); } } }"),
   Fn("add_shell", requires="cpk(pts@), roomy(*old(self), 2 * pts@.len() as int)", ensures="grows(*old(self), *final(self), 2 * pts@.len() as int), line_by(*old(self), *final(self), pts@), area_by(*old(self), *final(self), shv(0, pts@), shv(1, pts@), shv(2, pts@)), final(self).area_base_pt == if pts@.len() > 0 { Some(pts@[0]) } else { old(self).area_base_pt }",
      start=BODY + "if S.len() > 0 { assert(cp(S[0])); } } let ghost BP = S[0]; let ghost SP = !ccws(S);", loops=[LOOP], end=END),
   Fn("add_hole", requires="cpk(pts@), roomy(*old(self), 2 * pts@.len() as int), old(self).area_base_pt.is_some(), cp(old(self).area_base_pt.unwrap())", ensures="grows(*old(self), *final(self), 2 * pts@.len() as int), line_by(*old(self), *final(self), pts@), area_by(*old(self), *final(self), hov(0, old(self).area_base_pt.unwrap(), pts@), hov(1, old(self).area_base_pt.unwrap(), pts@), hov(2, old(self).area_base_pt.unwrap(), pts@)), final(self).area_base_pt == old(self).area_base_pt",
      start=BODY + "} let ghost BP = self.area_base_pt.unwrap(); let ghost SP = ccws(S);", loops=[LOOP], end=END),
   Fn("get_centroid", requires="exists|m: int| fits(*self, m)", ensures="answer(*self, r)", subst=[(r"self\.pt_count as f64", "cast_f64(self.pt_count)")],
      start="broadcast use f64_ax, ty_ax, ax_three; proof { reveal(fits); ax_rnd_zero(); let c = *self; let a = val(c.areasum2); lemma_q(val(c.cg3.x), 3real); lemma_q(val(c.cg3.y), 3real); lemma_mid(val(c.cg3.x) / 3real); lemma_mid(val(c.cg3.y) / 3real); if it(c.areasum2) != 0 { lemma_q(rnd(val(c.cg3.x) / 3real), a); lemma_q(rnd(val(c.cg3.y) / 3real), a); }"
        "  if val(c.total_length) != 0real { lemma_q(val(c.line_cent_sum.x), val(c.total_length)); lemma_q(val(c.line_cent_sum.y), val(c.total_length)); } if c.pt_count != 0 { lemma_q(val(c.pt_cent_sum.x), c.pt_count as real); lemma_q(val(c.pt_cent_sum.y), c.pt_count as real); } }"),
   Fn("new_from_point", requires="cpk(pv(*point)), pv(*point).len() <= 1", ensures="pv(*point).len() == 0 ==> zero(r), pv(*point).len() == 1 ==> exists|z: Centroid| zero(z) && #[trigger] point_by(z, r, pv(*point)[0]) && same_area(z, r) && same_lines(z, r), exists|m: int| fits(r, m)",
      after=[(r"Centroid::default\(\);", "let ghost z = new; proof { lemma_zero(z); assert(roomy(z, 1)); if pv(*point).len() == 1 { assert(cp(pv(*point)[0])); } }")]),
   Fn("new_from_line_string", requires="cpk(lv(*line_string)), lv(*line_string).len() <= K()", ensures="exists|z: Centroid| zero(z) && #[trigger] line_by(z, r, lv(*line_string)) && same_area(z, r), exists|m: int| fits(r, m)",
      after=[(r"Centroid::default\(\);", "let ghost z = new; proof { lemma_zero(z); assert(roomy(z, lv(*line_string).len() as int)); }")]),
   Fn("add_polygon", requires="cpg(*poly), roomy(*old(self), 2 * glens(*poly, poly.holes@.len() as int))", ensures="grows(*old(self), *final(self), 2 * glens(*poly, poly.holes@.len() as int)), poly_by(*old(self), *final(self), *poly, poly.holes@.len() as int)",
      start="let ghost O = *self; let ghost P = *poly; let ghost H = poly.holes@.len() as int; proof { lemma_gl(P, 0, H); lemma_less(O, 2 * glens(P, 0), 2 * glens(P, H)); lemma_fi(O, 2 * glens(P, H)); }",
      loops=[dict(kind="for", inv="""invariant cpg(P), P == *poly, H == P.holes@.len(), O == *old(self), roomy(O, 2 * glens(P, H)), grows(O, *self, 2 * glens(P, $v as int)), poly_by(O, *self, P, $v as int), rv(P.shell).len() > 0 ==> self.area_base_pt == Some(rv(P.shell)[0]), rv(P.shell).len() == 0 ==> H == 0,""",
        start="let ghost Q = *self; proof { let k = $v as int; lemma_gl(P, k, H); lemma_gl(P, k + 1, H); lemma_gl(P, 0, k); lemma_room(O, Q, 2 * glens(P, k), 2 * glens(P, H) - 2 * glens(P, k)); let h = rv(P.holes@[k]); lemma_less(Q, 2 * h.len() as int, 2 * glens(P, H) - 2 * glens(P, k)); assert(cpk(h)); assert(cp(rv(P.shell)[0])); }",
        end="proof { let k = $v as int; lemma_grow(O, Q, *self, 2 * glens(P, k), 2 * rv(P.holes@[k]).len() as int); }")]),
   Fn("new_from_polygon", requires="cpg(*polygon), 2 * glens(*polygon, polygon.holes@.len() as int) <= K()", ensures="exists|z: Centroid| zero(z) && #[trigger] poly_by(z, r, *polygon, polygon.holes@.len() as int), exists|m: int| fits(r, m)",
      after=[(r"Centroid::default\(\);", "let ghost z = new; proof { lemma_zero(z); assert(roomy(z, 2 * glens(*polygon, polygon.holes@.len() as int))); }")]),
   Fn("new_from_multi_polygon", requires="cpm(multi_polygon.polygons@), 2 * mlens(multi_polygon.polygons@, multi_polygon.polygons@.len() as int) <= K()", ensures="exists|z: Centroid| zero(z) && #[trigger] multi_by(z, r, multi_polygon.polygons@, multi_polygon.polygons@.len() as int), exists|m: int| fits(r, m)",
      after=[(r"Centroid::default\(\);", "let ghost z = new; let ghost V = multi_polygon.polygons@; let ghost L = V.len() as int; proof { lemma_zero(z); assert(roomy(z, 2 * mlens(V, L))); lemma_ml(V, 0, L); lemma_id(z); }")],
      loops=[dict(kind="for", inv="""invariant cpm(V), V == multi_polygon.polygons@, L == V.len(), zero(z), fits(z, 0), roomy(z, 2 * mlens(V, L)), grows(z, new, 2 * mlens(V, $v as int)), multi_by(z, new, V, $v as int),""",
        start="let ghost Q = new; proof { let k = $v as int; assert(cpg(V[k])); lemma_ml(V, k, L); lemma_ml(V, k + 1, L); lemma_ml(V, 0, k); lemma_room(z, Q, 2 * mlens(V, k), 2 * mlens(V, L) - 2 * mlens(V, k)); let g = glens(V[k], V[k].holes@.len() as int); lemma_gl(V[k], 0, V[k].holes@.len() as int); lemma_less(Q, 2 * g, 2 * mlens(V, L) - 2 * mlens(V, k)); lemma_same(V[k]); }",
        end="proof { let k = $v as int; let g = glens(V[k], V[k].holes@.len() as int); lemma_gl(V[k], 0, V[k].holes@.len() as int); lemma_grow(z, Q, new, 2 * mlens(V, k), 2 * g); lemma_pos(V[k], Q); }")]),
   Fn("get_centroid_from_point", requires="cpk(pv(*point)), pv(*point).len() <= 1", ensures="pv(*point).len() == 0 ==> r.is_none(), pv(*point).len() == 1 ==> r.is_some() && eqv(r.unwrap(), pv(*point)[0]) && fin(r.unwrap().x) && fin(r.unwrap().y)", after=[(r"new_from_point\(\w+\);", "proof { if pv(*point).len() == 1 { let q = pv(*point)[0]; assert(cp(q)); ax_rnd_float(q.x); ax_rnd_float(q.y); assert(val(q.x) / 1real == val(q.x) && val(q.y) / 1real == val(q.y)); } }")]),
   Fn("get_centroid_from_polygon", requires="cpg(*polygon), 2 * glens(*polygon, polygon.holes@.len() as int) <= K()", ensures="panswer(*polygon, r)"),
   Fn("get_centroid_from_multi_polygon", requires="cpm(multi_polygon.polygons@), 2 * mlens(multi_polygon.polygons@, multi_polygon.polygons@.len() as int) <= K()", ensures="manswer(multi_polygon.polygons@, r)"),
 ])]
LEMMAS = """
// ---- the sums of a closed ring do not depend on the base point: they are sums over its edges
pub open spec fn ea(p: Coordinate, q: Coordinate) -> int { ix(p) * iy(q) - ix(q) * iy(p) }
pub open spec fn ev(w: int, p: Coordinate, q: Coordinate) -> int { if w == 0 { ea(p, q) } else if w == 1 { ea(p, q) * (ix(p) + ix(q)) } else { ea(p, q) * (iy(p) + iy(q)) } }
pub open spec fn ef(w: int, s: Seq<Coordinate>, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { ef(w, s, a, b - 1) + ev(w, s[b - 1], s[b]) } }
pub proof fn lemma_pol(a: int, b: int, c: int, d: int, e: int, f: int) ensures
   (c - a) * (f - b) - (e - a) * (d - b) == (c * f - e * d) + (e * b - a * f) + (a * d - c * b)
{ assert((c - a) * (f - b) == c * f - c * b - a * f + a * b) by (nonlinear_arith); assert((e - a) * (d - b) == e * d - e * b - a * d + a * b) by (nonlinear_arith); }
pub proof fn lemma_pol3(a: int, b: int, c: int, d: int, e: int, f: int) ensures
   ((c * f - e * d) + (e * b - a * f) + (a * d - c * b)) * (a + c + e) == (c * f - e * d) * (c + e) + (e * b - a * f) * (e + a) + (a * d - c * b) * (a + c),
   ((c * f - e * d) + (e * b - a * f) + (a * d - c * b)) * (b + d + f) == (c * f - e * d) * (d + f) + (e * b - a * f) * (f + b) + (a * d - c * b) * (b + d)
{ let (u, v, w) = (c * f - e * d, e * b - a * f, a * d - c * b);
  lemma_uvw(u, v, w, a, c, e); lemma_uvw(u, v, w, b, d, f);
  lemma_det0(a, b, c, d, e, f); lemma_det1(a, b, c, d, e, f); }
pub proof fn lemma_uvw(u: int, v: int, w: int, a: int, c: int, e: int) ensures (u + v + w) * (a + c + e) == u * (c + e) + v * (e + a) + w * (a + c) + (u * a + v * c + w * e)
{ let t = a + c + e; assert((u + v + w) * t == u * t + v * t + w * t) by (nonlinear_arith);
  assert(u * t == u * (c + e) + u * a) by (nonlinear_arith) requires t == a + c + e; assert(v * t == v * (e + a) + v * c) by (nonlinear_arith) requires t == a + c + e; assert(w * t == w * (a + c) + w * e) by (nonlinear_arith) requires t == a + c + e; }
pub proof fn lemma_det0(a: int, b: int, c: int, d: int, e: int, f: int) ensures (c * f - e * d) * a + (e * b - a * f) * c + (a * d - c * b) * e == 0
{ assert((c * f - e * d) * a == a * c * f - a * d * e) by (nonlinear_arith); assert((e * b - a * f) * c == b * c * e - a * c * f) by (nonlinear_arith); assert((a * d - c * b) * e == a * d * e - b * c * e) by (nonlinear_arith); }
pub proof fn lemma_det1(a: int, b: int, c: int, d: int, e: int, f: int) ensures (c * f - e * d) * b + (e * b - a * f) * d + (a * d - c * b) * f == 0
{ assert((c * f - e * d) * b == b * c * f - b * d * e) by (nonlinear_arith); assert((e * b - a * f) * d == b * d * e - a * d * f) by (nonlinear_arith); assert((a * d - c * b) * f == a * d * f - b * c * f) by (nonlinear_arith); }
pub proof fn lemma_tri(w: int, b: Coordinate, p: Coordinate, q: Coordinate) ensures bv(w, b, p, q) == ev(w, p, q) + ev(w, q, b) + ev(w, b, p)
{ let (a, bb, c, d, e, f) = (ix(b), iy(b), ix(p), iy(p), ix(q), iy(q)); lemma_pol(a, bb, c, d, e, f); lemma_pol3(a, bb, c, d, e, f); assert(a2(b, p, q) * 1 == a2(b, p, q)); }
pub proof fn lemma_anti(w: int, p: Coordinate, q: Coordinate) ensures ev(w, q, p) == -ev(w, p, q)
{ let (a, b, c, d) = (ix(p), iy(p), ix(q), iy(q)); assert(ea(q, p) == -ea(p, q)) by { assert(a * d == d * a && c * b == b * c) by (nonlinear_arith); } let k = ea(p, q); assert((-k) * (c + a) == -(k * (a + c))) by (nonlinear_arith); assert((-k) * (d + b) == -(k * (b + d))) by (nonlinear_arith); }
pub proof fn lemma_base(w: int, b: Coordinate, s: Seq<Coordinate>, k: int) requires 0 <= k < s.len() ensures bf(w, b, s, k) == ef(w, s, 0, k) + ev(w, s[k], b) - ev(w, s[0], b) decreases k
{ if k > 0 { lemma_base(w, b, s, k - 1); lemma_tri(w, b, s[k - 1], s[k]); lemma_anti(w, s[k - 1], b); } }
pub open spec fn shut(s: Seq<Coordinate>) -> bool { s.len() > 0 && ix(s[0]) == ix(s.last()) && iy(s[0]) == iy(s.last()) }
pub proof fn theorem_base(w: int, b: Coordinate, s: Seq<Coordinate>) requires shut(s) ensures bf(w, b, s, s.len() - 1) == ef(w, s, 0, s.len() - 1) { lemma_base(w, b, s, s.len() - 1); }
// ---- the direction and the start vertex of a ring do not matter
pub open spec fn rot(s: Seq<Coordinate>) -> Seq<Coordinate> { s.subrange(1, s.len() as int).push(s[1]) }
pub proof fn lemma_split(w: int, s: Seq<Coordinate>, a: int, m: int, b: int) requires a <= m <= b ensures ef(w, s, a, b) == ef(w, s, a, m) + ef(w, s, m, b) decreases b - m { if m < b { lemma_split(w, s, a, m, b - 1); } }
pub proof fn lemma_rev(w: int, s: Seq<Coordinate>, k: int) requires 0 <= k < s.len() ensures ef(w, rev(s), 0, k) == -ef(w, s, s.len() - 1 - k, s.len() - 1) decreases k
{ if k > 0 { let n = s.len() as int; lemma_rev(w, s, k - 1); lemma_split(w, s, n - 1 - k, n - k, n - 1); assert(ef(w, s, n - 1 - k, n - k) == ef(w, s, n - 1 - k, n - 1 - k) + ev(w, s[n - 1 - k], s[n - k])); lemma_anti(w, s[n - k], s[n - 1 - k]); assert(rev(s)[k] == s[n - 1 - k] && rev(s)[k - 1] == s[n - k]); } }
pub proof fn lemma_shift(w: int, s: Seq<Coordinate>, k: int) requires 0 <= k <= s.len() - 2, s.len() >= 2 ensures ef(w, rot(s), 0, k) == ef(w, s, 1, k + 1) decreases k { if k > 0 { lemma_shift(w, s, k - 1); assert(rot(s)[k] == s[k + 1] && rot(s)[k - 1] == s[k]); } }
/// the orientation test tells the two directions apart: what a ring adds is the same in both (C04 says when it does)
pub proof fn theorem_direction(w: int, b: Coordinate, s: Seq<Coordinate>) requires shut(s), ccws(rev(s)) != ccws(s) ensures shut(rev(s)), hov(w, b, rev(s)) == hov(w, b, s), shv(w, rev(s)) == shv(w, s), shv(w, s) == -hov(w, b, s)
{ let n = s.len() - 1; let r = rev(s); assert(r[0] == s[n] && r.last() == s[0]); theorem_base(w, b, s); theorem_base(w, b, r); theorem_base(w, s[0], s); theorem_base(w, r[0], r); lemma_rev(w, s, n); }
pub proof fn theorem_start(w: int, b: Coordinate, s: Seq<Coordinate>) requires shut(s), s.len() >= 2, ccws(rot(s)) == ccws(s) ensures shut(rot(s)), hov(w, b, rot(s)) == hov(w, b, s), shv(w, rot(s)) == shv(w, s)
{ let n = s.len() as int; let r = rot(s); assert(r[n - 1] == s[1] && r[n - 2] == s[n - 1] && r[0] == s[1]); theorem_base(w, b, s); theorem_base(w, b, r); theorem_base(w, s[0], s); theorem_base(w, r[0], r);
  lemma_shift(w, s, n - 2); lemma_split(w, s, 0, 1, n - 1); lemma_split(w, r, 0, n - 2, n - 1); assert(ef(w, s, 0, 1) == ef(w, s, 0, 0) + ev(w, s[0], s[1])); assert(ef(w, r, n - 2, n - 1) == ef(w, r, n - 2, n - 2) + ev(w, r[n - 2], r[n - 1])); }
/// a ring told apart correctly: shells add minus their area, holes plus
pub proof fn theorem_sign(b: Coordinate, s: Seq<Coordinate>) requires shut(s), ccws(s) == (ef(0, s, 0, s.len() - 1) > 0) ensures shv(0, s) <= 0, hov(0, b, s) >= 0, shv(0, s) == -hov(0, b, s), shv(0, s) == 0 || shv(0, s) == (if ccws(s) { -ef(0, s, 0, s.len() - 1) } else { ef(0, s, 0, s.len() - 1) })
{ theorem_base(0, b, s); theorem_base(0, s[0], s); }
// ---- translation
pub open spec fn moved(s: Seq<Coordinate>, t: Seq<Coordinate>, a: int, b: int) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] at(s[i], t[i], a, b) }
pub open spec fn at(p: Coordinate, q: Coordinate, a: int, b: int) -> bool { ix(q) == ix(p) + a && iy(q) == iy(p) + b }
pub proof fn lemma_move(b: Coordinate, c: Coordinate, s: Seq<Coordinate>, t: Seq<Coordinate>, u: int, v: int, k: int) requires moved(s, t, u, v), at(b, c, u, v), 0 <= k < s.len() || k == 0
  ensures bf(0, c, t, k) == bf(0, b, s, k), bf(1, c, t, k) == bf(1, b, s, k) + 3 * u * bf(0, b, s, k), bf(2, c, t, k) == bf(2, b, s, k) + 3 * v * bf(0, b, s, k) decreases k
{ if k > 0 { lemma_move(b, c, s, t, u, v, k - 1); assert(at(s[k - 1], t[k - 1], u, v) && at(s[k], t[k], u, v)); let a = a2(b, s[k - 1], s[k]); assert(a2(c, t[k - 1], t[k]) == a); assert(a * 1 == a);
    let (x, y, f) = (wt(1, b, s[k - 1], s[k]), wt(2, b, s[k - 1], s[k]), bf(0, b, s, k - 1));
    assert(wt(1, c, t[k - 1], t[k]) == x + 3 * u); assert(wt(2, c, t[k - 1], t[k]) == y + 3 * v);
    assert(a * (x + 3 * u) == a * x + 3 * u * a) by (nonlinear_arith); assert(a * (y + 3 * v) == a * y + 3 * v * a) by (nonlinear_arith);
    assert(3 * u * (f + a) == 3 * u * f + 3 * u * a) by (nonlinear_arith); assert(3 * v * (f + a) == 3 * v * f + 3 * v * a) by (nonlinear_arith);
  } else { assert(3 * u * 0 == 0 && 3 * v * 0 == 0); } }
pub proof fn theorem_translate(b: Coordinate, c: Coordinate, s: Seq<Coordinate>, t: Seq<Coordinate>, u: int, v: int) requires moved(s, t, u, v), at(b, c, u, v), ccws(t) == ccws(s)
  ensures hov(0, c, t) == hov(0, b, s), hov(1, c, t) == hov(1, b, s) + 3 * u * hov(0, b, s), hov(2, c, t) == hov(2, b, s) + 3 * v * hov(0, b, s), shv(0, t) == shv(0, s), shv(1, t) == shv(1, s) + 3 * u * shv(0, s), shv(2, t) == shv(2, s) + 3 * v * shv(0, s)
{ let k = s.len() - 1; if k >= 0 { assert(at(s[0], t[0], u, v)); lemma_move(b, c, s, t, u, v, k); lemma_move(s[0], t[0], s, t, u, v, k); let (f, g) = (bf(0, b, s, k), bf(0, s[0], s, k)); lemma_ng(u, f); lemma_ng(v, f); lemma_ng(u, g); lemma_ng(v, g); } else { assert(3 * u * 0 == 0 && 3 * v * 0 == 0); assert(3 * u * (sn(ccws(s)) * 0) == 0 && 3 * v * (sn(ccws(s)) * 0) == 0); } }
pub proof fn lemma_ng(u: int, f: int) ensures (-1) * (3 * u * f) == 3 * u * ((-1) * f), 1 * (3 * u * f) == 3 * u * (1 * f) { assert((-1) * (3 * u * f) == 3 * u * ((-1) * f)) by (nonlinear_arith); }
/// so the exact quotient moves along
pub proof fn theorem_quotient(x: int, a: int, u: int) requires a != 0 ensures (x + 3 * u * a) as real / (3real * (a as real)) == x as real / (3real * (a as real)) + u as real
{ let (xr, ar, ur) = (x as real, a as real, u as real); assert((x + 3 * u * a) as real == xr + 3real * ur * ar) by { assert((u * a) as real == ur * ar) by (nonlinear_arith) requires ur == u as real, ar == a as real; assert(3 * u * a == 3 * (u * a)) by (nonlinear_arith); assert(3real * ur * ar == 3real * (ur * ar)) by (nonlinear_arith); }
  let d = 3real * ar; assert((xr + ur * d) / d == xr / d + ur) by (nonlinear_arith) requires d != 0real; assert(ur * d == 3real * ur * ar) by (nonlinear_arith) requires d == 3real * ar; }
// ---- a fan whose triangles all turn the same way: the exact centroid lies within the bounds of the points
pub proof fn theorem_convex(b: Coordinate, s: Seq<Coordinate>, k: int, lo: int, hi: int) requires 0 <= k < s.len(), lo <= ix(b) <= hi, forall|i: int| 0 <= i <= k ==> lo <= ix(#[trigger] s[i]) <= hi, forall|i: int| 0 < i <= k ==> a2(b, s[i - 1], #[trigger] s[i]) >= 0
  ensures bf(0, b, s, k) >= 0, 3 * lo * bf(0, b, s, k) <= bf(1, b, s, k) <= 3 * hi * bf(0, b, s, k) decreases k
{ if k > 0 { theorem_convex(b, s, k - 1, lo, hi); let a = a2(b, s[k - 1], s[k]); let x = wt(1, b, s[k - 1], s[k]); let f = bf(0, b, s, k - 1); assert(lo <= ix(s[k]) <= hi && lo <= ix(s[k - 1]) <= hi); assert(a * 1 == a);
    assert(3 * lo * a <= a * x <= 3 * hi * a) by (nonlinear_arith) requires a >= 0, 3 * lo <= x <= 3 * hi; assert(3 * lo * (f + a) == 3 * lo * f + 3 * lo * a) by (nonlinear_arith); assert(3 * hi * (f + a) == 3 * hi * f + 3 * hi * a) by (nonlinear_arith); }
  else { assert(3 * lo * 0 == 0 && 3 * hi * 0 == 0); } }
pub proof fn lemma_mid(x: real) requires inrange(x), rabs(x) <= 9007199254740992real ensures rabs(rnd(x)) <= 9007199254740992real { ax_rnd_int(9007199254740992); ax_rnd_int(-9007199254740992); ax_rnd_mono(x, 9007199254740992real); ax_rnd_mono(-9007199254740992real, x); }
/// whatever copy of the polygon comes back
pub proof fn lemma_same(p: Polygon) ensures forall|q: Polygon, k: int| #![trigger eqg(q, p), glens(q, k)] eqg(q, p) && k == p.holes@.len() ==> glens(q, k) == glens(p, k) && cpg(q) == cpg(p)
{ assert forall|q: Polygon, k: int| #![trigger eqg(q, p), glens(q, k)] eqg(q, p) && k == p.holes@.len() implies glens(q, k) == glens(p, k) && cpg(q) == cpg(p) by { lemma_eqg(q, p, k, 0real, 0real, 0real); } }
pub proof fn lemma_pos(p: Polygon, o: Centroid) ensures forall|q: Polygon, b: Centroid, k: int| #![trigger eqg(q, p), poly_by(o, b, q, k)] eqg(q, p) && k == p.holes@.len() && poly_by(o, b, q, k) ==> poly_by(o, b, p, k)
{ assert forall|q: Polygon, b: Centroid, k: int| #![trigger eqg(q, p), poly_by(o, b, q, k)] eqg(q, p) && k == p.holes@.len() && poly_by(o, b, q, k) implies poly_by(o, b, p, k) by { lemma_eqg(q, p, k, val(o.total_length), val(o.line_cent_sum.x), val(o.line_cent_sum.y)); } }
pub proof fn lemma_dst(a: int, b: int) ensures 1 * (a + b) == 1 * a + 1 * b, (-1) * (a + b) == (-1) * a + (-1) * b { }
pub proof fn lemma_fi(a: Centroid, n: int) requires roomy(a, n) ensures isi(a.areasum2), isi(a.cg3.x), isi(a.cg3.y), isi(a.pt_cent_sum.x), isi(a.pt_cent_sum.y) { reveal(fits); }
pub proof fn lemma_id(a: Centroid) ensures grows(a, a, 0) { assert forall|m: int| #[trigger] fits(a, m) && m + 0 <= K() implies fits(a, m + 0) by { } }
pub proof fn lemma_less(a: Centroid, n: int, k: int) requires roomy(a, k), n <= k ensures roomy(a, n) { let m = choose|m: int| #[trigger] fits(a, m) && m + k <= K(); assert(fits(a, m) && m + n <= K()); }
pub proof fn lemma_more(a: Centroid, b: Centroid, n: int, k: int) requires grows(a, b, n), 0 <= n <= k ensures grows(a, b, k)
{ reveal(fits); assert forall|m: int| #[trigger] fits(a, m) && m + k <= K() implies fits(b, m + k) by { assert(fits(b, m + n)); } }
"""
