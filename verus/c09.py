from rsx import Fn
import common, ddint
from common import BI
USES = ["f64"]
STRUCTS = [common.COORD, common.ORI, ("src/core/geom/line_segment.rs", "LineSegment", "#[derive(Copy, Clone)]"), ("src/core/algorithm/distance.rs", "Distance", "")]
_s26 = ddint.PRELUDE
PRELUDE = common.DET + common.PTS + common.SWAP + """
pub uninterp spec fn hypr(x: real, y: real) -> real;
/// what is assumed of libm's hypot: a function of the two magnitudes, between either of them and their sum
pub broadcast axiom fn ax_hypr(x: real, y: real) ensures #[trigger] hypr(x, y) >= rabs(x), hypr(x, y) >= rabs(y), hypr(x, y) <= rabs(x) + rabs(y), hypr(x, y) == hypr(-x, -y);
pub assume_specification[ f64::hypot ](x: f64, y: f64) -> (r: f64) ensures fin(x) && fin(y) && rabs(val(x)) <= big() && rabs(val(y)) <= big() ==> fin(r) && val(r) == hypr(val(x), val(y));
pub axiom fn ax_rnd_half(k: int) requires -9007199254740992 <= k <= 9007199254740992 ensures rnd(k as real / 2real) == k as real / 2real;
pub open spec fn dist(a: Coordinate, b: Coordinate) -> real { hypr((it(a.x) - it(b.x)) as real, (it(a.y) - it(b.y)) as real) }
pub open spec fn iseg(s: LineSegment) -> bool { ipt(s.p0) && ipt(s.p1) }
pub open spec fn fseg(s: LineSegment) -> bool { fpt(s.p0) && fpt(s.p1) }
pub open spec fn rev(s: LineSegment) -> LineSegment { LineSegment { p0: s.p1, p1: s.p0 } }
pub open spec fn dx(s: LineSegment) -> int { it(s.p1.x) - it(s.p0.x) }
pub open spec fn dy(s: LineSegment) -> int { it(s.p1.y) - it(s.p0.y) }
/// the two dot products whose quotient is the projection factor
pub open spec fn num(s: LineSegment, p: Coordinate) -> int { (it(p.x) - it(s.p0.x)) * dx(s) + (it(p.y) - it(s.p0.y)) * dy(s) }
pub open spec fn len2(s: LineSegment) -> int { dx(s) * dx(s) + dy(s) * dy(s) }
pub proof fn lemma_pb(a: int, b: int, m: int, n: int) requires -m <= a <= m, -n <= b <= n, 0 <= m, 0 <= n ensures -(m * n) <= a * b <= m * n
{ assert(a * b <= m * n && -(m * n) <= a * b) by (nonlinear_arith) requires -m <= a <= m, -n <= b <= n, 0 <= m, 0 <= n; }
pub proof fn lemma_nb(s: LineSegment, p: Coordinate) requires iseg(s), ipt(p)
  ensures 0 <= dx(s) * dx(s) <= 1125899906842624, 0 <= dy(s) * dy(s) <= 1125899906842624, (len2(s) == 0) == (dx(s) == 0 && dy(s) == 0),
    -1125899906842624 <= (it(p.x) - it(s.p0.x)) * dx(s) <= 1125899906842624, -1125899906842624 <= (it(p.y) - it(s.p0.y)) * dy(s) <= 1125899906842624
{ let b = 33554432; lemma_pb(dx(s), dx(s), b, b); lemma_pb(dy(s), dy(s), b, b); lemma_pb(it(p.x) - it(s.p0.x), dx(s), b, b); lemma_pb(it(p.y) - it(s.p0.y), dy(s), b, b);
  let (x, y) = (dx(s), dy(s)); assert(x * x >= 0 && y * y >= 0 && (x * x == 0) == (x == 0) && (y * y == 0) == (y == 0)) by (nonlinear_arith); }
/// the end points project to 0 and to len2
pub proof fn lemma_ends(s: LineSegment) ensures num(s, s.p0) == 0, num(s, s.p1) == len2(s)
{ let (x, y) = (dx(s), dy(s)); assert(0 * x + 0 * y == 0) by (nonlinear_arith); }
/// division without remainder-loss: the quotient of two integers below 2^53 keeps its place relative to 0 and 1
pub open spec fn quo(n: int, d: int) -> real { rnd((n as real) / (d as real)) }
pub proof fn lemma_quo(n: int, d: int) requires 0 < d <= 9007199254740992, -9007199254740992 <= n <= 9007199254740992
  ensures (quo(n, d) < 0real) == (n < 0), (quo(n, d) == 0real) == (n == 0), (quo(n, d) > 0real) == (n > 0), n == d ==> quo(n, d) == 1real, n <= d ==> quo(n, d) <= 1real, n >= d ==> quo(n, d) >= 1real,
    d <= 2251799813685248 ==> (n < d ==> quo(n, d) < 1real) && (n > d ==> quo(n, d) > 1real)
{ let x = (n as real) / (d as real); let q = x; let dr = d as real; let nr = n as real;
  assert(q * dr == nr) by (nonlinear_arith) requires q == nr / dr, dr != 0real;
  ax_rnd_zero(); ax_rnd_int(1); ax_tiny();
  assert((q < 0real) == (nr < 0real) && (q == 0real) == (nr == 0real)) by (nonlinear_arith) requires q * dr == nr, dr > 0real;
  assert((q < 1real) == (nr < dr) && (q > 1real) == (nr > dr)) by (nonlinear_arith) requires q * dr == nr, dr > 0real;
  if n != 0 {
    let e = 1real / 9007199254740992real;
    assert(rabs(q) >= e) by (nonlinear_arith) requires q * dr == nr, 0real < dr <= 9007199254740992real, nr >= 1real || nr <= -1real, e == 1real / 9007199254740992real;
    ax_rnd_err(q);
    let a = rabs(q);
    assert(a * ulp() < a) by (nonlinear_arith) requires ulp() < 1real, a > 0real;
    if d <= 2251799813685248 && n < d && n > 0 {
      let g = 1real / 2251799813685248real;
      assert(q <= 1real - g) by (nonlinear_arith) requires q * dr == nr, 0real < dr <= 2251799813685248real, nr <= dr - 1real, g == 1real / 2251799813685248real;
      assert(a * ulp() <= ulp()) by (nonlinear_arith) requires 0real <= a <= 1real, ulp() > 0real;
    }
    if d <= 2251799813685248 && n > d {
      let g = 1real / 2251799813685248real;
      assert(q >= 1real + g) by (nonlinear_arith) requires q * dr == nr, 0real < dr <= 2251799813685248real, nr >= dr + 1real, g == 1real / 2251799813685248real;
      assert(a - a * ulp() > 1real) by (nonlinear_arith) requires a >= 1real + g, g == 1real / 2251799813685248real, ulp() == 0.00000000000000011102230246251565404236316680908203125real;
    }
  } else { assert(x == 0real); }
  if n <= d { ax_rnd_mono(x, 1real); } if n >= d { ax_rnd_mono(1real, x); } if n == d { assert(x == 1real); } }
/// a point a fraction f in [0,1] from a towards b, both operations rounded, stays between them
pub open spec fn mix(a: int, b: int, f: real) -> real { rnd(a as real + rnd(f * (b - a) as real)) }
pub proof fn lemma_mix(a: int, b: int, f: real) requires -16777216 <= a <= 16777216, -16777216 <= b <= 16777216, 0real <= f <= 1real
  ensures a <= b ==> (a as real) <= mix(a, b, f) <= (b as real), a >= b ==> (b as real) <= mix(a, b, f) <= (a as real), f == 0real ==> mix(a, b, f) == a as real, f == 1real ==> mix(a, b, f) == b as real
{ let d = (b - a) as real; let k = b - a; ax_rnd_zero(); ax_rnd_int(k); ax_rnd_int(a); ax_rnd_int(b);
  if a <= b { assert(0real <= f * d <= d) by (nonlinear_arith) requires 0real <= f <= 1real, d >= 0real; ax_rnd_mono(0real, f * d); ax_rnd_mono(f * d, d);
    let r = rnd(f * d); ax_rnd_mono(a as real, a as real + r); ax_rnd_mono(a as real + r, b as real); }
  else { assert(d <= f * d <= 0real) by (nonlinear_arith) requires 0real <= f <= 1real, d <= 0real; ax_rnd_mono(f * d, 0real); ax_rnd_mono(d, f * d);
    let r = rnd(f * d); ax_rnd_mono(a as real + r, a as real); ax_rnd_mono(b as real, a as real + r); }
  if f == 0real { assert(f * d == 0real) by (nonlinear_arith) requires f == 0real; } if f == 1real { assert(f * d == d) by (nonlinear_arith) requires f == 1real; }
  if a == b { } }
pub open spec fn at(s: LineSegment, f: real, r: Coordinate) -> bool { fpt(r) && val(r.x) == mix(it(s.p0.x), it(s.p1.x), f) && val(r.y) == mix(it(s.p0.y), it(s.p1.y), f) }
/// within the segment's envelope
pub open spec fn inbox(s: LineSegment, r: Coordinate) -> bool {
   fpt(r) && (val(s.p0.x) <= val(r.x) <= val(s.p1.x) || val(s.p1.x) <= val(r.x) <= val(s.p0.x)) && (val(s.p0.y) <= val(r.y) <= val(s.p1.y) || val(s.p1.y) <= val(r.y) <= val(s.p0.y)) }
pub proof fn lemma_at(s: LineSegment, f: real, r: Coordinate) requires iseg(s), at(s, f, r), 0real <= f <= 1real ensures inbox(s, r)
{ lemma_mix(it(s.p0.x), it(s.p1.x), f); lemma_mix(it(s.p0.y), it(s.p1.y), f); }
/// finiteness of intermediate results for factors of any size up to 2^52
pub proof fn lemma_fb(f: real, k: int) requires -9007199254740992real <= f <= 9007199254740992real, -33554432 <= k <= 33554432
  ensures inrange(f * k as real), rabs(f * k as real) <= 302231454903657293676544real, rabs(rnd(f * k as real)) <= 1000000000000000000000000real
{ broadcast use f64_ax; let z = k as real; assert(-302231454903657293676544real <= f * z <= 302231454903657293676544real) by (nonlinear_arith) requires -9007199254740992real <= f <= 9007199254740992real, -33554432real <= z <= 33554432real;
  lemma_rb(f * z); }
pub proof fn lemma_rb(x: real) ensures rabs(rnd(x)) <= 2real * rabs(x) + 1real
{ ax_tiny(); ax_rnd_int(1); ax_rnd_int(-1);
  if x > 1real || x < -1real { ax_rnd_err(x); assert(rabs(x) * ulp() <= rabs(x)) by (nonlinear_arith) requires rabs(x) >= 0real, ulp() <= 1real; }
  else { ax_rnd_mono(-1real, x); ax_rnd_mono(x, 1real); } }
pub open spec fn fac(s: LineSegment, p: Coordinate, r: f64) -> bool {
  if eqp(p, s.p0) { isi(r) && it(r) == 0 } else if eqp(p, s.p1) { isi(r) && it(r) == 1 } else if len2(s) == 0 { fnan(r) } else { fin(r) && val(r) == quo(num(s, p), len2(s)) } }
/// the factor tells before, at, between and after the end points
pub proof fn lemma_fac(s: LineSegment, p: Coordinate, r: f64) requires iseg(s), ipt(p), fac(s, p, r)
  ensures len2(s) > 0 ==> fin(r) && val(r) == quo(num(s, p), len2(s)) && -9007199254740992real <= val(r) <= 9007199254740992real && (val(r) <= 0real) == (num(s, p) <= 0) && (val(r) >= 1real) == (num(s, p) >= len2(s))
     && (val(r) < 0real) == (num(s, p) < 0) && (val(r) > 1real) == (num(s, p) > len2(s)),
    len2(s) >= 0, len2(s) == 0 ==> eqp(s.p0, s.p1)
{ lemma_nb(s, p); lemma_ends(s);
  if len2(s) > 0 { lemma_quo(num(s, p), len2(s));
    let (n, d) = (num(s, p), len2(s)); let q = (n as real) / (d as real); let (nr, dr) = (n as real, d as real);
    assert(q * dr == nr) by (nonlinear_arith) requires q == nr / dr, dr != 0real;
    assert(-9007199254740992real <= q <= 9007199254740992real) by (nonlinear_arith) requires q * dr == nr, dr >= 1real, -9007199254740992real <= nr <= 9007199254740992real;
    ax_rnd_mono(q, 9007199254740992real); ax_rnd_mono(-9007199254740992real, q); ax_rnd_int(9007199254740992); ax_rnd_int(-9007199254740992);
    if eqp(p, s.p0) { assert(num(s, p) == num(s, s.p0)); } else if eqp(p, s.p1) { assert(num(s, p) == num(s, s.p1)); } } }
"""
F = "src/core/geom/line_segment.rs"
_seg = "broadcast use f64_ax, f64_int, ty_ax;"
IMPLS = [dict(common.coordinate("default", "from_coordinate", "new_xy", "equals_2d", "compare_to"), fns=common.coordinate("default", "from_coordinate", "new_xy", "equals_2d", "compare_to")["fns"] + [
   Fn("distance", requires="bpt(*self), bpt(*c)", ensures="fin(r), val(r) == fdist(*self, *c), ipt(*self) && ipt(*c) ==> val(r) == dist(*self, *c)", start="broadcast use f64_ax, f64_int, ty_ax; proof { lemma_bd(*self, *c); }"),
   Fn("get_x", ensures="r == self.x"), Fn("get_y", ensures="r == self.y"),
   Fn("set_x", ensures="*final(self) == (Coordinate { x: x, y: old(self).y, z: old(self).z, m: old(self).m })"),
   Fn("set_y", ensures="*final(self) == (Coordinate { x: old(self).x, y: y, z: old(self).z, m: old(self).m })"),
 ]), common.ORIENTATION,
 dict(file="src/core/algorithm/distance.rs", ty="Distance", fns=[Fn("point_to_line_perpendicular", external=True)]),
 dict(file=F, ty="LineSegment", fns=[
   Fn("default", ensures="fpt(r.p0), fpt(r.p1), val(r.p0.x) == 0real, val(r.p0.y) == 0real, val(r.p1.x) == 0real, val(r.p1.y) == 0real", start="broadcast use f64_ax, f64_int, ax_lits;"),
   Fn("min_x", requires="fseg(*self)", ensures="fin(r), val(r) == mnr(val(self.p0.x), val(self.p1.x))"),
   Fn("max_x", requires="fseg(*self)", ensures="fin(r), val(r) == -mnr(-val(self.p0.x), -val(self.p1.x))"),
   Fn("min_y", requires="fseg(*self)", ensures="fin(r), val(r) == mnr(val(self.p0.y), val(self.p1.y))"),
   Fn("max_y", requires="fseg(*self)", ensures="fin(r), val(r) == -mnr(-val(self.p0.y), -val(self.p1.y))"),
   Fn("new_from_coordinates", ensures="r.p0 == *p0, r.p1 == *p1"),
   Fn("new_from_line_segment", ensures="r == *ls"),
   Fn("new_from_xy", ensures="r.p0.x == x0, r.p0.y == y0, r.p1.x == x1, r.p1.y == y1"),
   Fn("get_coordinate", ensures="i == 0 ==> r == self.p0, i == 1 ==> r == self.p1"),
   Fn("set_coordinates", ensures="final(self).p0.x == p0.x, final(self).p0.y == p0.y, final(self).p1.x == p1.x, final(self).p1.y == p1.y"),
   Fn("set_coordinates_from_line_segment", ensures="final(self).p0.x == ls.p0.x, final(self).p0.y == ls.p0.y, final(self).p1.x == ls.p1.x, final(self).p1.y == ls.p1.y"),
   Fn("get_length", requires="iseg(*self)", ensures="fin(r), val(r) == dist(self.p0, self.p1)"),
   Fn("is_horizontal", requires="fseg(*self)", ensures="r == (val(self.p0.y) == val(self.p1.y))", start=_seg),
   Fn("is_vertical", requires="fseg(*self)", ensures="r == (val(self.p0.x) == val(self.p1.x))", start=_seg),
   Fn("reverse", ensures="*final(self) == rev(*old(self))"),
   Fn("normalize", requires="fseg(*old(self))", ensures="*final(self) == *old(self) || *final(self) == rev(*old(self)), cmpv(final(self).p0, final(self).p1) <= 0"),
   Fn("equals", requires="fseg(*self), fseg(*other)", ensures="r == (eqv(self.p0, other.p0) && eqv(self.p1, other.p1))"),
   Fn("equals_topo", requires="fseg(*self), fseg(*other)", ensures="r == (eqv(self.p0, other.p0) && eqv(self.p1, other.p1) || eqv(self.p0, other.p1) && eqv(self.p1, other.p0))"),
   Fn("compare_to", requires="fseg(*self), fseg(*other)", ensures="r == scmp(*self, *other)"),
   Fn("orientation_index_coordinate", requires="iseg(*self), ipt(*p)", ensures="r == sgi(dt(self.p0, self.p1, *p))"),
   Fn("orientation_index_line_segment", requires="iseg(*self), iseg(*seg)",
      ensures="r == side(dt(self.p0, self.p1, seg.p0), dt(self.p0, self.p1, seg.p1))"),
   Fn("mid_point_coordinates", requires="ipt(*p0), ipt(*p1)", ensures="fpt(r), val(r.x) == (it(p0.x) + it(p1.x)) as real / 2real, val(r.y) == (it(p0.y) + it(p1.y)) as real / 2real",
      start="broadcast use f64_ax, f64_int, ty_ax; proof { ax_rnd_half(it(p0.x) + it(p1.x)); ax_rnd_half(it(p0.y) + it(p1.y)); }"),
   Fn("mid_point", requires="iseg(*self)", ensures="fpt(r), val(r.x) == (it(self.p0.x) + it(self.p1.x)) as real / 2real, val(r.y) == (it(self.p0.y) + it(self.p1.y)) as real / 2real"),
   Fn("point_along", requires="iseg(*self), fin(segment_length_fraction), 0real <= val(segment_length_fraction) <= 1real", ensures="at(*self, val(segment_length_fraction), r), inbox(*self, r)",
      start="broadcast use f64_ax, f64_int, ty_ax; proof { lemma_fb(val(segment_length_fraction), dx(*self)); lemma_fb(val(segment_length_fraction), dy(*self)); lemma_m(*self, val(segment_length_fraction)); }"),
   Fn("projection_factor", requires="iseg(*self), ipt(*p)", ensures="fac(*self, *p, r)",
      start="broadcast use f64_ax, f64_int, ty_ax; proof { lemma_nb(*self, *p); lemma_iq(num(*self, *p), len2(*self)); }"),
   Fn("segment_fraction", requires="iseg(*self), ipt(*input_pt)", ensures="fin(r), 0real <= val(r) <= 1real, len2(*self) == 0 && !eqp(*input_pt, self.p0) ==> val(r) == 1real, len2(*self) > 0 ==> val(r) == clamp01(quo(num(*self, *input_pt), len2(*self)))",
      start="broadcast use f64_ax, ty_ax, nan_ax;", after=[(r"let mut seg_frac = .*?;", "proof { lemma_fac(*self, *input_pt, seg_frac); }")]),
   Fn("project_coordinate_with_projection_factor", requires="iseg(*self), fin(projection_factor), -9007199254740992real <= val(projection_factor) <= 9007199254740992real", ensures="at(*self, val(projection_factor), r), r.z == p.z",
      start="broadcast use f64_ax, f64_int, ty_ax; proof { lemma_fb(val(projection_factor), dx(*self)); lemma_fb(val(projection_factor), dy(*self)); }"),
   Fn("project_coordinate", requires="iseg(*self), ipt(*p), len2(*self) > 0", ensures="eqp(*p, self.p0) || eqp(*p, self.p1) ==> r == *p, !(eqp(*p, self.p0) || eqp(*p, self.p1)) ==> at(*self, quo(num(*self, *p), len2(*self)), r)",
      after=[(r"let r = .*?;", "proof { lemma_fac(*self, *p, r); }")]),
   Fn("project_line_segment", requires="iseg(*self), iseg(*seg), len2(*self) > 0",
      ensures="""r.is_none() == (num(*self, seg.p0) <= 0 && num(*self, seg.p1) <= 0 || num(*self, seg.p0) >= len2(*self) && num(*self, seg.p1) >= len2(*self)),
        r.is_some() ==> at(*self, clamp01(quo(num(*self, seg.p0), len2(*self))), r.unwrap().p0) && at(*self, clamp01(quo(num(*self, seg.p1), len2(*self))), r.unwrap().p1),
        r.is_some() ==> inbox(*self, r.unwrap().p0) && inbox(*self, r.unwrap().p1)""",
      start="broadcast use f64_ax, ty_ax; proof { lemma_at0(*self); }",
      after=[(r"let pf1 = .*?;", "proof { lemma_fac(*self, seg.p0, pf0); lemma_fac(*self, seg.p1, pf1); }")],
      before=[(r"return Some\(LineSegment", "proof { lemma_at(*self, clamp01(val(pf0)), newp0); lemma_at(*self, clamp01(val(pf1)), newp1); }")]),
   Fn("closest_point", requires="iseg(*self), ipt(*p)", ensures="inbox(*self, r), near(*self, *p, r)",
      start="broadcast use f64_ax, ty_ax, nan_ax;",
      after=[(r"let factor = .*?;", "proof { lemma_fac(*self, *p, factor); lemma_nb(*self, *p); if len2(*self) > 0 && 0 < num(*self, *p) < len2(*self) { lemma_m(*self, val(factor)); } }")]),
   Fn("reflect", requires="s15(*self), p15(*p), len2(*self) > 0", ensures="fpt(r), val(r.x) == rnd(refx(*self, *p) as real / len2(*self) as real), val(r.y) == rnd(refy(*self, *p) as real / len2(*self) as real), r.z == p.z",
      start="broadcast use f64_ax, f64_int, ty_ax; proof { lemma_refb(*self, *p); lemma_iq(refx(*self, *p), len2(*self)); lemma_iq(refy(*self, *p), len2(*self)); }"),
   Fn("point_along_offset", requires="iseg(*self), len2(*self) > 0, fin(segment_length_fraction), 0real <= val(segment_length_fraction) <= 1real, fin(offset_distance), rabs(val(offset_distance)) <= 33554432real",
      ensures="offat(*self, val(segment_length_fraction), val(offset_distance), r)",
      start="""broadcast use f64_ax, f64_int, ty_ax, ax_hypr, ax_lits; proof { let (f, o, l) = (val(segment_length_fraction), val(offset_distance), seglen(*self)); ax_rnd_zero(); lemma_l1(*self); lemma_mix(it(self.p0.x), it(self.p1.x), f); lemma_mix(it(self.p0.y), it(self.p1.y), f); lemma_fb(f, dx(*self)); lemma_fb(f, dy(*self));
        lemma_rot(o, dx(*self), l); lemma_rot(o, dy(*self), l); assert(0real / l == 0real) by (nonlinear_arith) requires l >= 1real; if o == 0real { assert(o * (dx(*self) as real) == 0real) by (nonlinear_arith) requires o == 0real; assert(o * (dy(*self) as real) == 0real) by (nonlinear_arith) requires o == 0real; } }"""),
   Fn("offset", requires="iseg(*self), len2(*self) > 0, fin(offset_distance), rabs(val(offset_distance)) <= 33554432real",
      ensures="offat(*self, 0real, val(offset_distance), r.p0), offat(*self, 1real, val(offset_distance), r.p1)", start="broadcast use f64_ax, ax_lits;"),
   Fn("intersection", requires="iseg(*self), iseg(*line)", ensures="r.is_some() == crossing(*self, *line)", external=True),
   Fn("closest_points", requires="iseg(*self), iseg(*line)", ensures="""crossing(*self, *line) == (r@.len() == 1), !crossing(*self, *line) ==> r@.len() == 2 && nearest(*self, *line, r@[0], r@[1])""",
      start="broadcast use f64_ax, ty_ax; proof { lemma_same(*self, line.p0); lemma_same(*self, line.p1); lemma_same(*line, self.p0); lemma_same(*line, self.p1); lemma_swd(); }"),
   Fn("distance_perpendicular", requires="iseg(*self), ipt(*p)", ensures="eqp(self.p0, self.p1) ==> fin(r) && val(r) == dist(self.p0, *p)"),
 ])]
PRELUDE += """
pub open spec fn scmp(a: LineSegment, b: LineSegment) -> i32 { if cmpv(a.p0, b.p0) != 0 { cmpv(a.p0, b.p0) } else { cmpv(a.p1, b.p1) } }
/// the side of a segment whose ends have the determinants a and b
pub open spec fn side(a: int, b: int) -> int { if a > 0 && b < 0 || a < 0 && b > 0 { 0 } else if a > 0 || b > 0 { 1 } else if a < 0 || b < 0 { -1 } else { 0 } }
pub open spec fn clamp01(x: real) -> real { if x < 0real { 0real } else if x > 1real { 1real } else { x } }
pub proof fn lemma_iq(n: int, d: int) ensures d >= 1 && in53(n) ==> rabs((n as real) / (d as real)) <= 9007199254740992real && inrange((n as real) / (d as real))
{ broadcast use f64_ax; if d >= 1 && in53(n) { let (q, nr, dr) = ((n as real) / (d as real), n as real, d as real);
    assert(q * dr == nr) by (nonlinear_arith) requires q == nr / dr, dr != 0real;
    assert(-9007199254740992real <= q <= 9007199254740992real) by (nonlinear_arith) requires q * dr == nr, dr >= 1real, -9007199254740992real <= nr <= 9007199254740992real; } }
pub proof fn lemma_at0(s: LineSegment) requires iseg(s) ensures at(s, 0real, s.p0), at(s, 1real, s.p1)
{ lemma_mix(it(s.p0.x), it(s.p1.x), 0real); lemma_mix(it(s.p0.y), it(s.p1.y), 0real); lemma_mix(it(s.p0.x), it(s.p1.x), 1real); lemma_mix(it(s.p0.y), it(s.p1.y), 1real); }
pub proof fn lemma_m(s: LineSegment, f: real) requires iseg(s), 0real <= f <= 1real ensures forall|r: Coordinate| at(s, f, r) ==> inbox(s, r)
{ assert forall|r: Coordinate| at(s, f, r) implies inbox(s, r) by { lemma_at(s, f, r); } }
"""
PRELUDE += """
pub open spec fn seglen(s: LineSegment) -> real { hypr(dx(s) as real, dy(s) as real) }
/// a component of the vector of length o along a segment with that difference of ordinates
pub open spec fn rot(o: real, d: int, l: real) -> real { rnd(rnd(o * (d as real)) / l) }
/// the point at fraction f, moved by o to the left
pub open spec fn offat(s: LineSegment, f: real, o: real, r: Coordinate) -> bool {
  fpt(r) && val(r.x) == rnd(mix(it(s.p0.x), it(s.p1.x), f) - rot(o, dy(s), seglen(s))) && val(r.y) == rnd(mix(it(s.p0.y), it(s.p1.y), f) + rot(o, dx(s), seglen(s))) }
pub proof fn lemma_l1(s: LineSegment) requires iseg(s), len2(s) > 0 ensures 1real <= seglen(s) <= 134217728real
{ broadcast use ax_hypr; assert(dx(s) != 0 || dy(s) != 0); assert(seglen(s) >= rabs(dx(s) as real) && seglen(s) >= rabs(dy(s) as real) && seglen(s) <= rabs(dx(s) as real) + rabs(dy(s) as real)); }
pub proof fn lemma_rot(o: real, d: int, l: real) requires rabs(o) <= 33554432real, -67108864 <= d <= 67108864, l >= 1real
  ensures inrange(o * (d as real)), inrange(rnd(o * (d as real)) / l), rabs(rot(o, d, l)) <= 36028797018963968real
{ broadcast use f64_ax; let z = d as real; assert(rabs(o * z) <= 2251799813685248real) by (nonlinear_arith) requires -33554432real <= o <= 33554432real, -67108864real <= z <= 67108864real;
  lemma_rb(o * z); let n = rnd(o * z); let q = n / l; assert(q * l == n) by (nonlinear_arith) requires q == n / l, l != 0real;
  assert(-5000000000000000real <= q <= 5000000000000000real) by (nonlinear_arith) requires q * l == n, l >= 1real, -5000000000000000real <= n <= 5000000000000000real; lemma_rb(q); }
/// a horizontal or vertical segment moves by exactly the offset, to its left
pub proof fn theorem_offset_axis(s: LineSegment, o: int, f: real, r: Coordinate)
  requires iseg(s), len2(s) > 0, -33554432 <= o <= 33554432, f == 0real || f == 1real, offat(s, f, o as real, r)
  ensures dy(s) == 0 && dx(s) > 0 ==> val(r.y) == (it(s.p0.y) + o) as real && val(r.x) == val(if f == 0real { s.p0.x } else { s.p1.x }),
    dy(s) == 0 && dx(s) < 0 ==> val(r.y) == (it(s.p0.y) - o) as real, dx(s) == 0 && dy(s) > 0 ==> val(r.x) == (it(s.p0.x) - o) as real, dx(s) == 0 && dy(s) < 0 ==> val(r.x) == (it(s.p0.x) + o) as real
{ broadcast use ax_hypr; lemma_at0(s); ax_rnd_zero();
  let (x, y, l) = (dx(s), dy(s), seglen(s)); assert(seglen(s) >= rabs(x as real) && seglen(s) >= rabs(y as real) && seglen(s) <= rabs(x as real) + rabs(y as real));
  lemma_mix(it(s.p0.x), it(s.p1.x), f); lemma_mix(it(s.p0.y), it(s.p1.y), f);
  assert((o as real) * (0 as real) == 0real); assert(0real / l == 0real) by (nonlinear_arith) requires l > 0real;
  if y == 0 { lemma_axis(o, x, l); ax_rnd_int(it(s.p0.y) + o); ax_rnd_int(it(s.p0.y) - o); ax_rnd_int(it(s.p0.x)); ax_rnd_int(it(s.p1.x)); }
  else if x == 0 { lemma_axis(o, y, l); ax_rnd_int(it(s.p0.x) + o); ax_rnd_int(it(s.p0.x) - o); } }
pub proof fn lemma_axis(o: int, d: int, l: real) requires -33554432 <= o <= 33554432, -67108864 <= d <= 67108864, d != 0, l == rabs(d as real)
  ensures rot(o as real, d, l) == if d > 0 { o as real } else { -(o as real) }
{ let p = o * d; assert(-2251799813685248 <= p <= 2251799813685248) by (nonlinear_arith) requires p == o * d, -33554432 <= o <= 33554432, -67108864 <= d <= 67108864;
  assert((o as real) * (d as real) == p as real) by (nonlinear_arith) requires p == o * d; ax_rnd_int(p); ax_rnd_int(o); ax_rnd_int(-o);
  let (oo, dd) = (o as real, d as real); let q = p as real / l; assert(p as real == oo * dd);
  if d > 0 { assert(q == oo) by (nonlinear_arith) requires q == (oo * dd) / l, l == dd, dd != 0real; }
  else { assert(q == -oo) by (nonlinear_arith) requires q == (oo * dd) / l, l == -dd, dd != 0real; } }
"""
PRELUDE += """
/// ordinates up to 2^14
pub open spec fn p15(c: Coordinate) -> bool { ipt(c) && -16384 <= it(c.x) <= 16384 && -16384 <= it(c.y) <= 16384 }
pub open spec fn s15(s: LineSegment) -> bool { p15(s.p0) && p15(s.p1) }
/// the coefficients of the line a x + b y + c = 0
pub open spec fn la(s: LineSegment) -> int { dy(s) }
pub open spec fn lb(s: LineSegment) -> int { it(s.p0.x) - it(s.p1.x) }
pub open spec fn lc(s: LineSegment) -> int { it(s.p0.y) * dx(s) - it(s.p0.x) * dy(s) }
/// numerators of the mirror image of p in the line, over the squared length
pub open spec fn refx(s: LineSegment, p: Coordinate) -> int { -(la(s) * la(s) - lb(s) * lb(s)) * it(p.x) - 2 * la(s) * lb(s) * it(p.y) - 2 * la(s) * lc(s) }
pub open spec fn refy(s: LineSegment, p: Coordinate) -> int { (la(s) * la(s) - lb(s) * lb(s)) * it(p.y) - 2 * la(s) * lb(s) * it(p.x) - 2 * lb(s) * lc(s) }
pub open spec fn bnd(k: int, m: int) -> bool { -m <= k <= m }
pub proof fn lemma_refb(s: LineSegment, p: Coordinate) requires s15(s), p15(p)
  ensures la(s) * la(s) + lb(s) * lb(s) == len2(s), bnd(la(s) * la(s), 1073741824), bnd(lb(s) * lb(s), 1073741824), bnd(it(s.p0.y) * dx(s), 536870912), bnd(it(s.p0.x) * dy(s), 536870912),
    bnd(-(la(s) * la(s) - lb(s) * lb(s)) * it(p.x), 35184372088832), bnd((la(s) * la(s) - lb(s) * lb(s)) * it(p.x), 35184372088832), bnd((la(s) * la(s) - lb(s) * lb(s)) * it(p.y), 35184372088832),
    bnd(2 * la(s) * lb(s), 2147483648), bnd(2 * la(s) * lb(s) * it(p.x), 35184372088832), bnd(2 * la(s) * lb(s) * it(p.y), 35184372088832), bnd(2 * la(s) * lc(s), 70368744177664), bnd(2 * lb(s) * lc(s), 70368744177664),
    2 * la(s) * lb(s) == (2 * la(s)) * lb(s), 2 * la(s) * lc(s) == (2 * la(s)) * lc(s), 2 * lb(s) * lc(s) == (2 * lb(s)) * lc(s)
{ let (a, b, c, x, y) = (la(s), lb(s), lc(s), it(p.x), it(p.y)); let (u, v) = (dx(s), dy(s)); assert((-u) * (-u) == u * u) by (nonlinear_arith); assert(b == -u);
  lemma_pb(a, a, 32768, 32768); lemma_pb(b, b, 32768, 32768); lemma_pb(it(s.p0.y), u, 16384, 32768); lemma_pb(it(s.p0.x), v, 16384, 32768);
  let q = a * a - b * b; lemma_pb(q, x, 2147483648, 16384); lemma_pb(-q, x, 2147483648, 16384); lemma_pb(q, y, 2147483648, 16384);
  lemma_pb(2 * a, b, 65536, 32768); let t = 2 * a * b; lemma_pb(t, x, 2147483648, 16384); lemma_pb(t, y, 2147483648, 16384); lemma_pb(2 * a, c, 65536, 1073741824); lemma_pb(2 * b, c, 65536, 1073741824); }
pub open spec fn mnr(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn bpt(c: Coordinate) -> bool { fpt(c) && rabs(val(c.x)) <= 33554432real && rabs(val(c.y)) <= 33554432real }
/// the distance as computed: the length of the rounded differences
pub open spec fn fdist(a: Coordinate, b: Coordinate) -> real { hypr(rnd(val(a.x) - val(b.x)), rnd(val(a.y) - val(b.y))) }
pub proof fn lemma_bd1(x: f64, y: f64) requires fin(x), fin(y), rabs(val(x)) <= 33554432real, rabs(val(y)) <= 33554432real ensures inrange(val(x) - val(y)), rabs(rnd(val(x) - val(y))) <= 67108864real,
  i24(x) && i24(y) ==> rnd(val(x) - val(y)) == (it(x) - it(y)) as real, rnd(val(y) - val(x)) == -rnd(val(x) - val(y))
{ broadcast use f64_ax, f64_int; let d = val(x) - val(y); ax_rnd_int(67108864); ax_rnd_int(-67108864); ax_rnd_mono(d, 67108864real); ax_rnd_mono(-67108864real, d); ax_rnd_neg(d); assert(-d == val(y) - val(x)); if i24(x) && i24(y) { ax_rnd_int(it(x) - it(y)); } }
pub proof fn lemma_bd(a: Coordinate, b: Coordinate) requires bpt(a), bpt(b) ensures inrange(val(a.x) - val(b.x)), inrange(val(a.y) - val(b.y)), rabs(rnd(val(a.x) - val(b.x))) <= 67108864real, rabs(rnd(val(a.y) - val(b.y))) <= 67108864real,
  ipt(a) && ipt(b) ==> fdist(a, b) == dist(a, b), fdist(a, b) == fdist(b, a)
{ broadcast use ax_hypr; lemma_bd1(a.x, b.x); lemma_bd1(a.y, b.y); assert(hypr(rnd(val(a.x) - val(b.x)), rnd(val(a.y) - val(b.y))) == hypr(-rnd(val(a.x) - val(b.x)), -rnd(val(a.y) - val(b.y)))); }
/// two segments share a point: at fraction n/d of the one and m/d of the other
pub open spec fn meet_at(p1: Coordinate, p2: Coordinate, q1: Coordinate, q2: Coordinate, d: int, n: int, m: int) -> bool {
    d > 0 && 0 <= n <= d && 0 <= m <= d
    && it(p1.x) * d + n * (it(p2.x) - it(p1.x)) == it(q1.x) * d + m * (it(q2.x) - it(q1.x))
    && it(p1.y) * d + n * (it(p2.y) - it(p1.y)) == it(q1.y) * d + m * (it(q2.y) - it(q1.y)) }
pub open spec fn crossing(a: LineSegment, b: LineSegment) -> bool { exists|d: int, n: int, m: int| meet_at(a.p0, a.p1, b.p0, b.p1, d, n, m) }
/// the nearest point of a segment, as closest_point gives it
pub open spec fn near(s: LineSegment, p: Coordinate, r: Coordinate) -> bool { inbox(s, r)
  && (len2(s) > 0 && 0 < num(s, p) < len2(s) ==> at(s, quo(num(s, p), len2(s)), r))
  && (!(len2(s) > 0 && 0 < num(s, p) < len2(s)) ==> (r == s.p0 || r == s.p1) && dist(r, p) <= dist(s.p0, p) && dist(r, p) <= dist(s.p1, p)) }
pub proof fn lemma_inb(s: LineSegment, r: Coordinate) requires iseg(s), inbox(s, r) ensures bpt(r) { broadcast use f64_ax, f64_int; }
/// all nearest points are equally far
pub proof fn lemma_same(s: LineSegment, p: Coordinate) requires iseg(s), ipt(p) ensures forall|a: Coordinate, b: Coordinate| #[trigger] near(s, p, a) && #[trigger] near(s, p, b) ==> fdist(a, p) == fdist(b, p), forall|a: Coordinate| #[trigger] near(s, p, a) ==> bpt(a)
{ assert forall|a: Coordinate| #[trigger] near(s, p, a) implies bpt(a) by { lemma_inb(s, a); }
  assert forall|a: Coordinate, b: Coordinate| #[trigger] near(s, p, a) && #[trigger] near(s, p, b) implies fdist(a, p) == fdist(b, p) by {
    if !(len2(s) > 0 && 0 < num(s, p) < len2(s)) { lemma_ib(s.p0); lemma_ib(s.p1); lemma_ib(p); lemma_bd(s.p0, p); lemma_bd(s.p1, p); } } }
pub proof fn lemma_ib(p: Coordinate) requires ipt(p) ensures bpt(p) { broadcast use f64_ax, f64_int; }
pub proof fn lemma_swd() ensures forall|a: Coordinate, b: Coordinate| bpt(a) && bpt(b) ==> #[trigger] fdist(a, b) == fdist(b, a)
{ assert forall|a: Coordinate, b: Coordinate| bpt(a) && bpt(b) implies #[trigger] fdist(a, b) == fdist(b, a) by { lemma_bd(a, b); } }
/// a pair of points, one of them an end of its segment and the other the nearest point to it, no farther apart than any other such pair
pub open spec fn nearest(s: LineSegment, l: LineSegment, a: Coordinate, b: Coordinate) -> bool {
  (near(s, l.p0, a) && b == l.p0 || near(s, l.p1, a) && b == l.p1 || near(l, s.p0, b) && a == s.p0 || near(l, s.p1, b) && a == s.p1)
  && (forall|c: Coordinate| #[trigger] near(s, l.p0, c) ==> fdist(a, b) <= fdist(c, l.p0)) && (forall|c: Coordinate| #[trigger] near(s, l.p1, c) ==> fdist(a, b) <= fdist(c, l.p1))
  && (forall|c: Coordinate| #[trigger] near(l, s.p0, c) ==> fdist(a, b) <= fdist(c, s.p0)) && (forall|c: Coordinate| #[trigger] near(l, s.p1, c) ==> fdist(a, b) <= fdist(c, s.p1)) }
"""
LEMMAS = """
/// reflecting is what it is called: the image lies as far on the other side of the line, on the perpendicular through the point
pub proof fn theorem_reflect(s: LineSegment, p: Coordinate) requires s15(s), p15(p)
  ensures la(s) * refx(s, p) + lb(s) * refy(s, p) + 2 * lc(s) * len2(s) == -len2(s) * (la(s) * it(p.x) + lb(s) * it(p.y)), lb(s) * (refx(s, p) - len2(s) * it(p.x)) == la(s) * (refy(s, p) - len2(s) * it(p.y))
{ let (a, b, c, x, y) = (la(s), lb(s), lc(s), it(p.x), it(p.y)); let (u, v) = (dx(s), dy(s)); assert((-u) * (-u) == u * u) by (nonlinear_arith); assert(b == -u); assert(len2(s) == a * a + b * b); lemma_refl(a, b, c, x, y, a * a - b * b, len2(s), 2 * a * b, refx(s, p), refy(s, p)); let (l, m) = (len2(s), a * x + b * y); lemma_neg(l, m); }
proof fn lemma_as(k: int, q: int, x: int) ensures k * (q * x) == (k * q) * x { assert(k * (q * x) == (k * q) * x) by (nonlinear_arith); }
proof fn lemma_d3(k: int, u: int, v: int, w: int) ensures k * (u + v + w) == k * u + k * v + k * w { assert(k * (u + v + w) == k * u + k * v + k * w) by (nonlinear_arith); }
proof fn lemma_d2(u: int, v: int, x: int) ensures (u + v) * x == u * x + v * x, (u - v) * x == u * x - v * x { assert((u + v) * x == u * x + v * x) by (nonlinear_arith); assert((u - v) * x == u * x - v * x) by (nonlinear_arith); }
proof fn lemma_neg(u: int, x: int) ensures (-u) * x == -(u * x), u * (-x) == -(u * x) { assert((-u) * x == -(u * x)) by (nonlinear_arith); assert(u * (-x) == -(u * x)) by (nonlinear_arith); }
proof fn lemma_refl(a: int, b: int, c: int, x: int, y: int, q: int, l: int, t: int, rx: int, ry: int)
  requires q == a * a - b * b, l == a * a + b * b, t == 2 * a * b, rx == -q * x - t * y - 2 * a * c, ry == q * y - t * x - 2 * b * c
  ensures a * rx + b * ry + 2 * c * l == -l * (a * x + b * y), b * (rx - l * x) == a * (ry - l * y)
{ let (aa, bb, ab) = (a * a, b * b, a * b);
  assert(t == 2 * ab) by (nonlinear_arith) requires t == 2 * a * b, ab == a * b;
  // a q + b t = a l and b q - a t = -b l
  assert(a * q == a * aa - a * bb) by (nonlinear_arith) requires q == aa - bb; assert(b * q == b * aa - b * bb) by (nonlinear_arith) requires q == aa - bb;
  assert(a * l == a * aa + a * bb) by (nonlinear_arith) requires l == aa + bb; assert(b * l == b * aa + b * bb) by (nonlinear_arith) requires l == aa + bb;
  assert(b * t == 2 * (a * bb)) by (nonlinear_arith) requires t == 2 * ab, ab == a * b, bb == b * b; assert(a * t == 2 * (b * aa)) by (nonlinear_arith) requires t == 2 * ab, ab == a * b, aa == a * a;
  assert(a * q + b * t == a * l); assert(b * q - a * t == -(b * l));
  let (ac, bc) = (2 * a * c, 2 * b * c);
  lemma_neg(q, x); let (qx, ty, qy, tx, lx, ly) = (q * x, t * y, q * y, t * x, l * x, l * y);
  assert(rx == -qx - ty - ac && ry == qy - tx - bc);
  lemma_d3(a, -qx, -ty, -ac); lemma_d3(b, qy, -tx, -bc); lemma_d3(b, -qx, -ty, -ac); lemma_d3(a, qy, -tx, -bc);
  lemma_neg(a, qx); lemma_neg(a, ty); lemma_neg(a, ac); lemma_neg(b, tx); lemma_neg(b, bc); lemma_neg(b, qx); lemma_neg(b, ty); lemma_neg(b, ac); lemma_neg(a, tx); lemma_neg(a, bc);
  lemma_as(a, q, x); lemma_as(a, t, y); lemma_as(b, q, y); lemma_as(b, t, x); lemma_as(b, q, x); lemma_as(b, t, y); lemma_as(a, q, y); lemma_as(a, t, x); lemma_as(a, l, x); lemma_as(b, l, y); lemma_as(b, l, x); lemma_as(a, l, y);
  lemma_d2(a * q, b * t, x); lemma_d2(b * q, a * t, y); lemma_d2(b * q, a * t, x); lemma_d2(a * q, b * t, y); lemma_neg(b * l, x); lemma_neg(b * l, y); lemma_neg(a * l, y);
  assert(a * ac + b * bc == 2 * c * l) by (nonlinear_arith) requires ac == 2 * a * c, bc == 2 * b * c, l == a * a + b * b;
  assert(b * ac == a * bc) by (nonlinear_arith) requires ac == 2 * a * c, bc == 2 * b * c;
  assert(-l * (a * x + b * y) == -(a * lx) - b * ly) by (nonlinear_arith) requires lx == l * x, ly == l * y;
  assert(b * (rx - lx) == b * rx - b * lx && a * (ry - ly) == a * ry - a * ly) by (nonlinear_arith); }
/// a segment and its reverse: same topological class, same normal form, opposite sides, complementary projection
pub proof fn theorem_reverse(s: LineSegment, p: Coordinate) requires iseg(s), ipt(p)
  ensures rev(rev(s)) == s, len2(rev(s)) == len2(s), num(rev(s), p) == len2(s) - num(s, p), dt(s.p1, s.p0, p) == -dt(s.p0, s.p1, p)
{ let (x, y) = (dx(s), dy(s)); let (u, v) = (it(p.x) - it(s.p0.x), it(p.y) - it(s.p0.y));
  assert((-x) * (-x) == x * x && (-y) * (-y) == y * y) by (nonlinear_arith);
  assert((u - x) * (-x) == x * x - u * x) by (nonlinear_arith); assert((v - y) * (-y) == y * y - v * y) by (nonlinear_arith);
  let (a, b, c, d, e, f) = (it(s.p0.x), it(s.p0.y), it(s.p1.x), it(s.p1.y), it(p.x), it(p.y));
  lemma_swp(a, b, c, d, e, f); }
proof fn lemma_swp(a: int, b: int, c: int, d: int, e: int, f: int) ensures deti(c, d, a, b, e, f) == -deti(a, b, c, d, e, f)
{ let (x, y) = (c - a, d - b); let (u, v) = (e - c, f - d);
  assert((-x) * (v + y) == -(x * v) - x * y) by (nonlinear_arith); assert((-y) * (u + x) == -(y * u) - x * y) by (nonlinear_arith); }
pub proof fn theorem_normal_form(a: LineSegment, n: LineSegment, m: LineSegment)
  requires fseg(a), n == a || n == rev(a), cmpv(n.p0, n.p1) <= 0, m == rev(a) || m == rev(rev(a)), cmpv(m.p0, m.p1) <= 0
  ensures eqv(n.p0, m.p0), eqv(n.p1, m.p1) { }
pub proof fn theorem_order(a: LineSegment, b: LineSegment, c: LineSegment) requires fseg(a), fseg(b), fseg(c)
  ensures scmp(a, b) == -scmp(b, a), (scmp(a, b) == 0) == (eqv(a.p0, b.p0) && eqv(a.p1, b.p1)), scmp(a, b) <= 0 && scmp(b, c) <= 0 ==> scmp(a, c) <= 0 { }
"""
ASSUMPTIONS = ["LineSegment::intersection by its contract, discharged by C06", "integer ordinates up to 2^24 for arithmetic, any finite ordinates for comparison", "Orientation::index by its contract, discharged by C03"]
