from rsx import Fn
USES = ["f64", "env"]
STRUCTS = [("src/core/geom/coordinate.rs", "Coordinate", "#[derive(Copy, Clone)]"), ("src/core/geom/envelope.rs", "Envelope", "")]
PRELUDE = """
pub open spec fn gap(a0: real, a1: real, b0: real, b1: real) -> real {
    if a1 < b0 { b0 - a1 } else if b1 < a0 { a0 - b1 } else { 0real } }
pub open spec fn dxr(a: Envelope, b: Envelope) -> real { rnd(gap(val(a.minx), val(a.maxx), val(b.minx), val(b.maxx))) }
pub open spec fn dyr(a: Envelope, b: Envelope) -> real { rnd(gap(val(a.miny), val(a.maxy), val(b.miny), val(b.maxy))) }
pub open spec fn wr(a: Envelope) -> real { if enull(a) { 0real } else { rnd(val(a.maxx) - val(a.minx)) } }
pub open spec fn hr(a: Envelope) -> real { if enull(a) { 0real } else { rnd(val(a.maxy) - val(a.miny)) } }
pub proof fn lemma_gap(x: f64, y: f64) requires lim(x), lim(y)
   ensures val(x) < val(y) ==> rnd(val(y) - val(x)) > 0real, val(x) <= val(y) ==> rnd(val(y) - val(x)) >= 0real,
       inrange(rnd(val(y) - val(x))), rabs(rnd(val(y) - val(x))) <= 3000000000000000000000000000000real
{ broadcast use ax_big; ax_rnd_zero(); if val(x) <= val(y) { ax_rnd_mono(0real, val(y) - val(x)); }
  ax_rnd_err_sum(y, x); }
/// the rounded difference of distinct doubles is never zero, so contact is decided exactly
pub proof fn lemma_gaps(a: Envelope, b: Envelope) requires wfe(a), wfe(b), !enull(a), !enull(b)
   ensures dxr(a, b) >= 0real, dyr(a, b) >= 0real,
       (dxr(a, b) == 0real && dyr(a, b) == 0real) == emeet(a, b)
{ lemma_gap(a.maxx, b.minx); lemma_gap(b.maxx, a.minx); lemma_gap(a.maxy, b.miny); lemma_gap(b.maxy, a.miny); ax_rnd_zero(); }
/// distance is symmetric: its contract determines it and the contract is symmetric
pub proof fn lemma_distance_symmetric(a: Envelope, b: Envelope) requires wfe(a), wfe(b), !enull(a), !enull(b)
   ensures dxr(a, b) == dxr(b, a), dyr(a, b) == dyr(b, a), emeet(a, b) == emeet(b, a) { }
"""
ST = "broadcast use f64_ax, f64_err, ty_ax;"
def gapst(x): return ST
NULL = "enull(*old(self)) ==> *final(self) == *old(self)"
IMPLS = [
 dict(file="src/core/geom/coordinate.rs", ty="Coordinate", fns=[
   Fn("new_coordinatexy", ensures="r.x == x, r.y == y"),
   Fn("new_xy", ensures="r.x == x, r.y == y"),
 ]),
 dict(file="src/core/geom/envelope.rs", ty="Envelope", fns=[
   Fn("is_null", requires="wfe(*self)", ensures="r == enull(*self)", start=ST),
   Fn("set_to_null", ensures="wfe(*final(self)), enull(*final(self))", start=ST + "proof { lemma_one(); }"),
   Fn("get_min_x", ensures="r == self.minx"), Fn("get_max_x", ensures="r == self.maxx"),
   Fn("get_min_y", ensures="r == self.miny"), Fn("get_max_y", ensures="r == self.maxy"),
   Fn("get_width", requires="wfe(*self)", ensures="fin(r), val(r) == wr(*self), val(r) >= 0real",
      start=ST + "proof { lemma_gap(self.minx, self.maxx); }"),
   Fn("get_height", requires="wfe(*self)", ensures="fin(r), val(r) == hr(*self), val(r) >= 0real",
      start=ST + "proof { lemma_gap(self.miny, self.maxy); }"),
   Fn("get_area", requires="wfe(*self)", ensures="fin(r), val(r) == rnd(wr(*self) * hr(*self)), val(r) >= 0real",
      start=ST + "proof { lemma_area(*self); }"),
   Fn("get_diameter", requires="wfe(*self)", ensures="enull(*self) ==> val(r) == 0real, !enull(*self) ==> is_hypot(wr(*self), hr(*self), r)",
      start=ST + "proof { lemma_gap(self.minx, self.maxx); lemma_gap(self.miny, self.maxy); }"),
   Fn("min_extent", requires="wfe(*self)", ensures="fin(r), val(r) == if wr(*self) < hr(*self) { wr(*self) } else { hr(*self) }", start=ST),
   Fn("max_extent", requires="wfe(*self)", ensures="fin(r), val(r) == if wr(*self) < hr(*self) { hr(*self) } else { wr(*self) }", start=ST),
   Fn("expand_by_delta_xy", requires="wfe(*old(self)), lim(delta_x), lim(delta_y)",
      ensures=NULL + """, !enull(*old(self)) ==> grown(*old(self), val(delta_x), val(delta_y), *final(self))""", start=ST),
   Fn("expand_by", requires="wfe(*old(self)), lim(distance)",
      ensures=NULL + """, !enull(*old(self)) ==> grown(*old(self), val(distance), val(distance), *final(self))""", start=ST),
   Fn("translate", requires="wfe(*old(self)), lim(trans_x), lim(trans_y)",
      ensures=NULL + """, !enull(*old(self)) ==> !enull(*final(self))
          && val(final(self).minx) == rnd(val(old(self).minx) + val(trans_x)) && val(final(self).maxx) == rnd(val(old(self).maxx) + val(trans_x))
          && val(final(self).miny) == rnd(val(old(self).miny) + val(trans_y)) && val(final(self).maxy) == rnd(val(old(self).maxy) + val(trans_y))""",
      start=ST + """proof { if !enull(*self) { ax_rnd_mono(val(self.minx) + val(trans_x), val(self.maxx) + val(trans_x)); ax_rnd_mono(val(self.miny) + val(trans_y), val(self.maxy) + val(trans_y)); } }"""),
   Fn("centre", requires="wfe(*self)", ensures="""r.is_none() == enull(*self), r.is_some() ==> val(r.unwrap().x) == rnd(rnd(val(self.minx) + val(self.maxx)) / 2real) && val(r.unwrap().y) == rnd(rnd(val(self.miny) + val(self.maxy)) / 2real)""",
      start=ST + "proof { ax_rnd_err_sum(self.minx, self.maxx); ax_rnd_err_sum(self.miny, self.maxy); }"),
   Fn("intersects_envelope", requires="wfe(*self), wfe(*other)", ensures="r == emeet(*self, *other)", start=ST),
   Fn("distance_envelope", requires="wfe(*self), wfe(*env), !enull(*self), !enull(*env)",
      ensures="""fin(r), val(r) >= 0real, (val(r) == 0real) == emeet(*self, *env), val(r) >= dxr(*self, *env), val(r) >= dyr(*self, *env),
         dxr(*self, *env) == 0real ==> val(r) == dyr(*self, *env), dyr(*self, *env) == 0real ==> val(r) == dxr(*self, *env),
         is_hypot(dxr(*self, *env), dyr(*self, *env), r)""",
      start=ST + """proof { lemma_gaps(*self, *env); ax_rnd_zero();
        lemma_gap(self.maxx, env.minx); lemma_gap(env.maxx, self.minx); lemma_gap(self.maxy, env.miny); lemma_gap(env.maxy, self.miny); }"""),
 ]),
]
LEMMAS = """
/// each side moves by exactly the amount (correctly rounded), null when it would cross
pub open spec fn grown(e: Envelope, dx: real, dy: real, r: Envelope) -> bool {
    let a = rnd(val(e.minx) - dx); let b = rnd(val(e.maxx) + dx); let c = rnd(val(e.miny) - dy); let d = rnd(val(e.maxy) + dy);
    if a > b || c > d { enull(r) } else { !enull(r) && val(r.minx) == a && val(r.maxx) == b && val(r.miny) == c && val(r.maxy) == d }
}
pub proof fn lemma_area(e: Envelope) requires wfe(e) ensures inrange(wr(e) * hr(e)), rnd(wr(e) * hr(e)) >= 0real
{ broadcast use ax_big; lemma_gap(e.minx, e.maxx); lemma_gap(e.miny, e.maxy);
  if !enull(e) { ax_rnd_err_sum(e.maxx, e.minx); ax_rnd_err_sum(e.maxy, e.miny); }
  let w = wr(e); let h = hr(e);
  assert(0real <= w * h <= 3000000000000000000000000000000real * 3000000000000000000000000000000real) by (nonlinear_arith)
     requires 0real <= w <= 3000000000000000000000000000000real, 0real <= h <= 3000000000000000000000000000000real;
  ax_rnd_zero(); ax_rnd_mono(0real, w * h); }
pub proof fn lemma_one() ensures fneg_one() { }
pub open spec fn fneg_one() -> bool { true }
"""
