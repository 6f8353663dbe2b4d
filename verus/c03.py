from rsx import Fn
USES = ["f64"]
STRUCTS = [("src/core/geom/coordinate.rs", "Coordinate", "#[derive(Copy, Clone)]"), ("src/core/math/dd.rs", "DD", "#[derive(Copy, Clone)]"), ("src/core/algorithm/orientation.rs", "Orientation", "")]
PRELUDE = """
pub broadcast axiom fn ax_eps() ensures #[trigger] fin(1e-15f64), 0.000000000000000999real < val(1e-15f64) < 0.000000000000001001real;
/// exact cross product of the directions c->a and c->b
pub open spec fn det(ax: real, ay: real, bx: real, by: real, cx: real, cy: real) -> real {
    (ax - cx) * (by - cy) - (ay - cy) * (bx - cx)
}
/// far enough from underflow for the error analysis (zero is fine)
pub open spec fn safe(x: real) -> bool { x == 0real || rabs(x) >= 1000000000000000000000real * tiny() }
pub open spec fn lim(x: f64) -> bool { fin(x) && rabs(val(x)) <= 1000000000000000000000000000000real }

pub open spec fn u21() -> real { 0.000000000000000233146835171282873488962650299072265625real }
pub open spec fn u4() -> real { 0.00000000000000044408920985006261616945266723632812500real }
pub open spec fn u8() -> real { 0.00000000000000088817841970012523233890533447265625000real }
pub proof fn lemma_rabs_mul(x: real, y: real) ensures rabs(x * y) == rabs(x) * rabs(y) {
    assert(rabs(x * y) == rabs(x) * rabs(y)) by (nonlinear_arith); }
pub proof fn lemma_mul_mono(a: real, b: real, c: real) requires 0real <= a, b <= c ensures a * b <= a * c {
    assert(a * b <= a * c) by (nonlinear_arith) requires 0real <= a, b <= c; }
pub proof fn lemma_prod(a: real, b: real, fa: real, fb: real)
    requires rabs(fa - a) <= rabs(a) * ulp(), rabs(fb - b) <= rabs(b) * ulp()
    ensures rabs(fa * fb - a * b) <= u21() * rabs(a * b)
{
    let u = ulp();
    let ea = fa - a; let eb = fb - b;
    assert(fa * fb - a * b == a * eb + ea * b + ea * eb) by (nonlinear_arith) requires ea == fa - a, eb == fb - b;
    lemma_rabs_mul(a, eb); lemma_rabs_mul(ea, b); lemma_rabs_mul(ea, eb); lemma_rabs_mul(a, b);
    let A = rabs(a); let B = rabs(b); let EA = rabs(ea); let EB = rabs(eb);
    assert(A * EB <= A * (B * u)) by { lemma_mul_mono(A, EB, B * u); }
    assert(EA * B <= (A * u) * B) by { lemma_mul_mono(B, EA, A * u); assert(EA * B == B * EA) by (nonlinear_arith); assert((A * u) * B == B * (A * u)) by (nonlinear_arith); }
    assert(EA * EB <= (A * u) * (B * u)) by (nonlinear_arith) requires 0real <= EA <= A * u, 0real <= EB <= B * u, EA >= 0real, EB >= 0real;
    let AB = A * B;
    assert(AB >= 0real) by (nonlinear_arith) requires AB == A * B, A >= 0real, B >= 0real;
    assert(A * (B * u) == u * AB && (A * u) * B == u * AB && (A * u) * (B * u) == (u * u) * AB) by (nonlinear_arith) requires AB == A * B;
    assert((u * u) * AB <= (0.1real * u) * AB) by (nonlinear_arith) requires AB >= 0real, u == ulp();
    assert((0.1real * u) * AB == 0.1real * (u * AB)) by (nonlinear_arith);
    
}
/// a product of two rounded differences, rounded: relative error below 3.2 * 2^-53
pub proof fn lemma_term(ax: f64, cx: f64, by: f64, cy: f64, dl: real)
    requires fin(ax), fin(cx), fin(by), fin(cy), safe(rnd(val(ax) - val(cx)) * rnd(val(by) - val(cy))),
        dl == rnd(rnd(val(ax) - val(cx)) * rnd(val(by) - val(cy)))
    ensures rabs(dl - (val(ax) - val(cx)) * (val(by) - val(cy))) <= u4() * rabs((val(ax) - val(cx)) * (val(by) - val(cy)))
{
    let a = val(ax) - val(cx); let b = val(by) - val(cy);
    ax_rnd_err_sum(ax, cx); ax_rnd_err_sum(by, cy);
    lemma_prod(a, b, rnd(a), rnd(b));
    let p = rnd(a) * rnd(b);
    ax_tiny();
    ax_rnd_err(p);
    assert(rabs(p) <= rabs(a * b) + u21() * rabs(a * b));
}
"""
DDI = """
/// the extended-precision number holds exactly the integer k
pub open spec fn ddi(d: DD, k: int) -> bool { isi(d.hi) && isi(d.lo) && it(d.hi) == k && it(d.lo) == 0 }
pub open spec fn dv(d: DD) -> int { it(d.hi) }
pub open spec fn ddok(d: DD, b: int) -> bool { isi(d.hi) && isi(d.lo) && it(d.lo) == 0 && -b <= it(d.hi) <= b }
pub proof fn lemma_pb(i: int, j: int, a: int, b: int) requires -a <= i <= a, -b <= j <= b ensures -(a * b) <= i * j <= a * b
{ assert(-(a * b) <= i * j <= a * b) by (nonlinear_arith) requires -a <= i <= a, -b <= j <= b; }
pub open spec fn deti(ax: int, ay: int, bx: int, by: int, cx: int, cy: int) -> int { (bx - ax) * (cy - by) - (by - ay) * (cx - bx) }
pub open spec fn sgi(k: int) -> int { if k > 0 { 1int } else if k < 0 { -1int } else { 0int } }
pub open spec fn i24(x: f64) -> bool { isi(x) && -16777216 <= it(x) <= 16777216 }
pub open spec fn lim24(x: f64) -> bool { isi(x) && -16777216 <= it(x) <= 16777216 }
/// zero or far above the underflow threshold: every integer is
pub proof fn lemma_i24_ok(pax: f64, pay: f64, pbx: f64, pby: f64, pcx: f64, pcy: f64)
  requires i24(pax), i24(pay), i24(pbx), i24(pby), i24(pcx), i24(pcy)
  ensures lim(pax), lim(pay), lim(pbx), lim(pby), lim(pcx), lim(pcy),
     safe(rnd(val(pax) - val(pcx)) * rnd(val(pby) - val(pcy))), safe(rnd(val(pay) - val(pcy)) * rnd(val(pbx) - val(pcx))),
     sg(det(val(pax), val(pay), val(pbx), val(pby), val(pcx), val(pcy))) == sgi(deti(it(pax), it(pay), it(pbx), it(pby), it(pcx), it(pcy)))
{
  lemma_safei(it(pax) - it(pcx), it(pby) - it(pcy)); lemma_safei(it(pay) - it(pcy), it(pbx) - it(pcx));
  let (ax, ay, bx, by, cx, cy) = (it(pax), it(pay), it(pbx), it(pby), it(pcx), it(pcy));
  let d = (ax - cx) * (by - cy) - (ay - cy) * (bx - cx);
  assert(d == deti(ax, ay, bx, by, cx, cy)) by (nonlinear_arith) requires d == (ax - cx) * (by - cy) - (ay - cy) * (bx - cx);
  let (a, b, c, e) = (ax - cx, by - cy, ay - cy, bx - cx);
  assert((a as real) * (b as real) == (a * b) as real) by (nonlinear_arith);
  assert((c as real) * (e as real) == (c * e) as real) by (nonlinear_arith);
  assert(val(pax) - val(pcx) == a as real && val(pby) - val(pcy) == b as real && val(pay) - val(pcy) == c as real && val(pbx) - val(pcx) == e as real);
  assert(det(val(pax), val(pay), val(pbx), val(pby), val(pcx), val(pcy)) == (a * b - c * e) as real);
}
pub proof fn lemma_safei(i: int, j: int) requires -33554432 <= i <= 33554432, -33554432 <= j <= 33554432
  ensures safe(rnd(i as real) * rnd(j as real)), rnd(i as real) == i as real, rnd(j as real) == j as real
{ ax_rnd_int(i); ax_rnd_int(j); ax_tiny();
  let k = i * j;
  assert((i as real) * (j as real) == k as real) by (nonlinear_arith) requires k == i * j; }

// the laws over the contract: swapping two points negates, rotating keeps
pub proof fn lemma_swap(ax: int, ay: int, bx: int, by: int, cx: int, cy: int)
  ensures sgi(deti(ax, ay, bx, by, cx, cy)) == -sgi(deti(bx, by, ax, ay, cx, cy)), sgi(deti(ax, ay, bx, by, cx, cy)) == -sgi(deti(ax, ay, cx, cy, bx, by)),
          sgi(deti(ax, ay, bx, by, cx, cy)) == sgi(deti(bx, by, cx, cy, ax, ay))
{ assert(deti(ax, ay, bx, by, cx, cy) == -deti(bx, by, ax, ay, cx, cy)) by (nonlinear_arith);
  assert(deti(ax, ay, bx, by, cx, cy) == -deti(ax, ay, cx, cy, bx, by)) by (nonlinear_arith);
  assert(deti(ax, ay, bx, by, cx, cy) == deti(bx, by, cx, cy, ax, ay)) by (nonlinear_arith); }
"""
PRELUDE += DDI
BI = "broadcast use f64_int, ty_ax;"
IMPLS = [
 dict(file="src/core/math/dd.rs", ty="DD", consts=["SPLIT"], fns=[
   Fn("new_x", ensures="r.hi == x, r.lo == 0.0f64"),
   Fn("value_of_f64", ensures="r.hi == x, r.lo == 0.0f64"),
   Fn("is_nan", ensures="fin(self.hi) ==> !r"),
   Fn("signum", requires="ddok(*self, 9007199254740992)", ensures="r == sgi(dv(*self))", start=BI),
   Fn("self_add_f64", requires="ddok(*old(self), 4503599627370496), isi(y), -4503599627370496 <= it(y) <= 4503599627370496",
      ensures="ddi(*final(self), dv(*old(self)) + it(y))", start=BI),
   Fn("self_add_hi_lo", requires="ddok(*old(self), 4503599627370496), isi(yhi), -4503599627370496 <= it(yhi) <= 4503599627370496, isi(ylo), it(ylo) == 0",
      ensures="ddi(*final(self), dv(*old(self)) + it(yhi))", start=BI),
   Fn("self_subtract_dd", requires="ddok(*old(self), 4503599627370496), ddok(*y, 4503599627370496)",
      ensures="ddi(*final(self), dv(*old(self)) - dv(*y))", start=BI),
   Fn("self_multiply_hi_lo", requires="ddok(*old(self), 33554432), isi(yhi), -33554432 <= it(yhi) <= 33554432, isi(ylo), it(ylo) == 0",
      ensures="ddi(*final(self), dv(*old(self)) * it(yhi)), ddok(*final(self), 1125899906842624)",
      start=BI + "let ghost A = it(self.hi); let ghost B = it(yhi); proof { lemma_pb(A, B, 33554432, 33554432); assert(0 * B == 0); assert(A * 0 == 0); assert(0 * 0 == 0); }",
      before=[(r"let zhi", "proof { assert(it(hx) == A && it(tx) == 0); assert(it(hy) == B && it(ty) == 0); assert(it(hx) * it(hy) == A * B); assert(it(hx) * it(ty) == 0); assert(it(tx) * it(hy) == 0); assert(it(cc) == A * B); assert(isi(c) && it(c) == 0); }\n        ")]),
   Fn("self_multiply_dd", requires="ddok(*old(self), 33554432), ddok(*y, 33554432)",
      ensures="ddi(*final(self), dv(*old(self)) * dv(*y)), ddok(*final(self), 1125899906842624)"),
 ]),
 dict(file="src/core/algorithm/cg_algorithms_dd.rs", ty="CGAlgorithmsDD", header="pub struct CGAlgorithmsDD {}\nimpl CGAlgorithmsDD {", consts=["DP_SAFE_EPSILON"], fns=[
   Fn("signum", requires="fin(x)", ensures="r == sg(val(x))", start="broadcast use f64_ax;"),
   Fn("orientation_index_filter", requires="""lim(pax), lim(pay), lim(pbx), lim(pby), lim(pcx), lim(pcy),
        safe(rnd(val(pax) - val(pcx)) * rnd(val(pby) - val(pcy))), safe(rnd(val(pay) - val(pcy)) * rnd(val(pbx) - val(pcx)))""",
      ensures="r == 2 || r == sg(det(val(pax), val(pay), val(pbx), val(pby), val(pcx), val(pcy)))",
      start="""broadcast use f64_ax, f64_err, ax_eps, lemma_errbound;
      proof {
        lemma_lims(pax, pcx, pby, pcy); lemma_lims(pay, pcy, pbx, pcx);
        lemma_lim(pax, pcx); lemma_lim(pby, pcy); lemma_lim(pay, pcy); lemma_lim(pbx, pcx);
        let dl = rnd(rnd(val(pax) - val(pcx)) * rnd(val(pby) - val(pcy)));
        let dr = rnd(rnd(val(pay) - val(pcy)) * rnd(val(pbx) - val(pcx)));
        let l = (val(pax) - val(pcx)) * (val(pby) - val(pcy));
        let r = (val(pay) - val(pcy)) * (val(pbx) - val(pcx));
        lemma_term(pax, pcx, pby, pcy, dl);
        lemma_term(pay, pcy, pbx, pcx, dr);
        ax_rnd_err(rnd(val(pax) - val(pcx)) * rnd(val(pby) - val(pcy)));
        ax_rnd_err(rnd(val(pay) - val(pcy)) * rnd(val(pbx) - val(pcx)));
        lemma_sign(l, r, dl, dr);
        ax_tiny();
      }"""),
   Fn("orientation_index_xy", requires="i24(p1x), i24(p1y), i24(p2x), i24(p2y), i24(qx), i24(qy)",
      ensures="r == sgi(deti(it(p1x), it(p1y), it(p2x), it(p2y), it(qx), it(qy)))",
      start=BI + "proof { lemma_i24_ok(p1x, p1y, p2x, p2y, qx, qy); }"),
   Fn("orientation_index_coordinates", requires="i24(p1.x), i24(p1.y), i24(p2.x), i24(p2.y), i24(q.x), i24(q.y)",
      ensures="r == sgi(deti(it(p1.x), it(p1.y), it(p2.x), it(p2.y), it(q.x), it(q.y)))", start=BI),
 ]),
 dict(file="src/core/algorithm/orientation.rs", ty="Orientation", fns=[
   Fn("index", requires="i24(p1.x), i24(p1.y), i24(p2.x), i24(p2.y), i24(q.x), i24(q.y)",
      ensures="r == sgi(deti(it(p1.x), it(p1.y), it(p2.x), it(p2.y), it(q.x), it(q.y)))", start=BI),
 ]),
]
LEMMAS = """
pub broadcast proof fn lemma_errbound(e: f64, d: f64, o: f64)
    requires fin(e), fin(d), #[trigger] mul_ensures(e, d, o), val(e) == val(1e-15f64), val(d) >= 100000000000000000000real * tiny(),
        val(d) <= 100000000000000000000000000000000000000000000000000000000000000000real
    ensures fin(o), val(o) >= 0.00000000000000099real * val(d)
{
    broadcast use ax_eps, ax_mul, ax_big; 
    ax_tiny();
    let x = val(e) * val(d);
    let v = val(d); let w = val(e);
    assert(0.000000000000000999real * v <= x <= v) by (nonlinear_arith) requires x == w * v, 0.000000000000000999real <= w <= 1real, v >= 0real;
    ax_rnd_err(x);
}

/// what the relative error of the two products says about the sign of their difference
pub proof fn lemma_sign(l: real, r: real, dl: real, dr: real)
    requires rabs(dl - l) <= u4() * rabs(l), rabs(dr - r) <= u4() * rabs(r)
    ensures sg(dl) == sg(l), sg(dr) == sg(r),
        sg(dl) != sg(dr) ==> sg(l - r) == sg(dl - dr),
        dl - dr > u8() * (rabs(dl) + rabs(dr)) ==> l > r,
        dr - dl > u8() * (rabs(dl) + rabs(dr)) ==> l < r,
{ }

/// differences and products of limited values stay far from overflow
pub proof fn lemma_lim(a: f64, c: f64) requires lim(a), lim(c)
   ensures rabs(val(a) - val(c)) <= 2000000000000000000000000000000real, rabs(rnd(val(a) - val(c))) <= 2100000000000000000000000000000real
{ ax_rnd_err_sum(a, c); }
pub proof fn lemma_lims(a: f64, c: f64, b: f64, d: f64) requires lim(a), lim(c), lim(b), lim(d)
   ensures rabs(rnd(val(a) - val(c)) * rnd(val(b) - val(d))) <= 5000000000000000000000000000000000000000000000000000000000000real
{ lemma_lim(a, c); lemma_lim(b, d); let x = rnd(val(a) - val(c)); let y = rnd(val(b) - val(d));
  lemma_rabs_mul(x, y);
  assert(rabs(x) * rabs(y) <= 2100000000000000000000000000000real * 2100000000000000000000000000000real) by (nonlinear_arith)
     requires 0real <= rabs(x) <= 2100000000000000000000000000000real, 0real <= rabs(y) <= 2100000000000000000000000000000real; }
"""
