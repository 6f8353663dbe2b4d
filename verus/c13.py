from rsx import Fn
import copy
import common, c08, c10, c11, c16
from common import BI
USES = ["f64"]
G = "src/core/geom/"
_s = [x for x in c10.STRUCTS if x[1] not in ("Envelope", "CoordinateArraySequence")]
STRUCTS = _s + [(common.CAS[0], common.CAS[1], "#[derive(Clone)]"), (G + "envelope.rs", "Envelope", "#[derive(Copy, Clone)]"), (G + "precision_model.rs", "PrecisionModel", "#[derive(Copy, Clone)]"), (G + "precision_model.rs", "PrecisionModelType", "#[derive(Copy, Clone)]"),
  (G + "point.rs", "Point", "#[derive(Clone)]"), (G + "line_string.rs", "LineString", "#[derive(Clone)]"), (G + "linear_ring.rs", "LinearRing", "#[derive(Clone)]"), (G + "polygon.rs", "Polygon", "#[derive(Clone)]"),
  (G + "multi_point.rs", "MultiPoint", ""), (G + "multi_line_string.rs", "MultiLineString", ""), (G + "multi_polygon.rs", "MultiPolygon", ""), ("src/core/algorithm/area.rs", "Area", ""), ("src/core/algorithm/length.rs", "Length", "")]
_p8 = c08.PRELUDE
P8 = _p8[_p8.index("pub assume_specification[ f64::abs ]"):_p8.index("/// two numbers as close")].replace("lemma_d(", "lemma_dd(") + "pub open spec fn lip(c: Coordinate) -> bool { lim(c.x) && lim(c.y) }\n"
_cut = P8.index("pub uninterp spec fn sqrr"); P8 = P8[:_cut] + P8[P8.index("/// the rounded difference of two doubles"):]
_p16 = c16.PRELUDE[len(common.DET + common.PTS):]
def cut(t, a, b): i = t.index(a); return t[:i] + t[t.index(b, i):]
_p16 = cut(_p16, "pub assume_specification[ f64::abs ]", "pub open spec fn relh")
_p16 = cut(_p16, "pub uninterp spec fn hypr", "pub open spec fn lpt")
PRELUDE = c10.PRELUDE + P8 + _p16 + """
pub open spec fn rv(r: LinearRing) -> Seq<Coordinate> { r.points.coordinates@ }
pub open spec fn lv(r: LineString) -> Seq<Coordinate> { r.points.coordinates@ }
pub open spec fn pv(p: Point) -> Seq<Coordinate> { p.coordinates.coordinates@ }
/// the same sequence; the sequence in the opposite order
pub open spec fn eqs(a: Sq, b: Sq) -> bool { a.dimension == b.dimension && a.measures == b.measures && a.coordinates@ == b.coordinates@ }
pub open spec fn rvs(a: Sq, b: Sq) -> bool { same_kind(a, b) && a.coordinates@ == reversed(b.coordinates@, b.dimension as int) }
pub open spec fn dm(a: Sq) -> bool { 2 <= a.dimension <= 4 }
pub open spec fn hasm(c: Coordinate) -> bool { !fnan(c.x) && !fnan(c.y) && !fnan(c.m) }
pub open spec fn anym(s: Seq<Coordinate>) -> bool { exists|i: int| 0 <= i < s.len() && hasm(#[trigger] s[i]) }
/// the kind of a sequence made from coordinates: a measure comes on top of two ordinates
pub open spec fn knd(a: Sq) -> bool { dm(a) && 0 <= a.measures <= 1 && a.dimension - a.measures >= 2 }
pub open spec fn eqr(a: LinearRing, b: LinearRing) -> bool { eqs(a.points, b.points) }
pub open spec fn eqg(a: Polygon, b: Polygon) -> bool { eqr(a.shell, b.shell) && a.holes@.len() == b.holes@.len() && forall|i: int| 0 <= i < a.holes@.len() ==> eqr(#[trigger] a.holes@[i], b.holes@[i]) }
pub open spec fn rvg(a: Polygon, b: Polygon) -> bool { rvs(a.shell.points, b.shell.points) && a.holes@.len() == b.holes@.len() && forall|i: int| 0 <= i < a.holes@.len() ==> rvs(#[trigger] a.holes@[i].points, b.holes@[i].points) }
pub open spec fn dmg(a: Polygon) -> bool { dm(a.shell.points) && forall|i: int| 0 <= i < a.holes@.len() ==> dm(#[trigger] a.holes@[i].points) }
/// every planar ordinate is finite
pub open spec fn fok2(s: Seq<Coordinate>) -> bool { fok(s) }
pub open spec fn fog(a: Polygon) -> bool { fok(rv(a.shell)) && forall|i: int| 0 <= i < a.holes@.len() ==> fok(rv(#[trigger] a.holes@[i])) }
pub open spec fn lips(s: Seq<Coordinate>) -> bool { forall|i: int| 0 <= i < s.len() ==> lip(#[trigger] s[i]) }
pub open spec fn lipg(a: Polygon) -> bool { lips(rv(a.shell)) && forall|i: int| 0 <= i < a.holes@.len() ==> lips(rv(#[trigger] a.holes@[i])) }
/// a cached envelope is the box of the points
pub open spec fn cached(e: Option<Envelope>, s: Seq<Coordinate>) -> bool { e.is_some() ==> isbox(e.unwrap(), s) }
/// two points equal within the tolerance, two strings of them
pub open spec fn eq1(a: Coordinate, b: Coordinate, t: f64) -> bool { if val(t) == 0real { eqv(a, b) } else { dist(a, b) <= val(t) } }
pub open spec fn eqt(a: Seq<Coordinate>, b: Seq<Coordinate>, t: f64) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> eq1(#[trigger] a[i], b[i], t) }
pub open spec fn eqtg(a: Polygon, b: Polygon, t: f64) -> bool { eqt(rv(a.shell), rv(b.shell), t) && a.holes@.len() == b.holes@.len() && forall|i: int| 0 <= i < a.holes@.len() ==> eqt(rv(#[trigger] a.holes@[i]), rv(b.holes@[i]), t) }
/// holes are compared one by one, then by their number
pub open spec fn hcmp(a: Seq<LinearRing>, b: Seq<LinearRing>, i: int) -> i32 decreases a.len() - i
{ if i < 0 || i >= a.len() || i >= b.len() { if i < a.len() { 1i32 } else if i < b.len() { -1i32 } else { 0i32 } } else if lex(rv(a[i]), rv(b[i]), 0) != 0 { lex(rv(a[i]), rv(b[i]), 0) } else { hcmp(a, b, i + 1) } }
pub open spec fn gcmp(a: Polygon, b: Polygon) -> i32 { if lex(rv(a.shell), rv(b.shell), 0) != 0 { lex(rv(a.shell), rv(b.shell), 0) } else { hcmp(a.holes@, b.holes@, 0) } }
pub open spec fn hseq(lim: int, a: Seq<LinearRing>, b: Seq<LinearRing>, i: int) -> i32 decreases a.len() - i
{ if i < 0 || i >= a.len() || i >= b.len() { if i < a.len() { 1i32 } else if i < b.len() { -1i32 } else { 0i32 } } else if cseq(lim, a[i].points, b[i].points) != 0 { cseq(lim, a[i].points, b[i].points) } else { hseq(lim, a, b, i + 1) } }
pub open spec fn gseq(lim: int, a: Polygon, b: Polygon) -> i32 { if cseq(lim, a.shell.points, b.shell.points) != 0 { cseq(lim, a.shell.points, b.shell.points) } else { hseq(lim, a.holes@, b.holes@, 0) } }
pub open spec fn csq(a: Sq) -> bool { fo(a.coordinates@) && 0 <= a.dimension <= 3 && a.coordinates@.len() < 0x8000_0000 }
pub open spec fn csg(a: Polygon) -> bool { csq(a.shell.points) && forall|i: int| 0 <= i < a.holes@.len() ==> csq(#[trigger] a.holes@[i].points) }
/// the points of a polygon: shell, then holes
pub open spec fn gpts(p: Polygon, k: int) -> Seq<Coordinate> decreases k { if k <= 0 { rv(p.shell) } else { gpts(p, k - 1) + rv(p.holes@[k - 1]) } }
pub open spec fn mpts(v: Seq<Point>, k: int) -> Seq<Coordinate> decreases k { if k <= 0 { Seq::empty() } else { mpts(v, k - 1) + pv(v[k - 1]) } }
pub proof fn lemma_gmono(p: Polygon, k: int, n: int) requires 0 <= k <= n ensures gpts(p, k).len() <= gpts(p, n).len() decreases n - k { if k < n { lemma_gmono(p, k, n - 1); } }
pub proof fn lemma_gidx(p: Polygon, k: int, n: int, j: int) requires 0 <= k <= n, 0 <= j < gpts(p, k).len() ensures gpts(p, n)[j] == gpts(p, k)[j], j < gpts(p, n).len() decreases n - k { if k < n { lemma_gidx(p, k, n - 1, j); } }
pub proof fn lemma_mmono(p: Seq<Point>, k: int, n: int) requires 0 <= k <= n ensures mpts(p, k).len() <= mpts(p, n).len() decreases n - k { if k < n { lemma_mmono(p, k, n - 1); } }
/// the line reads differently from both ends: which way, at the first place
pub open spec fn nd(s: Seq<Coordinate>, i: int) -> i32 decreases s.len() - i { if i < 0 || i >= s.len() as int / 2 { 0i32 } else if !eqv(s[i], s[s.len() - 1 - i]) { cmpv(s[i], s[s.len() - 1 - i]) } else { nd(s, i + 1) } }
/// orientation of a closed string, as decided by check C04
pub uninterp spec fn ccws(s: Seq<Coordinate>) -> bool;
pub open spec fn least(s: Seq<Coordinate>, m: int) -> bool { 0 <= m < s.len() - 1 && forall|k: int| 0 <= k < s.len() - 1 ==> cmpv(s[m], #[trigger] s[k]) <= 0 && (k < m ==> cmpv(s[m], s[k]) < 0) }
pub open spec fn trn(t: Seq<Coordinate>, s: Seq<Coordinate>, m: int, d: int) -> bool { turned(t, s, m, true, d) }
pub open spec fn oriented(r: Seq<Coordinate>, t: Seq<Coordinate>, d: int, cw: bool) -> bool { r == if ccws(t) == cw { reversed(t, d) } else { t } }
/// the normal form of a ring: from its least point on, in the direction asked for
pub open spec fn nring(r: Seq<Coordinate>, s: Seq<Coordinate>, d: int, cw: bool) -> bool { if s.len() == 0 { r == s } else { exists|m: int, t: Seq<Coordinate>| least(s, m) && #[trigger] trn(t, s, m, d) && oriented(r, t, d, cw) } }
pub open spec fn nok(r: LinearRing) -> bool { dm(r.points) && fok(rv(r)) && rv(r).len() != 1 && rv(r).len() < 0x8000_0000 }
pub open spec fn nokg(p: Polygon) -> bool { nok(p.shell) && forall|i: int| 0 <= i < p.holes@.len() ==> nok(#[trigger] p.holes@[i]) }
// ---- area
pub open spec fn rel2(s: Seq<Coordinate>) -> int { if s.len() < 3 { 0 } else { rel(s, s.len() - 1) } }
pub open spec fn iab(k: int) -> int { if k < 0 { -k } else { k } }
/// twice the area: shell less the first k holes
pub open spec fn ar2(p: Polygon, k: int) -> int decreases k { if k <= 0 { iab(rel2(rv(p.shell))) } else { ar2(p, k - 1) - iab(rel2(rv(p.holes@[k - 1]))) } }
pub open spec fn aokg(p: Polygon) -> bool { gpts(p, p.holes@.len() as int).len() <= N() && aok(rv(p.shell)) && forall|i: int| 0 <= i < p.holes@.len() ==> aok(rv(#[trigger] p.holes@[i])) }
pub proof fn lemma_r2(s: Seq<Coordinate>) requires aok(s) ensures iab(rel2(s)) <= s.len() * 4398046511104, rabs(relh(s)) == iab(rel2(s)) as real / 2real
{ if s.len() >= 3 { lemma_relb(s, s.len() - 1); } }
pub proof fn lemma_ar2(p: Polygon, k: int) requires aokg(p), 0 <= k <= p.holes@.len() ensures iab(ar2(p, k)) <= gpts(p, k).len() * 4398046511104, gpts(p, k).len() <= N(), iab(ar2(p, k)) <= 9007199254740992 decreases k
{ lemma_r2(rv(p.shell)); lemma_gmono(p, k, p.holes@.len() as int); if k > 0 { lemma_ar2(p, k - 1); assert(aok(rv(p.holes@[k - 1]))); lemma_r2(rv(p.holes@[k - 1]));
    let (u, v) = (gpts(p, k - 1).len() as int, rv(p.holes@[k - 1]).len() as int); assert(gpts(p, k).len() == u + v); assert((u + v) * 4398046511104 == u * 4398046511104 + v * 4398046511104); } }
pub open spec fn mar2(v: Seq<Polygon>, k: int) -> int decreases k { if k <= 0 { 0 } else { mar2(v, k - 1) + ar2(v[k - 1], v[k - 1].holes@.len() as int) } }
pub open spec fn mtot(v: Seq<Polygon>, k: int) -> int decreases k { if k <= 0 { 0 } else { mtot(v, k - 1) + gpts(v[k - 1], v[k - 1].holes@.len() as int).len() } }
pub proof fn lemma_mt(v: Seq<Polygon>, k: int, n: int) requires 0 <= k <= n ensures 0 <= mtot(v, k) <= mtot(v, n) decreases n { if k < n { lemma_mt(v, k, n - 1); } else if k > 0 { lemma_mt(v, k - 1, n - 1); } }
pub open spec fn aokm(v: Seq<Polygon>) -> bool { mtot(v, v.len() as int) <= N() && forall|i: int| 0 <= i < v.len() ==> aokg(#[trigger] v[i]) }
pub proof fn lemma_mar2(v: Seq<Polygon>, k: int) requires aokm(v), 0 <= k <= v.len() ensures iab(mar2(v, k)) <= mtot(v, k) * 4398046511104, mtot(v, k) <= N(), iab(mar2(v, k)) <= 9007199254740992 decreases k
{ lemma_mt(v, k, v.len() as int); if k > 0 { lemma_mar2(v, k - 1); assert(aokg(v[k - 1])); lemma_ar2(v[k - 1], v[k - 1].holes@.len() as int);
    let (a, b) = (mtot(v, k - 1), gpts(v[k - 1], v[k - 1].holes@.len() as int).len() as int); assert((a + b) * 4398046511104 == a * 4398046511104 + b * 4398046511104); } }
pub proof fn lemma_half(k: int) requires -9007199254740992 <= k <= 9007199254740992 ensures inrange(k as real / 2real), rnd(k as real / 2real) == k as real / 2real { broadcast use ax_big; ax_rnd_half(k); }
pub proof fn lemma_h(k: int) requires -9007199254740992 <= k <= 9007199254740992 ensures inrange(k as real / 2real) { broadcast use ax_big; }
// ---- length
pub open spec fn glen(p: Polygon, k: int) -> real decreases k { if k <= 0 { flen(rv(p.shell), rv(p.shell).len() as int) } else { rnd(glen(p, k - 1) + flen(rv(p.holes@[k - 1]), rv(p.holes@[k - 1]).len() as int)) } }
pub open spec fn lokg(p: Polygon) -> bool { gpts(p, p.holes@.len() as int).len() <= 2147483647 && lok(rv(p.shell)) && forall|i: int| 0 <= i < p.holes@.len() ==> lok(rv(#[trigger] p.holes@[i])) }
pub proof fn lemma_glen(p: Polygon, k: int) requires lokg(p), 0 <= k <= p.holes@.len() ensures k > 0 ==> inrange(glen(p, k - 1) + flen(rv(p.holes@[k - 1]), rv(p.holes@[k - 1]).len() as int)), 0real <= glen(p, k) <= (gpts(p, k).len() * 4194304) as real, gpts(p, k).len() <= 2147483647,
   k > 0 ==> 0real <= flen(rv(p.holes@[k - 1]), rv(p.holes@[k - 1]).len() as int) && glen(p, k - 1) + flen(rv(p.holes@[k - 1]), rv(p.holes@[k - 1]).len() as int) <= (gpts(p, k).len() * 4194304) as real decreases k
{ lemma_gmono(p, k, p.holes@.len() as int); if k <= 0 { lemma_flen(rv(p.shell), rv(p.shell).len() as int); } else { lemma_glen(p, k - 1); let h = rv(p.holes@[k - 1]); assert(lok(h)); lemma_flen(h, h.len() as int);
    let (u, v) = (gpts(p, k - 1).len() as int, h.len() as int); assert(gpts(p, k).len() == u + v); assert((u + v) * 4194304 == u * 4194304 + v * 4194304);
    let t = glen(p, k - 1) + flen(h, h.len() as int); ax_rnd_zero(); ax_rnd_mono(0real, t); ax_rnd_int((u + v) * 4194304); ax_rnd_mono(t, ((u + v) * 4194304) as real); assert(inrange(t)) by { broadcast use ax_big; } } }
pub proof fn lemma_dist(a: Coordinate, b: Coordinate) requires lip(a), lip(b) ensures dist(a, b) == dist(b, a)
{ broadcast use ax_hypr; lemma_dd(a.x, b.x); lemma_dd(a.y, b.y); lemma_dd(b.x, a.x); lemma_dd(b.y, a.y); assert(hypr(-d(a.x, b.x), -d(a.y, b.y)) == hypr(d(a.x, b.x), d(a.y, b.y))); }
/// the box of a longer string, and of a reversed one
pub proof fn lemma_cat(s: Seq<Coordinate>, t: Seq<Coordinate>) requires s.len() > 0, t.len() > 0
  ensures bbox(s + t, 0) == (lo(bbox(t, 0).0, bbox(s, 0).0), hi(bbox(t, 0).1, bbox(s, 0).1), lo(bbox(t, 0).2, bbox(s, 0).2), hi(bbox(t, 0).3, bbox(s, 0).3)) decreases t.len()
{ let u = s + t; assert(u.last() == t.last()); if t.len() == 1 { assert(u.drop_last() =~= s); assert(t[0] == t.last()); } else { assert(u.drop_last() =~= s + t.drop_last()); lemma_cat(s, t.drop_last()); } }
pub proof fn lemma_bxy(s: Seq<Coordinate>, t: Seq<Coordinate>) requires s.len() == t.len(), s.len() > 0, forall|i: int| 0 <= i < s.len() ==> eqv(#[trigger] s[i], t[i]) ensures bbox(s, 0) == bbox(t, 0) decreases s.len()
{ assert(eqv(s[0], t[0])); if s.len() > 1 { assert(eqv(s[s.len() - 1], t[s.len() - 1])); lemma_bxy(s.drop_last(), t.drop_last()); } }
pub open spec fn rev0(s: Seq<Coordinate>) -> Seq<Coordinate> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub proof fn lemma_brev(s: Seq<Coordinate>) requires s.len() > 0 ensures bbox(rev0(s), 0) == bbox(s, 0) decreases s.len()
{ if s.len() == 1 { assert(rev0(s) =~= s); } else { let o = seq![s.last()]; assert(rev0(s) =~= o + rev0(s.drop_last())); lemma_cat(o, rev0(s.drop_last())); lemma_brev(s.drop_last()); } }
pub proof fn lemma_revbox(e: Envelope, s: Seq<Coordinate>, d: int) requires d >= 2 ensures isbox(e, s) == isbox(e, reversed(s, d))
{ if s.len() > 0 { lemma_brev(s); lemma_bxy(reversed(s, d), rev0(s)); } }
/// a box bgrown by the box of more points
pub open spec fn bgrown(b: Envelope, e: Envelope, a: Envelope) -> bool { (val(a.maxx) < val(a.minx) ==> b == e)
  && (!(val(a.maxx) < val(a.minx)) ==> fev(b) && if val(e.maxx) < val(e.minx) { b == a } else {
       val(b.minx) == lo(val(a.minx), val(e.minx)) && val(b.maxx) == hi(val(a.maxx), val(e.maxx)) && val(b.miny) == lo(val(a.miny), val(e.miny)) && val(b.maxy) == hi(val(a.maxy), val(e.maxy)) }) }
pub proof fn lemma_bord13(s: Seq<Coordinate>) requires s.len() > 0 ensures bbox(s, 0).0 <= bbox(s, 0).1, bbox(s, 0).2 <= bbox(s, 0).3 decreases s.len() { if s.len() > 1 { lemma_bord13(s.drop_last()); } }
pub proof fn lemma_bgrow(b: Envelope, e: Envelope, a: Envelope, s: Seq<Coordinate>, t: Seq<Coordinate>) requires isbox(e, s), isbox(a, t), bgrown(b, e, a) ensures isbox(b, s + t)
{ if t.len() == 0 { assert(s + t =~= s); } else { lemma_bord13(t); if s.len() == 0 { assert(s + t =~= t); } else { lemma_bord13(s); lemma_cat(s, t); } } }
/// points whose cached boxes are right, and points only their caches differ from
pub open spec fn mpc(v: Seq<Point>) -> bool { forall|i: int| 0 <= i < v.len() ==> pv(#[trigger] v[i]).len() <= 1 && fok(pv(v[i])) && cached(v[i].envelope, pv(v[i])) }
pub open spec fn mpsame(a: Seq<Point>, b: Seq<Point>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).coordinates == b[i].coordinates }
pub proof fn lemma_mps(a: Seq<Point>, b: Seq<Point>, k: int) requires mpsame(a, b), 0 <= k <= a.len() ensures mpts(a, k) == mpts(b, k) decreases k { if k > 0 { lemma_mps(a, b, k - 1); assert(a[k - 1].coordinates == b[k - 1].coordinates); } }
/// a rectangle: five points on the sides of their box, every step along one axis
pub open spec fn rect(s: Seq<Coordinate>) -> bool { let b = bbox(s, 0);
  s.len() == 5 && (forall|i: int| 0 <= i < 5 ==> (val((#[trigger] s[i]).x) == b.0 || val(s[i].x) == b.1) && (val(s[i].y) == b.2 || val(s[i].y) == b.3))
  && forall|i: int| 1 <= i < 5 ==> (val((#[trigger] s[i]).x) != val(s[i - 1].x)) != (val(s[i].y) != val(s[i - 1].y)) }
pub open spec fn allempty(v: Seq<Sq>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).coordinates@.len() == 0 }
pub open spec fn closedl(l: LineString) -> bool { lv(l).len() > 0 && eqv(lv(l)[0], lv(l).last()) }
"""
ST = "broadcast use f64_ax, f64_int, ty_ax;"
CO = copy.deepcopy(c10.CO)
have = {f.name for f in CO["fns"]}
CO["fns"] += [f for f in common.coordinate("from_coordinate", "get_z", "get_m")["fns"] if f.name not in have]
_dist = copy.deepcopy([f for f in c08.IMPLS[1]["fns"] if f.name == "distance"][0])
_dist.start = _dist.start.replace("lemma_d(", "lemma_dd(")
CO["fns"] += [_dist, Fn("is_xy", ensures="r == (!fnan(self.x) && !fnan(self.y) && fnan(self.z) && fnan(self.m))"), Fn("is_xym", ensures="r == (!fnan(self.x) && !fnan(self.y) && fnan(self.z) && !fnan(self.m))"), Fn("is_xyzm", ensures="r == (!fnan(self.x) && !fnan(self.y) && !fnan(self.z) && !fnan(self.m))")]
EQ = "lip(*a), lip(*b), fin(tolerance)"
def pick(d, *names):
    d = copy.deepcopy(d); d["fns"] = [f for f in d["fns"] if f.name in names]; return d
SQ = copy.deepcopy(c10.SQ)
SQ["fns"] += [Fn("new_with_coordinates", ensures="knd(r), r.coordinates@ == coordinates@")]
ENV = copy.deepcopy([x for x in c10.IMPLS if x.get("ty") == "Envelope"][0])
GROW = "fev(*final(self)), val(final(self).minx) <= val(final(self).maxx), val(old(self).maxx) < val(old(self).minx) ==> val(final(self).minx) == val(x) && val(final(self).maxx) == val(x) && val(final(self).miny) == val(y) && val(final(self).maxy) == val(y), !(val(old(self).maxx) < val(old(self).minx)) ==> val(final(self).minx) == lo(val(x), val(old(self).minx)) && val(final(self).maxx) == hi(val(x), val(old(self).maxx)) && val(final(self).miny) == lo(val(y), val(old(self).miny)) && val(final(self).maxy) == hi(val(y), val(old(self).maxy))"
ENV["fns"] += [
  Fn("expand_to_include_xy", requires="fev(*old(self)), fin(x), fin(y)", ensures=GROW, start=ST),
  Fn("expand_to_include_envelope", requires="fev(*old(self)), fev(*other)", ensures="bgrown(*final(self), *old(self), *other)", start=ST),
  Fn("new_envelope", ensures="r == *env"), Fn("copy", ensures="r == *self"),
  Fn("get_min_x", ensures="r == self.minx"), Fn("get_max_x", ensures="r == self.maxx"), Fn("get_min_y", ensures="r == self.miny"), Fn("get_max_y", ensures="r == self.maxy")]
_have = set(); ENV["fns"] = [f for f in ENV["fns"] if not (f.name in _have or _have.add(f.name))]
def envf(view, inv="", same=""):
    return Fn("get_envelope_internal", requires="fok(%s), cached(old(self).envelope, %s)%s" % (view % "old(self)", view % "old(self)", inv),
       ensures="isbox(r, %s), cached(final(self).envelope, %s), %s" % (view % "old(self)", view % "final(self)", same))
AREA = pick(c16.IMPLS[3], "of_ring_signed_coordinate_sequence", "of_ring_coordinate_sequence")
LEN = copy.deepcopy(c16.IMPLS[4])
LEN["fns"] = [f for f in LEN["fns"] if f.name == "of_line"]
WHILE = "invariant fok(%(a)s), fok(%(b)s), i == j, i <= %(a)s.len(), j <= %(b)s.len(), lex(%(a)s, %(b)s, i as int) == lex(%(a)s, %(b)s, 0), decreases %(a)s.len() - i"
A, B_ = "self.points.coordinates@", "other.points.coordinates@"
HOLES = "invariant forall|k: int| 0 <= k < $v ==> "
IMPLS = [CO, SQ,
 dict(file=G + "coordinates.rs", ty="Coordinates", fns=[Fn("create_dim"), Fn("create_dim_measures"), Fn("dimension", ensures="2 <= r <= 4, hasm(*coordinate) ==> r >= 3"), Fn("measures", ensures="r == if hasm(*coordinate) { 1i32 } else { 0i32 }"),
   Fn("equal", requires=EQ, ensures="r == eq1(*a, *b, tolerance)", start="broadcast use f64_ax, ty_ax;")]),
 dict(file=G + "coordinate_arrays.rs", ty="CoordinateArrays", header="pub struct CoordinateArrays {}\nimpl CoordinateArrays {", fns=[
   Fn("dimension", ensures="2 <= r <= 4, anym(pts@) ==> r >= 3", loops=[dict(kind="for", iter="it0", inv="invariant it0.seq().len() == pts@.len(), it0.index <= pts@.len(), forall|q: int| 0 <= q < pts@.len() ==> it0.seq()[q] == pts@[q], pts@.len() > 0, dimension == 0 && it0.index == 0 || 2 <= dimension <= 4, forall|q: int| 0 <= q < it0.index@ && hasm(#[trigger] pts@[q]) ==> dimension >= 3,")]),
   Fn("measures", ensures="r == if anym(pts@) { 1i32 } else { 0i32 }", loops=[dict(kind="for", iter="it0", inv="invariant it0.seq().len() == pts@.len(), it0.index <= pts@.len(), forall|q: int| 0 <= q < pts@.len() ==> it0.seq()[q] == pts@[q], 0 <= measures <= 1, measures == 1 ==> anym(pts@), forall|q: int| 0 <= q < it0.index@ && hasm(#[trigger] pts@[q]) ==> measures == 1,")])]),
 ENV,
 dict(file=c10.CF, ty="CoordinateArraySequenceFactory", fns=[Fn("create_from_coordinates", ensures="knd(r), r.coordinates@ == coordinates@"),
   Fn("create_with_size_dimension_measures", requires="-1000 < dimension < 1000, 0 <= measures < 1000", ensures="r.measures == mn(measures as int, 1), r.dimension == clampd(dimension - measures) + mn(measures as int, 1), r.coordinates@.len() == size")]),
 pick([x for x in c10.IMPLS if x.get("ty") == "CoordinateSequenceComparator"][0], "compare_f64", "compare_coordinate", "compare_coordinate_array_sequence"),
 pick([x for x in c10.IMPLS if x.get("ty") == "CoordinateArraySequences"][0], "swap", "reverse", "copy", "copy_coord", "min_coordinate_index_sequence_from_to", "scroll_coordinate_index_ensure_ring"),
 AREA, LEN,
 dict(file=G + "geometry.rs", ty="Geometry", header="pub struct Geometry {}\nimpl Geometry {", fns=[Fn("equal", requires=EQ, ensures="r == eq1(*a, *b, tolerance)", start="broadcast use f64_ax, ty_ax;")]),
 dict(file="src/core/algorithm/orientation.rs", ty="Orientation", header="pub struct Orientation {}\nimpl Orientation {", fns=[Fn("is_ccw_coordinate_array_sequence", ensures="r == ccws(ring.coordinates@)", external=True)]),
 dict(file=G + "dimension.rs", ty="Dimension", header="pub struct Dimension {}\nimpl Dimension {", consts=["FALSE"], fns=[]),
 dict(file=G + "point.rs", ty="Point", fns=[
   Fn("default", ensures="pv(r).len() == 0, r.envelope.is_none()"),
   Fn("new_with_coordinate", ensures="pv(r) =~= seq![*coordinate], r.envelope.is_none(), dm(r.coordinates), r.precision_model == precision_model"),
   Fn("new_with_coordinate_seq", requires="coordinates.coordinates@.len() <= 1", ensures="eqs(r.coordinates, *coordinates), r.envelope.is_none(), r.precision_model.is_none()"),
   Fn("get_coordinates", ensures="pv(*self).len() <= 1 ==> r@ =~= pv(*self)"),
   Fn("get_num_points", ensures="pv(*self).len() <= 1 ==> r == pv(*self).len()"),
   Fn("is_empty", ensures="r == (pv(*self).len() == 0)"),
   Fn("is_simple", ensures="r"), Fn("get_dimension", ensures="r == 0"), Fn("get_boundary_dimension", ensures="r == -1"),
   Fn("get_x", ensures="r == if pv(*self).len() == 0 { None } else { Some(pv(*self)[0].x) }"),
   Fn("get_y", ensures="r == if pv(*self).len() == 0 { None } else { Some(pv(*self)[0].y) }"),
   Fn("get_coordinate", ensures="r == if pv(*self).len() == 0 { None } else { Some(pv(*self)[0]) }"),
   Fn("get_envelope_internal", requires="pv(*old(self)).len() <= 1, fok(pv(*old(self))), cached(old(self).envelope, pv(*old(self)))", ensures="isbox(r, pv(*old(self))), cached(final(self).envelope, pv(*final(self))), final(self).coordinates == old(self).coordinates"),
   Fn("compute_envelope_internal", requires="pv(*self).len() <= 1, fok(pv(*self))", ensures="isbox(r, pv(*self))", start="proof { if pv(*self).len() == 0 { assert(pv(*self) =~= Seq::empty()); } }"),
   Fn("equals_exact", requires="pv(*self).len() <= 1, pv(*other).len() <= 1, lips(pv(*self)), lips(pv(*other)), fin(tolerance)", ensures="r == eqt(pv(*self), pv(*other), tolerance)",
      start="proof { if pv(*self).len() > 0 && pv(*other).len() > 0 { assert(lip(pv(*self)[0]) && lip(pv(*other)[0])); lemma_dist(pv(*self)[0], pv(*other)[0]); } }"),
   Fn("copy", requires="pv(*self).len() <= 1", ensures="eqs(r.coordinates, self.coordinates), r.envelope.is_none()"),
   Fn("reverse", requires="pv(*self).len() <= 1", ensures="eqs(r.coordinates, self.coordinates), r.envelope == self.envelope"),
   Fn("reverse_internal", requires="pv(*self).len() <= 1", ensures="eqs(r.coordinates, self.coordinates), r.envelope.is_none()"),
   Fn("compare_to_same_class", requires="csq(self.coordinates), csq(other.coordinates), comp.dimension_limit >= 0", ensures="r == cseq(comp.dimension_limit as int, self.coordinates, other.coordinates)"),
   Fn("get_coordinate_sequence", ensures="eqs(r, self.coordinates)"),
 ]),
 dict(file=G + "line_string.rs", ty="LineString", fns=[
   Fn("new_from_coordinate_sequence", ensures="r.points == points, r.envelope.is_none()"),
   Fn("init", ensures="final(self).points == points, final(self).envelope == old(self).envelope"),
   Fn("get_coordinates", ensures="r@ == lv(*self)"),
   Fn("get_coordinate_sequence", ensures="eqs(r, self.points)"),
   Fn("get_coordinate_n", requires="n < lv(*self).len()", ensures="r == lv(*self)[n as int]"),
   Fn("get_coordinate", ensures="r == if lv(*self).len() == 0 { None } else { Some(lv(*self)[0]) }"),
   Fn("get_dimension", ensures="r == 1"),
   Fn("get_boundary_dimension", requires="fok(lv(*self))", ensures="r == if closedl(*self) { -1i32 } else { 0i32 }"),
   Fn("is_empty", ensures="r == (lv(*self).len() == 0)"),
   Fn("get_num_points", ensures="r == lv(*self).len()"),
   Fn("get_point_n", requires="n < lv(*self).len()", ensures="pv(r) =~= seq![lv(*self)[n as int]]"),
   Fn("get_start_point", ensures="r.is_some() == (lv(*self).len() > 0), r.is_some() ==> pv(r.unwrap()) =~= seq![lv(*self)[0]]"),
   Fn("get_end_point", ensures="r.is_some() == (lv(*self).len() > 0), r.is_some() ==> pv(r.unwrap()) =~= seq![lv(*self).last()]"),
   Fn("is_closed", requires="fok(lv(*self))", ensures="r == closedl(*self)"),
   Fn("is_ring", requires="fok(lv(*self))", ensures="r == closedl(*self)"),
   Fn("get_length", requires="lok(lv(*self))", ensures="fin(r), val(r) == flen(lv(*self), lv(*self).len() as int)"),
   Fn("reverse", requires="dm(self.points)", ensures="rvs(r.points, self.points), r.envelope == self.envelope, cached(self.envelope, lv(*self)) ==> cached(r.envelope, lv(r))", start="proof { if self.envelope.is_some() { lemma_revbox(self.envelope.unwrap(), lv(*self), self.points.dimension as int); } }"),
   Fn("reverse_internal", requires="dm(self.points)", ensures="rvs(r.points, self.points), r.envelope.is_none()"),
   Fn("is_coordinate", requires="fok(lv(*self)), fpt(*pt)", ensures="r == inlist(lv(*self), *pt)", loops=[dict(kind="for", inv="invariant fok(lv(*self)), fpt(*pt), forall|k: int| 0 <= k < $v ==> !eqv(#[trigger] lv(*self)[k], *pt),")]),
   Fn("compute_envelope_internal", requires="fok(lv(*self))", ensures="isbox(r, lv(*self))", start="proof { if lv(*self).len() == 0 { assert(lv(*self) =~= Seq::empty()); } }"),
   Fn("equals_exact", requires="lips(lv(*self)), lips(lv(*other)), fin(tolerance)", ensures="r == eqt(lv(*self), lv(*other), tolerance)",
      loops=[dict(kind="for", inv="invariant lips(lv(*self)), lips(lv(*other)), fin(tolerance), lv(*self).len() == lv(*other).len(), forall|k: int| 0 <= k < $v ==> eq1(#[trigger] lv(*self)[k], lv(*other)[k], tolerance),")]),
   Fn("copy", ensures="eqs(r.points, self.points), r.envelope.is_none()"),
   Fn("normalize", requires="dm(old(self).points), fok(lv(*old(self)))", ensures="same_kind(final(self).points, old(self).points), lv(*final(self)) == if nd(lv(*old(self)), 0) > 0 { reversed(lv(*old(self)), old(self).points.dimension as int) } else { lv(*old(self)) }",
      start="let ll = self.points.coordinates.len(); assert(ll == lv(*self).len());",
      loops=[dict(kind="for", inv="invariant *self == *old(self), ll == lv(*self).len(), dm(self.points), fok(lv(*self)), nd(lv(*self), $v as int) == nd(lv(*self), 0), $v <= ll / 2,")]),
   Fn("compare_to", requires="fok(lv(*self)), fok(lv(*line))", ensures="r == lex(lv(*self), lv(*line), 0)", loops=[dict(kind="while", inv=WHILE % dict(a="self.points.coordinates@", b="line.points.coordinates@"))]),
   Fn("compare_to_with_comparator", requires="csq(self.points), csq(line.points), comp.dimension_limit >= 0", ensures="r == cseq(comp.dimension_limit as int, self.points, line.points)"),
 ]),
 dict(file=G + "linear_ring.rs", ty="LinearRing", fns=[
   Fn("new_with_coordinates", ensures="dm(r.points), rv(r) == points@, r.envelope.is_none()"),
   Fn("new_with_coordinate_array_sequence", ensures="eqs(r.points, *points), r.envelope.is_none(), r.precision_model.is_none()"),
   Fn("get_coordinate", ensures="r == if rv(*self).len() == 0 { None } else { Some(rv(*self)[0]) }"),
   Fn("get_coordinates", ensures="r@ == rv(*self)"),
   Fn("get_coordinate_array_sequence", ensures="eqs(r, self.points)"),
   Fn("get_envelope_internal", requires="fok(rv(*old(self))), cached(old(self).envelope, rv(*old(self)))", ensures="isbox(r, rv(*old(self))), cached(final(self).envelope, rv(*final(self))), final(self).points == old(self).points"),
   Fn("compute_envelope_internal", requires="fok(rv(*self))", ensures="isbox(r, rv(*self))", start="proof { if rv(*self).len() == 0 { assert(rv(*self) =~= Seq::empty()); } }"),
   Fn("get_length", requires="lok(rv(*self))", ensures="fin(r), val(r) == flen(rv(*self), rv(*self).len() as int)"),
   Fn("get_boundary_dimension", ensures="r == -1"),
   Fn("is_empty", ensures="r == (rv(*self).len() == 0)"),
   Fn("is_closed", requires="fok(rv(*self))", ensures="r == (rv(*self).len() == 0 || eqv(rv(*self)[0], rv(*self).last()))"),
   Fn("get_coordinate_at_index", requires="index < rv(*self).len()", ensures="r == rv(*self)[index as int]"),
   Fn("get_num_points", ensures="r == rv(*self).len()"),
   Fn("copy", ensures="eqr(r, *self), r.envelope.is_none()"),
   Fn("copy_internal", ensures="eqr(r, *self), r.envelope.is_none()"),
   Fn("reverse", requires="dm(self.points)", ensures="rvs(r.points, self.points), r.envelope == self.envelope, cached(self.envelope, rv(*self)) ==> cached(r.envelope, rv(r))", start="proof { if self.envelope.is_some() { lemma_revbox(self.envelope.unwrap(), rv(*self), self.points.dimension as int); } }"),
   Fn("reverse_internal", requires="dm(self.points)", ensures="rvs(r.points, self.points), r.envelope.is_none()"),
   Fn("equals_exact", requires="lips(rv(*self)), lips(rv(*other)), fin(tolerance)", ensures="r == eqt(rv(*self), rv(*other), tolerance)",
      loops=[dict(kind="for", inv="invariant lips(rv(*self)), lips(rv(*other)), fin(tolerance), rv(*self).len() == rv(*other).len(), forall|k: int| 0 <= k < $v ==> eq1(#[trigger] rv(*self)[k], rv(*other)[k], tolerance),")]),
   Fn("compare_to_same_class", requires="fok(rv(*self)), fok(rv(*other))", ensures="r == lex(rv(*self), rv(*other), 0)", loops=[dict(kind="while", inv=WHILE % dict(a=A, b=B_))]),
   Fn("compare_to_same_class_with_comparator", requires="csq(self.points), csq(other.points), comp.dimension_limit >= 0", ensures="r == cseq(comp.dimension_limit as int, self.points, other.points)"),
 ]),
 dict(file=G + "polygon.rs", ty="Polygon", fns=[
   Fn("new_with_linear_ring_precision_model", ensures="eqr(r.shell, *shell), r.holes@.len() == 0, r.envelope.is_none(), r.shell.envelope.is_none(), r.precision_model == Some(precision_model)"),
   Fn("new_with_linear_ring", ensures="eqr(r.shell, *shell), r.holes@.len() == 0, r.envelope.is_none(), r.shell.envelope.is_none(), r.precision_model.is_none()"),
   Fn("new_with_linear_ring_vec_precision_model", ensures="eqr(r.shell, *shell), r.holes@ == holes@, r.envelope.is_none(), r.shell.envelope.is_none(), r.precision_model == Some(precision_model)"),
   Fn("new_with_linear_ring_vec", ensures="eqr(r.shell, *shell), r.holes@ == holes@, r.envelope.is_none(), r.shell.envelope.is_none(), r.precision_model.is_none()"),
   Fn("get_coordinate", ensures="r == if rv(self.shell).len() == 0 { None } else { Some(rv(self.shell)[0]) }"),
   Fn("get_coordinates", requires="gpts(*self, self.holes@.len() as int).len() < 0x8000_0000", ensures="r@ =~= if rv(self.shell).len() == 0 { Seq::empty() } else { gpts(*self, self.holes@.len() as int) }",
      start="let ghost T = gpts(*self, self.holes@.len() as int); let ghost P = *self; proof { lemma_gmono(*self, 0, self.holes@.len() as int); }",
      loops=[dict(kind="for", inv="invariant T == gpts(P, P.holes@.len() as int), P == *self, T.len() < 0x8000_0000, rv(P.shell).len() <= T.len(), shell_coordinates@ == rv(P.shell), coordinates@.len() == T.len(), k == $v - 1, forall|q: int| 0 <= q < $v ==> coordinates@[q] == T[q],", start="proof { lemma_gidx(P, 0, P.holes@.len() as int, $v as int); }"),
        dict(kind="for", inv="invariant T == gpts(P, P.holes@.len() as int), P == *self, T.len() < 0x8000_0000, coordinates@.len() == T.len(), k == gpts(P, $v as int).len() - 1, forall|q: int| 0 <= q < gpts(P, $v as int).len() ==> coordinates@[q] == T[q],", start="proof { lemma_gmono(P, $v + 1, P.holes@.len() as int); }"),
        dict(kind="for", inv="invariant T == gpts(P, P.holes@.len() as int), P == *self, 0 <= $v1 < P.holes@.len(), T.len() < 0x8000_0000, gpts(P, $v1 + 1).len() <= T.len(), child_coordinates@ == rv(P.holes@[$v1 as int]), coordinates@.len() == T.len(), k == gpts(P, $v1 as int).len() + $v - 1, forall|q: int| 0 <= q < gpts(P, $v1 as int).len() + $v ==> coordinates@[q] == T[q],",
           start="proof { lemma_gidx(P, $v1 + 1, P.holes@.len() as int, gpts(P, $v1 as int).len() + $v); }")]),
   Fn("get_num_points", requires="gpts(*self, self.holes@.len() as int).len() < 0x8000_0000_0000_0000", ensures="r == gpts(*self, self.holes@.len() as int).len()",
      loops=[dict(kind="for", inv="invariant gpts(*self, self.holes@.len() as int).len() < 0x8000_0000_0000_0000, num_points == gpts(*self, $v as int).len(),", start="proof { lemma_gmono(*self, $v + 1, self.holes@.len() as int); }")]),
   Fn("get_dimension", ensures="r == 2"), Fn("get_boundary_dimension", ensures="r == 1"),
   Fn("is_empty", ensures="r == (rv(self.shell).len() == 0)"),
   Fn("is_rectangle", requires="fok(rv(self.shell))", ensures="r == (self.holes@.len() == 0 && rect(rv(self.shell)))", subst=[(r"self\s*\.copy_internal\(\)\s*\.get_envelope_internal\(\)", "{ let mut tmp = self.copy_internal(); tmp.get_envelope_internal() }")],
      start=ST + "let ghost S = rv(self.shell);",
      loops=[dict(kind="for", inv="invariant S.len() == 5, S == rv(self.shell), seq.coordinates@ == S, fok(S), isbox(env, S), forall|k: int| 0 <= k < $v ==> (val((#[trigger] S[k]).x) == bbox(S, 0).0 || val(S[k].x) == bbox(S, 0).1) && (val(S[k].y) == bbox(S, 0).2 || val(S[k].y) == bbox(S, 0).3),"),
             dict(kind="for", inv="invariant S.len() == 5, S == rv(self.shell), seq.coordinates@ == S, fok(S), 1 <= $v <= 5, prev_x == S[$v - 1].x, prev_y == S[$v - 1].y, forall|k: int| 1 <= k < $v ==> (val((#[trigger] S[k]).x) != val(S[k - 1].x)) != (val(S[k].y) != val(S[k - 1].y)),")]),
   Fn("get_exterior_ring", ensures="eqr(r, self.shell), r.envelope.is_none()"),
   Fn("get_num_interior_ring", ensures="r == self.holes@.len()"),
   Fn("get_interior_ring_n", requires="n < self.holes@.len()", ensures="eqr(r, self.holes@[n as int]), r.envelope.is_none()"),
   Fn("get_area", requires="aokg(*self)", ensures="fin(r), val(r) == ar2(*self, self.holes@.len() as int) as real / 2real", start=ST + "proof { lemma_r2(rv(self.shell)); lemma_ar2(*self, 0); lemma_half(ar2(*self, 0)); }",
      loops=[dict(kind="for", inv="invariant aokg(*self), fin(area), val(area) == ar2(*self, $v as int) as real / 2real,", start=ST + "proof { let k = $v as int; assert(aok(rv(self.holes@[k]))); lemma_r2(rv(self.holes@[k])); lemma_ar2(*self, k); lemma_ar2(*self, k + 1); lemma_half(ar2(*self, k + 1)); }")]),
   Fn("get_length", requires="lokg(*self)", ensures="fin(r), val(r) == glen(*self, self.holes@.len() as int)", start="broadcast use f64_ax, ty_ax; proof { lemma_glen(*self, 0); ax_flen(rv(self.shell)); lemma_lr(rv(self.shell)); }",
      loops=[dict(kind="for", inv="invariant lokg(*self), fin(len), val(len) == glen(*self, $v as int),", start="broadcast use f64_ax, ty_ax; proof { let k = $v as int; assert(lok(rv(self.holes@[k]))); lemma_flen(rv(self.holes@[k]), rv(self.holes@[k]).len() as int); lemma_glen(*self, k + 1); }")]),
   Fn("compute_envelope_internal", requires="fok(rv(old(self).shell)), cached(old(self).shell.envelope, rv(old(self).shell))", ensures="isbox(r, rv(old(self).shell)), cached(final(self).shell.envelope, rv(final(self).shell)), final(self).shell.points == old(self).shell.points, final(self).holes == old(self).holes, final(self).envelope == old(self).envelope"),
   Fn("get_envelope_internal", requires="fok(rv(old(self).shell)), cached(old(self).shell.envelope, rv(old(self).shell)), cached(old(self).envelope, rv(old(self).shell))", ensures="isbox(r, rv(old(self).shell)), cached(final(self).envelope, rv(final(self).shell)), cached(final(self).shell.envelope, rv(final(self).shell)), final(self).shell.points == old(self).shell.points, final(self).holes == old(self).holes"),
   Fn("equals_exact", requires="lipg(*self), lipg(*other), fin(tolerance)", ensures="r == eqtg(*self, *other, tolerance)",
      loops=[dict(kind="for", inv="invariant lipg(*self), lipg(*other), fin(tolerance), self.holes@.len() == other.holes@.len(), forall|k: int| 0 <= k < $v ==> eqt(rv(#[trigger] self.holes@[k]), rv(other.holes@[k]), tolerance),")]),
   Fn("copy", ensures="r.precision_model == self.precision_model, eqg(r, *self), r.envelope.is_none(), r.shell.envelope.is_none()"),
   Fn("copy_internal", ensures="r.precision_model == self.precision_model, eqg(r, *self), r.envelope.is_none(), r.shell.envelope.is_none()",
      loops=[dict(kind="for", inv="invariant hole_copies@.len() == $v, forall|k: int| 0 <= k < $v ==> eqr(#[trigger] hole_copies@[k], self.holes@[k]),")]),
   Fn("self_normalize", requires="nokg(*old(self))", ensures="""same_kind(final(self).shell.points, old(self).shell.points), nring(rv(final(self).shell), rv(old(self).shell), old(self).shell.points.dimension as int, true), final(self).holes@.len() == old(self).holes@.len(), final(self).envelope == old(self).envelope,
        forall|i: int| 0 <= i < old(self).holes@.len() ==> nring(rv(#[trigger] final(self).holes@[i]), rv(old(self).holes@[i]), old(self).holes@[i].points.dimension as int, false)""",
      loops=[dict(kind="for", inv="""invariant nokg(*old(self)), self.holes@.len() == old(self).holes@.len(), self.envelope == old(self).envelope, same_kind(self.shell.points, old(self).shell.points), nring(rv(self.shell), rv(old(self).shell), old(self).shell.points.dimension as int, true),
        forall|i: int| 0 <= i < self.holes@.len() ==> if i < $v { nring(rv(#[trigger] self.holes@[i]), rv(old(self).holes@[i]), old(self).holes@[i].points.dimension as int, false) } else { self.holes@[i] == old(self).holes@[i] },""")]),
   Fn("normalized", requires="nok(*ring)", ensures="same_kind(r.points, ring.points), nring(rv(r), rv(*ring), ring.points.dimension as int, clockwise)"),
   Fn("normalize", requires="nok(*old(ring))", ensures="same_kind(final(ring).points, old(ring).points), nring(rv(*final(ring)), rv(*old(ring)), old(ring).points.dimension as int, clockwise)",
      start="let ghost S = rv(*ring); let ghost D = ring.points.dimension as int; let ghost mut T = S;",
      after=[(r"scroll_coordinate_index_ensure_ring\([^;]*;", "proof { T = seq.coordinates@; assert(least(S, min_coordinate_index as int)); assert(trn(T, S, min_coordinate_index as int, D)); }")],
      end="proof { if S.len() > 0 { assert(oriented(rv(*ring), T, D, clockwise)); } }"),
   Fn("compare_to", requires="fog(*self), fog(*poly)", ensures="r == gcmp(*self, *poly)",
      loops=[dict(kind="while", inv="invariant fog(*self), fog(*poly), i <= n_hole1, i <= n_hole2, n_hole1 == self.holes@.len(), n_hole2 == poly.holes@.len(), hcmp(self.holes@, poly.holes@, i as int) == hcmp(self.holes@, poly.holes@, 0), decreases n_hole1 - i")]),
   Fn("compare_to_with_comparator", requires="csg(*self), csg(*poly), comp.dimension_limit >= 0", ensures="r == gseq(comp.dimension_limit as int, *self, *poly)",
      loops=[dict(kind="while", inv="invariant csg(*self), csg(*poly), comp.dimension_limit >= 0, i <= n_hole1, i <= n_hole2, n_hole1 == self.holes@.len(), n_hole2 == poly.holes@.len(), hseq(comp.dimension_limit as int, self.holes@, poly.holes@, i as int) == hseq(comp.dimension_limit as int, self.holes@, poly.holes@, 0), decreases n_hole1 - i")]),
   Fn("reverse", requires="dmg(*self)", ensures="r.precision_model == self.precision_model, rvg(r, *self), r.envelope == self.envelope, r.shell.envelope.is_none(), cached(self.envelope, rv(self.shell)) ==> cached(r.envelope, rv(r.shell))", start="proof { if self.envelope.is_some() { lemma_revbox(self.envelope.unwrap(), rv(self.shell), self.shell.points.dimension as int); } }"),
   Fn("reverse_internal", requires="dmg(*self)", ensures="r.precision_model == self.precision_model, rvg(r, *self), r.envelope.is_none(), r.shell.envelope.is_none()",
      loops=[dict(kind="for", inv="invariant dmg(*self), holes@.len() == $v, forall|k: int| 0 <= k < $v ==> rvs(#[trigger] holes@[k].points, self.holes@[k].points),")]),
 ]),
 dict(file=G + "multi_point.rs", ty="MultiPoint", fns=[
   Fn("new_with_points", ensures="r.points@ == points@, r.envelope.is_none(), r.precision_model.is_none()"),
   Fn("new_with_points_precision_model", ensures="r.points@ == points@, r.envelope.is_none(), r.precision_model == Some(precision_model)"),
   Fn("is_empty", ensures="r == forall|i: int| 0 <= i < self.points@.len() ==> pv(#[trigger] self.points@[i]).len() == 0", loops=[dict(kind="for", inv="invariant forall|k: int| 0 <= k < $v ==> pv(#[trigger] self.points@[k]).len() == 0,")]),
   Fn("get_num_points", requires="mpok(self.points@)", ensures="r == mpts(self.points@, self.points@.len() as int).len()",
      loops=[dict(kind="for", inv="invariant mpok(self.points@), num_points == mpts(self.points@, $v as int).len(), num_points <= $v,")]),
   Fn("get_dimension", ensures="r == 0"), Fn("has_dimension", ensures="r == (dim == 0)"), Fn("get_boundary_dimension", ensures="r == -1"), Fn("get_precision_model", ensures="r == self.precision_model"),
   Fn("equals_exact", requires="mpok(self.points@), mpok(other.points@), mpl(self.points@), mpl(other.points@), fin(tolerance)", ensures="r == (self.points@.len() == other.points@.len() && forall|i: int| 0 <= i < self.points@.len() ==> eqt(pv(#[trigger] self.points@[i]), pv(other.points@[i]), tolerance))",
      loops=[dict(kind="for", inv="invariant mpok(self.points@), mpok(other.points@), mpl(self.points@), mpl(other.points@), fin(tolerance), self.points@.len() == other.points@.len(), forall|k: int| 0 <= k < $v ==> eqt(pv(#[trigger] self.points@[k]), pv(other.points@[k]), tolerance),")]),
   Fn("get_point_at_index", requires="mpok(self.points@)", ensures="r.is_some() == (index < self.points@.len()), r.is_some() ==> eqs(r.unwrap().coordinates, self.points@[index as int].coordinates)"),
   Fn("get_coordinate", requires="n < self.points@.len()", ensures="r == if pv(self.points@[n as int]).len() == 0 { None } else { Some(pv(self.points@[n as int])[0]) }"),
   Fn("get_coordinates", requires="mpok(self.points@), self.points@.len() < 0x8000_0000", ensures="r@ =~= mpts(self.points@, self.points@.len() as int)",
      start="let ghost V = self.points@; let ghost T = mpts(V, V.len() as int); proof { lemma_mlen(V, V.len() as int); }",
      loops=[dict(kind="for", inv="invariant V == self.points@, mpok(V), T == mpts(V, V.len() as int), T.len() < 0x8000_0000, coordinates@.len() == T.len(), k == mpts(V, $v as int).len() - 1, forall|q: int| 0 <= q < mpts(V, $v as int).len() ==> coordinates@[q] == T[q],", start="proof { lemma_mmono(V, $v + 1, V.len() as int); }"),
        dict(kind="for", inv="invariant V == self.points@, mpok(V), 0 <= $v0 < V.len(), T == mpts(V, V.len() as int), T.len() < 0x8000_0000, mpts(V, $v0 + 1).len() <= T.len(), coordinates@.len() == T.len(), child_coordinates@ == pv(V[$v0 as int]), k == mpts(V, $v0 as int).len() + $v - 1, forall|q: int| 0 <= q < mpts(V, $v0 as int).len() + $v ==> coordinates@[q] == T[q],",
           start="proof { lemma_midx(V, $v0 + 1, V.len() as int, mpts(V, $v0 as int).len() + $v); }")]),
   Fn("compute_envelope_internal", requires="mpc(old(self).points@)", ensures="isbox(r, mpts(old(self).points@, old(self).points@.len() as int)), mpsame(final(self).points@, old(self).points@), mpc(final(self).points@), final(self).envelope == old(self).envelope", start="let ghost P = self.points@; let ghost C = self.envelope;",
      loops=[dict(kind="for", inv="invariant mpc(self.points@), mpsame(self.points@, P), self.envelope == C, isbox(envelope, mpts(P, $v as int)),", start="let ghost e0 = envelope; proof { assert(pv(self.points@[$v as int]) == pv(P[$v as int])); }", end="proof { assert forall|a: Envelope| isbox(a, pv(P[$v as int])) && #[trigger] bgrown(envelope, e0, a) implies isbox(envelope, mpts(P, $v + 1)) by { lemma_bgrow(envelope, e0, a, mpts(P, $v as int), pv(P[$v as int])); } }")]),
   Fn("get_envelope_internal", requires="mpc(old(self).points@), cached(old(self).envelope, mpts(old(self).points@, old(self).points@.len() as int))", ensures="isbox(r, mpts(old(self).points@, old(self).points@.len() as int)), mpsame(final(self).points@, old(self).points@), mpc(final(self).points@), cached(final(self).envelope, mpts(old(self).points@, old(self).points@.len() as int))"),
   Fn("copy", requires="mpok(self.points@)", ensures="r.precision_model == self.precision_model, eqm(r.points@, self.points@), r.envelope.is_none()", loops=[dict(kind="for", inv="invariant mpok(self.points@), points@.len() == $v, forall|k: int| 0 <= k < $v ==> eqs((#[trigger] points@[k]).coordinates, self.points@[k].coordinates),")]),
   Fn("reverse", requires="mpok(self.points@)", ensures="r.precision_model == self.precision_model, eqm(r.points@, self.points@), r.envelope == self.envelope"),
   Fn("reverse_internal", requires="mpok(self.points@)", ensures="r.precision_model == self.precision_model, eqm(r.points@, self.points@), r.envelope.is_none()", loops=[dict(kind="for", inv="invariant mpok(self.points@), points@.len() == $v, forall|k: int| 0 <= k < $v ==> eqs((#[trigger] points@[k]).coordinates, self.points@[k].coordinates),")]),
 ]),
 dict(file=G + "multi_line_string.rs", ty="MultiLineString", fns=[
   Fn("new_with_line_strings", ensures="r.line_strings@ == line_strings@, r.envelope.is_none()"),
   Fn("new_with_line_strings_precision_model", ensures="r.line_strings@ == line_strings@, r.envelope.is_none(), r.precision_model == Some(precision_model)"),
   Fn("get_dimension", ensures="r == 1"), Fn("has_dimension", ensures="r == (dim == 1)"),
   Fn("get_boundary_dimension", requires="mlf(self.line_strings@)", ensures="r == if mclosed(self.line_strings@) { -1i32 } else { 0i32 }"),
   Fn("is_empty", ensures="r == mempty(self.line_strings@)", loops=[dict(kind="for", inv="invariant forall|k: int| 0 <= k < $v ==> lv(#[trigger] self.line_strings@[k]).len() == 0,")]),
   Fn("is_closed", requires="mlf(self.line_strings@)", ensures="r == mclosed(self.line_strings@)", loops=[dict(kind="for", inv="invariant mlf(self.line_strings@), !mempty(self.line_strings@), forall|k: int| 0 <= k < $v ==> closedl(#[trigger] self.line_strings@[k]),")]),
   Fn("reverse", requires="mld(self.line_strings@)", ensures="mrev(r.line_strings@, self.line_strings@), r.envelope == self.envelope"),
   Fn("reverse_internal", requires="mld(self.line_strings@)", ensures="mrev(r.line_strings@, self.line_strings@), r.envelope.is_none()", loops=[dict(kind="for", inv="invariant mld(self.line_strings@), line_strings@.len() == $v, forall|k: int| 0 <= k < $v ==> rvs((#[trigger] line_strings@[k]).points, self.line_strings@[k].points),")]),
   Fn("copy_internal", ensures="r.line_strings@.len() == self.line_strings@.len(), forall|k: int| 0 <= k < r.line_strings@.len() ==> eqs((#[trigger] r.line_strings@[k]).points, self.line_strings@[k].points)", loops=[dict(kind="for", inv="invariant line_strings@.len() == $v, forall|k: int| 0 <= k < $v ==> eqs((#[trigger] line_strings@[k]).points, self.line_strings@[k].points),")]),
   Fn("equals_exact", requires="mll(self.line_strings@), mll(other.line_strings@), fin(tolerance)", ensures="r == (self.line_strings@.len() == other.line_strings@.len() && forall|i: int| 0 <= i < self.line_strings@.len() ==> eqt(lv(#[trigger] self.line_strings@[i]), lv(other.line_strings@[i]), tolerance))",
      loops=[dict(kind="for", inv="invariant mll(self.line_strings@), mll(other.line_strings@), fin(tolerance), self.line_strings@.len() == other.line_strings@.len(), forall|k: int| 0 <= k < $v ==> eqt(lv(#[trigger] self.line_strings@[k]), lv(other.line_strings@[k]), tolerance),")]),
 ]),
 dict(file=G + "multi_polygon.rs", ty="MultiPolygon", fns=[
   Fn("new_with_polygons", ensures="r.polygons@ == polygons@, r.envelope.is_none(), r.precision_model.is_none()"),
   Fn("new_with_polygons_precision_model", ensures="r.polygons@ == polygons@, r.envelope.is_none(), r.precision_model == Some(precision_model)"),
   Fn("get_dimension", ensures="r == 2"), Fn("has_dimension", ensures="r == (dim == 2)"), Fn("get_boundary_dimension", ensures="r == 1"),
   Fn("get_area", requires="aokm(self.polygons@)", ensures="fin(r), val(r) == mar2(self.polygons@, self.polygons@.len() as int) as real / 2real", start=ST,
      loops=[dict(kind="for", inv="invariant aokm(self.polygons@), fin(area), val(area) == mar2(self.polygons@, $v as int) as real / 2real,", start=ST + "proof { let k = $v as int; assert(aokg(self.polygons@[k])); lemma_mar2(self.polygons@, k); lemma_mar2(self.polygons@, k + 1); lemma_half(mar2(self.polygons@, k + 1)); }")]),
   Fn("get_num_polygons", ensures="r == self.polygons@.len()"),
   Fn("get_polygon_at_index", requires="n < self.polygons@.len()", ensures="r.precision_model == self.polygons@[n as int].precision_model, eqg(r, self.polygons@[n as int])"),
   Fn("is_empty", ensures="r == forall|i: int| 0 <= i < self.polygons@.len() ==> rv((#[trigger] self.polygons@[i]).shell).len() == 0", loops=[dict(kind="for", inv="invariant forall|k: int| 0 <= k < $v ==> rv((#[trigger] self.polygons@[k]).shell).len() == 0,")]),
   Fn("equals_exact", requires="mgl(self.polygons@), mgl(other.polygons@), fin(tolerance)", ensures="r == (self.polygons@.len() == other.polygons@.len() && forall|i: int| 0 <= i < self.polygons@.len() ==> eqtg(#[trigger] self.polygons@[i], other.polygons@[i], tolerance))",
      loops=[dict(kind="for", inv="invariant mgl(self.polygons@), mgl(other.polygons@), fin(tolerance), self.polygons@.len() == other.polygons@.len(), forall|k: int| 0 <= k < $v ==> eqtg(#[trigger] self.polygons@[k], other.polygons@[k], tolerance),")]),
   Fn("reverse", requires="mgd(self.polygons@)", ensures="r.precision_model == self.precision_model, mgrev(r.polygons@, self.polygons@), r.envelope == self.envelope"),
   Fn("reverse_internal", requires="mgd(self.polygons@)", ensures="r.precision_model == self.precision_model, mgrev(r.polygons@, self.polygons@), r.envelope.is_none()", loops=[dict(kind="for", inv="invariant mgd(self.polygons@), polygons@.len() == $v, forall|k: int| 0 <= k < $v ==> rvg(#[trigger] polygons@[k], self.polygons@[k]),")]),
   Fn("copy", ensures="r.precision_model == self.precision_model, r.polygons@.len() == self.polygons@.len(), forall|k: int| 0 <= k < r.polygons@.len() ==> eqg(#[trigger] r.polygons@[k], self.polygons@[k])"),
   Fn("copy_internal", ensures="r.precision_model == self.precision_model, r.polygons@.len() == self.polygons@.len(), forall|k: int| 0 <= k < r.polygons@.len() ==> eqg(#[trigger] r.polygons@[k], self.polygons@[k])", loops=[dict(kind="for", inv="invariant polygons@.len() == $v, forall|k: int| 0 <= k < $v ==> eqg(#[trigger] polygons@[k], self.polygons@[k]),")]),
 ]),
 dict(file=G + "geometry_factory.rs", ty="GeometryFactory", header="pub struct GeometryFactory {}\nimpl GeometryFactory {", fns=[
   Fn("create_point", ensures="pv(r).len() == 0"),
   Fn("create_point_from_coordinate", ensures="pv(r) =~= seq![*coordinate], r.envelope.is_none()"),
   Fn("create_point_from_coordinate_array_sequence", requires="coordinates.coordinates@.len() <= 1", ensures="eqs(r.coordinates, *coordinates), r.envelope.is_none()"),
   Fn("create_multi_polygon", ensures="r.polygons@ == polygons@"),
   Fn("create_linear_ring", ensures="rv(r).len() == 0"),
   Fn("create_linear_ring_with_coordinates", ensures="rv(r) == coordinates@, dm(r.points), r.envelope.is_none()"),
   Fn("create_linear_ring_with_coordinate_array_sequence", ensures="eqs(r.points, *coordinates), r.envelope.is_none()"),
   Fn("create_multi_point_from_points", ensures="r.points@ == point@"),
   Fn("create_polygon_with_linear_ring_vec", ensures="eqr(r.shell, *shell), r.holes@ == holes@, r.envelope.is_none(), r.shell.envelope.is_none()"),
   Fn("create_polygon_with_coordinate_array_sequence", ensures="eqs(r.shell.points, *shell), r.holes@.len() == 0"),
   Fn("create_polygon_with_coordinates", ensures="rv(r.shell) == shell@, r.holes@.len() == 0"),
   Fn("create_polygon_with_linear_ring", ensures="eqr(r.shell, *shell), r.holes@.len() == 0"),
   Fn("create_line_string", ensures="lv(r).len() == 0"),
   Fn("create_line_string_coordinates", ensures="lv(r) == coordinates@, dm(r.points)"),
   Fn("create_line_string_coordinate_array_sequence", ensures="eqs(r.points, *coordinates), r.envelope.is_none()"),
   Fn("create_multi_point_with_coordinates", requires="fok(coordinates@)", ensures="mof(r.points@, coordinates@)"),
   Fn("create_multi_point_from_coordinate_array_sequence", requires="knd(*coordinates)", ensures="mof(r.points@, coordinates.coordinates@)",
      loops=[dict(kind="for", inv="invariant knd(*coordinates), points@.len() == coordinates.coordinates@.len(), forall|k: int| 0 <= k < $v ==> pv(#[trigger] points@[k]).len() == 1 && agree(pv(points@[k])[0], coordinates.coordinates@[k], coordinates.dimension as int),")]),
 ]),
]
PRELUDE += """
pub open spec fn mpok(v: Seq<Point>) -> bool { forall|i: int| 0 <= i < v.len() ==> pv(#[trigger] v[i]).len() <= 1 }
pub open spec fn mpl(v: Seq<Point>) -> bool { forall|i: int| 0 <= i < v.len() ==> lips(pv(#[trigger] v[i])) }
pub open spec fn eqm(a: Seq<Point>, b: Seq<Point>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> eqs((#[trigger] a[i]).coordinates, b[i].coordinates) }
/// a point for every coordinate, in order
pub open spec fn mof(a: Seq<Point>, s: Seq<Coordinate>) -> bool { a.len() == s.len() && forall|i: int| 0 <= i < a.len() ==> pv(#[trigger] a[i]).len() == 1 && agree(pv(a[i])[0], s[i], 2) }
pub proof fn lemma_mlen(v: Seq<Point>, k: int) requires mpok(v), 0 <= k <= v.len() ensures mpts(v, k).len() <= k decreases k { if k > 0 { lemma_mlen(v, k - 1); assert(pv(v[k - 1]).len() <= 1); } }
pub proof fn lemma_midx(p: Seq<Point>, k: int, n: int, j: int) requires 0 <= k <= n, 0 <= j < mpts(p, k).len() ensures mpts(p, n)[j] == mpts(p, k)[j], j < mpts(p, n).len() decreases n - k { if k < n { lemma_midx(p, k, n - 1, j); } }
pub open spec fn mlf(v: Seq<LineString>) -> bool { forall|i: int| 0 <= i < v.len() ==> fok(lv(#[trigger] v[i])) }
pub open spec fn mld(v: Seq<LineString>) -> bool { forall|i: int| 0 <= i < v.len() ==> dm((#[trigger] v[i]).points) }
pub open spec fn mll(v: Seq<LineString>) -> bool { forall|i: int| 0 <= i < v.len() ==> lips(lv(#[trigger] v[i])) }
pub open spec fn mempty(v: Seq<LineString>) -> bool { forall|i: int| 0 <= i < v.len() ==> lv(#[trigger] v[i]).len() == 0 }
pub open spec fn mclosed(v: Seq<LineString>) -> bool { !mempty(v) && forall|i: int| 0 <= i < v.len() ==> closedl(#[trigger] v[i]) }
pub open spec fn mrev(a: Seq<LineString>, b: Seq<LineString>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> rvs((#[trigger] a[i]).points, b[i].points) }
pub open spec fn mgl(v: Seq<Polygon>) -> bool { forall|i: int| 0 <= i < v.len() ==> lipg(#[trigger] v[i]) }
pub open spec fn mgd(v: Seq<Polygon>) -> bool { forall|i: int| 0 <= i < v.len() ==> dmg(#[trigger] v[i]) }
pub open spec fn mgrev(a: Seq<Polygon>, b: Seq<Polygon>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> rvg(#[trigger] a[i], b[i]) }
pub proof fn lemma_big(n: int) requires 0 <= n <= 2147483647 ensures inrange((n * 4194304) as real), forall|x: real| 0real <= x <= (n * 4194304) as real ==> #[trigger] inrange(x) { broadcast use ax_big; }
pub proof fn lemma_lr(s: Seq<Coordinate>) requires lok(s) ensures inrange(flen(s, s.len() as int)) { lemma_flen(s, s.len() as int); lemma_big(s.len() as int); }
pub axiom fn ax_rnd_idem(x: real) ensures rnd(rnd(x)) == rnd(x);
pub proof fn ax_flen(s: Seq<Coordinate>) requires lok(s) ensures rnd(flen(s, s.len() as int)) == flen(s, s.len() as int) { ax_rnd_zero(); if s.len() > 1 { ax_rnd_idem(flen(s, s.len() - 1) + seg(s, s.len() - 1)); } }
"""
_turn = c10.LEMMAS
PRELUDE += _turn[_turn.index("pub open spec fn turned"):_turn.index("/// reversing twice")]
LEMMAS = _turn[_turn.index("/// reversing twice"):_turn.index("/// comparison is antisymmetric")] + """
/// copies and reversals of reversals are exactly equal to the source, with any tolerance
pub proof fn theorem_equal_refl(s: Seq<Coordinate>, t: f64) requires lips(s), fin(t), val(t) >= 0real ensures eqt(s, s, t)
{ broadcast use ax_hypr; assert forall|i: int| 0 <= i < s.len() implies eq1(#[trigger] s[i], s[i], t) by { assert(lip(s[i])); lemma_dd(s[i].x, s[i].x); lemma_dd(s[i].y, s[i].y); } }
pub proof fn theorem_equal_sym(s: Seq<Coordinate>, u: Seq<Coordinate>, t: f64) requires lips(s), lips(u) ensures eqt(s, u, t) == eqt(u, s, t)
{ if s.len() == u.len() { assert forall|i: int| 0 <= i < s.len() implies eq1(#[trigger] s[i], u[i], t) == eq1(u[i], s[i], t) by { assert(lip(s[i]) && lip(u[i])); lemma_dist(s[i], u[i]); }
   if eqt(s, u, t) { assert forall|i: int| 0 <= i < s.len() implies eq1(#[trigger] u[i], s[i], t) by { assert(eq1(s[i], u[i], t)); } }
   if eqt(u, s, t) { assert forall|i: int| 0 <= i < s.len() implies eq1(#[trigger] s[i], u[i], t) by { assert(eq1(u[i], s[i], t)); } } } }
/// with tolerance zero it is an equivalence
pub proof fn theorem_equal_trans(a: Seq<Coordinate>, b: Seq<Coordinate>, c: Seq<Coordinate>, t: f64) requires val(t) == 0real, eqt(a, b, t), eqt(b, c, t) ensures eqt(a, c, t)
{ assert forall|i: int| 0 <= i < a.len() implies eq1(#[trigger] a[i], c[i], t) by { assert(eq1(a[i], b[i], t)); assert(eq1(b[i], c[i], t)); } }
/// the order of lines, rings and polygons is antisymmetric and zero exactly on equal ones
pub proof fn theorem_lex(a: Seq<Coordinate>, b: Seq<Coordinate>, k: int) requires k >= 0 ensures lex(a, b, k) == -lex(b, a, k), -1 <= lex(a, b, k) <= 1,
   k <= a.len() && k <= b.len() ==> ((lex(a, b, k) == 0) == (a.len() == b.len() && forall|i: int| k <= i < a.len() ==> eqv(#[trigger] a[i], b[i]))) decreases a.len() - k
{ if k < a.len() && k < b.len() { theorem_lex(a, b, k + 1); if cmpv(a[k], b[k]) != 0 { assert(!eqv(a[k], b[k])); } else { assert(eqv(a[k], b[k])); } } }
pub proof fn theorem_hcmp(a: Seq<LinearRing>, b: Seq<LinearRing>, k: int) requires k >= 0 ensures hcmp(a, b, k) == -hcmp(b, a, k) decreases a.len() - k
{ if k < a.len() && k < b.len() { theorem_hcmp(a, b, k + 1); theorem_lex(rv(a[k]), rv(b[k]), 0); } }
pub proof fn theorem_gcmp(a: Polygon, b: Polygon) ensures gcmp(a, b) == -gcmp(b, a) { theorem_lex(rv(a.shell), rv(b.shell), 0); theorem_hcmp(a.holes@, b.holes@, 0); }
/// the normal form of a line: idempotent, and the same (in the plane) for the line and its reverse
pub open spec fn lnf(s: Seq<Coordinate>, d: int) -> Seq<Coordinate> { if nd(s, 0) > 0 { reversed(s, d) } else { s } }
pub proof fn lemma_nd(s: Seq<Coordinate>, d: int, i: int) requires d >= 2, i >= 0 ensures nd(reversed(s, d), i) == -nd(s, i),
   nd(s, i) == 0 ==> forall|k: int| i <= k < s.len() as int / 2 ==> eqv(#[trigger] s[k], s[s.len() - 1 - k]) decreases s.len() - i
{ if i < s.len() as int / 2 { lemma_nd(s, d, i + 1); } }
pub proof fn theorem_line_normal(s: Seq<Coordinate>, d: int) requires d >= 2
  ensures lnf(lnf(s, d), d) == lnf(s, d), forall|i: int| 0 <= i < s.len() ==> eqv(#[trigger] lnf(s, d)[i], lnf(reversed(s, d), d)[i])
{ lemma_nd(s, d, 0); let r = reversed(s, d); lemma_nd(r, d, 0); theorem_reverse(s, d);
  if nd(s, 0) == 0 { assert forall|i: int| 0 <= i < s.len() implies eqv(#[trigger] s[i], r[i]) by { let j = s.len() - 1 - i; assert(r[i] == part(s[i], s[j], d)); if i < s.len() as int / 2 { } else if j < s.len() as int / 2 { assert(eqv(s[j], s[s.len() - 1 - j])); } else { assert(i == j); } } }
  else if nd(s, 0) > 0 { assert(nd(r, 0) < 0); assert(lnf(r, d) == r); }
  else { assert(lnf(r, d) == reversed(r, d)); assert(reversed(r, d) =~= s); } }
/// the normal form of a ring with one least vertex: idempotent, and the same for the ring and its reverse, when reversal changes the orientation
pub open spec fn plain(s: Seq<Coordinate>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).z == s[0].z && s[i].m == s[0].m }
pub open spec fn rg(s: Seq<Coordinate>) -> bool { s.len() >= 4 && s[0] == s.last() && plain(s) && fok(s) && forall|i: int, j: int| 0 <= i < j < s.len() - 1 ==> !eqv(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn from(s: Seq<Coordinate>, m: int) -> Seq<Coordinate> { Seq::new(s.len(), |k: int| s[(m + k) % (s.len() - 1)]) }
pub proof fn lemma_from(t: Seq<Coordinate>, s: Seq<Coordinate>, m: int, d: int) requires rg(s), d >= 2, 0 <= m < s.len() - 1 ensures trn(t, s, m, d) == (t == from(s, m))
{ let n = s.len() - 1;
  if m == 0 { assert forall|k: int| 0 <= k < s.len() implies #[trigger] from(s, 0)[k] == s[k] by { if k < n { assert(k % n == k) by (nonlinear_arith) requires 0 <= k < n; } else { assert(n % n == 0) by (nonlinear_arith) requires n > 0; } } assert(from(s, 0) =~= s); }
  else {
    let f = from(s, m);
    assert forall|k: int| 0 <= k < n implies part(s[k], s[(m + k) % n], d) == #[trigger] f[k] by { lemma_mod(m, k, n); let q = (m + k) % n; assert(s[k].z == s[0].z && s[q].z == s[0].z && s[k].m == s[q].m); }
    assert(f[n] == s[(m + n) % n]); assert((m + n) % n == m) by (nonlinear_arith) requires 0 <= m < n; assert(m % n == m) by (nonlinear_arith) requires 0 <= m < n; lemma_mod(m, 0, n);
    assert(part(s[n], s[m % n], d) == f[n]) by { let q = m % n; assert(s[n].z == s[0].z && s[q].z == s[0].z && s[n].m == s[q].m); }
    if trn(t, s, m, d) { assert forall|k: int| 0 <= k < s.len() implies t[k] == f[k] by { if k < n { assert(t[k] == part(s[k], s[(m + k) % n], d)); } } assert(t =~= f); } } }
pub proof fn lemma_revplain(s: Seq<Coordinate>, d: int) requires plain(s), d >= 2 ensures reversed(s, d) =~= rev0(s)
{ assert forall|i: int| 0 <= i < s.len() implies #[trigger] reversed(s, d)[i] == rev0(s)[i] by { let j = s.len() - 1 - i; assert(s[i].z == s[0].z && s[j].z == s[0].z && s[i].m == s[j].m); } }
pub proof fn lemma_rg_rev(s: Seq<Coordinate>) requires rg(s) ensures rg(rev0(s))
{ let r = rev0(s); let n = s.len() - 1; assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).z == r[0].z && r[i].m == r[0].m && fpt(r[i]) by { let j = n - i; assert(fpt(s[j]) && s[j].z == s[0].z && s[j].m == s[0].m); assert(s[n].z == s[0].z && s[n].m == s[0].m); }
  assert forall|i: int, j: int| 0 <= i < j < n implies !eqv(#[trigger] r[i], #[trigger] r[j]) by { let (a, b) = (n - j, n - i); if i == 0 { assert(r[0] == s[0]); assert(!eqv(s[0], s[a])); } else { assert(!eqv(s[a], s[b])); } } }
pub proof fn lemma_rg_from(s: Seq<Coordinate>, m: int) requires rg(s), 0 <= m < s.len() - 1 ensures rg(from(s, m))
{ let f = from(s, m); let n = s.len() - 1; assert(f[n] == s[(m + n) % n]); assert((m + n) % n == m) by (nonlinear_arith) requires 0 <= m < n; assert(f[0] == s[(m + 0) % n]); assert((m + 0) % n == m) by (nonlinear_arith) requires 0 <= m < n;
  assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).z == f[0].z && f[i].m == f[0].m && fpt(f[i]) by { lemma_mod(m, i, n); lemma_mod(m, 0, n); let q = (m + i) % n; assert(fpt(s[q]) && s[q].z == s[0].z && s[q].m == s[0].m); assert(s[m].z == s[0].z && s[m].m == s[0].m); }
  assert forall|i: int, j: int| 0 <= i < j < n implies !eqv(#[trigger] f[i], #[trigger] f[j]) by { lemma_mod(m, i, n); lemma_mod(m, j, n); let (a, b) = ((m + i) % n, (m + j) % n); lemma_wrap(m, i, n); lemma_wrap(m, j, n); assert(a != b); if a < b { assert(!eqv(s[a], s[b])); } else { assert(!eqv(s[b], s[a])); } } }
pub proof fn lemma_wrap(m: int, i: int, n: int) requires 0 <= m < n, 0 <= i < n ensures (m + i) % n == if m + i < n { m + i } else { m + i - n }
{ if m + i < n { assert((m + i) % n == m + i) by (nonlinear_arith) requires 0 <= m + i < n; } else { let y = m + i - n; assert((y + n) % n == y) by (nonlinear_arith) requires 0 <= y < n; } }
/// the least vertex is where it is
pub proof fn lemma_least(s: Seq<Coordinate>, m: int, k: int) requires rg(s), least(s, m), least(s, k) ensures m == k
{ assert(cmpv(s[m], s[k]) <= 0 && cmpv(s[k], s[m]) <= 0); if m < k { assert(!eqv(s[m], s[k])); } else if k < m { assert(!eqv(s[k], s[m])); } }
pub proof fn lemma_least_from(s: Seq<Coordinate>, m: int) requires rg(s), least(s, m) ensures least(from(s, m), 0)
{ let n = s.len() - 1; let f = from(s, m); assert(f[0] == s[(m + 0) % n]); lemma_wrap(m, 0, n); assert forall|k: int| 0 <= k < n implies cmpv(f[0], #[trigger] f[k]) <= 0 by { lemma_mod(m, k, n); assert(cmpv(s[m], s[(m + k) % n]) <= 0); } }
/// turning the reverse gives the reverse of the turned ring
pub proof fn lemma_from_rev(s: Seq<Coordinate>, m: int) requires rg(s), 0 <= m < s.len() - 1 ensures ({ let n = s.len() - 1; let k = if m == 0 { 0int } else { n - m }; from(rev0(s), k) =~= rev0(from(s, m)) && (least(s, m) ==> least(rev0(s), k)) })
{ let n = s.len() - 1; let k = if m == 0 { 0int } else { n - m }; let r = rev0(s); lemma_rg_rev(s);
  assert forall|i: int| 0 <= i < s.len() implies #[trigger] from(r, k)[i] == rev0(from(s, m))[i] by {
    assert(from(r, k)[i] == r[(k + i) % n]); assert(rev0(from(s, m))[i] == s[(m + (n - i)) % n]); lemma_mod(k, i, n); lemma_mod(m, n - i, n);
    if i < n { lemma_wrap(k, i, n); } else { assert((k + n) % n == k) by (nonlinear_arith) requires 0 <= k < n; }
    if i > 0 { lemma_wrap(m, n - i, n); } else { assert((m + n) % n == m) by (nonlinear_arith) requires 0 <= m < n; } }
  if least(s, m) { assert forall|j: int| 0 <= j < n implies cmpv(r[k], #[trigger] r[j]) <= 0 && (j < k ==> cmpv(r[k], r[j]) < 0) by { let q = if j == 0 { 0 } else { n - j }; assert(r[j] == s[q]); assert(r[k] == s[m]); assert(cmpv(s[m], s[q]) <= 0); if j < k { assert(!eqv(r[j], r[k])); } } } }
pub open spec fn turns(s: Seq<Coordinate>) -> bool { forall|m: int| 0 <= m < s.len() - 1 ==> ccws(rev0(#[trigger] from(s, m))) == !ccws(from(s, m)) }
pub open spec fn nof(s: Seq<Coordinate>, m: int, cw: bool) -> Seq<Coordinate> { if ccws(from(s, m)) == cw { rev0(from(s, m)) } else { from(s, m) } }
pub proof fn lemma_has(r: Seq<Coordinate>, s: Seq<Coordinate>, d: int, cw: bool) requires rg(s), nring(r, s, d, cw) ensures exists|m: int| least(s, m)
{ let (m, t) = choose|m: int, t: Seq<Coordinate>| least(s, m) && #[trigger] trn(t, s, m, d) && oriented(r, t, d, cw); assert(least(s, m)); }
pub proof fn lemma_nr(r: Seq<Coordinate>, s: Seq<Coordinate>, d: int, cw: bool, m: int) requires rg(s), d >= 2, nring(r, s, d, cw), least(s, m) ensures r == nof(s, m, cw)
{ let (k, t) = choose|k: int, t: Seq<Coordinate>| least(s, k) && #[trigger] trn(t, s, k, d) && oriented(r, t, d, cw); lemma_least(s, m, k); lemma_from(t, s, m, d); lemma_rg_from(s, m); assert(plain(t)); lemma_revplain(t, d); }
pub proof fn lemma_from0(s: Seq<Coordinate>) requires rg(s) ensures from(s, 0) =~= s
{ let n = s.len() - 1; assert forall|k: int| 0 <= k < s.len() implies #[trigger] from(s, 0)[k] == s[k] by { if k < n { lemma_wrap(0, k, n); } else { assert((0 + n) % n == 0) by (nonlinear_arith) requires n > 0; } } }
pub proof fn lemma_nof(s: Seq<Coordinate>, m: int, cw: bool) requires rg(s), least(s, m), turns(s) ensures rg(nof(s, m, cw)), least(nof(s, m, cw), 0), ccws(nof(s, m, cw)) != cw
{ let f = from(s, m); lemma_rg_from(s, m); lemma_least_from(s, m); lemma_rg_rev(f); lemma_from_rev(f, 0); }
pub proof fn theorem_ring_idempotent(s: Seq<Coordinate>, r: Seq<Coordinate>, r2: Seq<Coordinate>, d: int, cw: bool)
  requires rg(s), turns(s), d >= 2, nring(r, s, d, cw), nring(r2, r, d, cw) ensures r2 == r, ccws(r) != cw
{ lemma_has(r, s, d, cw); let m = choose|m: int| least(s, m); lemma_nr(r, s, d, cw, m); lemma_nof(s, m, cw); lemma_nr(r2, r, d, cw, 0); lemma_from0(r); }
pub proof fn theorem_ring_reverse(s: Seq<Coordinate>, r: Seq<Coordinate>, q: Seq<Coordinate>, d: int, cw: bool)
  requires rg(s), turns(s), d >= 2, nring(r, s, d, cw), nring(q, reversed(s, d), d, cw) ensures q == r
{ lemma_has(r, s, d, cw); let m = choose|m: int| least(s, m); lemma_nr(r, s, d, cw, m); lemma_revplain(s, d); lemma_rg_rev(s); lemma_from_rev(s, m);
  let k = if m == 0 { 0int } else { s.len() - 1 - m }; lemma_nr(q, rev0(s), d, cw, k); let f = from(s, m); assert(rev0(rev0(f)) =~= f); assert(ccws(rev0(f)) == !ccws(f)); }
"""
ASSUMPTIONS = ["finite planar ordinates (magnitude up to 1e30 where distances are compared within a tolerance, 2^20 for areas and lengths, at most 2048 points for an area); other ordinates finite or missing where a comparator reads them",
  "the orientation test enters as a function of the points (its meaning is decided by check C04); that reversing a ring changes it is a hypothesis of the normal-form theorem (C04 shows it for simple rings)",
  "libm's hypot lies between either magnitude and their sum, and is even", "derived Clone and std to_vec copy a geometry component by component",
  "&mut of a temporary in Polygon::is_rectangle is written as a named temporary for the verifier", "the box of a multi-point (a method called through IndexMut) and the type names are decided by search only"]
