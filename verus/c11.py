from rsx import Fn
import copy
import common, c12
from common import BI
USES = ["f64"]
STRUCTS = [common.COORD, ("src/core/geom/coordinate_list.rs", "CoordinateList", ""), ("src/core/geom/coordinate_arrays.rs", "CoordinateArrays", ""), ("src/core/geom/envelope.rs", "Envelope", "")]
PRELUDE = c12.PRELUDE + """
global size_of usize == 8;
pub assume_specification<T: Clone> [ <[T]>::clone_from_slice ](v: &mut [T], src: &[T]) requires old(v)@.len() == src@.len() ensures final(v)@ == src@;
pub assume_specification[ f64::is_finite ](x: f64) -> (r: bool) ensures r == fin(x);
/// the first place holding the point
pub open spec fn inlist(s: Seq<Coordinate>, p: Coordinate) -> bool { exists|i: int| 0 <= i < s.len() && eqv(#[trigger] s[i], p) }
pub open spec fn lex(a: Seq<Coordinate>, b: Seq<Coordinate>, k: int) -> i32 decreases a.len() - k
{ if k >= a.len() || k >= b.len() || k < 0 { if k < b.len() { -1i32 } else if k < a.len() { 1i32 } else { 0i32 } } else if cmpv(a[k], b[k]) != 0 { cmpv(a[k], b[k]) } else { lex(a, b, k + 1) } }
pub open spec fn dirn(a: Seq<Coordinate>, k: int) -> i32 decreases a.len() - k
{ if k >= a.len() || k < 0 { 1i32 } else if cmpv(a[k], a[a.len() - 1 - k]) != 0 { cmpv(a[k], a[a.len() - 1 - k]) } else { dirn(a, k + 1) } }
pub open spec fn ringv(s: Seq<Coordinate>) -> bool { s.len() >= 4 && eqv(s[0], s.last()) }
pub open spec fn repv(s: Seq<Coordinate>) -> bool { exists|i: int| 1 <= i < s.len() && eqv(s[i - 1], #[trigger] s[i]) }
pub open spec fn badv(s: Seq<Coordinate>) -> bool { exists|i: int| 0 <= i < s.len() && (!fpt(#[trigger] s[i]) || i > 0 && eqv(s[i - 1], s[i])) }
/// the valid points of the array, in order
pub open spec fn valid(s: Seq<Coordinate>) -> Seq<Coordinate> decreases s.len() { if s.len() == 0 { s } else if fpt(s.last()) { valid(s.drop_last()).push(s.last()) } else { valid(s.drop_last()) } }
pub open spec fn minv(s: Seq<Coordinate>) -> Coordinate decreases s.len() { if s.len() <= 1 { s[0] } else { let m = minv(s.drop_last()); if cmpv(m, s.last()) > 0 { s.last() } else { m } } }
/// the array turned so that place i comes first (a ring keeps its closing point)
pub open spec fn turn(s: Seq<Coordinate>, i: int, ring: bool) -> Seq<Coordinate> {
  if i <= 0 { s } else if !ring { s.subrange(i, s.len() as int) + s.subrange(0, i) }
  else { Seq::new(s.len(), |j: int| s[(i + if j == s.len() - 1 { 0 } else { j }) % (s.len() - 1)]) } }
pub open spec fn inev(e: Envelope, p: Coordinate) -> bool { !(val(e.maxx) < val(e.minx)) && val(e.minx) <= val(p.x) <= val(e.maxx) && val(e.miny) <= val(p.y) <= val(e.maxy) }
pub open spec fn fev(e: Envelope) -> bool { fin(e.minx) && fin(e.maxx) && fin(e.miny) && fin(e.maxy) }
pub open spec fn kept(s: Seq<Coordinate>, e: Envelope) -> Seq<Coordinate> decreases s.len() { if s.len() == 0 { s } else if inev(e, s.last()) { kept(s.drop_last(), e).push(s.last()) } else { kept(s.drop_last(), e) } }
pub open spec fn lo(a: real, b: real) -> real { if a < b { a } else { b } }
pub open spec fn hi(a: real, b: real) -> real { if a > b { a } else { b } }
/// the bounds of the points: each side is reached by a point and passed by none
pub open spec fn bbox(s: Seq<Coordinate>, k: nat) -> (real, real, real, real) decreases s.len() { if s.len() <= 1 { (val(s[0].x), val(s[0].x), val(s[0].y), val(s[0].y)) }
  else { let b = bbox(s.drop_last(), k); let p = s.last(); (lo(val(p.x), b.0), hi(val(p.x), b.1), lo(val(p.y), b.2), hi(val(p.y), b.3)) } }
pub open spec fn isbox(e: Envelope, s: Seq<Coordinate>) -> bool { fev(e) && if s.len() == 0 { val(e.maxx) < val(e.minx) } else { val(e.minx) <= val(e.maxx) && bbox(s, 0) == (val(e.minx), val(e.maxx), val(e.miny), val(e.maxy)) } }
pub proof fn lemma_next(s: Seq<Coordinate>, k: int) requires 0 <= k < s.len()
  ensures s.subrange(0, k + 1).drop_last() == s.subrange(0, k), s.subrange(0, k + 1).last() == s[k], s.subrange(0, k + 1).len() == k + 1
{ assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k)); }
pub proof fn lemma_whole(s: Seq<Coordinate>) ensures s.subrange(0, s.len() as int) == s, s.subrange(0, 0) == Seq::<Coordinate>::empty()
{ assert(s.subrange(0, s.len() as int) =~= s); assert(s.subrange(0, 0) =~= Seq::empty()); }
pub proof fn lemma_norep(s: Seq<Coordinate>, k: int) requires 0 <= k <= s.len(), !repv(s) ensures addn(Seq::empty(), s.subrange(0, k), false) == s.subrange(0, k) decreases k
{ lemma_whole(s); if k > 0 { lemma_norep(s, k - 1); lemma_next(s, k - 1); assert(s.subrange(0, k - 1).push(s[k - 1]) =~= s.subrange(0, k)); if k > 1 { assert(s.subrange(0, k - 1).last() == s[k - 2]); assert(!eqv(s[k - 1 - 1], s[k - 1])); } } }
pub proof fn lemma_valid(s: Seq<Coordinate>, k: int) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> fpt(#[trigger] s[i]) ensures valid(s.subrange(0, k)) == s.subrange(0, k) decreases k
{ lemma_whole(s); if k > 0 { lemma_valid(s, k - 1); lemma_next(s, k - 1); assert(s.subrange(0, k - 1).push(s[k - 1]) =~= s.subrange(0, k)); } }
"""
ST = "broadcast use f64_ax, f64_int, ty_ax;"
def ext(d):
    d = copy.deepcopy(d)
    keep = {"default", "new_with_repeated", "add_coordinate_repeated", "to_coordinate_array"}
    d["fns"] = [f for f in d["fns"] if f.name in keep]
    for f in d["fns"]:
        f.external = True; f.loops = []; f.start = f.end = ""; f.after = []; f.before = []
    return d
PRELUDE_C11 = """
/// the dimension and measure count a point's ordinates show
pub open spec fn xyok(c: Coordinate) -> bool { !fnan(c.x) && !fnan(c.y) }
pub open spec fn dimc(c: Coordinate) -> int { if xyok(c) && fnan(c.z) && fnan(c.m) { 2 } else if xyok(c) && !fnan(c.z) && !fnan(c.m) { 4 } else { 3 } }
pub open spec fn meac(c: Coordinate) -> int { if xyok(c) && !fnan(c.m) { 1 } else { 0 } }
pub open spec fn samexyz(a: Coordinate, b: Coordinate) -> bool { a.x == b.x && a.y == b.y && a.z == b.z }
/// all points of one kind
pub open spec fn uniform(s: Seq<Coordinate>) -> bool { forall|k: int| 0 <= k < s.len() ==> dimc(#[trigger] s[k]) == dimc(s[0]) && meac(s[k]) == meac(s[0]) }
"""
F = "src/core/geom/coordinate_arrays.rs"
G0 = "let ghost S = coordinates@; proof { lemma_whole(S); }"
CO = common.coordinate("default", "equals_2d", "compare_to", "set_coordinate", "new_coordinatexy_default", "new_coordinatexym_default", "new_coordinatexyzm_default")
CO["fns"] += [Fn("is_xy", ensures="r == (!fnan(self.x) && !fnan(self.y) && fnan(self.z) && fnan(self.m))", start="broadcast use f64_ax, nan_ax, ty_ax;"),
  Fn("is_xym", ensures="r == (!fnan(self.x) && !fnan(self.y) && fnan(self.z) && !fnan(self.m))", start="broadcast use f64_ax, nan_ax, ty_ax;"),
  Fn("is_xyzm", ensures="r == (!fnan(self.x) && !fnan(self.y) && !fnan(self.z) && !fnan(self.m))", start="broadcast use f64_ax, nan_ax, ty_ax;")]
CO["fns"].append(Fn("is_valid", ensures="r == fpt(*self)"))
IMPLS = [CO, ext(c12.IMPLS[1]),
 dict(file="src/core/geom/envelope.rs", ty="Envelope", fns=[
   Fn("default", ensures="isbox(r, Seq::empty())", start=ST + ""),
   Fn("is_null", requires="fev(*self)", ensures="r == (val(self.maxx) < val(self.minx))", start=ST),
   Fn("expand_to_include_coordinate", requires="fev(*old(self)), fpt(*p)", ensures="""fev(*final(self)), val(final(self).minx) <= val(final(self).maxx),
        val(old(self).maxx) < val(old(self).minx) ==> val(final(self).minx) == val(p.x) && val(final(self).maxx) == val(p.x) && val(final(self).miny) == val(p.y) && val(final(self).maxy) == val(p.y),
        !(val(old(self).maxx) < val(old(self).minx)) ==> val(final(self).minx) == lo(val(p.x), val(old(self).minx)) && val(final(self).maxx) == hi(val(p.x), val(old(self).maxx))
           && val(final(self).miny) == lo(val(p.y), val(old(self).miny)) && val(final(self).maxy) == hi(val(p.y), val(old(self).maxy))""", start=ST),
   Fn("intersects_coordinate", requires="fev(*self), fpt(*p)", ensures="r == inev(*self, *p)", start=ST),
   Fn("intersects_xy", requires="fev(*self), fin(x), fin(y)", ensures="r == (!(val(self.maxx) < val(self.minx)) && val(self.minx) <= val(x) <= val(self.maxx) && val(self.miny) <= val(y) <= val(self.maxy))", start=ST),
 ]),
 dict(file="src/core/geom/coordinates.rs", ty="Coordinates", header="pub struct Coordinates {}\nimpl Coordinates {", fns=[
   Fn("create_dim_measures", ensures="fnan(r.m) == !(measures == 1 && (dimension == 3 || dimension == 4))", start="broadcast use f64_ax, f64_int, nan_ax, ax_lits, ty_ax;"),
   Fn("dimension", ensures="r == dimc(*coordinate)"), Fn("measures", ensures="r == meac(*coordinate)")]),
 dict(file=F, ty="CoordinateArrays", fns=[
   Fn("enforce_consistency_dim_measures", ensures="r@.len() == array@.len(), forall|k: int| 0 <= k < r@.len() ==> samexyz(#[trigger] r@[k], array@[k])",
      loops=[dict(kind="for", inv="invariant copy@.len() == array@.len(), forall|k: int| 0 <= k < $v ==> samexyz(#[trigger] copy@[k], array@[k]),")]),
   Fn("enforce_consistency", ensures="final(array)@.len() == old(array)@.len(), forall|k: int| 0 <= k < final(array)@.len() ==> samexyz(#[trigger] final(array)@[k], old(array)@[k]), uniform(old(array)@) ==> final(array)@ == old(array)@",
      start="let ghost A = array@;",
      loops=[dict(kind="for", inv="""invariant array@ == A, max_dimension == -1 || 2 <= max_dimension <= 4, $v == 0 ==> max_dimension == -1, $v > 0 ==> max_dimension != -1,
        uniform(A) ==> is_consistent && ($v > 0 ==> max_dimension == dimc(A[0]) && max_measures == meac(A[0])),"""),
             dict(kind="for", inv="invariant array@.len() == A.len(), forall|k: int| 0 <= k < $v ==> samexyz(#[trigger] array@[k], A[k]), forall|k: int| $v <= k < A.len() ==> array@[k] == #[trigger] A[k],")]),
   Fn("is_ring", requires="fok(pts@)", ensures="r == ringv(pts@)"),
   Fn("index_of", requires="fok(coordinates@), fpt(*coordinate), coordinates@.len() < 0x8000_0000", ensures="""r < 0 ==> r == -1 && !inlist(coordinates@, *coordinate),
        r >= 0 ==> r < coordinates@.len() && eqv(coordinates@[r as int], *coordinate) && forall|k: int| 0 <= k < r ==> !eqv(coordinates@[k], *coordinate)""",
      loops=[dict(kind="for", inv="invariant coordinates@.len() < 0x8000_0000, fok(coordinates@), fpt(*coordinate), forall|k: int| 0 <= k < $v ==> !eqv(coordinates@[k], *coordinate),")]),
   Fn("pt_not_in_list", requires="fok(pts@), fok(test_pts@), pts@.len() < 0x8000_0000", ensures="""r.is_none() ==> forall|k: int| 0 <= k < test_pts@.len() ==> inlist(pts@, test_pts@[k]),
        r.is_some() ==> exists|k: int| 0 <= k < test_pts@.len() && test_pts@[k] == r.unwrap() && !inlist(pts@, r.unwrap()) && forall|q: int| 0 <= q < k ==> inlist(pts@, #[trigger] test_pts@[q])""",
      loops=[dict(kind="for", inv="invariant fok(pts@), fok(test_pts@), pts@.len() < 0x8000_0000, forall|q: int| 0 <= q < $v ==> inlist(pts@, #[trigger] test_pts@[q]),")]),
   Fn("compare", requires="fok(pts1@), fok(pts2@)", ensures="r == lex(pts1@, pts2@, 0)",
      loops=[dict(kind="while", inv="invariant fok(pts1@), fok(pts2@), 0 <= i <= pts1@.len(), 0 <= i <= pts2@.len(), lex(pts1@, pts2@, i as int) == lex(pts1@, pts2@, 0), decreases pts1@.len() - i")]),
   Fn("increasing_direction", requires="fok(pts@)", ensures="r == dirn(pts@, 0)",
      loops=[dict(kind="for", inv="invariant fok(pts@), dirn(pts@, $v as int) == dirn(pts@, 0),")]),
   Fn("is_equal_reversed", requires="fok(pts1@), fok(pts2@), pts1@.len() == pts2@.len()", ensures="r == (forall|k: int| 0 <= k < pts1@.len() ==> eqv(#[trigger] pts1@[k], pts2@[pts1@.len() - 1 - k]))",
      loops=[dict(kind="for", inv="invariant fok(pts1@), fok(pts2@), pts1@.len() == pts2@.len(), forall|k: int| 0 <= k < $v ==> eqv(#[trigger] pts1@[k], pts2@[pts1@.len() - 1 - k]),")]),
   Fn("copy_deep", ensures="r@ =~= coordinates@",
      loops=[dict(kind="for", inv="invariant copy@.len() == coordinates@.len(), forall|k: int| 0 <= k < $v ==> copy@[k] == coordinates@[k],")]),
   Fn("copy_deep_to", requires="src_start + length <= src@.len(), dest_start + length <= old(dest)@.len()",
      ensures="final(dest)@ =~= old(dest)@.subrange(0, dest_start as int) + src@.subrange(src_start as int, src_start + length) + old(dest)@.subrange(dest_start + length, old(dest)@.len() as int)",
      start="let ghost D = dest@; let l1 = src.len(); let l2 = dest.len(); assert(l1 == src@.len() && l2 == dest@.len());",
      loops=[dict(kind="for", inv="invariant l1 == src@.len(), l2 == dest@.len(), D.len() == l2, src_start + length <= l1, dest_start + length <= l2, forall|k: int| 0 <= k < l2 ==> dest@[k] == if dest_start <= k < dest_start + $v { src@[src_start + k - dest_start] } else { D[k] },")]),
   Fn("has_repeated_points", requires="fok(coord@)", ensures="r == repv(coord@)",
      loops=[dict(kind="for", inv="invariant fok(coord@), forall|k: int| 1 <= k < $v ==> k < coord@.len() ==> !eqv(coord@[k - 1], #[trigger] coord@[k]),")]),
   Fn("at_least_n_coordinates_or_nothing", ensures="r@ == if c@.len() >= n { c@ } else { Seq::<Coordinate>::empty() }", start="assert(vec_empty::<Coordinate>());"),
   Fn("remove_repeated_points", requires="fok(coord@)", ensures="r@ == addn(Seq::empty(), coord@, false)", start="proof { if !repv(coord@) { lemma_norep(coord@, coord@.len() as int); lemma_whole(coord@); } }"),
   Fn("has_repeated_or_invalid_points", ensures="r == badv(coord@)", start="broadcast use f64_ax, nan_ax, ty_ax;",
      loops=[dict(kind="for", inv="invariant forall|k: int| 0 <= k < $v ==> k < coord@.len() ==> fpt(#[trigger] coord@[k]) && (k > 0 ==> !eqv(coord@[k - 1], coord@[k])),")]),
   Fn("remove_repeated_or_invalid_points", ensures="r@ == addn(Seq::empty(), valid(coord@), false)",
      start="let ghost S = coord@; proof { lemma_whole(S); if !badv(S) { assert(forall|i: int| 0 <= i < S.len() ==> fpt(#[trigger] S[i])); lemma_valid(S, S.len() as int); assert(!repv(S)); lemma_norep(S, S.len() as int); } }",
      loops=[dict(kind="for", inv="invariant copy@ == S, fok(coord_list.vec@), coord_list.vec@ == addn(Seq::empty(), valid(S.subrange(0, $v as int)), false),",
         start="proof { lemma_next(S, $v as int); let t = valid(S.subrange(0, $v as int)); assert(t.push(S[$v as int]).drop_last() =~= t); }")]),
   Fn("equals", requires="fok(coord1@), fok(coord2@)", ensures="r == (coord1@.len() == coord2@.len() && forall|k: int| 0 <= k < coord1@.len() ==> eqv(#[trigger] coord1@[k], coord2@[k]))",
      loops=[dict(kind="for", inv="invariant coord1@.len() == coord2@.len(), fok(coord1@), fok(coord2@), forall|k: int| 0 <= k < $v ==> eqv(#[trigger] coord1@[k], coord2@[k]),")]),
   Fn("min_coordinate", requires="fok(coordinates@)", ensures="r == if coordinates@.len() == 0 { None } else { Some(minv(coordinates@)) }", start=G0,
      loops=[dict(kind="for", inv="invariant S == coordinates@, fok(coordinates@), $v <= coordinates@.len(), min_coord == if $v == 0 { None } else { Some(minv(S.subrange(0, $v as int))) }, min_coord.is_some() ==> fpt(min_coord.unwrap()),", start="proof { lemma_next(S, $v as int); }")]),
   Fn("scroll_index", requires="fok(old(coordinates)@), index_of_first_coordinate <= old(coordinates)@.len(), old(coordinates)@.len() < 0x2000_0000_0000_0000", ensures="final(coordinates)@ =~= turn(old(coordinates)@, index_of_first_coordinate as int, ringv(old(coordinates)@))"),
   Fn("scroll_index_ensure_ring", requires="index_of_first_coordinate <= old(coordinates)@.len(), old(coordinates)@.len() < 0x2000_0000_0000_0000, ensure_ring ==> old(coordinates)@.len() >= 2", ensures="final(coordinates)@ =~= turn(old(coordinates)@, index_of_first_coordinate as int, ensure_ring)",
      start="let ghost C = coordinates@; let ll = coordinates.len(); assert(ll == C.len());",
      loops=[dict(kind="for", inv="invariant C == coordinates@, ll == C.len(), new_coordinates@.len() == ll, 0 < i <= ll, len == ll - i, des_pos == $v, source_pos == i + $v, forall|k: int| 0 <= k < $v ==> new_coordinates@[k] == C[i + k],"),
             dict(kind="for", inv="invariant C == coordinates@, ll == C.len(), new_coordinates@.len() == ll, 0 < i <= ll, len == i, des_pos == ll - i + $v, source_pos == $v, forall|k: int| 0 <= k < ll - i + $v ==> new_coordinates@[k] == if k < ll - i { C[i + k] } else { C[k - (ll - i)] },"),
             dict(kind="while", inv="invariant C == coordinates@, ll == C.len(), new_coordinates@.len() == ll, 0 < i <= ll, last == ll - 1, last > 0, ll < 0x2000_0000_0000_0000, 0 <= j <= last, forall|k: int| 0 <= k < j ==> new_coordinates@[k] == C[(i + k) % (last as int)], decreases last - j")]),
   Fn("extract", ensures="r@ =~= if start >= pts@.len() || end < start { Seq::empty() } else { pts@.subrange(start as int, if end + 1 < pts@.len() { end + 1 } else { pts@.len() as int }) }",
      start="let ll = pts.len(); assert(ll == pts@.len());",
      loops=[dict(kind="for", inv="invariant last + 1 <= pts@.len(), start <= last, extract_pts@ =~= pts@.subrange(start as int, $v as int),")]),
   Fn("envelope", requires="fok(coordinates@)", ensures="isbox(r, coordinates@)", start=G0,
      loops=[dict(kind="for", inv="invariant S == coordinates@, $v <= S.len(), fok(coordinates@), isbox(env, S.subrange(0, $v as int)),", start="proof { lemma_next(S, $v as int); }")]),
   Fn("intersection", requires="fok(coordinates@), fev(*env)", ensures="r@ == kept(coordinates@, *env)", start=G0,
      loops=[dict(kind="for", inv="invariant S == coordinates@, $v <= S.len(), fok(coordinates@), fev(*env), fok(coord_list.vec@), coord_list.vec@ == kept(S.subrange(0, $v as int), *env),", start="proof { lemma_next(S, $v as int); }")]),
 ])]
LEMMAS = PRELUDE_C11 + """
pub open spec fn vec_empty<T>() -> bool { true }
/// comparing is antisymmetric, and zero exactly for pointwise equal arrays of equal length
pub proof fn theorem_lex(a: Seq<Coordinate>, b: Seq<Coordinate>, k: int) requires 0 <= k
  ensures lex(a, b, k) == -lex(b, a, k), k <= a.len() && k <= b.len() ==> ((lex(a, b, k) == 0) == (a.len() == b.len() && forall|i: int| k <= i < a.len() ==> eqv(#[trigger] a[i], b[i])))
  decreases a.len() - k
{ if k < a.len() && k < b.len() { theorem_lex(a, b, k + 1); if lex(a, b, k) == 0 { assert(forall|i: int| k <= i < a.len() ==> eqv(#[trigger] a[i], b[i])); } } }
/// no repeats remain
pub open spec fn norep(s: Seq<Coordinate>) -> bool { forall|i: int| 0 < i < s.len() ==> !eqv(s[i - 1], #[trigger] s[i]) }
pub proof fn theorem_norep(s: Seq<Coordinate>, cs: Seq<Coordinate>) requires norep(s) ensures norep(addn(s, cs, false)) decreases cs.len()
{ if cs.len() > 0 { theorem_norep(s, cs.drop_last()); } }
/// every point lies inside its array's box
pub proof fn theorem_box(s: Seq<Coordinate>, i: int) requires 0 <= i < s.len()
  ensures bbox(s, 0).0 <= val(s[i].x) <= bbox(s, 0).1, bbox(s, 0).2 <= val(s[i].y) <= bbox(s, 0).3 decreases s.len()
{ if s.len() > 1 && i < s.len() - 1 { theorem_box(s.drop_last(), i); } else if s.len() > 1 { } }
/// a minimum is among the points and below all of them
pub proof fn theorem_min(s: Seq<Coordinate>, i: int) requires 0 <= i < s.len() ensures cmpv(minv(s), s[i]) <= 0, s.contains(minv(s)) decreases s.len()
{ if s.len() > 1 { let t = s.drop_last(); if i < t.len() { theorem_min(t, i); } else { theorem_min(t, 0); } assert forall|q: Coordinate| t.contains(q) implies s.contains(q) by { let j = choose|j: int| 0 <= j < t.len() && t[j] == q; assert(s[j] == q); }
   theorem_min(t, 0); assert(s[s.len() - 1] == s.last()); assert(s[0] == s[0]); } else { assert(s[0] == minv(s)); } }
"""
ASSUMPTIONS = ["finite ordinates where points are compared", "std: Vec::push, to_vec, clone_from_slice, vec! and f64::is_finite by their usual contracts", "CoordinateList's contracts (discharged by C12)", "a 64-bit target", "arrays shorter than 2^31 for index_of, than 2^61 for scrolling (a Vec of 32-byte points cannot be longer)"]
