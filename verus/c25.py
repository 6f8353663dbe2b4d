from rsx import Fn
import common, c11
USES = ["f64"]
I = "src/core/geom/implementation/"
PD = I + "packed_coordinate_sequence_double.rs"
PB = I + "packed_coordinate_sequence.rs"
PF = I + "packed_coordinate_sequence_factory.rs"
F = "src/core/geom/packed_coordinate_sequences.rs"
STRUCTS = [common.COORD, (PD, "PackedCoordinateSequenceDouble", ""), (PB, "PackedCoordinateSequence", ""), (PF, "PackedCoordinateSequenceFactory", ""),
  (F, "PackedCoordinateSequences", ""), ("src/core/geom/coordinates.rs", "Coordinates", ""), ("src/core/geom/envelope.rs", "Envelope", "#[derive(Copy, Clone)]")]
PRELUDE = c11.PRELUDE + """
pub type Pq = PackedCoordinateSequenceDouble;
pub open spec fn mn(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn plen(s: Pq) -> int { if s.dimension > 0 { s.coords@.len() as int / s.dimension as int } else { 0 } }
/// ordinate k of place i
#[verifier::opaque]
pub open spec fn at(s: Pq, i: int, k: int) -> f64 { s.coords@[i * s.dimension + k] }
pub open spec fn inn(s: Pq, i: int, k: int) -> bool { 0 <= i < plen(s) && 0 <= k < s.dimension }
/// dimensions 2 (XY), 3 (XYZ or XYM), 4 (XYZM)
pub open spec fn pok(s: Pq) -> bool { 2 <= s.dimension <= 4 && s.measures == (if s.dimension == 4 { 1int } else if s.dimension == 2 { 0 } else { s.measures as int }) && 0 <= s.measures <= 1 }
pub open spec fn same_kind(a: Pq, b: Pq) -> bool { a.dimension == b.dimension && a.measures == b.measures && a.coords@.len() == b.coords@.len() }
/// c is the point of place i
pub open spec fn isp(s: Pq, i: int, c: Coordinate) -> bool {
  c.x == at(s, i, 0) && c.y == at(s, i, 1) && (if s.dimension - s.measures > 2 { c.z == at(s, i, 2) } else { fnan(c.z) }) && (if s.measures > 0 { c.m == at(s, i, s.dimension - 1) } else { fnan(c.m) }) }
/// the place of each point
#[verifier::opaque]
pub open spec fn pl(s: Pq) -> Seq<Coordinate> { Seq::new(plen(s) as nat, |i: int| Coordinate { x: at(s, i, 0), y: at(s, i, 1), z: 0.0f64, m: 0.0f64 }) }
pub proof fn lemma_pl(s: Pq, i: int) ensures pl(s).len() == plen(s) as nat, 0 <= i < plen(s) ==> pl(s)[i].x == at(s, i, 0) && pl(s)[i].y == at(s, i, 1) { reveal(pl); }
pub proof fn lemma_in(s: Pq, i: int, k: int)
  requires inn(s, i, k)
  ensures 0 <= i * s.dimension, 0 <= i * s.dimension + k < s.coords@.len(), i * s.dimension <= s.coords@.len() <= usize::MAX
{ let l = s.coords.len(); let (n, d) = (s.coords@.len() as int, s.dimension as int); assert(l == s.coords@.len());
  assert(0 <= i * d && i * d + d <= n) by (nonlinear_arith) requires 0 <= i < n / d, d > 0; }
pub proof fn lemma_idx(d: int, i: int, k: int, j: int, l: int)
  ensures 0 <= k < d && 0 <= l < d ==> ((i * d + k == j * d + l) == (i == j && k == l))
{ if 0 <= k < d && 0 <= l < d { 
    if i < j { assert(j * d >= i * d + d) by (nonlinear_arith) requires i < j, d > 0; }
    if j < i { assert(i * d >= j * d + d) by (nonlinear_arith) requires j < i, d > 0; } } }
pub proof fn lemma_div(n: int, d: int) requires n >= 0, d > 0 ensures (n * d) / d == n, 0 <= n * d { assert((n * d) / d == n && n * d >= 0) by (nonlinear_arith) requires n >= 0, d > 0; }
/// what ordinate k of a point is, in a sequence of dimension d with m measures
pub open spec fn ordm(c: Coordinate, d: int, m: int, k: int) -> f64 { if k == 0 { c.x } else if k == 1 { c.y } else if k == 2 { if d - m > 2 { c.z } else { c.m } } else { c.m } }
pub open spec fn packs(r: Pq, s: Seq<Coordinate>, d: int, m: int) -> bool { r.dimension == d && r.measures == m && plen(r) == s.len() && forall|i: int, k: int| inn(r, i, k) ==> #[trigger] at(r, i, k) == ordm(s[i], d, m, k) }
/// the sequence made keeps the ordinates; places from the size of the source on repeat place q
pub open spec fn stretched(r: Pq, s: Pq, size: int, q: int) -> bool { r.dimension == s.dimension && r.measures == (if s.dimension > 3 { s.dimension - 3 } else { 0 }) && plen(r) == size
  && forall|i: int, k: int| inn(r, i, k) ==> #[trigger] at(r, i, k) == at(s, if i < plen(s) { i } else { q }, k) }
pub open spec fn rot(s: Pq, p: int, ring: bool, i: int) -> int { let n = if ring { plen(s) - 1 } else { plen(s) }; if p == 0 { i } else if i == n { p % n } else { (p + i) % n } }
/// place p turned to the front
pub open spec fn turned(r: Pq, s: Pq, p: int, ring: bool) -> bool { forall|i: int, k: int| inn(s, i, k) ==> #[trigger] at(r, i, k) == at(s, rot(s, p, ring, i), k) }
pub open spec fn fz(x: f64) -> bool { fin(x) || fnan(x) }
pub open spec fn fo(s: Pq) -> bool { forall|i: int, k: int| inn(s, i, k) ==> fz(#[trigger] at(s, i, k)) }
pub open spec fn eqo(a: f64, b: f64) -> bool { fin(a) && fin(b) && val(a) == val(b) || fnan(a) && fnan(b) }
pub proof fn lemma_mod(i: int, j: int, n: int) requires 0 <= i, 0 <= j, 0 < n ensures 0 <= (i + j) % n < n { }
/// finite planar ordinates
pub open spec fn fp(s: Pq) -> bool { forall|i: int| 0 <= i < plen(s) ==> fin(#[trigger] at(s, i, 0)) && fin(at(s, i, 1)) }
pub open spec fn eqat(s: Pq, i: int, c: Coordinate) -> bool { val(at(s, i, 0)) == val(c.x) && val(at(s, i, 1)) == val(c.y) }
pub open spec fn cmpat(c: Coordinate, s: Pq, i: int) -> int { if val(c.x) < val(at(s, i, 0)) { -1 } else if val(c.x) > val(at(s, i, 0)) { 1 } else if val(c.y) < val(at(s, i, 1)) { -1 } else if val(c.y) > val(at(s, i, 1)) { 1 } else { 0 } }
pub open spec fn hasat(s: Pq, c: Coordinate) -> bool { exists|i: int| 0 <= i < plen(s) && #[trigger] eqat(s, i, c) }
pub open spec fn ringp(s: Pq) -> bool { plen(s) >= 4 && val(at(s, 0, 0)) == val(at(s, plen(s) - 1, 0)) && val(at(s, 0, 1)) == val(at(s, plen(s) - 1, 1)) }
/// place k holds the smallest of the points from place f to n, and no earlier one is as small
pub open spec fn firstmin(s: Pq, c: Coordinate, k: int, f: int, n: int) -> bool { f <= k < n && isp(s, k, c) && forall|j: int| #![trigger at(s, j, 0)] f <= j < n ==> cmpat(c, s, j) <= 0 && (j < k ==> cmpat(c, s, j) < 0) }
pub open spec fn minplace(s: Pq, k: int, f: int, n: int) -> bool { exists|c: Coordinate| firstmin(s, c, k, f, n) }
pub open spec fn smallest(s: Pq, c: Coordinate, f: int, n: int) -> bool { exists|k: int| firstmin(s, c, k, f, n) }
"""
ST = "broadcast use f64_ax, f64_int, ty_ax;"
CO = common.coordinate("default", "new_xy", "new_xyz", "new_xym", "new_xyzm", "get_z", "get_m", "get_ordinate", "set_ordinate", "compare_to")
CO["fns"] += [Fn("is_xy", ensures="r == (!fnan(self.x) && !fnan(self.y) && fnan(self.z) && fnan(self.m))", start="broadcast use f64_ax, nan_ax, ty_ax;"),
  Fn("is_xym", ensures="r == (!fnan(self.x) && !fnan(self.y) && fnan(self.z) && !fnan(self.m))", start="broadcast use f64_ax, nan_ax, ty_ax;"),
  Fn("is_xyzm", ensures="r == (!fnan(self.x) && !fnan(self.y) && !fnan(self.z) && !fnan(self.m))", start="broadcast use f64_ax, nan_ax, ty_ax;")]
KIND = "2 <= dimension <= 4, 0 <= measures <= 1, dimension - measures >= 2, dimension == 4 ==> measures == 1, coordinates@.len() < 0x1000_0000_0000_0000"
def pack(d, m):
    return dict(loops=[dict(kind="for", inv="""invariant new.dimension == %s, new.measures == %s, 2 <= D <= 4, D == %s, M == %s, 0 <= M <= 1, coordinates@.len() < 0x1000_0000_0000_0000, plen(new) == coordinates@.len(), new.coords@.len() == coordinates@.len() * D,
        forall|i: int, k: int| 0 <= i < $v && 0 <= k < D ==> #[trigger] at(new, i, k) == ordm(coordinates@[i], D, M, k),""" % (d, m, d, m), start="let ghost T = new; proof { lemma_in(new, $v as int, D - 1); lemma_in(new, $v as int, 0); }",
        end="""proof { reveal(at); assert forall|i: int, k: int| 0 <= i < $v + 1 && 0 <= k < D implies #[trigger] at(new, i, k) == ordm(coordinates@[i], D, M, k) by {
          lemma_idx(D, i, k, $v as int, 0); lemma_idx(D, i, k, $v as int, 1); lemma_idx(D, i, k, $v as int, 2); lemma_idx(D, i, k, $v as int, 3); if i < $v { lemma_in(T, i, k); assert(at(T, i, k) == ordm(coordinates@[i], D, M, k)); } } }""",
        before="proof { lemma_div(coordinates@.len() as int, D); }", after="assert(forall|i: int, k: int| 0 <= i < coordinates@.len() && 0 <= k < D ==> #[trigger] at(new, i, k) == ordm(coordinates@[i], D, M, k)); assert(plen(new) == coordinates@.len()); assert(new.dimension == D); assert(new.measures == M);")])
def mk(name, req, d, m):
    o = pack(d, m)
    return Fn(name, requires=req, ensures="packs(r, coordinates@, %s as int, %s as int)" % (d, m), start="let ghost D = %s as int; let ghost M = %s as int; proof { lemma_div(coordinates@.len() as int, D); assert(coordinates@.len() * D <= 0x4000_0000_0000_0000) by (nonlinear_arith) requires coordinates@.len() < 0x1000_0000_0000_0000, 2 <= D <= 4; }" % (d, m), **o)
MX = "(if dimension > 3 { dimension - 3 } else { 0 })"
SZ = dict(requires="2 <= dimension <= 4, size < 0x1000_0000_0000_0000", start="proof { lemma_div(size as int, dimension as int); assert(size * dimension <= 0x4000_0000_0000_0000) by (nonlinear_arith) requires size < 0x1000_0000_0000_0000, 2 <= dimension <= 4; }")
def only(*a): return ", ".join(a)
K = "same_kind(*old(seq), *final(seq))"
IMPLS = [CO,
 dict(file="src/core/geom/envelope.rs", ty="Envelope", fns=[
   Fn("is_null", requires="fev(*self)", ensures="r == (val(self.maxx) < val(self.minx))", start=ST),
   Fn("expand_to_include_xy", requires="fev(*old(self)), fin(x), fin(y)", ensures="""fev(*final(self)), val(final(self).minx) <= val(final(self).maxx),
        val(old(self).maxx) < val(old(self).minx) ==> val(final(self).minx) == val(x) && val(final(self).maxx) == val(x) && val(final(self).miny) == val(y) && val(final(self).maxy) == val(y),
        !(val(old(self).maxx) < val(old(self).minx)) ==> val(final(self).minx) == lo(val(x), val(old(self).minx)) && val(final(self).maxx) == hi(val(x), val(old(self).maxx))
           && val(final(self).miny) == lo(val(y), val(old(self).miny)) && val(final(self).maxy) == hi(val(y), val(old(self).maxy))""", start=ST)]),
 dict(file="src/core/geom/coordinates.rs", ty="Coordinates", fns=[
   Fn("dimension", ensures="r == (if fnan(coordinate.x) || fnan(coordinate.y) { 3int } else if fnan(coordinate.z) && fnan(coordinate.m) { 2 } else if fnan(coordinate.z) { 3 } else if fnan(coordinate.m) { 3 } else { 4 })"),
   Fn("measures", ensures="r == (if fnan(coordinate.x) || fnan(coordinate.y) { 0int } else if fnan(coordinate.m) { 0 } else { 1 })")]),
 dict(file=PD, ty="PackedCoordinateSequenceDouble", consts=["X", "Y"], fns=[
   Fn("new_f64_with_coordinates_dimension_measures", ensures="r.dimension == dimension, r.measures == measures, r.coords@ =~= coords@",
      loops=[dict(kind="for", inv="invariant new.dimension == dimension, new.measures == measures, new.coords@.len() == coords@.len(), forall|k: int| 0 <= k < $v ==> new.coords@[k] == coords@[k],")]),
   mk("new_coordinates_with_dimension", "2 <= dimension <= 4, coordinates@.len() < 0x1000_0000_0000_0000", "dimension", MX),
   mk("new_coordinates_with_dimension_measures", KIND, "dimension", "measures"),
   mk("new_with_coordinates", "coordinates@.len() < 0x1000_0000_0000_0000", "3", "0"),
   Fn("new_with_size_dimension_measures", ensures="r.dimension == dimension, r.measures == measures, plen(r) == size", **SZ),
   Fn("get_coordinate_internal", requires="pok(*self), i < plen(*self)", ensures="isp(*self, i as int, r)", start="reveal(at); proof { lemma_in(*self, i as int, self.dimension - 1); lemma_in(*self, i as int, 0); }"),
   Fn("get_raw_coordinates", ensures="r@ == self.coords@"),
   Fn("get_coordinate_by_index", requires="pok(*self), i < plen(*self)", ensures="isp(*self, i as int, r)"),
   Fn("size", requires="self.dimension > 0", ensures="r == plen(*self)"),
   Fn("copy", ensures="r.dimension == self.dimension, r.measures == self.measures, r.coords@ == self.coords@, forall|i: int, k: int| #[trigger] at(r, i, k) == at(*self, i, k)", start="reveal(at);"),
   Fn("get_dimension", ensures="r == self.dimension"), Fn("get_measures", ensures="r == self.measures"),
   Fn("get_ordinate", requires="0 <= ordinate < self.dimension, index < plen(*self)", ensures="r == at(*self, index as int, ordinate as int)", start="reveal(at); proof { lemma_in(*self, index as int, ordinate as int); }"),
   Fn("set_ordinate", requires="0 <= ordinate < old(self).dimension, index < plen(*old(self))", ensures="""same_kind(*old(self), *final(self)), forall|i: int, k: int| inn(*old(self), i, k) ==> #[trigger] at(*final(self), i, k) == if i == index && k == ordinate { value } else { at(*old(self), i, k) }""",
      start="reveal(at); proof { lemma_in(*self, index as int, ordinate as int); }",
      end="proof { assert forall|i: int, k: int| inn(*old(self), i, k) implies #[trigger] at(*self, i, k) == if i == index && k == ordinate { value } else { at(*old(self), i, k) } by { lemma_idx(self.dimension as int, i, k, index as int, ordinate as int); lemma_in(*old(self), i, k); } }"),
   Fn("to_coordinate_array", requires="pok(*self)", ensures="r@.len() == plen(*self), forall|i: int| 0 <= i < plen(*self) ==> isp(*self, i, #[trigger] r@[i])",
      loops=[dict(kind="for", iter="it0", inv="invariant it0.seq().len() == plen(*self), pok(*self), coords@.len() == plen(*self), forall|i: int| 0 <= i < $v ==> isp(*self, i, #[trigger] coords@[i]),")]),
   Fn("expand_envelope", requires="pok(*self), fp(*self), self.coords@.len() == plen(*self) * self.dimension, self.coords@.len() < 0x4000_0000_0000_0000, isbox(*env, Seq::empty())", ensures="isbox(r, pl(*self))",
      start="reveal(at); let ghost mut J = 0int; let ghost D = self.dimension as int; let ghost P = pl(*self); proof { lemma_whole(P); lemma_pl(*self, 0); assert(0 * D == 0); }",
      loops=[dict(kind="while", inv="invariant pok(*self), fp(*self), D == self.dimension, P == pl(*self), P.len() == plen(*self), self.coords@.len() == plen(*self) * D, self.coords@.len() < 0x4000_0000_0000_0000, 0 <= J <= P.len(), i == J * D, isbox(copy, P.subrange(0, J)), P.subrange(0, P.len() as int) == P, decreases self.coords@.len() - i",
        start="let ghost J0 = J; proof { assert(J < P.len()) by (nonlinear_arith) requires i == J * D, i < P.len() * D, D > 0; lemma_next(P, J); lemma_pl(*self, J); lemma_in(*self, J, 1); assert(fin(at(*self, J, 0))); }",
        end="proof { assert((J + 1) * D == J * D + D) by (nonlinear_arith); assert((J + 1) * D <= P.len() * D) by (nonlinear_arith) requires J + 1 <= P.len(), D > 0; J = J + 1; }", after="proof { assert(J == P.len()) by (nonlinear_arith) requires i == J * D, i >= P.len() * D, J <= P.len(), D > 0; }")]),
 ]),
 dict(file=PB, ty="PackedCoordinateSequence", fns=[
   Fn("new_with_dimension_measures", requires="-1000 < dimension < 1000, -1000 < measures < 1000", ensures="r.is_some() == (dimension - measures >= 2), r.is_some() ==> r.unwrap().dimension == dimension && r.unwrap().measures == measures && r.unwrap().coords@.len() == 0"),
   Fn("get_dimension", ensures="r == self.dimension"), Fn("get_measures", ensures="r == self.measures"),
   Fn("copy", requires="2 <= self.dimension <= 4, self.coords@.len() < 0x1000_0000_0000_0000", ensures="packs(r, self.coords@, self.dimension as int, if self.dimension > 3 { 1 } else { 0 })"),
   Fn("size", ensures="r == self.coords@.len()"),
   Fn("has_z", requires="-100 < self.dimension < 100, -100 < self.measures < 100", ensures="r == (self.dimension - self.measures > 2)"),
   Fn("has_m", ensures="r == (self.measures > 0)"),
   Fn("get_coordinate_internal", requires="index < self.coords@.len()", ensures="r == Some(self.coords@[index as int])"),
   Fn("get_coordinate_by_index", requires="i < self.coords@.len()", ensures="r == self.coords@[i as int]"),
   Fn("get_coordinate_copy_by_index", requires="i < self.coords@.len()", ensures="r == Some(self.coords@[i as int])"),
   Fn("to_coordinate_array", ensures="r@ =~= self.coords@", loops=[dict(kind="for", iter="it0", inv="invariant it0.seq().len() == self.coords@.len(), coords@.len() == self.coords@.len(), forall|i: int| 0 <= i < $v ==> coords@[i] == self.coords@[i],")]),
 ]),
 dict(file=PF, ty="PackedCoordinateSequenceFactory", consts=["DEFAULT_MEASURES", "DEFAULT_DIMENSION"], fns=[
   Fn("create_double_from_coordinates", requires="coordinates@.len() < 0x1000_0000_0000_0000", ensures="""({ let c = coordinates@[0]; let k = coordinates@.len() > 0 && !fnan(c.x) && !fnan(c.y); packs(r, coordinates@, if !k { 3int } else if fnan(c.z) && fnan(c.m) { 2 } else if fnan(c.z) || fnan(c.m) { 3 } else { 4 }, if !k || fnan(c.m) { 0int } else { 1 }) })"""),
   Fn("create_double_from_coordinate_sequence", requires="2 <= coord_seq.dimension <= 4, 0 <= coord_seq.measures <= 1, coord_seq.dimension - coord_seq.measures >= 2, coord_seq.dimension == 4 ==> coord_seq.measures == 1, coord_seq.coords@.len() < 0x1000_0000_0000_0000", ensures="packs(r, coord_seq.coords@, coord_seq.dimension as int, coord_seq.measures as int)"),
   Fn("create_double_coordinates_dimension", ensures="r.dimension == dimension, r.measures == 0, r.coords@ == packed_coordinates@"),
   Fn("create_double_coordinate_dimension_measures", ensures="r.dimension == dimension, r.measures == measures, r.coords@ == packed_coordinates@"),
   Fn("create_with_size_dimension", requires=SZ["requires"], ensures="r.dimension == dimension, r.measures == (if dimension > 3 { dimension - 3 } else { 0 }), plen(r) == size"),
   Fn("create_with_size_dimension_measures", requires=SZ["requires"], ensures="r.dimension == dimension, r.measures == measures, plen(r) == size"),
 ]),
 dict(file=F, ty="PackedCoordinateSequences", fns=[
   Fn("swap", requires="old(seq).dimension > 0, i < plen(*old(seq)), j < plen(*old(seq))", ensures=K + ", forall|p: int, k: int| inn(*old(seq), p, k) ==> #[trigger] at(*final(seq), p, k) == at(*old(seq), if p == i { j as int } else if p == j { i as int } else { p }, k)",
      start="let ghost S = *seq;",
      loops=[dict(kind="for", inv="invariant same_kind(S, *seq), i != j, i < plen(S), j < plen(S), S.dimension > 0, 0 <= $v <= S.dimension, forall|p: int, k: int| inn(S, p, k) ==> #[trigger] at(*seq, p, k) == at(S, if k >= $v { p } else if p == i { j as int } else if p == j { i as int } else { p }, k),")]),
   Fn("reverse", requires="old(seq).dimension > 0", ensures=K + ", forall|p: int, k: int| inn(*old(seq), p, k) ==> #[trigger] at(*final(seq), p, k) == at(*old(seq), plen(*old(seq)) - 1 - p, k)",
      start="let ghost S = *seq;",
      loops=[dict(kind="for", inv="invariant same_kind(S, *seq), S.dimension > 0, last == plen(S) - 1, mid == last / 2, 0 <= $v <= mid + 1, forall|p: int, k: int| inn(S, p, k) ==> #[trigger] at(*seq, p, k) == at(S, if p < $v || p > last - $v { last - p } else { p }, k),")]),
   Fn("copy_coord", requires="src.dimension > 0, old(dest).dimension > 0, src_pos < plen(*src), dest_pos < plen(*old(dest))", ensures="same_kind(*old(dest), *final(dest)), forall|p: int, k: int| inn(*old(dest), p, k) ==> #[trigger] at(*final(dest), p, k) == if p == dest_pos && k < src.dimension { at(*src, src_pos as int, k) } else { at(*old(dest), p, k) }",
      start="let ghost T = *dest;",
      loops=[dict(kind="for", inv="invariant same_kind(T, *dest), T.dimension > 0, dest_pos < plen(T), src_pos < plen(*src), 0 <= $v <= min_dim, min_dim <= src.dimension, min_dim <= T.dimension, forall|p: int, k: int| inn(T, p, k) ==> #[trigger] at(*dest, p, k) == if p == dest_pos && k < $v { at(*src, src_pos as int, k) } else { at(T, p, k) },")]),
   Fn("copy", requires="src.dimension > 0, old(dest).dimension > 0, src_pos + length <= plen(*src), dest_pos + length <= plen(*old(dest)), plen(*src) < 0x2000_0000_0000_0000, plen(*old(dest)) < 0x2000_0000_0000_0000", ensures="""same_kind(*old(dest), *final(dest)),
        forall|p: int, k: int| inn(*old(dest), p, k) ==> #[trigger] at(*final(dest), p, k) == if dest_pos <= p < dest_pos + length && k < src.dimension { at(*src, src_pos + p - dest_pos, k) } else { at(*old(dest), p, k) }""",
      start="let ghost T = *dest;",
      loops=[dict(kind="for", inv="invariant same_kind(T, *dest), T.dimension > 0, src.dimension > 0, src_pos + length <= plen(*src), dest_pos + length <= plen(T), plen(*src) < 0x2000_0000_0000_0000, plen(T) < 0x2000_0000_0000_0000, forall|p: int, k: int| inn(T, p, k) ==> #[trigger] at(*dest, p, k) == if dest_pos <= p < dest_pos + $v && k < src.dimension { at(*src, src_pos + p - dest_pos, k) } else { at(T, p, k) },")]),
   Fn("is_ring", requires="seq.dimension >= 2, fp(*seq)", ensures="r == (plen(*seq) == 0 || ringp(*seq))", start=ST),
   Fn("ensure_valid_ring", requires="pok(*seq), fp(*seq), plen(*seq) < 0x800_0000_0000_0000", ensures="({ let n = plen(*seq); if n == 0 || ringp(*seq) { same_kind(r, *seq) && r.coords@ == seq.coords@ } else if n <= 3 { stretched(r, *seq, 4, 0) } else { stretched(r, *seq, n + 1, 0) } })",
      start=ST),
   Fn("create_closed_ring", requires="2 <= seq.dimension <= 4, 0 < plen(*seq) <= size, size < 0x1000_0000_0000_0000", ensures="stretched(r, *seq, size as int, 0)",
      loops=[dict(kind="for", inv="invariant 2 <= seq.dimension <= 4, n == plen(*seq), 0 < n <= $v <= size, size < 0x1000_0000_0000_0000, newseq.dimension == seq.dimension, newseq.measures == (if seq.dimension > 3 { seq.dimension - 3 } else { 0 }), plen(newseq) == size, forall|p: int, k: int| inn(newseq, p, k) ==> p < $v ==> #[trigger] at(newseq, p, k) == at(*seq, if p < n { p } else { 0 }, k),")]),
   Fn("extend", requires="2 <= seq.dimension <= 4, plen(*seq) <= size, size < 0x1000_0000_0000_0000", ensures="plen(*seq) > 0 ==> stretched(r, *seq, size as int, plen(*seq) - 1), plen(r) == size, r.dimension == seq.dimension",
      loops=[dict(kind="for", inv="invariant 2 <= seq.dimension <= 4, n == plen(*seq), 0 < n <= $v <= size, size < 0x1000_0000_0000_0000, newseq.dimension == seq.dimension, newseq.measures == (if seq.dimension > 3 { seq.dimension - 3 } else { 0 }), plen(newseq) == size, forall|p: int, k: int| inn(newseq, p, k) ==> p < $v ==> #[trigger] at(newseq, p, k) == at(*seq, if p < n { p } else { n - 1 }, k),")]),
   Fn("is_equal", requires="cs1.dimension > 0, cs2.dimension > 0, fo(*cs1), fo(*cs2)", ensures="r == (plen(*cs1) == plen(*cs2) && forall|i: int, k: int| 0 <= i < plen(*cs1) && 0 <= k < mn(cs1.dimension as int, cs2.dimension as int) ==> eqo(#[trigger] at(*cs1, i, k), at(*cs2, i, k)))", start="broadcast use f64_ax, nan_ax, ty_ax;",
      loops=[dict(kind="for", inv="invariant fo(*cs1), fo(*cs2), cs1.dimension > 0, cs2.dimension > 0, dim == mn(cs1.dimension as int, cs2.dimension as int), cs1_size == plen(*cs1), cs1_size == plen(*cs2), forall|i: int, k: int| 0 <= i < $v && 0 <= k < dim ==> eqo(#[trigger] at(*cs1, i, k), at(*cs2, i, k)),"),
             dict(kind="for", inv="invariant fo(*cs1), fo(*cs2), cs1.dimension > 0, cs2.dimension > 0, dim == mn(cs1.dimension as int, cs2.dimension as int), 0 <= $v0 < cs1_size, cs1_size == plen(*cs1), cs1_size == plen(*cs2), 0 <= $v <= dim, forall|k: int| 0 <= k < $v ==> eqo(#[trigger] at(*cs1, $v0 as int, k), at(*cs2, $v0 as int, k)),")]),
   Fn("min_coordinate", requires="pok(*seq), fp(*seq)", ensures="r.is_none() == (plen(*seq) == 0), r.is_some() ==> smallest(*seq, r.unwrap(), 0, plen(*seq))",
      start="let ghost mut K = 0int;",
      loops=[dict(kind="for", inv="invariant pok(*seq), fp(*seq), $v <= plen(*seq), min_coord.is_none() == ($v == 0), min_coord.is_some() ==> firstmin(*seq, min_coord.unwrap(), K, 0, $v as int) && fpt(min_coord.unwrap()),", start="assert(fin(at(*seq, $v as int, 0)));",
         end="proof { if isp(*seq, $v as int, min_coord.unwrap()) && !firstmin(*seq, min_coord.unwrap(), K, 0, $v + 1) { K = $v as int; } }", after="proof { if plen(*seq) > 0 { assert(firstmin(*seq, min_coord.unwrap(), K, 0, plen(*seq))); } }")]),
   Fn("min_coordinate_index_sequence", requires="pok(*seq), fp(*seq), 0 < plen(*seq) < 0x8000_0000", ensures="minplace(*seq, r as int, 0, plen(*seq))"),
   Fn("min_coordinate_index_sequence_from_to", requires="pok(*seq), fp(*seq), from <= to < plen(*seq), plen(*seq) < 0x8000_0000", ensures="minplace(*seq, r as int, from as int, to + 1)",
      loops=[dict(kind="for", inv="invariant pok(*seq), fp(*seq), to < plen(*seq) < 0x8000_0000, from <= $v <= to + 1, min_coord.is_none() == ($v == from), min_coord.is_some() ==> firstmin(*seq, min_coord.unwrap(), min_coord_index as int, from as int, $v as int) && fpt(min_coord.unwrap()),", start="assert(fin(at(*seq, $v as int, 0)));",
         after="assert(firstmin(*seq, min_coord.unwrap(), min_coord_index as int, from as int, to + 1));")]),
   Fn("scroll_coordinate", requires="pok(*old(seq)), fp(*old(seq)), fpt(*first_coordinate), plen(*old(seq)) < 0x8000_0000", ensures=K + """, forall|p: int| 0 <= p < plen(*old(seq)) && eqat(*old(seq), p, *first_coordinate) && (forall|k: int| 0 <= k < p ==> !#[trigger] eqat(*old(seq), k, *first_coordinate)) ==> turned(*final(seq), *old(seq), p, ringp(*old(seq))),
        !hasat(*old(seq), *first_coordinate) ==> *final(seq) == *old(seq)"""),
   Fn("scroll_coordinate_index", requires="pok(*old(seq)), fp(*old(seq)), index_of_first_coordinate < plen(*old(seq)) < 0x2000_0000_0000_0000", ensures=K + ", turned(*final(seq), *old(seq), index_of_first_coordinate as int, ringp(*old(seq)))"),
   Fn("scroll_coordinate_index_ensure_ring", requires="old(seq).dimension > 0, index_of_first_coordinate < plen(*old(seq)) < 0x2000_0000_0000_0000", ensures=K + ", turned(*final(seq), *old(seq), index_of_first_coordinate as int, ensure_ring)",
      start="let ghost S = *seq;",
      loops=[dict(kind="for", inv="""invariant same_kind(S, *seq), same_kind(S, copy), copy.coords@ == S.coords@, forall|p: int, c: int| #[trigger] at(copy, p, c) == at(S, p, c), S.dimension > 0, 0 < i < plen(S) < 0x2000_0000_0000_0000, i == index_of_first_coordinate, last == if ensure_ring { plen(S) - 1 } else { plen(S) }, 0 <= $v <= last,
           forall|p: int, c: int| inn(S, p, c) && p < last ==> #[trigger] at(*seq, p, c) == at(S, if p < $v { rot(S, i as int, ensure_ring, p) } else { p }, c),
           ensure_ring ==> forall|c: int| 0 <= c < S.dimension ==> #[trigger] at(*seq, last as int, c) == at(S, if $v > 0 { i as int % last as int } else { last as int }, c),""", start="let ghost T = *seq; proof { lemma_mod(i as int, $v as int, last as int); }"),
             dict(kind="for", inv="""invariant same_kind(S, *seq), same_kind(S, T), same_kind(S, copy), S.dimension > 0, 0 < i < plen(S) < 0x2000_0000_0000_0000, i == index_of_first_coordinate, last == if ensure_ring { plen(S) - 1 } else { plen(S) }, $v0 < last, 0 <= $v <= S.dimension, 0 <= (i + $v0) % (last as int) < last, forall|p: int, c: int| #[trigger] at(copy, p, c) == at(S, p, c),
           forall|p: int, c: int| inn(S, p, c) ==> #[trigger] at(*seq, p, c) == if p == $v0 && c < $v { at(S, (i + $v0) % (last as int), c) } else { at(T, p, c) },"""),
             dict(kind="for", inv="""invariant same_kind(S, *seq), same_kind(S, U), S.dimension > 0, plen(S) >= 1, last == plen(S) - 1, last > 0, 0 <= $v <= S.dimension, forall|p: int, c: int| inn(S, p, c) ==> #[trigger] at(*seq, p, c) == at(U, if p == last && c < $v { 0 } else { p }, c),""", before="let ghost U = *seq;")]),
   Fn("index_of", requires="seq.dimension >= 2, fp(*seq), fpt(*coordinate), plen(*seq) < 0x8000_0000", ensures="""r < 0 ==> r == -1 && !hasat(*seq, *coordinate), r >= 0 ==> r < plen(*seq) && eqat(*seq, r as int, *coordinate) && forall|k: int| 0 <= k < r ==> !#[trigger] eqat(*seq, k, *coordinate)""", start=ST,
      loops=[dict(kind="for", inv="invariant seq.dimension >= 2, plen(*seq) < 0x8000_0000, fp(*seq), fpt(*coordinate), forall|k: int| 0 <= k < $v ==> !#[trigger] eqat(*seq, k, *coordinate),", start="assert(fin(at(*seq, $v as int, 0)));")]),
 ])]
LEMMAS = """
/// reversing twice reads the same ordinates back
pub proof fn theorem_reverse(a: Pq, b: Pq, c: Pq) requires same_kind(a, b), same_kind(b, c), forall|p: int, k: int| inn(a, p, k) ==> #[trigger] at(b, p, k) == at(a, plen(a) - 1 - p, k), forall|p: int, k: int| inn(b, p, k) ==> #[trigger] at(c, p, k) == at(b, plen(b) - 1 - p, k)
  ensures forall|p: int, k: int| inn(a, p, k) ==> #[trigger] at(c, p, k) == at(a, p, k)
{ assert forall|p: int, k: int| inn(a, p, k) implies #[trigger] at(c, p, k) == at(a, p, k) by { assert(at(c, p, k) == at(b, plen(b) - 1 - p, k)); assert(inn(a, plen(a) - 1 - p, k)); } }
"""
ASSUMPTIONS = ["sequences of dimension 2 to 4 (XY, XYZ, XYM, XYZM), shorter than 2^31 where an i32 index is returned, than 2^59 elsewhere", "finite planar ordinates, other ordinates finite or missing (NaN); infinities only by search",
  "std: Vec indexing, to_vec, vec!, i32::min and max by their usual contracts", "a 64-bit target"]
