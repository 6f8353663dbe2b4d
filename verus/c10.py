from rsx import Fn
import copy
import common, c11
from common import BI
USES = ["f64"]
STRUCTS = [common.COORD, common.CAS, ("src/core/geom/coordinate_array_sequences.rs", "CoordinateArraySequences", ""), ("src/core/geom/implementation/coordinate_array_sequence_factory.rs", "CoordinateArraySequenceFactory", ""),
  ("src/core/geom/coordinate_sequence_comparator.rs", "CoordinateSequenceComparator", ""), ("src/core/geom/coordinates.rs", "Coordinates", ""), ("src/core/geom/envelope.rs", "Envelope", "")]
PRELUDE = c11.PRELUDE + """
pub type Sq = CoordinateArraySequence;
pub open spec fn sq(s: Sq) -> Seq<Coordinate> { s.coordinates@ }
/// a with its first d ordinates taken from b
pub open spec fn part(a: Coordinate, b: Coordinate, d: int) -> Coordinate { Coordinate { x: if d > 0 { b.x } else { a.x }, y: if d > 1 { b.y } else { a.y }, z: if d > 2 { b.z } else { a.z }, m: a.m } }
pub open spec fn mn(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn same_kind(a: Sq, b: Sq) -> bool { a.dimension == b.dimension && a.measures == b.measures && a.coordinates@.len() == b.coordinates@.len() }
/// the sequence with places i and j exchanged, in the ordinates it has
pub open spec fn swapped(s: Seq<Coordinate>, i: int, j: int, d: int) -> Seq<Coordinate> { if i == j { s } else { s.update(i, part(s[i], s[j], d)).update(j, part(s[j], s[i], d)) } }
pub open spec fn reversed(s: Seq<Coordinate>, d: int) -> Seq<Coordinate> { Seq::new(s.len(), |i: int| part(s[i], s[s.len() - 1 - i], d)) }
pub open spec fn clampd(d: int) -> int { if d > 3 { 3 } else if d < 2 { 2 } else { d } }
/// the ordinates the sequence made has, agree with those of the source: places from n on repeat place q
pub open spec fn stretched(r: Sq, s: Sq, size: int, q: int) -> bool {
  let d = mn(s.dimension as int, r.dimension as int);
  r.coordinates@.len() == size && r.dimension == clampd(s.dimension as int) && r.measures == 0
  && forall|k: int| 0 <= k < size ==> agree(#[trigger] r.coordinates@[k], s.coordinates@[if k < s.coordinates@.len() { k } else { q }], d) }
pub open spec fn agree(a: Coordinate, b: Coordinate, d: int) -> bool { (d > 0 ==> a.x == b.x) && (d > 1 ==> a.y == b.y) && (d > 2 ==> a.z == b.z) }
pub open spec fn fz(x: f64) -> bool { fin(x) || fnan(x) }
pub open spec fn fo(s: Seq<Coordinate>) -> bool { forall|i: int| 0 <= i < s.len() ==> fz(#[trigger] s[i].x) && fz(s[i].y) && fz(s[i].z) }
pub open spec fn ord(c: Coordinate, k: int) -> f64 { if k == 0 { c.x } else if k == 1 { c.y } else { c.z } }
/// equal, or both missing
pub open spec fn eqo(a: f64, b: f64) -> bool { fin(a) && fin(b) && val(a) == val(b) || fnan(a) && fnan(b) }
pub open spec fn eqd(a: Coordinate, b: Coordinate, d: int) -> bool { (d > 0 ==> eqo(a.x, b.x)) && (d > 1 ==> eqo(a.y, b.y)) && (d > 2 ==> eqo(a.z, b.z)) }
pub open spec fn cf(a: f64, b: f64) -> i32 { if fnan(a) { if fnan(b) { 0i32 } else { -1i32 } } else if fnan(b) { 1i32 } else if val(a) < val(b) { -1i32 } else if val(a) > val(b) { 1i32 } else { 0i32 } }
/// the comparison of two points from ordinate k on, of d
pub open spec fn co(a: Coordinate, b: Coordinate, k: int, d: int) -> i32 decreases 3 - k { if k >= d || k >= 3 || k < 0 { 0i32 } else if cf(ord(a, k), ord(b, k)) != 0 { cf(ord(a, k), ord(b, k)) } else { co(a, b, k + 1, d) } }
pub open spec fn clex(a: Seq<Coordinate>, b: Seq<Coordinate>, k: int, d: int) -> i32 decreases a.len() - k
{ if k < 0 || k >= a.len() || k >= b.len() { if k < a.len() { 1i32 } else if k < b.len() { -1i32 } else { 0i32 } } else if co(a[k], b[k], 0, d) != 0 { co(a[k], b[k], 0, d) } else { clex(a, b, k + 1, d) } }
pub open spec fn cseq(lim: int, a: Sq, b: Sq) -> i32 { let m = mn(a.dimension as int, b.dimension as int);
  if lim > m && a.dimension < b.dimension { -1i32 } else if lim > m && a.dimension > b.dimension { 1i32 } else { clex(a.coordinates@, b.coordinates@, 0, mn(m, lim)) } }
"""
F = "src/core/geom/coordinate_array_sequences.rs"
CF = "src/core/geom/implementation/coordinate_array_sequence_factory.rs"
ST = "broadcast use f64_ax, f64_int, ty_ax;"
CO = common.coordinate("default", "get_z", "get_m", "get_ordinate", "set_ordinate", "set_coordinate", "new_coordinatexy_default", "new_coordinatexym_default", "new_coordinatexyzm_default", "compare_to", "equals_2d")
SQ = common.sequence("size", "get_dimension", "get_measures", "get_coordinate_index", "get_coordinate_copy", "get_x", "get_y", "get_ordinate", "set_ordinate", "get_coordinate_index_coordinate", "new_with_coordinates_dimension_measures", "create_coordinate", "create_coordinate_default")
Z3 = "r.x == 0.0f64 || fin(r.x)"
SQ["fns"] += [
   Fn("new_with_size", ensures="r.dimension == 3, r.measures == 0, r.coordinates@.len() == size"),
   Fn("new_with_size_dimension", ensures="r.dimension == dimension, r.measures == 0, r.coordinates@.len() == size"),
   Fn("new_with_size_dimension_measures", ensures="r.dimension == dimension, r.measures == measures, r.coordinates@.len() == size"),
   Fn("new_from_coordinate_array_sequence", ensures="r.dimension == coord_seq.dimension, r.measures == coord_seq.measures, r.coordinates@ =~= coord_seq.coordinates@",
      loops=[dict(kind="for", inv="invariant new.coordinates@.len() == coord_seq.coordinates@.len(), new.dimension == coord_seq.dimension, new.measures == coord_seq.measures, forall|k: int| 0 <= k < $v ==> new.coordinates@[k] == coord_seq.coordinates@[k],")]),
   Fn("copy", ensures="r.dimension == self.dimension, r.measures == self.measures, r.coordinates@ =~= self.coordinates@",
      loops=[dict(kind="for", inv="invariant clone_coordinates@.len() == self.coordinates@.len(), forall|k: int| 0 <= k < $v ==> clone_coordinates@[k] == self.coordinates@[k],")]),
   Fn("has_z", requires="-100 < self.dimension < 100, -100 < self.measures < 100", ensures="r == (self.dimension - self.measures > 2)"),
   Fn("has_m", ensures="r == (self.measures > 0)"),
   Fn("get_z", requires="index < self.coordinates@.len(), -100 < self.dimension < 100, -100 < self.measures < 100", ensures="if self.dimension - self.measures > 2 { r == self.coordinates@[index as int].z } else { fnan(r) }"),
   Fn("get_m", requires="index < self.coordinates@.len()", ensures="if self.measures > 0 { r == self.coordinates@[index as int].m } else { fnan(r) }"),
   Fn("to_coordinate_array", ensures="r@ == self.coordinates@"),
   Fn("expand_envelope", requires="fok(self.coordinates@), isbox(*old(env), Seq::empty())", ensures="isbox(*final(env), self.coordinates@)",
      start="let ghost S = self.coordinates@; proof { lemma_whole(S); }",
      loops=[dict(kind="for", inv="invariant S == self.coordinates@, $v <= S.len(), fok(self.coordinates@), isbox(*env, S.subrange(0, $v as int)),", start="proof { lemma_next(S, $v as int); }")]),
]
K = "same_kind(*old(seq), *final(seq))"
IMPLS = [CO, SQ,
 dict(file="src/core/geom/coordinates.rs", ty="Coordinates", fns=[Fn("create_dim"), Fn("create_dim_measures")]),
 [x for x in c11.IMPLS if x.get("ty") == "Envelope"][0],
 dict(file=CF, ty="CoordinateArraySequenceFactory", fns=[
   Fn("create_from_coordinate_array_sequence", ensures="r.dimension == coord_seq.dimension, r.measures == coord_seq.measures, r.coordinates@ =~= coord_seq.coordinates@"),
   Fn("create_with_size_dimension", ensures="r.dimension == clampd(dimension as int), r.measures == 0, r.coordinates@.len() == size"),
   Fn("create_with_size_dimension_measures", requires="-1000 < dimension < 1000, 0 <= measures < 1000", ensures="r.measures == mn(measures as int, 1), r.dimension == clampd(dimension - measures) + mn(measures as int, 1), r.coordinates@.len() == size"),
 ]),
 dict(file="src/core/geom/coordinate_sequence_comparator.rs", ty="CoordinateSequenceComparator", fns=[
   Fn("default", ensures="r.dimension_limit == 0x7fff_ffff"),
   Fn("new_with_dimension_limit", ensures="r.dimension_limit == dimension_limit"),
   Fn("compare_f64", requires="fz(a), fz(b)", ensures="r == cf(a, b)", start="broadcast use f64_ax, nan_ax, ty_ax;"),
   Fn("compare_coordinate", requires="0 <= i < s1.coordinates@.len(), i < s2.coordinates@.len(), fo(s1.coordinates@), fo(s2.coordinates@), 0 <= dimension <= 3", ensures="r == co(s1.coordinates@[i as int], s2.coordinates@[i as int], 0, dimension as int)",
      loops=[dict(kind="for", inv="invariant fo(s1.coordinates@), fo(s2.coordinates@), 0 <= i < s1.coordinates@.len(), i < s2.coordinates@.len(), dimension <= 3, 0 <= $v, dimension >= 0 ==> $v <= dimension, co(s1.coordinates@[i as int], s2.coordinates@[i as int], $v as int, dimension as int) == co(s1.coordinates@[i as int], s2.coordinates@[i as int], 0, dimension as int),")]),
   Fn("compare_coordinate_array_sequence", requires="fo(s1.coordinates@), fo(s2.coordinates@), self.dimension_limit >= 0, 0 <= s1.dimension <= 3, 0 <= s2.dimension <= 3, s1.coordinates@.len() < 0x8000_0000", ensures="r == cseq(self.dimension_limit as int, *s1, *s2)",
      loops=[dict(kind="while", inv="invariant fo(s1.coordinates@), fo(s2.coordinates@), s1.coordinates@.len() < 0x8000_0000, 0 <= i <= size1, i <= size2, size1 == s1.coordinates@.len(), size2 == s2.coordinates@.len(), 0 <= min_dim <= 3, clex(s1.coordinates@, s2.coordinates@, i as int, min_dim as int) == clex(s1.coordinates@, s2.coordinates@, 0, min_dim as int), decreases size1 - i")]),
 ]),
 dict(file=F, ty="CoordinateArraySequences", fns=[
   Fn("swap", requires="old(seq).dimension >= 0, i < old(seq).coordinates@.len(), j < old(seq).coordinates@.len()", ensures=K + ", final(seq).coordinates@ =~= swapped(old(seq).coordinates@, i as int, j as int, old(seq).dimension as int)",
      start="let ghost S = seq.coordinates@;",
      loops=[dict(kind="for", inv="invariant same_kind(*old(seq), *seq), S == old(seq).coordinates@, i != j, i < S.len(), j < S.len(), 0 <= $v, seq.coordinates@ =~= swapped(S, i as int, j as int, $v as int),", start="let ghost T = seq.coordinates@;")]),
   Fn("reverse", requires="old(seq).dimension >= 0", ensures=K + ", final(seq).coordinates@ =~= reversed(old(seq).coordinates@, old(seq).dimension as int)",
      start="let ghost S = seq.coordinates@; let ghost D = seq.dimension as int;",
      loops=[dict(kind="for", inv="invariant same_kind(*old(seq), *seq), S == old(seq).coordinates@, D == seq.dimension, last == S.len() - 1, mid == last / 2, 0 <= $v <= mid + 1, forall|k: int| 0 <= k < S.len() ==> #[trigger] seq.coordinates@[k] == if k < $v || k > last - $v { part(S[k], S[last - k], D) } else { S[k] },")]),
   Fn("copy_coord", requires="src.dimension >= 0, old(dest).dimension >= 0, src_pos < src.coordinates@.len(), dest_pos < old(dest).coordinates@.len()", ensures="same_kind(*old(dest), *final(dest)), final(dest).coordinates@ =~= old(dest).coordinates@.update(dest_pos as int, part(old(dest).coordinates@[dest_pos as int], src.coordinates@[src_pos as int], mn(src.dimension as int, old(dest).dimension as int)))",
      start="let ghost T = dest.coordinates@; let ghost P = src.coordinates@[src_pos as int];",
      loops=[dict(kind="for", inv="invariant same_kind(*old(dest), *dest), T == old(dest).coordinates@, P == src.coordinates@[src_pos as int], dest_pos < T.len(), src_pos < src.coordinates@.len(), 0 <= $v, dest.coordinates@ =~= T.update(dest_pos as int, part(T[dest_pos as int], P, $v as int)),")]),
   Fn("copy", requires="src.dimension >= 0, old(dest).dimension >= 0, src_pos + length <= src.coordinates@.len(), dest_pos + length <= old(dest).coordinates@.len()", ensures="""same_kind(*old(dest), *final(dest)),
        forall|k: int| 0 <= k < old(dest).coordinates@.len() ==> #[trigger] final(dest).coordinates@[k] == if dest_pos <= k < dest_pos + length { part(old(dest).coordinates@[k], src.coordinates@[src_pos + k - dest_pos], mn(src.dimension as int, old(dest).dimension as int)) } else { old(dest).coordinates@[k] }""",
      start="let l1 = src.coordinates.len(); let l2 = dest.coordinates.len(); let ghost T = dest.coordinates@; assert(l1 == src.coordinates@.len() && l2 == T.len());",
      loops=[dict(kind="for", inv="invariant same_kind(*old(dest), *dest), T == old(dest).coordinates@, l1 == src.coordinates@.len(), l2 == T.len(), src_pos + length <= l1, dest_pos + length <= l2, forall|k: int| 0 <= k < l2 ==> #[trigger] dest.coordinates@[k] == if dest_pos <= k < dest_pos + $v { part(T[k], src.coordinates@[src_pos + k - dest_pos], mn(src.dimension as int, dest.dimension as int)) } else { T[k] },")]),
   Fn("is_ring", requires="fok(seq.coordinates@)", ensures="r == (seq.coordinates@.len() == 0 || ringv(seq.coordinates@))", start=ST),
   Fn("ensure_valid_ring", requires="seq.dimension >= 0, fok(seq.coordinates@), seq.coordinates@.len() < 0x2000_0000_0000_0000", ensures="""({ let n = seq.coordinates@.len() as int; if n == 0 || ringv(seq.coordinates@) { same_kind(r, *seq) && r.coordinates@ == seq.coordinates@ } else if n <= 3 { stretched(r, *seq, 4, 0) } else { stretched(r, *seq, (n + 1) as int, 0) } })""", start=ST),
   Fn("create_closed_ring", requires="seq.dimension >= 0, seq.coordinates@.len() <= size, seq.coordinates@.len() > 0", ensures="stretched(r, *seq, size as int, 0)",
      loops=[dict(kind="for", inv="invariant n == seq.coordinates@.len(), 0 < n <= size, n <= $v <= size, newseq.coordinates@.len() == size, newseq.dimension == clampd(seq.dimension as int), newseq.measures == 0, forall|k: int| 0 <= k < $v ==> agree(#[trigger] newseq.coordinates@[k], seq.coordinates@[if k < n { k } else { 0 }], mn(seq.dimension as int, newseq.dimension as int)),")]),
   Fn("extend", requires="seq.dimension >= 0, seq.coordinates@.len() <= size", ensures="r.coordinates@.len() == size, seq.coordinates@.len() > 0 ==> stretched(r, *seq, size as int, seq.coordinates@.len() - 1)",
      loops=[dict(kind="for", inv="invariant n == seq.coordinates@.len(), 0 < n <= size, n <= $v <= size, newseq.coordinates@.len() == size, newseq.dimension == clampd(seq.dimension as int), newseq.measures == 0, forall|k: int| 0 <= k < $v ==> agree(#[trigger] newseq.coordinates@[k], seq.coordinates@[if k < n { k } else { n - 1 }], mn(seq.dimension as int, newseq.dimension as int)),")]),
   Fn("is_equal", requires="fo(cs1.coordinates@), fo(cs2.coordinates@), 0 <= cs1.dimension <= 3, 0 <= cs2.dimension <= 3", ensures="""r == (cs1.coordinates@.len() == cs2.coordinates@.len() && forall|k: int| 0 <= k < cs1.coordinates@.len() ==> eqd(#[trigger] cs1.coordinates@[k], cs2.coordinates@[k], mn(cs1.dimension as int, cs2.dimension as int)))""",
      start="broadcast use f64_ax, nan_ax, ty_ax; let ghost (A, B) = (cs1.coordinates@, cs2.coordinates@);",
      loops=[dict(kind="for", inv="invariant fo(A), fo(B), A == cs1.coordinates@, B == cs2.coordinates@, dim <= 3, dim == mn(cs1.dimension as int, cs2.dimension as int), A.len() == cs1_size, B.len() == cs1_size, forall|k: int| 0 <= k < $v ==> eqd(#[trigger] A[k], B[k], dim as int),"),
             dict(kind="for", inv="invariant fo(A), fo(B), A == cs1.coordinates@, B == cs2.coordinates@, dim <= 3, 0 <= $v0 < cs1_size, A.len() == cs1_size, B.len() == cs1_size, 0 <= $v, eqd(A[$v0 as int], B[$v0 as int], $v as int),")]),
   Fn("min_coordinate", requires="fok(seq.coordinates@)", ensures="r == if seq.coordinates@.len() == 0 { None } else { Some(minv(seq.coordinates@)) }", start="let ghost S = seq.coordinates@; proof { lemma_whole(S); }",
      loops=[dict(kind="for", inv="invariant S == seq.coordinates@, fok(S), $v <= S.len(), min_coord == if $v == 0 { None } else { Some(minv(S.subrange(0, $v as int))) }, min_coord.is_some() ==> fpt(min_coord.unwrap()),", start="proof { lemma_next(S, $v as int); }")]),
   Fn("min_coordinate_index_sequence", requires="fok(seq.coordinates@), 0 < seq.coordinates@.len() < 0x8000_0000", ensures="""r < seq.coordinates@.len(), forall|k: int| 0 <= k < seq.coordinates@.len() ==> cmpv(seq.coordinates@[r as int], #[trigger] seq.coordinates@[k]) <= 0 && (k < r ==> cmpv(seq.coordinates@[r as int], seq.coordinates@[k]) < 0)"""),
   Fn("min_coordinate_index_sequence_from_to", requires="fok(seq.coordinates@), from <= to < seq.coordinates@.len(), seq.coordinates@.len() < 0x8000_0000", ensures="""from <= r <= to, forall|k: int| from <= k <= to ==> cmpv(seq.coordinates@[r as int], #[trigger] seq.coordinates@[k]) <= 0 && (k < r ==> cmpv(seq.coordinates@[r as int], seq.coordinates@[k]) < 0)""",
      start="let ghost S = seq.coordinates@;",
      loops=[dict(kind="for", inv="""invariant S == seq.coordinates@, fok(S), to < S.len() < 0x8000_0000, from <= $v <= to + 1, ($v == from) == min_coord.is_none(), min_coord.is_some() ==> from <= min_coord_index < $v && min_coord.unwrap() == S[min_coord_index as int] && forall|k: int| from <= k < $v ==> cmpv(min_coord.unwrap(), #[trigger] S[k]) <= 0 && (k < min_coord_index ==> cmpv(min_coord.unwrap(), S[k]) < 0),""")]),
   Fn("scroll_coordinate", requires="old(seq).dimension >= 0, fok(old(seq).coordinates@), fpt(*first_coordinate), old(seq).coordinates@.len() < 0x8000_0000", ensures=K + """, forall|p: int| 0 <= p < old(seq).coordinates@.len() && eqv(old(seq).coordinates@[p], *first_coordinate) && (forall|k: int| 0 <= k < p ==> !eqv(#[trigger] old(seq).coordinates@[k], *first_coordinate)) ==>
        turned(final(seq).coordinates@, old(seq).coordinates@, p, ringv(old(seq).coordinates@), old(seq).dimension as int), !inlist(old(seq).coordinates@, *first_coordinate) ==> final(seq).coordinates@ == old(seq).coordinates@""",
      start="let ghost S = seq.coordinates@; proof { assert(forall|s: Seq<Coordinate>, d: int| turned(s, s, 0, ringv(s), d)); }"),
   Fn("scroll_coordinate_index", requires="old(seq).dimension >= 0, fok(old(seq).coordinates@), index_of_first_coordinate < old(seq).coordinates@.len() < 0x2000_0000_0000_0000", ensures=K + ", turned(final(seq).coordinates@, old(seq).coordinates@, index_of_first_coordinate as int, ringv(old(seq).coordinates@), old(seq).dimension as int)"),
   Fn("scroll_coordinate_index_ensure_ring", requires="old(seq).dimension >= 0, index_of_first_coordinate < old(seq).coordinates@.len() < 0x2000_0000_0000_0000", ensures=K + ", turned(final(seq).coordinates@, old(seq).coordinates@, index_of_first_coordinate as int, ensure_ring, old(seq).dimension as int)",
      start="let ghost S = seq.coordinates@; let ghost D = seq.dimension as int; let ll = seq.coordinates.len(); assert(ll == S.len());",
      loops=[dict(kind="for", inv="""invariant same_kind(*old(seq), *seq), D == seq.dimension, S.len() == ll, copy.coordinates@ == S, S == old(seq).coordinates@, 0 < i < ll < 0x2000_0000_0000_0000, i == index_of_first_coordinate, last == if ensure_ring { ll - 1 } else { ll as int }, 0 <= $v <= last,
           forall|k: int| 0 <= k < last ==> #[trigger] seq.coordinates@[k] == if k < $v { part(S[k], S[(i + k) % (last as int)], D) } else { S[k] },
           ensure_ring ==> seq.coordinates@[last as int] == if $v == 0 { S[last as int] } else { part(S[last as int], S[(i as int) % (last as int)], D) },""", start="let ghost T = seq.coordinates@; let ghost W = S[(i + $v) % (last as int)];"),
             dict(kind="for", inv="""invariant same_kind(*old(seq), *seq), D == seq.dimension, T.len() == ll, W == S[(i + $v0) % (last as int)], S.len() == ll, copy.coordinates@ == S, 0 < i < ll < 0x2000_0000_0000_0000, i == index_of_first_coordinate, $v0 < last <= ll, 0 <= $v, seq.coordinates@ =~= T.update($v0 as int, part(T[$v0 as int], W, $v as int)),""", start="proof { lemma_mod(i as int, $v0 as int, last as int); }"),
             dict(kind="for", inv="""invariant same_kind(*old(seq), *seq), D == seq.dimension, U.len() == ll, S.len() == ll, last == ll - 1, last > 0, 0 <= $v, seq.coordinates@ =~= U.update(last as int, part(U[last as int], U[0], $v as int)),""",
                 before="let ghost U = seq.coordinates@; assert(U[0] == part(S[0], S[i as int % last as int], D));")]),
   Fn("index_of", requires="fok(seq.coordinates@), fpt(*coordinate), seq.coordinates@.len() < 0x8000_0000", ensures="""r < 0 ==> r == -1 && !inlist(seq.coordinates@, *coordinate),
        r >= 0 ==> r < seq.coordinates@.len() && eqv(seq.coordinates@[r as int], *coordinate) && forall|k: int| 0 <= k < r ==> !eqv(#[trigger] seq.coordinates@[k], *coordinate)""", start=ST,
      loops=[dict(kind="for", inv="invariant seq.coordinates@.len() < 0x8000_0000, fok(seq.coordinates@), fpt(*coordinate), forall|k: int| 0 <= k < $v ==> !eqv(#[trigger] seq.coordinates@[k], *coordinate),")]),
 ])]
LEMMAS = """
pub open spec fn turned(r: Seq<Coordinate>, s: Seq<Coordinate>, i: int, ring: bool, d: int) -> bool {
  r.len() == s.len() && if i <= 0 { r == s } else { let n = if ring { s.len() - 1 } else { s.len() as int };
    (forall|k: int| 0 <= k < n ==> #[trigger] r[k] == part(s[k], s[(i + k) % n], d)) && (ring && n > 0 ==> r[n] == part(s[n], s[i % n], d)) } }
pub proof fn lemma_mod(i: int, j: int, n: int) requires 0 <= i, 0 <= j, 0 < n ensures 0 <= (i + j) % n < n { }
/// reversing twice is the identity
pub proof fn theorem_reverse(s: Seq<Coordinate>, d: int) ensures reversed(reversed(s, d), d) =~= s { }
/// comparison is antisymmetric
pub proof fn theorem_co(a: Coordinate, b: Coordinate, k: int, d: int) ensures co(a, b, k, d) == -co(b, a, k, d) decreases 3 - k { if 0 <= k < d && k < 3 { theorem_co(a, b, k + 1, d); } }
pub proof fn theorem_clex(a: Seq<Coordinate>, b: Seq<Coordinate>, k: int, d: int) requires 0 <= k ensures clex(a, b, k, d) == -clex(b, a, k, d) decreases a.len() - k
{ if k < a.len() && k < b.len() { theorem_co(a[k], b[k], 0, d); theorem_clex(a, b, k + 1, d); } }
pub proof fn theorem_cseq(lim: int, a: Sq, b: Sq) ensures cseq(lim, a, b) == -cseq(lim, b, a)
{ theorem_clex(a.coordinates@, b.coordinates@, 0, mn(mn(a.dimension as int, b.dimension as int), lim)); }
/// and transitive
pub proof fn theorem_co_trans(a: Coordinate, b: Coordinate, c: Coordinate, k: int, d: int)
  ensures co(a, b, k, d) <= 0 && co(b, c, k, d) <= 0 ==> co(a, c, k, d) <= 0 && ((co(a, b, k, d) < 0 || co(b, c, k, d) < 0) ==> co(a, c, k, d) < 0) decreases 3 - k
{ if 0 <= k < d && k < 3 { theorem_co_trans(a, b, c, k + 1, d); } }
pub proof fn theorem_clex_trans(a: Seq<Coordinate>, b: Seq<Coordinate>, c: Seq<Coordinate>, k: int, d: int) requires 0 <= k
  ensures clex(a, b, k, d) <= 0 && clex(b, c, k, d) <= 0 ==> clex(a, c, k, d) <= 0 && ((clex(a, b, k, d) < 0 || clex(b, c, k, d) < 0) ==> clex(a, c, k, d) < 0) decreases a.len() - k
{ if k < a.len() && k < b.len() && k < c.len() { theorem_co_trans(a[k], b[k], c[k], 0, d); theorem_clex_trans(a, b, c, k + 1, d); } }
"""
ASSUMPTIONS = ["finite planar ordinates, other ordinates finite or missing (NaN); infinities only by search", "dimension at most 3 where ordinates are compared (an ordinate past z reads as missing)",
  "std: Vec indexing, to_vec, vec!, i32::min by their usual contracts", "a 64-bit target, sequences shorter than 2^31 where an i32 index is returned, than 2^61 elsewhere"]
