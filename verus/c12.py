from rsx import Fn
import common
from common import BI
USES = ["f64"]
STRUCTS = [common.COORD, ("src/core/geom/coordinate_list.rs", "CoordinateList", "")]
PRELUDE = common.DET + common.PTS + common.TOVEC + """
pub open spec fn fok(s: Seq<Coordinate>) -> bool { forall|i: int| 0 <= i < s.len() ==> fpt(#[trigger] s[i]) }
/// appending one coordinate: dropped exactly when repeats are disallowed and it equals its neighbour, the last one
pub open spec fn add1(s: Seq<Coordinate>, c: Coordinate, rep: bool) -> Seq<Coordinate> { if !rep && s.len() > 0 && eqv(s[s.len() - 1], c) { s } else { s.push(c) } }
pub open spec fn addn(s: Seq<Coordinate>, cs: Seq<Coordinate>, rep: bool) -> Seq<Coordinate> decreases cs.len() { if cs.len() == 0 { s } else { add1(addn(s, cs.drop_last(), rep), cs.last(), rep) } }
pub open spec fn rev(s: Seq<Coordinate>) -> Seq<Coordinate> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
/// the run of an index range, ascending or descending, the end being left out
pub open spec fn run(cs: Seq<Coordinate>, a: int, b: int) -> Seq<Coordinate> { if a <= b { cs.subrange(a, b) } else { rev(cs.subrange(b + 1, a + 1)) } }
/// inserting at an index: dropped exactly when repeats are disallowed and it equals a neighbour
pub open spec fn ins1(s: Seq<Coordinate>, i: int, c: Coordinate, rep: bool) -> Seq<Coordinate> {
  if !rep && s.len() > 0 && (i > 0 && eqv(s[i - 1], c) || i < s.len() && eqv(s[i], c)) { s } else { s.insert(i, c) } }
pub proof fn lemma_step(s: Seq<Coordinate>, cs: Seq<Coordinate>, k: int, rep: bool) requires 0 <= k < cs.len()
  ensures addn(s, cs.subrange(0, k + 1), rep) == add1(addn(s, cs.subrange(0, k), rep), cs[k], rep)
{ let t = cs.subrange(0, k + 1); assert(t.drop_last() =~= cs.subrange(0, k)); assert(t.last() == cs[k]); }
pub proof fn lemma_fok(s: Seq<Coordinate>, cs: Seq<Coordinate>, rep: bool) requires fok(s), fok(cs) ensures fok(addn(s, cs, rep)) decreases cs.len()
{ if cs.len() > 0 { lemma_fok(s, cs.drop_last(), rep); } }
/// with repeats allowed, everything is appended
pub proof fn theorem_all(s: Seq<Coordinate>, cs: Seq<Coordinate>) ensures addn(s, cs, true) =~= s + cs decreases cs.len()
{ if cs.len() > 0 { theorem_all(s, cs.drop_last()); assert(cs =~= cs.drop_last().push(cs.last())); } }
"""
F = "src/core/geom/coordinate_list.rs"
L = dict(kind="while")
_start = BI
IMPLS = [common.coordinate("default", "equals_2d"), dict(file=F, ty="CoordinateList", fns=[
   Fn("default", ensures="r.vec@.len() == 0"),
   Fn("new", requires="fok(coord@)", ensures="r.vec@ =~= coord@", end="", after=[(r"new\.add_coordinate_list_repeated\(&coord, true\);", "proof { theorem_all(Seq::empty(), coord@); assert(Seq::<Coordinate>::empty() + coord@ =~= coord@); }")],
      before=[(r"new\.add_coordinate_list_repeated", "assert(new.vec@ =~= Seq::<Coordinate>::empty());")]),
   Fn("new_with_repeated", requires="fok(coord@)", ensures="r.vec@ == addn(Seq::empty(), coord@, allow_repeated)",
      before=[(r"new\.add_coordinate_list_repeated", "assert(new.vec@ =~= Seq::<Coordinate>::empty());")]),
   Fn("get_coordinate", ensures="r == if i < self.vec@.len() { Some(self.vec@[i as int]) } else { None }"),
   Fn("add_coordinate_repeated", requires="fok(old(self).vec@), fpt(coord)", ensures="final(self).vec@ == add1(old(self).vec@, coord, allow_repeated), fok(final(self).vec@)"),
   Fn("add_coordinate_list_repeated_direction", requires="fok(old(self).vec@), fok(coord_list@)",
      ensures="final(self).vec@ == addn(old(self).vec@, if direction { coord_list@ } else { rev(coord_list@) }, allow_repeated), fok(final(self).vec@)",
      start="let ghost S0 = self.vec@; let ghost C = coord_list@; let ghost R = rev(coord_list@); proof { assert(C.subrange(0, 0) =~= Seq::empty()); assert(R.subrange(0, 0) =~= Seq::empty()); assert(C.subrange(0, C.len() as int) =~= C); assert(R.subrange(0, R.len() as int) =~= R); }",
      loops=[dict(kind="for", inv="invariant 0 <= $v <= coord_list@.len(), fok(self.vec@), self.vec@ == addn(S0, C.subrange(0, $v as int), allow_repeated),", end="proof { lemma_step(S0, C, $v as int, allow_repeated); }"),
             dict(kind="while", inv="invariant 0 <= i <= coord_list@.len(), fok(self.vec@), self.vec@ == addn(S0, R.subrange(0, C.len() - i), allow_repeated), decreases i", end="proof { lemma_step(S0, R, C.len() - i - 1, allow_repeated); assert(R[C.len() - i - 1] == C[i as int]); }")]),
   Fn("add_coordinate_list_repeated", requires="fok(old(self).vec@), fok(coord_list@)", ensures="final(self).vec@ == addn(old(self).vec@, coord_list@, allow_repeated), fok(final(self).vec@)"),
   Fn("add_coordinate_list_repeated_start_end", requires="fok(old(self).vec@), fok(coord_list@), start <= coord_list@.len(), end <= coord_list@.len(), start > end ==> start < coord_list@.len()",
      ensures="final(self).vec@ == addn(old(self).vec@, run(coord_list@, start as int, end as int), allow_repeated), fok(final(self).vec@)",
      start="""let ghost S0 = self.vec@; let ghost C = coord_list@; let ghost R = run(coord_list@, start as int, end as int);
         proof { assert(R.subrange(0, 0) =~= Seq::empty()); assert(R.subrange(0, R.len() as int) =~= R); }""",
      loops=[dict(kind="while", inv="""invariant start <= end ==> start <= i <= end && self.vec@ == addn(S0, R.subrange(0, i - start), allow_repeated), start > end ==> end <= i <= start && self.vec@ == addn(S0, R.subrange(0, start - i), allow_repeated),
              fok(self.vec@), decreases if start <= end { end - i } else { i - end }""",
              start="proof { if start <= end { lemma_step(S0, R, i - start, allow_repeated); assert(R[i - start] == C[i as int]); } else { lemma_step(S0, R, start - i, allow_repeated); assert(R[start - i] == C[i as int]); } }")]),
   Fn("add_index_coordinate_repeated", requires="fok(old(self).vec@), fpt(coord), i <= old(self).vec@.len()", ensures="final(self).vec@ == ins1(old(self).vec@, i as int, coord, allow_repeated)"),
   Fn("add_all", requires="fok(old(self).vec@), fok(coll@)", ensures="final(self).vec@ == addn(old(self).vec@, coll@, allow_repeated), fok(final(self).vec@), r == (coll@.len() > 0)",
      start="let ghost S0 = self.vec@; let ghost C = coll@; proof { assert(C.subrange(0, 0) =~= Seq::empty()); assert(C.subrange(0, C.len() as int) =~= C); }",
      loops=[dict(kind="for", iter="it0", inv="invariant fok(self.vec@), self.vec@ == addn(S0, C.subrange(0, it0.index as int), allow_repeated), is_changed == (it0.index > 0), it0.index <= C.len(), it0.seq().len() == C.len(), forall|q: int| 0 <= q < C.len() ==> it0.seq()[q] == C[q],",
          start="assert(*$v == C[it0.index as int]);", end="proof { lemma_step(S0, C, it0.index as int, allow_repeated); }")]),
   Fn("close_ring", requires="fok(old(self).vec@)", ensures="""final(self).vec@ == if old(self).vec@.len() > 0 && !eqv(old(self).vec@[0], old(self).vec@.last()) { old(self).vec@.push(old(self).vec@[0]) } else { old(self).vec@ }"""),
   Fn("to_coordinate_array", ensures="r@ == self.vec@"),
   Fn("to_coordinate_array_forward", ensures="r@ =~= if is_forward { self.vec@ } else { rev(self.vec@) }",
      loops=[dict(kind="for", inv="invariant pts@.len() == self.vec@.len(), size == self.vec@.len(), forall|k: int| 0 <= k < $v ==> pts@[k] == self.vec@[size - 1 - k],")]),
 ])]
LEMMAS = """
/// closing leaves a list whose ends are equal, and closing twice changes nothing
pub open spec fn closed(s: Seq<Coordinate>) -> Seq<Coordinate> { if s.len() > 0 && !eqv(s[0], s.last()) { s.push(s[0]) } else { s } }
pub proof fn theorem_close(s: Seq<Coordinate>) requires fok(s) ensures s.len() > 0 ==> eqv(closed(s)[0], closed(s).last()), closed(closed(s)) == closed(s) { }
/// no two neighbours are equal in a list built without repeats
pub open spec fn norep(s: Seq<Coordinate>) -> bool { forall|i: int| 0 < i < s.len() ==> !eqv(s[i - 1], #[trigger] s[i]) }
pub proof fn theorem_norep(s: Seq<Coordinate>, cs: Seq<Coordinate>) requires norep(s) ensures norep(addn(s, cs, false)) decreases cs.len()
{ if cs.len() > 0 { theorem_norep(s, cs.drop_last()); } }
/// reversing the result is an involution
pub proof fn theorem_rev(s: Seq<Coordinate>) ensures rev(rev(s)) =~= s { }
"""
ASSUMPTIONS = ["finite ordinates (planar equality of any doubles is discharged by C08)", "std: Vec::push, insert, get, to_vec and vec! by their usual contracts"]
