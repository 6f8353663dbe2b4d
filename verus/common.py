"""Contracts shared by several properties.  A function listed with external=True is used by
its contract only; the check named in the comment discharges that contract on its body."""
import copy
from rsx import Fn
import c03
BI = c03.BI
COORD = ("src/core/geom/coordinate.rs", "Coordinate", "#[derive(Copy, Clone)]")
CAS = ("src/core/geom/implementation/coordinate_array_sequence.rs", "CoordinateArraySequence", "")
ORI = ("src/core/algorithm/orientation.rs", "Orientation", "")
LOC = ("src/core/geom/location.rs", "Location", "")

# sign of the exact determinant on integers (proved on the code by check C03)
DET = c03.DDI[c03.DDI.index("pub open spec fn deti"):c03.DDI.index("pub open spec fn lim24")]
SWAP = c03.DDI[c03.DDI.index("// the laws over the contract"):]
ORIENTATION = dict(file="src/core/algorithm/orientation.rs", ty="Orientation",
    consts=["CLOCKWISE", "RIGHT", "COUNTERCLOCKWISE", "LEFT", "COLLINEAR", "STRAIGHT"], fns=[
   Fn("index", requires="i24(p1.x), i24(p1.y), i24(p2.x), i24(p2.y), i24(q.x), i24(q.y)",
      ensures="r == sgi(deti(it(p1.x), it(p1.y), it(p2.x), it(p2.y), it(q.x), it(q.y)))", external=True)])

def coordinate(*names):
    """contracts of Coordinate's functions, verified on their bodies"""
    F = {
     "default": Fn("default", ensures="r.x == 0.0f64, r.y == 0.0f64, fnan(r.z), fnan(r.m)"),
     "from_coordinate": Fn("from_coordinate", ensures="r == *c"),
     "new_xy": Fn("new_xy", ensures="r.x == x, r.y == y, fnan(r.z), fnan(r.m)"),
     "new_xyz": Fn("new_xyz", ensures="r.x == x, r.y == y, r.z == z, fnan(r.m)"),
     "new_xym": Fn("new_xym", ensures="r.x == x, r.y == y, r.m == m, fnan(r.z)"),
     "new_xyzm": Fn("new_xyzm", ensures="r.x == x, r.y == y, r.z == z, r.m == m"),
     "new_coordinatexy_default": Fn("new_coordinatexy_default", ensures="r.x == 0.0f64, r.y == 0.0f64, fnan(r.z), fnan(r.m)"),
     "new_coordinatexym_default": Fn("new_coordinatexym_default", ensures="r.x == 0.0f64, r.y == 0.0f64, fnan(r.z), r.m == 0.0f64"),
     "new_coordinatexyzm_default": Fn("new_coordinatexyzm_default", ensures="r.x == 0.0f64, r.y == 0.0f64, r.z == 0.0f64, r.m == 0.0f64"),
     "get_z": Fn("get_z", ensures="r == self.z"),
     "get_m": Fn("get_m", ensures="r == self.m"),
     "get_ordinate": Fn("get_ordinate", ensures="ordinate_index == 0 ==> r == Some(self.x), ordinate_index == 1 ==> r == Some(self.y), ordinate_index == 2 ==> r == Some(self.z), (ordinate_index < 0 || ordinate_index > 2) ==> r.is_none()"),
     "set_ordinate": Fn("set_ordinate", ensures="""*final(self) == (Coordinate { x: if ordinate_index == 0 { value } else { old(self).x }, y: if ordinate_index == 1 { value } else { old(self).y },
          z: if ordinate_index == 2 { value } else { old(self).z }, m: old(self).m })"""),
     "set_z": Fn("set_z", ensures="*final(self) == (Coordinate { x: old(self).x, y: old(self).y, z: z, m: old(self).m })"),
     "set_coordinate": Fn("set_coordinate", ensures="*final(self) == (Coordinate { x: other.x, y: other.y, z: other.z, m: old(self).m })"),
     "equals_2d": Fn("equals_2d", ensures="ipt(*self) && ipt(*other) ==> r == eqp(*self, *other), fpt(*self) && fpt(*other) ==> r == eqv(*self, *other)",
                     start="broadcast use f64_ax, f64_int, ty_ax;"),
     "compare_to": Fn("compare_to", ensures="fpt(*self) && fpt(*other) ==> r == cmpv(*self, *other)", start="broadcast use f64_ax, f64_int, ty_ax;"),
    }
    need = {"from_coordinate": ["get_z", "get_m"], "set_coordinate": ["get_z"], "set_ordinate": ["set_z"]}
    want = []
    for n in names:
        for k in need.get(n, []) + [n]:
            if k not in want:
                want.append(k)
    cons = [c for c in ["X", "Y", "Z", "M"]] if any(n in ("get_ordinate", "set_ordinate") for n in want) else ["X", "Y"]
    return dict(file=COORD[0], ty="Coordinate", consts=cons, fns=[copy.deepcopy(F[n]) for n in want])

def sequence(*names):
    """contracts of CoordinateArraySequence's accessors"""
    F = {
     "size": Fn("size", ensures="r == self.coordinates@.len()"),
     "get_dimension": Fn("get_dimension", ensures="r == self.dimension"),
     "get_measures": Fn("get_measures", ensures="r == self.measures"),
     "get_coordinate_index": Fn("get_coordinate_index", requires="i < self.coordinates@.len()", ensures="r == self.coordinates@[i as int]"),
     "get_coordinate_copy": Fn("get_coordinate_copy", requires="i < self.coordinates@.len()", ensures="r == self.coordinates@[i as int]"),
     "get_x": Fn("get_x", requires="index < self.coordinates@.len()", ensures="r == self.coordinates@[index as int].x"),
     "get_y": Fn("get_y", requires="index < self.coordinates@.len()", ensures="r == self.coordinates@[index as int].y"),
     "get_ordinate": Fn("get_ordinate", requires="index < self.coordinates@.len()",
        ensures="ordinate_index == 0 ==> r == self.coordinates@[index as int].x, ordinate_index == 1 ==> r == self.coordinates@[index as int].y, ordinate_index == 2 ==> r == self.coordinates@[index as int].z, (ordinate_index < 0 || ordinate_index > 2) ==> fnan(r)"),
     "set_ordinate": Fn("set_ordinate", requires="index < old(self).coordinates@.len()",
        ensures="""final(self).dimension == old(self).dimension, final(self).measures == old(self).measures,
          final(self).coordinates@ == old(self).coordinates@.update(index as int, setord(old(self).coordinates@[index as int], ordinate_index, value))""",
          end="proof { assert(self.coordinates@ =~= old(self).coordinates@.update(index as int, setord(old(self).coordinates@[index as int], ordinate_index, value))); }"),
     "get_coordinate_index_coordinate": Fn("get_coordinate_index_coordinate", requires="index < self.coordinates@.len()",
        ensures="final(coord).x == self.coordinates@[index as int].x, final(coord).y == self.coordinates@[index as int].y, final(coord).z == self.coordinates@[index as int].z, final(coord).m == old(coord).m"),
     "new_with_coordinates_dimension_measures": Fn("new_with_coordinates_dimension_measures", ensures="r.coordinates == coordinates, r.dimension == dimension, r.measures == measures"),
     "create_coordinate": Fn("create_coordinate"),
     "create_coordinate_default": Fn("create_coordinate_default"),
    }
    return dict(file=CAS[0], ty="CoordinateArraySequence", consts=["X", "Y", "Z", "M"], fns=[copy.deepcopy(F[n]) for n in names])

PTS = """
pub open spec fn ipt(c: Coordinate) -> bool { i24(c.x) && i24(c.y) }
pub open spec fn fpt(c: Coordinate) -> bool { fin(c.x) && fin(c.y) }
pub open spec fn eqp(a: Coordinate, b: Coordinate) -> bool { it(a.x) == it(b.x) && it(a.y) == it(b.y) }
pub open spec fn eqv(a: Coordinate, b: Coordinate) -> bool { val(a.x) == val(b.x) && val(a.y) == val(b.y) }
pub open spec fn cmpv(a: Coordinate, b: Coordinate) -> i32 {
  if val(a.x) < val(b.x) { -1i32 } else if val(a.x) > val(b.x) { 1i32 } else if val(a.y) < val(b.y) { -1i32 } else if val(a.y) > val(b.y) { 1i32 } else { 0i32 } }
pub open spec fn setord(c: Coordinate, k: i32, v: f64) -> Coordinate {
  Coordinate { x: if k == 0 { v } else { c.x }, y: if k == 1 { v } else { c.y }, z: if k == 2 { v } else { c.z }, m: c.m } }
pub open spec fn dt(a: Coordinate, b: Coordinate, c: Coordinate) -> int { deti(it(a.x), it(a.y), it(b.x), it(b.y), it(c.x), it(c.y)) }
"""

PACKED = """
pub open spec fn plen(s: PackedCoordinateSequenceDouble) -> int { if s.dimension > 0 { s.coords@.len() as int / s.dimension as int } else { 0 } }
pub open spec fn pok(s: PackedCoordinateSequenceDouble) -> bool { s.dimension >= 2 }
/// ordinate k of point i is inside the flat array
pub proof fn lemma_pdim(s: PackedCoordinateSequenceDouble, i: int, k: int)
  requires s.dimension > 0, 0 <= i < plen(s), 0 <= k < s.dimension
  ensures 0 <= i * s.dimension, 0 <= i * s.dimension + k < s.coords@.len(), i * s.dimension <= s.coords@.len() <= usize::MAX
{ let l = s.coords.len(); let (n, d) = (s.coords@.len() as int, s.dimension as int);
  assert(l == s.coords@.len());
  assert(0 <= i * d && i * d + d <= n) by (nonlinear_arith) requires 0 <= i < n / d, d > 0; }
pub proof fn lemma_pidx(s: PackedCoordinateSequenceDouble, i: int) ensures true { }
"""
# std: a cloned vector of plain (Copy) data holds the same elements
TOVEC = """
pub assume_specification<T: Clone> [ <[T]>::to_vec ](v: &[T]) -> (r: Vec<T>) ensures r@ == v@;
"""
