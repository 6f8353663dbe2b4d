from rsx import Fn
USES = ["real"]
STRUCTS = [("src/core/math/matrix.rs", "Matrix", "")]
PRELUDE = """
pub type Mat = Seq<Vec<f64>>;
pub open spec fn el(a: Mat, r: int, c: int) -> real { val(a[r]@[c]) }
pub open spec fn square(a: Mat, n: int) -> bool { a.len() == n && forall|r: int| 0 <= r < n ==> (#[trigger] a[r])@.len() == n }
/// columns lo up to hi of a row times x
pub open spec fn dot(w: Seq<f64>, x: Seq<real>, lo: int, hi: int) -> real decreases hi - lo { if lo >= hi { 0real } else { dot(w, x, lo, hi - 1) + val(w[hi - 1]) * x[hi - 1] } }
pub open spec fn rowv(a: Mat, x: Seq<real>, r: int) -> real { dot(a[r]@, x, 0, a.len() as int) }
/// x solves the system
pub open spec fn sat(a: Mat, b: Seq<f64>, x: Seq<real>) -> bool { forall|r: int| 0 <= r < a.len() ==> #[trigger] rowv(a, x, r) == val(b[r]) }
/// x is in the null space
pub open spec fn hom(a: Mat, x: Seq<real>) -> bool { forall|r: int| 0 <= r < a.len() ==> #[trigger] rowv(a, x, r) == 0real }
/// the systems have the same solutions and the same null space
pub open spec fn equiv(a: Mat, b: Seq<f64>, c: Mat, d: Seq<f64>) -> bool { (forall|x: Seq<real>| #[trigger] sat(a, b, x) == sat(c, d, x)) && (forall|x: Seq<real>| #[trigger] hom(a, x) == hom(c, x)) }
/// columns before i are those of an upper triangular matrix with nonzero diagonal
pub open spec fn tri(a: Mat, i: int) -> bool { (forall|c: int, r: int| 0 <= c < i && c < r < a.len() ==> #[trigger] el(a, r, c) == 0real) && (forall|c: int| 0 <= c < i ==> #[trigger] el(a, c, c) != 0real) }
pub open spec fn xs(s: Seq<f64>) -> Seq<real> { Seq::new(s.len(), |i: int| val(s[i])) }
/// y is a nonzero vector of the null space
pub open spec fn nullv(a: Mat, y: Seq<real>) -> bool { y.len() == a.len() && hom(a, y) && exists|c: int| 0 <= c < y.len() && #[trigger] y[c] != 0real }
pub open spec fn singular(a: Mat) -> bool { exists|y: Seq<real>| nullv(a, y) }

pub proof fn lemma_split(w: Seq<f64>, x: Seq<real>, lo: int, m: int, hi: int) requires lo <= m <= hi ensures dot(w, x, lo, hi) == dot(w, x, lo, m) + dot(w, x, m, hi) decreases hi - m
{ if m < hi { lemma_split(w, x, lo, m, hi - 1); } }
pub proof fn lemma_none(w: Seq<f64>, x: Seq<real>, lo: int, hi: int) requires forall|c: int| lo <= c < hi ==> val(#[trigger] w[c]) == 0real || x[c] == 0real ensures dot(w, x, lo, hi) == 0real decreases hi - lo
{ if lo < hi { lemma_none(w, x, lo, hi - 1); let (p, q) = (val(w[hi - 1]), x[hi - 1]); assert(p * q == 0real) by (nonlinear_arith) requires p == 0real || q == 0real; } }
pub proof fn lemma_upd(w: Seq<f64>, x: Seq<real>, k: int, v: real, lo: int, hi: int) requires 0 <= k < x.len(), lo >= 0, hi <= x.len(), !(lo <= k < hi) || val(w[k]) == 0real
  ensures dot(w, x.update(k, v), lo, hi) == dot(w, x, lo, hi) decreases hi - lo
{ if lo < hi { lemma_upd(w, x, k, v, lo, hi - 1); if k == hi - 1 { let q = x[k]; let p = val(w[k]); assert(p * q == 0real && p * v == 0real) by (nonlinear_arith) requires p == 0real; } } }
pub proof fn lemma_lin(w: Seq<f64>, u: Seq<f64>, v: Seq<f64>, f: real, x: Seq<real>, lo: int, hi: int) requires forall|c: int| lo <= c < hi ==> val(#[trigger] w[c]) == val(u[c]) - val(v[c]) * f
  ensures dot(w, x, lo, hi) == dot(u, x, lo, hi) - dot(v, x, lo, hi) * f decreases hi - lo
{ if lo < hi { lemma_lin(w, u, v, f, x, lo, hi - 1); let (p, q, y) = (val(u[hi - 1]), val(v[hi - 1]), x[hi - 1]);
    let (d, e) = (dot(v, x, lo, hi - 1), q * y); 
    assert((p - q * f) * y == p * y - e * f) by (nonlinear_arith) requires e == q * y;
    assert((d + e) * f == d * f + e * f) by (nonlinear_arith); } else { assert(0real * f == 0real) by (nonlinear_arith); } }
/// exchanging two rows changes neither solutions nor null space
pub proof fn lemma_swap(a: Mat, b: Seq<f64>, c: Mat, d: Seq<f64>, i: int, j: int)
  requires square(a, b.len() as int), c.len() == a.len(), d.len() == b.len(), 0 <= i < a.len(), 0 <= j < a.len(),
    forall|r: int| 0 <= r < a.len() ==> (#[trigger] c[r])@ == a[if r == i { j } else if r == j { i } else { r }]@, d == b.update(i, b[j]).update(j, b[i])
  ensures square(c, b.len() as int), equiv(c, d, a, b)
{ assert forall|x: Seq<real>| #[trigger] sat(c, d, x) == sat(a, b, x) by { lemma_swap1(a, b, c, d, i, j, x); }
  assert forall|x: Seq<real>| #[trigger] hom(c, x) == hom(a, x) by { lemma_swap1(a, b, c, d, i, j, x); } }
pub proof fn lemma_swap1(a: Mat, b: Seq<f64>, c: Mat, d: Seq<f64>, i: int, j: int, x: Seq<real>)
  requires square(a, b.len() as int), c.len() == a.len(), d.len() == b.len(), 0 <= i < a.len(), 0 <= j < a.len(),
    forall|r: int| 0 <= r < a.len() ==> (#[trigger] c[r])@ == a[if r == i { j } else if r == j { i } else { r }]@, d == b.update(i, b[j]).update(j, b[i])
  ensures sat(c, d, x) == sat(a, b, x), hom(c, x) == hom(a, x)
{ let p = |r: int| if r == i { j } else if r == j { i } else { r };
  assert forall|r: int| 0 <= r < a.len() implies #[trigger] rowv(c, x, r) == rowv(a, x, p(r)) && d[r] == b[p(r)] by { }
  assert forall|r: int| 0 <= r < a.len() implies #[trigger] rowv(a, x, r) == rowv(c, x, p(r)) && b[r] == d[p(r)] by { assert(p(p(r)) == r); assert(rowv(c, x, p(r)) == rowv(a, x, p(p(r)))); }
}
/// subtracting a multiple of row i from row j changes neither solutions nor null space
pub open spec fn elim(a: Mat, b: Seq<f64>, c: Mat, d: Seq<f64>, i: int, j: int, f: real) -> bool {
  square(a, b.len() as int) && square(c, b.len() as int) && d.len() == b.len() && 0 <= i < a.len() && 0 <= j < a.len() && i != j
  && (forall|r: int| 0 <= r < a.len() && r != j ==> (#[trigger] c[r])@ == a[r]@ && d[r] == b[r])
  && (forall|k: int| 0 <= k < a.len() ==> val(#[trigger] c[j]@[k]) == val(a[j]@[k]) - val(a[i]@[k]) * f) && val(d[j]) == val(b[j]) - val(b[i]) * f }
pub proof fn lemma_elim1(a: Mat, b: Seq<f64>, c: Mat, d: Seq<f64>, i: int, j: int, f: real, x: Seq<real>) requires elim(a, b, c, d, i, j, f)
  ensures sat(c, d, x) == sat(a, b, x), hom(c, x) == hom(a, x)
{ let n = a.len() as int;
  lemma_lin(c[j]@, a[j]@, a[i]@, f, x, 0, n);
  assert(rowv(c, x, j) == rowv(a, x, j) - rowv(a, x, i) * f);
  assert(c[i]@ == a[i]@);
  assert(rowv(c, x, i) == rowv(a, x, i));
  assert forall|r: int| 0 <= r < n && r != j implies #[trigger] rowv(c, x, r) == rowv(a, x, r) by { assert(c[r]@ == a[r]@); }
  assert forall|r: int| 0 <= r < n && r != j implies #[trigger] rowv(a, x, r) == rowv(c, x, r) by { assert(c[r]@ == a[r]@); }
  if sat(c, d, x) { assert(rowv(c, x, i) == val(d[i])); assert(d[i] == b[i]) by { assert(c[i]@ == a[i]@); } assert forall|r: int| 0 <= r < n implies #[trigger] rowv(a, x, r) == val(b[r]) by { assert(rowv(c, x, r) == val(d[r])); assert(r != j ==> c[r]@ == a[r]@); } }
  if sat(a, b, x) { assert(rowv(a, x, i) == val(b[i])); assert forall|r: int| 0 <= r < n implies #[trigger] rowv(c, x, r) == val(d[r]) by { assert(rowv(a, x, r) == val(b[r])); assert(r != j ==> c[r]@ == a[r]@); } }
  if hom(c, x) { assert(rowv(c, x, i) == 0real); assert(0real * f == 0real) by (nonlinear_arith); assert forall|r: int| 0 <= r < n implies #[trigger] rowv(a, x, r) == 0real by { assert(rowv(c, x, r) == 0real); } }
  if hom(a, x) { assert(rowv(a, x, i) == 0real); assert(0real * f == 0real) by (nonlinear_arith); assert forall|r: int| 0 <= r < n implies #[trigger] rowv(c, x, r) == 0real by { assert(rowv(a, x, r) == 0real); } }
}
pub proof fn lemma_elim(a: Mat, b: Seq<f64>, c: Mat, d: Seq<f64>, i: int, j: int, f: real) requires elim(a, b, c, d, i, j, f) ensures equiv(c, d, a, b)
{ assert forall|x: Seq<real>| #[trigger] sat(c, d, x) == sat(a, b, x) by { lemma_elim1(a, b, c, d, i, j, f, x); }
  assert forall|x: Seq<real>| #[trigger] hom(c, x) == hom(a, x) by { lemma_elim1(a, b, c, d, i, j, f, x); } }
/// a vanishing pivot column: the vector solving the rows above it is in the null space
pub open spec fn part(a: Mat, i: int, k: int, y: Seq<real>) -> bool { y.len() == a.len() && y[i] == 1real && (forall|c: int| i < c < a.len() ==> #[trigger] y[c] == 0real) && (forall|r: int| k <= r < i ==> #[trigger] rowv(a, y, r) == 0real) }
pub proof fn lemma_part(a: Mat, i: int, k: int) -> (y: Seq<real>) requires square(a, a.len() as int), tri(a, i), 0 <= k <= i < a.len() ensures part(a, i, k, y) decreases i - k
{ let n = a.len() as int;
  if k == i { Seq::new(a.len(), |c: int| if c == i { 1real } else { 0real }) }
  else { let y = lemma_part(a, i, k + 1); let p = el(a, k, k); let t = dot(a[k]@, y, k + 1, n); let v = -t / p; let z = y.update(k, v);
    assert(p * v == -t) by (nonlinear_arith) requires v == -t / p, p != 0real;
    assert forall|r: int| k <= r < i implies #[trigger] rowv(a, z, r) == 0real by {
      if r > k { assert(el(a, r, k) == 0real); lemma_upd(a[r]@, y, k, v, 0, n); assert(rowv(a, y, r) == 0real); }
      else { lemma_split(a[k]@, z, 0, k, n); lemma_split(a[k]@, z, k, k + 1, n); lemma_upd(a[k]@, y, k, v, k + 1, n);
        assert forall|c: int| 0 <= c < k implies val(#[trigger] a[k]@[c]) == 0real by { assert(el(a, k, c) == 0real); } lemma_none(a[k]@, z, 0, k);
        assert(dot(a[k]@, z, k, k) == 0real); assert(dot(a[k]@, z, k, k + 1) == p * v); } }
    z } }
pub proof fn lemma_singular(a: Mat, i: int) requires square(a, a.len() as int), tri(a, i), 0 <= i < a.len(), forall|r: int| i <= r < a.len() ==> #[trigger] el(a, r, i) == 0real ensures singular(a)
{ let n = a.len() as int; let y = lemma_part(a, i, 0);
  assert forall|r: int| 0 <= r < n implies #[trigger] rowv(a, y, r) == 0real by {
    if r >= i { assert forall|c: int| 0 <= c < n implies val(#[trigger] a[r]@[c]) == 0real || y[c] == 0real by { if c < i { assert(el(a, r, c) == 0real); } else if c == i { assert(el(a, r, i) == 0real); } } lemma_none(a[r]@, y, 0, n); } }
  assert(y[i] != 0real); assert(nullv(a, y)); }
pub proof fn lemma_equiv_singular(a: Mat, b: Seq<f64>, c: Mat, d: Seq<f64>) requires equiv(a, b, c, d), a.len() == c.len(), singular(a) ensures singular(c)
{ let y = choose|y: Seq<real>| nullv(a, y); assert(hom(a, y)); assert(hom(c, y)); assert(nullv(c, y)); }
/// rows of a triangular system, from the diagonal on
pub proof fn lemma_row(a: Mat, x: Seq<real>, r: int) requires tri(a, a.len() as int), 0 <= r < a.len() ensures rowv(a, x, r) == dot(a[r]@, x, r, a.len() as int)
{ let n = a.len() as int; lemma_split(a[r]@, x, 0, r, n); assert forall|c: int| 0 <= c < r implies val(#[trigger] a[r]@[c]) == 0real by { assert(el(a, r, c) == 0real); } lemma_none(a[r]@, x, 0, r); }
pub proof fn lemma_same(w: Seq<f64>, x: Seq<real>, y: Seq<real>, lo: int, hi: int) requires forall|c: int| lo <= c < hi ==> #[trigger] x[c] == y[c] ensures dot(w, x, lo, hi) == dot(w, y, lo, hi) decreases hi - lo
{ if lo < hi { lemma_same(w, x, y, lo, hi - 1); } }
pub proof fn lemma_unique(a: Mat, b: Seq<f64>, x: Seq<real>, y: Seq<real>, k: int) requires square(a, a.len() as int), tri(a, a.len() as int), sat(a, b, x), sat(a, b, y), x.len() == a.len(), y.len() == a.len(), 0 <= k <= a.len()
  ensures forall|c: int| k <= c < a.len() ==> #[trigger] x[c] == y[c] decreases a.len() - k
{ let n = a.len() as int; if k < n { lemma_unique(a, b, x, y, k + 1); lemma_row(a, x, k); lemma_row(a, y, k); lemma_split(a[k]@, x, k, k + 1, n); lemma_split(a[k]@, y, k, k + 1, n); lemma_same(a[k]@, x, y, k + 1, n);
    assert(rowv(a, x, k) == val(b[k])); assert(rowv(a, y, k) == val(b[k]));
    let (p, u, v) = (el(a, k, k), x[k], y[k]); assert(p != 0real);
    assert(dot(a[k]@, x, k, k) == 0real && dot(a[k]@, y, k, k) == 0real); assert(p * u == p * v); assert(u == v) by (nonlinear_arith) requires p * u == p * v, p != 0real; } }
/// the answer: a solution, and the only one
pub open spec fn solved(a: Mat, b: Seq<f64>, s: Seq<f64>) -> bool { s.len() == b.len() && sat(a, b, xs(s)) && forall|x: Seq<real>| x.len() == b.len() && #[trigger] sat(a, b, x) ==> x == xs(s) }
pub proof fn lemma_done(a: Mat, b: Seq<f64>, c: Mat, d: Seq<f64>, s: Seq<f64>) requires square(a, b.len() as int), tri(a, a.len() as int), equiv(a, b, c, d), d.len() == b.len(), s.len() == b.len(),
   forall|r: int| 0 <= r < a.len() ==> #[trigger] dot(a[r]@, xs(s), r, a.len() as int) == val(b[r]) ensures solved(c, d, s)
{ assert forall|r: int| 0 <= r < a.len() implies #[trigger] rowv(a, xs(s), r) == val(b[r]) by { lemma_row(a, xs(s), r); }
  assert(sat(a, b, xs(s)));
  assert forall|x: Seq<real>| x.len() == d.len() && #[trigger] sat(c, d, x) implies x == xs(s) by { assert(sat(a, b, x)); lemma_unique(a, b, x, xs(s), 0); assert(x =~= xs(s)); } }
"""
ST = "broadcast use real_ax; proof { ax_lit(); }"
IMPLS = [dict(file="src/core/math/matrix.rs", ty="Matrix", fns=[
   Fn("swap_rows_1d", requires="i < old(m)@.len(), j < old(m)@.len()", ensures="final(m)@ =~= old(m)@.update(i as int, old(m)@[j as int]).update(j as int, old(m)@[i as int])"),
   Fn("swap_rows_2d", requires="i < old(m)@.len(), j < old(m)@.len(), square(old(m)@, old(m)@.len() as int)", ensures="final(m)@.len() == old(m)@.len(), forall|r: int| 0 <= r < old(m)@.len() ==> (#[trigger] final(m)@[r])@ =~= old(m)@[if r == i { j as int } else if r == j { i as int } else { r }]@",
      loops=[dict(kind="for", inv="""invariant i != j, square(m@, old(m)@.len() as int), square(old(m)@, old(m)@.len() as int), i < m@.len(), j < m@.len(),
        forall|r: int, c: int| 0 <= r < m@.len() && 0 <= c < m@.len() ==> #[trigger] m@[r]@[c] == if c < $v && r == i { old(m)@[j as int]@[c] } else if c < $v && r == j { old(m)@[i as int]@[c] } else { old(m)@[r]@[c] },""")]),
   Fn("solve", requires="old(b)@.len() > 0, old(a)@.len() > 0, forall|r: int| 0 <= r < old(a)@.len() ==> (#[trigger] old(a)@[r])@.len() == old(a)@[0]@.len()",
      ensures="""square(old(a)@, old(b)@.len() as int) && r.is_some() ==> solved(old(a)@, old(b)@, r.unwrap()@), square(old(a)@, old(b)@.len() as int) && r.is_none() ==> singular(old(a)@),
         !square(old(a)@, old(b)@.len() as int) ==> r.is_none()""", start=ST + "let ghost A0 = a@; let ghost B0 = b@;",
      loops=[dict(kind="for", inv="invariant A0 == old(a)@, B0 == old(b)@, A0.len() == n, B0.len() == n, square(A0, n as int), square(a@, n as int), b@.len() == n, tri(a@, $v as int), equiv(a@, b@, A0, B0),", start="let ghost A1 = a@; let ghost B1 = b@;"),
             dict(kind="while", inv="invariant i < j <= n, i <= max_element_row < n, forall|r: int| i <= r < j ==> rabs(#[trigger] el(a@, r, i as int)) <= rabs(el(a@, max_element_row as int, i as int)), decreases n - j",
                  after="proof { if el(a@, max_element_row as int, i as int) == 0real { lemma_singular(a@, i as int); lemma_equiv_singular(a@, b@, A0, B0); } }"),
             dict(kind="while", inv="invariant i < j <= n, square(a@, n as int), b@.len() == n, el(a@, i as int, i as int) != 0real, tri(a@, i as int), equiv(a@, b@, A0, B0), forall|r: int| i < r < j ==> #[trigger] el(a@, r, i as int) == 0real, decreases n - j",
                  start="let ghost A2 = a@; let ghost B2 = b@;",
                  before="proof { lemma_swap(A1, B1, a@, b@, i as int, max_element_row as int); assert forall|c: int, r: int| 0 <= c < i && c < r < n implies #[trigger] el(a@, r, c) == 0real by { assert(a@[r]@ == A1[if r == i { max_element_row as int } else if r == max_element_row { i as int } else { r }]@); assert(el(A1, i as int, c) == 0real && el(A1, max_element_row as int, c) == 0real && el(A1, r, c) == 0real); } assert forall|c: int| 0 <= c < i implies #[trigger] el(a@, c, c) != 0real by { assert(a@[c]@ == A1[c]@); assert(el(A1, c, c) != 0real); } assert(a@[i as int]@ == A1[max_element_row as int]@); }",
                  end="""proof { let f = val(row_factor); let J = j - 1; let (p, q) = (el(A2, J, i as int), el(A2, i as int, i as int));
                    assert forall|k: int| 0 <= k < n implies val(#[trigger] a@[J]@[k]) == val(A2[J]@[k]) - val(A2[i as int]@[k]) * f by { if k < i { assert(el(A2, i as int, k) == 0real); assert(0real * f == 0real) by (nonlinear_arith); } }
                    assert(elim(A2, B2, a@, b@, i as int, J, f)); lemma_elim(A2, B2, a@, b@, i as int, J, f);
                    assert(p - q * f == 0real) by (nonlinear_arith) requires f == p / q, q != 0real;
                    assert forall|c: int, r: int| 0 <= c < i && c < r < n implies #[trigger] el(a@, r, c) == 0real by { assert(el(A2, r, c) == 0real); if r == J { assert(a@[J]@[c] == A2[J]@[c]); } else { assert(a@[r]@ == A2[r]@); } }
                    assert forall|c: int| 0 <= c < i implies #[trigger] el(a@, c, c) != 0real by { assert(el(A2, c, c) != 0real); assert(a@[c]@ == A2[c]@); }
                    assert(a@[i as int]@ == A2[i as int]@);
                    assert forall|r: int| i < r < j implies #[trigger] el(a@, r, i as int) == 0real by { if r == J { assert(val(a@[J]@[i as int]) == p - q * f); } else { assert(a@[r]@ == A2[r]@); assert(el(A2, r, i as int) == 0real); } } }""",
                  ),
             dict(kind="while", inv="""invariant i <= k <= n, i < j < n, square(a@, n as int), square(A2, n as int), b@ == B2, b@.len() == n, forall|r: int| 0 <= r < n && r != j ==> (#[trigger] a@[r])@ == A2[r]@,
                     forall|c: int| 0 <= c < k ==> (#[trigger] a@[j as int]@[c]) == A2[j as int]@[c], forall|c: int| k <= c < n ==> val(#[trigger] a@[j as int]@[c]) == val(A2[j as int]@[c]) - val(A2[i as int]@[c]) * val(row_factor), decreases k"""),
             dict(kind="while", inv="invariant j <= n, square(a@, n as int), b@.len() == n, solution@.len() == n, forall|r: int| j <= r < n ==> #[trigger] dot(a@[r]@, xs(solution@), r, n as int) == val(b@[r]), decreases j",
                  end="""proof { let X = xs(S0); let v = val(solution@[j as int]); assert(xs(solution@) =~= X.update(j as int, v));
                     assert forall|r: int| j <= r < n implies #[trigger] dot(a@[r]@, xs(solution@), r, n as int) == val(b@[r]) by {
                       if r > j { lemma_upd(a@[r]@, X, j as int, v, r, n as int); assert(dot(a@[r]@, X, r, n as int) == val(b@[r])); }
                       else { let w = a@[r]@; lemma_split(w, X.update(j as int, v), r, r + 1, n as int); lemma_upd(w, X, j as int, v, r + 1, n as int); let p = el(a@, r, r); assert(p != 0real); let u = val(b@[r]) - val(t); assert(dot(w, X.update(j as int, v), r, r) == 0real);
                              assert(p * v == u) by (nonlinear_arith) requires v == u / p, p != 0real; } } }""",
                  start="let ghost S0 = solution@;", after="proof { lemma_done(a@, b@, A0, B0, solution@); }"),
             dict(kind="while", inv="invariant j < k <= n, j < n, solution@ == S0, val(t) == dot(a@[j as int]@, xs(S0), j + 1, k as int), decreases n - k"),
      ]),
 ])]
LEMMAS = """
"""
ASSUMPTIONS = ["machine arithmetic treated as mathematical (exact reals); rounding only by the native search"]
