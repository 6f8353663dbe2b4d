use crate::core::geom::dimension::Dimension;
use crate::core::geom::intersection_matrix::IntersectionMatrix as IM;
use crate::core::geom::location::Location;
use crate::src::{Meta, S};
use crate::util::*;

/// Specification level: a DE-9IM matrix as nine values in {*, T, F, 0, 1, 2} = {-3, -2, -1, 0, 1, 2}.
type M9 = [i32; 9];

fn entries(s: &mut S) -> M9 {
    let mut e = [0i32; 9];
    let mut i = 0;
    while i < 9 {
        e[i] = s.int8(-3, 2) as i32;
        i += 1;
    }
    e
}
fn build(e: &M9) -> IM {
    let mut m = IM::default();
    let mut i = 0;
    while i < 9 {
        m.set_row_column_value(i / 3, i % 3, e[i]);
        i += 1;
    }
    m
}
fn read(m: &IM) -> M9 {
    [m.get(0, 0), m.get(0, 1), m.get(0, 2), m.get(1, 0), m.get(1, 1), m.get(1, 2), m.get(2, 0), m.get(2, 1), m.get(2, 2)]
}
fn arr_eq(a: &M9, b: &M9) -> bool {
    a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4] && a[5] == b[5] && a[6] == b[6] && a[7] == b[7] && a[8] == b[8]
}
fn trans(e: &M9) -> M9 {
    [e[0], e[3], e[6], e[1], e[4], e[7], e[2], e[5], e[8]]
}
/// One cell against one pattern symbol (OGC SFS definition)
fn cell(v: i32, p: u8) -> bool {
    match p {
        b'*' => true,
        b'T' => v >= 0 || v == -2,
        b'F' => v == -1,
        b'0' => v == 0,
        b'1' => v == 1,
        b'2' => v == 2,
        _ => false,
    }
}
fn pat(e: &M9, p: &[u8; 9]) -> bool {
    cell(e[0], p[0]) && cell(e[1], p[1]) && cell(e[2], p[2]) && cell(e[3], p[3]) && cell(e[4], p[4])
        && cell(e[5], p[5]) && cell(e[6], p[6]) && cell(e[7], p[7]) && cell(e[8], p[8])
}
/// The nine ASCII symbols as the String argument of the matrix functions.
fn mkstr(p: &[u8; 9]) -> String {
    // all bytes are ASCII, so this is valid UTF-8
    unsafe { String::from_utf8_unchecked(p.to_vec()) }
}
const SYM: [u8; 6] = [b'*', b'T', b'F', b'0', b'1', b'2'];
const VAL: [i32; 6] = [-3, -2, -1, 0, 1, 2];
/// a dimension, in and around the valid range (FALSE for empty)
fn dim(s: &mut S) -> i32 {
    s.int8(-3, 4) as i32
}
fn touches_dims(a: i32, b: i32) -> bool {
    let (l, h) = if a <= b { (a, b) } else { (b, a) };
    (l == 2 && h == 2) || (l == 1 && (h == 1 || h == 2)) || (l == 0 && (h == 1 || h == 2))
}

fn symbols(s: &mut S) -> ([u8; 9], M9) {
    let mut p = [0u8; 9];
    let mut v = [0i32; 9];
    let mut i = 0;
    while i < 9 {
        let k = s.below(6);
        p[i] = SYM[k];
        v[i] = VAL[k];
        i += 1;
    }
    (p, v)
}

contracts! {
    { f: "IntersectionMatrix::get, IntersectionMatrix::set_row_column_value, IntersectionMatrix::default" }
    #[kani::unwind(11)]
    fn cells_read_back(s) {
        let d = IM::default();
        ck!(arr_eq(&read(&d), &[-1; 9]), "default: every cell is F");
        let e = entries(s);
        let m = build(&e);
        ck!(arr_eq(&read(&m), &e), "set/get: every cell reads back what was stored");
        let (r, c) = (s.below(3), s.below(3));
        let v = s.i32();
        let mut n = build(&e);
        n.set_row_column_value(r, c, v);
        let (r2, c2) = (s.below(3), s.below(3));
        ck!(n.get(r2, c2) == if r == r2 && c == c2 { v } else { e[3 * r2 + c2] }, "set: changes exactly one cell");
    }
    { f: "IntersectionMatrix::new_from_intersection_matrix, IntersectionMatrix::equals, IntersectionMatrix::set_all" }
    #[kani::unwind(11)]
    fn copy_and_equality(s) {
        let (a, b) = (entries(s), entries(s));
        let (ma, mb) = (build(&a), build(&b));
        ck!(arr_eq(&read(&IM::new_from_intersection_matrix(&ma)), &a), "copy: same cells");
        ck!(ma.equals(&mb) == arr_eq(&a, &b), "equals: exactly when all nine cells agree");
        let v = dim(s);
        let mut mc = build(&a);
        mc.set_all(v);
        ck!(arr_eq(&read(&mc), &[v; 9]), "set_all: every cell");
    }
    { f: "IntersectionMatrix::add, IntersectionMatrix::set_at_least_row_column_dimension, IntersectionMatrix::set_at_least_row_column_dimension_if_valid" }
    #[kani::unwind(11)]
    fn at_least_is_max(s) {
        let (a, b) = (entries(s), entries(s));
        let mut m = build(&a);
        m.add(&build(&b));
        let r = read(&m);
        let k = s.below(9);
        ck!(r[k] == if a[k] < b[k] { b[k] } else { a[k] }, "add: cellwise maximum");
        let v = dim(s);
        let (i, j) = (s.below(3), s.below(3));
        let mut n = build(&a);
        n.set_at_least_row_column_dimension(i, j, v);
        let q = 3 * i + j;
        ck!(read(&n)[k] == if k == q && a[k] < v { v } else { a[k] }, "set_at_least: raises one cell, never lowers");
        let mut n2 = build(&a);
        n2.set_at_least_row_column_dimension_if_valid(i, j, v);
        ck!(read(&n2)[k] == read(&n)[k], "set_at_least_if_valid: same for valid indices");
    }
    { f: "IntersectionMatrix::transpose" }
    #[kani::unwind(11)]
    fn transpose_swaps(s) {
        let e = entries(s);
        let mut m = build(&e);
        m.transpose();
        ck!(arr_eq(&read(&m), &trans(&e)), "transpose: cell (i,j) moves to (j,i)");
        m.transpose();
        ck!(arr_eq(&read(&m), &e), "transpose: involution");
    }
    { f: "IntersectionMatrix::is_true, IntersectionMatrix::is_disjoint, IntersectionMatrix::is_intersects, IntersectionMatrix::is_within, IntersectionMatrix::is_contains, IntersectionMatrix::is_covers, IntersectionMatrix::is_covered_by" }
    #[kani::unwind(11)]
    fn dimension_free_predicates(s) {
        let e = entries(s);
        let m = build(&e);
        let v = s.i32();
        ck!(m.is_true(v) == (v >= 0 || v == -2), "is_true: any dimension or T");
        ck!(m.is_disjoint() == pat(&e, b"FF*FF****"), "is_disjoint: FF*FF****");
        ck!(m.is_intersects() == !m.is_disjoint(), "is_intersects: not disjoint");
        ck!(m.is_within() == pat(&e, b"T*F**F***"), "is_within: T*F**F***");
        ck!(m.is_contains() == pat(&e, b"T*****FF*"), "is_contains: T*****FF*");
        ck!(m.is_covers() == (pat(&e, b"T*****FF*") || pat(&e, b"*T****FF*") || pat(&e, b"***T**FF*") || pat(&e, b"****T*FF*")), "is_covers: patterns");
        ck!(m.is_covered_by() == (pat(&e, b"T*F**F***") || pat(&e, b"*TF**F***") || pat(&e, b"**FT*F***") || pat(&e, b"**F*TF***")), "is_covered_by: patterns");
    }
    { f: "IntersectionMatrix::is_touches, IntersectionMatrix::is_crosses, IntersectionMatrix::is_overlaps, IntersectionMatrix::is_equals" }
    #[kani::unwind(11)]
    fn dimension_dependent_predicates(s) {
        let e = entries(s);
        let m = build(&e);
        let (a, b) = (dim(s), dim(s));
        ck!(m.is_touches(a, b) == (touches_dims(a, b) && (pat(&e, b"FT*******") || pat(&e, b"F**T*****") || pat(&e, b"F***T****"))), "is_touches: patterns by dimension");
        let cr = if (a == 0 && (b == 1 || b == 2)) || (a == 1 && b == 2) { pat(&e, b"T*T******") }
            else if (b == 0 && (a == 1 || a == 2)) || (b == 1 && a == 2) { pat(&e, b"T*****T**") }
            else if a == 1 && b == 1 { pat(&e, b"0********") } else { false };
        ck!(m.is_crosses(a, b) == cr, "is_crosses: patterns by dimension");
        let ov = if (a == 0 && b == 0) || (a == 2 && b == 2) { pat(&e, b"T*T***T**") }
            else if a == 1 && b == 1 { pat(&e, b"1*T***T**") } else { false };
        ck!(m.is_overlaps(a, b) == ov, "is_overlaps: patterns by dimension");
        ck!(m.is_equals(a, b) == (a == b && pat(&e, b"T*F**FFF*")), "is_equals: T*F**FFF* and equal dimensions");
    }
    { f: "IntersectionMatrix::transpose, IntersectionMatrix::is_within, IntersectionMatrix::is_contains, IntersectionMatrix::is_covers, IntersectionMatrix::is_covered_by, IntersectionMatrix::is_touches, IntersectionMatrix::is_crosses, IntersectionMatrix::is_overlaps, IntersectionMatrix::is_equals, IntersectionMatrix::is_disjoint" }
    #[kani::unwind(11)]
    fn transpose_duality(s) {
        let e = entries(s);
        let m = build(&e);
        let mut t = build(&e);
        t.transpose();
        let (a, b) = (dim(s), dim(s));
        ck!(m.is_within() == t.is_contains(), "within is contains of the transpose");
        ck!(m.is_contains() == t.is_within(), "contains is within of the transpose");
        ck!(m.is_covers() == t.is_covered_by(), "covers is covered-by of the transpose");
        ck!(m.is_disjoint() == t.is_disjoint(), "disjoint is symmetric");
        ck!(m.is_touches(a, b) == t.is_touches(b, a), "touches is symmetric");
        ck!(m.is_crosses(a, b) == t.is_crosses(b, a), "crosses is symmetric");
        ck!(m.is_overlaps(a, b) == t.is_overlaps(b, a), "overlaps is symmetric");
        ck!(m.is_equals(a, b) == t.is_equals(b, a), "equals is symmetric");
        if m.is_contains() { ck!(m.is_covers() && m.is_intersects(), "contains implies covers and intersects"); }
        if m.is_within() { ck!(m.is_covered_by() && m.is_intersects(), "within implies covered-by and intersects"); }
        if m.is_equals(a, b) { ck!(m.is_within() && m.is_contains(), "equals implies within and contains"); }
        if m.is_touches(a, b) || m.is_crosses(a, b) || m.is_overlaps(a, b) { ck!(m.is_intersects(), "touches, crosses and overlaps imply intersects"); }
        if m.is_touches(a, b) { ck!(!m.is_crosses(a, b) && !m.is_overlaps(a, b) && !m.is_within() && !m.is_contains(), "touches excludes interior contact"); }
    }
    { f: "IntersectionMatrix::matches_i32_char" }
    fn cell_matching(s) {
        let v = s.i32();
        let k = s.below(6);
        ck!(IM::matches_i32_char(v, SYM[k] as char) == cell(v, SYM[k]), "matches: one cell against one symbol");
        let b = s.u8();
        s.assume(!(b == b'*' || b == b'T' || b == b'F' || b == b'0' || b == b'1' || b == b'2' || b == b't' || b == b'f'));
        ck!(!IM::matches_i32_char(v, b as char), "matches: an unknown symbol matches nothing");
    }
    { f: "Dimension::to_dimension_symbol, Dimension::to_dimension_value, Location::to_location_symbol" }
    fn symbol_tables(s) {
        let v = s.i32();
        let sym = Dimension::to_dimension_symbol(v);
        ck!(sym.is_some() == (v >= -3 && v <= 2), "to_dimension_symbol: defined exactly on the six values");
        if let Some(c) = sym {
            ck!(Dimension::to_dimension_value(c) == Some(v), "to_dimension_value inverts to_dimension_symbol");
            ck!(c == SYM[(v + 3) as usize] as char, "to_dimension_symbol: OGC symbols");
        }
        let b = s.u8();
        let want = match b { b'*' => Some(-3), b'T' | b't' => Some(-2), b'F' | b'f' => Some(-1), b'0' => Some(0), b'1' => Some(1), b'2' => Some(2), _ => None };
        ck!(Dimension::to_dimension_value(b as char) == want, "to_dimension_value: six symbols, letters case-insensitive");
        let l = s.i32();
        let ls = Location::to_location_symbol(l);
        ck!(ls == match l { 0 => Some('i'), 1 => Some('b'), 2 => Some('e'), -1 => Some('-'), _ => None }, "to_location_symbol: i b e -");
    }
    { f: "IntersectionMatrix::matches_string", scope: "full" }
    #[kani::unwind(14)]
    fn pattern_matching(s) {
        let e = entries(s);
        let m = build(&e);
        let mut p = [0u8; 9];
        let mut i = 0;
        while i < 9 {
            p[i] = SYM[s.below(6)];
            i += 1;
        }
        let st = mkstr(&p);
        ck!(m.matches_string(st) == pat(&e, &p), "matches: true exactly when all nine cells match their symbols");
    }
    { f: "IntersectionMatrix::new_with_elements, IntersectionMatrix::set_string" }
    #[kani::unwind(14)]
    fn from_string(s) {
        let (p, want) = symbols(s);
        let m = IM::new_with_elements(mkstr(&p));
        ck!(arr_eq(&read(&m), &want), "new_with_elements: row-major symbols");
    }
    { f: "IntersectionMatrix::to_string", scope: "bounded: six concrete matrices in which every symbol occurs in every cell" }
    #[kani::unwind(14)]
    fn to_string_table(s) {
        let mut i = 0;
        while i < 6 {
            let mut e = [0i32; 9];
            let mut c = 0;
            while c < 9 { e[c] = VAL[(i + c) % 6]; c += 1; }
            let back = build(&e).to_string();
            let bb = back.as_bytes();
            ck!(bb.len() == 9, "to_string: nine symbols");
            c = 0;
            while c < 9 { ck!(bb[c] == SYM[(i + c) % 6], "to_string: the symbol of each cell, row-major"); c += 1; }
            i += 1;
        }
    }
    { f: "IntersectionMatrix::new_with_elements, IntersectionMatrix::to_string, IntersectionMatrix::matches_string_string", tier: "native" }
    fn string_round_trip(s) {
        let (p, want) = symbols(s);
        let m = IM::new_with_elements(mkstr(&p));
        ck!(m.to_string().as_bytes() == &p[..], "to_string inverts new_with_elements");
        let (q, _) = symbols(s);
        ck!(IM::matches_string_string(mkstr(&p), mkstr(&q)) == pat(&want, &q), "matches(actual, required): nine cells against nine symbols");
        let n = s.below(13);
        if n != 9 { ck!(!m.matches_string("*".repeat(n)), "matches: a pattern that is not nine symbols long matches nothing"); }
    }
    { f: "IntersectionMatrix::set_at_least_string" }
    #[kani::unwind(14)]
    fn at_least_string(s) {
        let e = entries(s);
        let (p, v) = symbols(s);
        let mut m = build(&e);
        m.set_at_least_string(mkstr(&p));
        let k = s.below(9);
        ck!(read(&m)[k] == if e[k] < v[k] { v[k] } else { e[k] }, "set_at_least_string: cellwise maximum");
    }
}
