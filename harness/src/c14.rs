use crate::core::math::dd::DD;
use crate::src::{Meta, S};
use crate::util::*;

/// the two words, through public queries: the nearest double and the rest
fn words(d: &DD) -> (f64, f64) { let hi = d.double_value(); let mut r = DD::copy(d); r.self_subtract_f64(hi); (hi, r.double_value()) }
/// an integer the format holds exactly
fn whole(d: &DD, k: i128) -> bool { let (h, l) = words(d); h.abs() < 1e37 && h as i128 + l as i128 == k && h.fract() == 0.0 && l.fract() == 0.0 }
fn dd_of(k: i128) -> DD { let h = k as f64; DD::new_hi_lo(h, (k - h as i128) as f64) }
fn dbl(s: &mut S) -> f64 {
    match s.int(0, 5) {
        0 => s.int(-20, 20) as f64,
        1 => s.int(-20, 20) as f64 / 8.0,
        2 => { let v = s.real(1e6, 3); if v == 0.0 || v.abs() > 1e-30 { v } else { 1.0 } }
        3 => { let m = (s.i64() >> 11) as f64; let e = s.int(-80, 20) as i32; m * 2f64.powi(e) }
        4 => { let b = 2f64.powi(s.int(-30, 52) as i32); crate::src::nudge(b, s.int(-2, 2)) * if s.bool() { 1.0 } else { -1.0 } }
        _ => (s.i64() >> 12) as f64,
    }
}
/// exact sum of doubles as nearest + rest, the textbook way
fn two_sum(a: f64, b: f64) -> (f64, f64) { let s = a + b; let x = s - a; (s, (a - (s - x)) + (b - x)) }
fn two_prod(a: f64, b: f64) -> (f64, f64) { let p = a * b; (p, a.mul_add(b, -p)) }
/// any normalized number, two words
fn num2(s: &mut S) -> DD {
    match s.int(0, 4) {
        0 => DD::new_x(s.int(-6, 6) as f64),
        1 => { let h = s.int(-4, 4) as f64; DD::new_hi_lo(h, if h == 0.0 { 0.0 } else { s.int(-2, 2) as f64 * 2f64.powi(-60) }) }
        2 => { let (h, l) = two_sum(dbl(s), dbl(s)); DD::new_hi_lo(h, l) }
        3 => { let b = 2f64.powi(s.int(53, 58) as i32) * if s.bool() { 1.0 } else { -1.0 }; let (h, l) = two_sum(b, s.int(-40, 40) as f64 / 8.0); DD::new_hi_lo(h, l) }
        _ => { let h = s.int(-9, 9) as f64 / 2.0; let (h, l) = two_sum(h, s.int(-3, 3) as f64 * 2f64.powi(-70)); DD::new_hi_lo(h, l) }
    }
}
fn eqw(d: &DD, w: (f64, f64)) -> bool { let x = DD::new_hi_lo(w.0, w.1); d.equals(&x) }
fn sign(w: (f64, f64)) -> i32 { if w.0 != 0.0 { sgn(if w.0 > 0.0 { 1 } else { -1 }) } else if w.1 > 0.0 { 1 } else if w.1 < 0.0 { -1 } else { 0 } }
/// order of two normalized numbers by real value: the sign of the exact difference of four doubles
fn order(a: &DD, b: &DD) -> i32 {
    let ((ah, al), (bh, bl)) = (words(a), words(b));
    if ah != bh { return if ah < bh { -1 } else { 1 }; }
    if al < bl { -1 } else if al > bl { 1 } else { 0 }
}

contracts! {
    { f: "DD::new_x, DD::new_hi_lo, DD::new_from_dd, DD::default, DD::copy, DD::copy_self, DD::value_of_f64, DD::set_value_dd, DD::set_value_f64, DD::double_value, DD::int_value, DD::new_nan, DD::create_nan, DD::is_nan", tier: "native" }
    fn construction(s) {
        let x = dbl(s);
        let (d, y) = (DD::new_x(x), num2(s));
        ck!(eqw(&d, (x, 0.0)) && d.double_value() == x && DD::value_of_f64(x).equals(&d), "a double is held exactly");
        ck!(DD::default().is_zero() && DD::default().double_value() == 0.0, "default: zero");
        ck!(DD::copy(&y).equals(&y) && y.copy_self().equals(&y) && DD::new_from_dd(&y).equals(&y), "copy: both words");
        let mut z = DD::copy(&d);
        z.set_value_dd(&y);
        ck!(z.equals(&y), "set_value_dd: both words");
        z.set_value_f64(x);
        ck!(z.equals(&d), "set_value_f64: the double, no rest");
        for n in [DD::new_nan(), DD::create_nan()] { ck!(n.is_nan() && n.double_value().is_nan(), "nan"); }
        ck!(!d.is_nan() && !y.is_nan(), "numbers are not nan");
        if x.abs() < 2e9 { ck!(d.int_value() == x.trunc() as i32, "int_value: truncated"); }
    }
    { f: "DD::new_pi, DD::new_two_pi, DD::new_pi_2, DD::new_e", tier: "native" }
    fn constants(_s) {
        let p = DD::new_pi();
        ck!(p.double_value() == std::f64::consts::PI && words(&p).1 == 1.224646799147353207e-16, "pi: its double and the rest");
        ck!(DD::new_two_pi().equals(&p.multiply_f64(2.0)) && DD::new_pi_2().equals(&p.multiply_f64(0.5)), "twice and half of pi");
        ck!(DD::new_e().double_value() == std::f64::consts::E && words(&DD::new_e()).1 == 1.445646891729250158e-16, "e: its double and the rest");
    }
    { f: "DD::add_f64, DD::add_dd, DD::self_add_dd, DD::self_add_f64, DD::self_add_hi_lo, DD::subtract_f64, DD::subtract_dd, DD::self_subtract_dd, DD::self_subtract_f64", tier: "native" }
    fn sums_of_doubles_are_exact(s) {
        let (a, b) = (dbl(s), dbl(s));
        let (w, v) = (two_sum(a, b), two_sum(a, -b));
        let (da, db) = (DD::new_x(a), DD::new_x(b));
        ck!(eqw(&da.add_f64(b), w) && eqw(&da.add_dd(&db), w), "sum of doubles: nearest double and exact rest");
        ck!(eqw(&da.subtract_f64(b), v) && eqw(&da.subtract_dd(&db), v), "difference of doubles: nearest double and exact rest");
        let mut m = DD::copy(&da); m.self_add_dd(&db); ck!(eqw(&m, w), "self_add_dd: the same");
        let mut m = DD::copy(&da); m.self_add_f64(b); ck!(eqw(&m, w), "self_add_f64: the same");
        let mut m = DD::copy(&da); m.self_subtract_dd(&db); ck!(eqw(&m, v), "self_subtract_dd: the same");
        let mut m = DD::copy(&da); m.self_subtract_f64(b); ck!(eqw(&m, v), "self_subtract_f64: the same");
        ck!(eqw(&da, (a, 0.0)) && eqw(&db, (b, 0.0)), "operands unchanged");
    }
    { f: "DD::multiply_f64, DD::multiply_dd, DD::self_multiply_dd, DD::self_multiply_f64, DD::self_multiply_hi_lo, DD::sqr, DD::self_sqr, DD::sqr_f64", tier: "native" }
    fn products_of_doubles_are_exact(s) {
        let (a, b) = (dbl(s), dbl(s));
        let (w, q) = (two_prod(a, b), two_prod(a, a));
        let (da, db) = (DD::new_x(a), DD::new_x(b));
        ck!(eqw(&da.multiply_f64(b), w) && eqw(&da.multiply_dd(&db), w), "product of doubles: nearest double and exact rest");
        let mut m = DD::copy(&da); m.self_multiply_dd(&db); ck!(eqw(&m, w), "self_multiply_dd: the same");
        let mut m = DD::copy(&da); m.self_multiply_f64(b); ck!(eqw(&m, w), "self_multiply_f64: the same");
        let mut m = DD::copy(&da); m.self_sqr(); ck!(eqw(&m, q) && eqw(&da.sqr(), q) && eqw(&db.sqr_f64(a), q), "squares");
        ck!(eqw(&da, (a, 0.0)) && eqw(&db, (b, 0.0)), "operands unchanged");
    }
    { f: "DD::add_dd, DD::subtract_dd, DD::self_add_hi_lo, DD::add_f64, DD::self_subtract_f64, DD::self_subtract_dd", tier: "native" }
    fn long_integer_sums(s) {
        // sums of two-word integers whose words add without rounding
        let k = |s: &mut S| -> i128 { match s.int(0, 2) { 0 => s.int(-50, 50) as i128, 1 => (s.i64() >> 12) as i128, _ => (s.int(-1000000, 1000000) as i128) << s.int(20, 40) } };
        let (a, b) = (k(s) * (1 << 20) + s.int(-9, 9) as i128, k(s) * (1 << 20) + s.int(-9, 9) as i128);
        let (da, db) = (dd_of(a), dd_of(b));
        let tol = |d: &DD, w: i128| { let (h, l) = words(d); let e = h as i128 + l as i128 - w; e.abs() <= (a.abs() + b.abs()) >> 100 };
        ck!(tol(&da.add_dd(&db), a + b) && tol(&da.subtract_dd(&db), a - b), "long integers: exact sum and difference");
        let c = (s.i64() >> 12) as i128;
        let f = |d: DD, w: i128| { let (h, l) = words(&d); (h as i128 + l as i128 - w).abs() <= (a.abs() + c.abs()) >> 100 };
        ck!(f(da.add_f64(c as f64), a + c) && f(da.subtract_f64(c as f64), a - c), "long integer and a double: exact sum and difference");
        let mut m = DD::copy(&da); m.self_subtract_f64(c as f64); ck!(f(m, a - c), "long integer less a double, self");
        let mut m = DD::copy(&da); m.self_subtract_dd(&db); ck!(tol(&m, a - b), "long integers: self_subtract_dd");
        ck!(whole(&da, a) && whole(&db, b), "long integers: operands unchanged");
    }
    { f: "DD::multiply_dd, DD::multiply_f64, DD::self_multiply_hi_lo", tier: "native" }
    fn long_integer_products(s) {
        let a = (s.i64() as i128) >> s.int(0, 40);
        let b = (s.i64() as i128) >> s.int(8, 60);
        let (da, db) = (dd_of(a), dd_of(b));
        let tol = |d: &DD| { let (h, l) = words(d); let e = h as i128 + l as i128 - a * b; e.abs() <= (a * b).abs() >> 98 };
        ck!(tol(&da.multiply_dd(&db)), "long integers: product to the last places");
        let mut m = DD::copy(&da); m.self_multiply_dd(&db); ck!(tol(&m), "long integers: self product to the last places");
        let mut m = DD::copy(&da); m.self_sqr(); ck!(m.equals(&da.sqr()) && m.equals(&da.multiply_dd(&da)), "squares are products");
    }
    { f: "DD::divide_f64, DD::divide_dd, DD::self_divide_dd, DD::self_divide_f64, DD::self_divide_hi_lo, DD::reciprocal", tier: "native" }
    fn quotients(s) {
        let n = if s.bool() { s.int(-100000, 100000) } else { s.i64() >> 14 };
        let mut d = s.int(-1000000, 1000000);
        if d == 0 { d = 1 }
        let (dn, dd) = (DD::new_x(n as f64), DD::new_x(d as f64));
        // r + lo d is the exact remainder
        let ok = |q: &DD, n: i64| { let (h, l) = words(q); let r = h.mul_add(d as f64, -(n as f64)); (r + l * d as f64).abs() <= n.abs() as f64 * 2f64.powi(-98) };
        let q = dn.divide_dd(&dd);
        ck!(ok(&q, n), "quotient of integers: right to the last places");
        ck!(dn.divide_f64(d as f64).equals(&q), "divide_f64: the same");
        let mut m = DD::copy(&dn); m.self_divide_dd(&dd); ck!(m.equals(&q), "self_divide_dd: the same");
        let mut m = DD::copy(&dn); m.self_divide_f64(d as f64); ck!(m.equals(&q), "self_divide_f64: the same");
        ck!(ok(&dd.reciprocal(), 1), "reciprocal: right to the last places");
        ck!(eqw(&dn, (n as f64, 0.0)) && eqw(&dd, (d as f64, 0.0)), "operands unchanged");
        let k = s.int(-30000, 30000);
        ck!(eqw(&DD::new_x((k * d) as f64).divide_dd(&dd), (k as f64, 0.0)), "exact division is exact");
        // a two-word numerator
        let x = num2(s);
        if !x.is_zero() {
            let one = x.divide_dd(&x);
            ck!(near(one.double_value(), 1.0, 1.0) && { let (h, l) = words(&one); h == 1.0 && l.abs() < 1e-28 }, "x / x is one to the last places");
            let r = x.multiply_dd(&dd).divide_dd(&dd).subtract_dd(&x);
            ck!(r.double_value().abs() <= x.double_value().abs() * 1e-28, "x d / d is x to the last places");
            let mut m = DD::copy(&x); m.self_divide_dd(&dd); ck!(m.equals(&x.divide_dd(&dd)) || m.subtract_dd(&x.divide_dd(&dd)).double_value().abs() <= m.double_value().abs() * 1e-30, "self_divide_dd of two words: the same");
            let rr = x.reciprocal().multiply_dd(&x);
            ck!({ let (h, l) = words(&rr); h == 1.0 && l.abs() < 1e-28 }, "reciprocal of two words");
        }
    }
    { f: "DD::negate, DD::abs, DD::signum, DD::is_zero, DD::is_negative, DD::is_positive", tier: "native" }
    fn signs(s) {
        let x = num2(s);
        let w = words(&x);
        let g = sign(w);
        ck!(x.signum() == g && x.is_zero() == (g == 0) && x.is_negative() == (g < 0) && x.is_positive() == (g > 0), "sign and zero tests follow the value");
        ck!(eqw(&x.negate(), (-w.0, -w.1)), "negate: both words");
        ck!(eqw(&x.abs(), if g < 0 { (-w.0, -w.1) } else { w }), "abs: negated when negative");
        ck!(eqw(&x, w), "operand unchanged");
        ck!(DD::create_nan().negate().is_nan() && DD::create_nan().abs().is_nan(), "nan stays nan");
        // zero in the first word only arises unnormalized; the queries still follow the value
        let z = DD::new_hi_lo(0.0, w.0);
        ck!(z.signum() == sign((w.0, 0.0)) && z.is_zero() == (w.0 == 0.0) && z.is_negative() == (w.0 < 0.0) && z.is_positive() == (w.0 > 0.0), "sign tests: zero high word");
    }
    { f: "DD::floor, DD::ceil, DD::rint, DD::trunc", tier: "native" }
    fn rounding(s) {
        let x = num2(s);
        let (h, l) = words(&x);
        if h.abs() > 2f64.powi(80) { return; }
        let (f, c) = (x.floor(), x.ceil());
        // r whole, and low <= x - r < high
        let at = |x: (f64, f64), r: &DD| -> i32 { let n = words(r); let (a, b) = (two_sum(x.0, -n.0), two_sum(x.1, -n.1)); let t = two_sum(a.0, b.0); sign((t.0, t.1 + a.1 + b.1)) };
        let int = |r: &DD| { let n = words(r); n.0.fract() == 0.0 && n.1.fract() == 0.0 };
        ck!(int(&f) && at((h, l), &f) >= 0 && at((h, l), &f.add_f64(1.0)) < 0, "floor of the value");
        ck!(int(&c) && at((h, l), &c) <= 0 && at((h, l), &c.add_f64(-1.0)) > 0, "ceiling of the value");
        let t = x.trunc();
        ck!(t.equals(if sign((h, l)) > 0 { &f } else { &c }), "truncation of the value");
        if h.abs() < 2f64.powi(50) {
            let (t, e) = two_sum(h, 0.5);
            if e == 0.0 { let (p, q) = two_sum(t, l); let mut x1 = DD::copy(&x); let r = x1.rint(); ck!(int(&r) && at((p, q), &r) >= 0 && at((p, q), &r.add_f64(1.0)) < 0, "rint: floor of the value and a half"); ck!(x1.equals(&x), "rint: operand unchanged"); }
        }
        ck!(eqw(&x, (h, l)), "operand unchanged");
    }
    { f: "DD::gt, DD::ge, DD::lt, DD::le, DD::equals, DD::compare_to, DD::min, DD::max", tier: "native" }
    fn one_total_order(s) {
        let x = num2(s);
        let y = if s.int(0, 4) == 0 { DD::copy(&x) } else { num2(s) };
        let o = order(&x, &y);
        ck!(x.gt(&y) == (o > 0) && x.ge(&y) == (o >= 0) && x.lt(&y) == (o < 0) && x.le(&y) == (o <= 0) && x.equals(&y) == (o == 0), "operators: the order of the values");
        ck!(x.compare_to(&y) == o, "compare_to: the order of the values");
        ck!(x.min(&y).equals(if o <= 0 { &x } else { &y }) && x.max(&y).equals(if o >= 0 { &x } else { &y }), "min and max");
        let n = DD::create_nan();
        ck!(!n.gt(&x) && !n.ge(&x) && !n.lt(&x) && !n.le(&x) && !n.equals(&x), "nan: unordered");
    }
    { f: "DD::is_nan, DD::add_dd, DD::add_f64, DD::subtract_dd, DD::subtract_f64, DD::multiply_dd, DD::multiply_f64, DD::divide_dd, DD::divide_f64, DD::reciprocal, DD::floor, DD::ceil, DD::rint, DD::trunc, DD::sqr, DD::self_sqr, DD::sqrt_dd, DD::pow, DD::determinant_xy_dd", tier: "native" }
    fn nan_stays_nan(s) {
        let x = num2(s);
        let d = dbl(s);
        let n = || DD::create_nan();
        let mut all = vec![n().add_dd(&x), x.add_dd(&n()), n().add_f64(d), x.add_f64(f64::NAN), n().subtract_dd(&x), x.subtract_dd(&n()), n().subtract_f64(d), x.subtract_f64(f64::NAN),
            n().multiply_dd(&x), x.multiply_dd(&n()), n().multiply_f64(d), x.multiply_f64(f64::NAN), n().divide_dd(&x), x.divide_dd(&n()), n().divide_f64(d), x.divide_f64(f64::NAN),
            n().reciprocal(), n().floor(), n().ceil(), n().rint(), n().trunc(), n().negate(), n().abs(), n().sqr(), n().sqrt_dd(), n().pow(s.int(1, 5) as i32), n().pow(-s.int(1, 5) as i32),
            x.sqr_f64(f64::NAN), x.sqrt_f64(f64::NAN), DD::value_of_f64(f64::NAN), DD::determinant_xy_dd(&n(), &x, &x, &x), DD::determinant_xy_dd(&x, &x, &x, &n())];
        for k in 0..13 {
            let mut m = if k % 2 == 0 { n() } else { DD::copy(&x) };
            let (o, q) = if k % 2 == 0 { (DD::copy(&x), d) } else { (n(), f64::NAN) };
            match k / 2 { 0 => m.self_add_dd(&o), 1 => m.self_add_f64(q), 2 => m.self_subtract_dd(&o), 3 => m.self_subtract_f64(q), 4 => m.self_multiply_dd(&o), 5 => m.self_multiply_f64(q), _ => m.self_sqr() }
            all.push(m);
        }
        for k in 0..4 {
            let mut m = if k % 2 == 0 { n() } else { DD::copy(&x) };
            if k < 2 { m.self_divide_dd(&if k == 0 { DD::copy(&x) } else { n() }) } else { m.self_divide_f64(if k == 2 { d } else { f64::NAN }) }
            all.push(m);
        }
        for r in &all { ck!(r.is_nan() && r.double_value().is_nan(), "nan in an operand: the result is nan"); }
        let m = n();
        ck!(!x.gt(&m) && !x.ge(&m) && !x.lt(&m) && !x.le(&m) && !x.equals(&m) && !m.equals(&m), "nan: unordered on either side");
        ck!(m.signum() == 0 && !m.is_zero() && !m.is_negative() && !m.is_positive(), "nan: no sign");
    }
    { f: "DD::dump", tier: "native" }
    fn text(s) {
        let x = num2(s);
        let t = x.dump();
        let w = words(&x);
        let v: Vec<f64> = t.trim_start_matches("DD<").trim_end_matches('>').split(", ").map(|a| a.parse().unwrap_or(f64::NAN)).collect();
        ck!(v.len() == 2 && v[0] == w.0 && v[1] == w.1, "dump: both words");
    }
    { f: "DD::sqrt_dd, DD::sqrt_f64", tier: "native" }
    fn roots(s) {
        let k = s.int(1, 1 << 20);
        let r = DD::new_x((k * k) as f64).sqrt_dd();
        ck!(near_ulp_dd(&r, k as f64), "root of a square");
        let v = s.int(1, 1000000) as f64;
        let q = DD::new_x(v).sqrt_dd();
        ck!(q.sqr().subtract_f64(v).double_value().abs() <= v * 1e-29, "root squared is the number to the last places");
        ck!(DD::new_x(3.0).sqrt_f64(v).equals(&q), "sqrt_f64: the same");
        let x = num2(s).abs();
        let e = s.int(-60, 60) as i32;
        let x = x.multiply_f64(2f64.powi(2 * e));
        if !x.is_zero() {
            let r = x.sqrt_dd();
            ck!(r.sqr().subtract_dd(&x).double_value().abs() <= x.double_value() * 1e-29, "root of two words squared is the number to the last places");
        }
        ck!(DD::new_x(0.0).sqrt_dd().is_zero() && DD::new_x(-v).sqrt_dd().is_nan(), "root of zero and of a negative");
    }
    { f: "DD::pow", tier: "native" }
    fn powers(s) {
        let b = s.int(-12, 12);
        let e = s.int(0, 9) as i32;
        let want = (b as i128).pow(e as u32);
        let x = DD::new_x(b as f64);
        ck!(whole(&x.pow(e), want), "integer power");
        if b != 0 {
            let r = x.pow(-e);
            let p = r.multiply_dd(&dd_of(want));
            ck!({ let (h, l) = words(&p); h == 1.0 && l.abs() < 1e-28 }, "negative power: the reciprocal");
        }
        let big = DD::new_x(s.int(-3, 3) as f64).pow(s.int(0, 60) as i32);
        ck!(!big.is_nan(), "powers of small integers are numbers");
        let g = s.int(2, 3) as i128;
        let n = s.int(0, 60) as u32;
        ck!(whole(&DD::new_x(g as f64).pow(n as i32), g.pow(n)), "powers of two and three up to the sixtieth");
    }
    { f: "DD::determinant_xy_f64, DD::determinant_xy_dd", tier: "native" }
    fn determinants(s) {
        let v: [i64; 4] = if s.bool() { [s.int(-9, 9), s.int(-9, 9), s.int(-9, 9), s.int(-9, 9)] } else { [s.i64() >> 14, s.i64() >> 14, s.i64() >> 14, s.i64() >> 14] };
        let w = v[0] as i128 * v[3] as i128 - v[1] as i128 * v[2] as i128;
        let m = (v[0] as i128 * v[3] as i128).abs() + (v[1] as i128 * v[2] as i128).abs();
        let d = v.map(|k| k as f64);
        let r = DD::determinant_xy_f64(d[0], d[1], d[2], d[3]);
        let q = DD::determinant_xy_dd(&DD::new_x(d[0]), &DD::new_x(d[1]), &DD::new_x(d[2]), &DD::new_x(d[3]));
        let (h, l) = words(&r);
        ck!((h as i128 + l as i128 - w).abs() <= m >> 100 && q.equals(&r), "determinant: exact to the last places");
    }
    { f: "DD::magnitude", tier: "native" }
    fn magnitudes(s) {
        let e = s.int(-15, 18) as i32;
        let p = format!("1e{}", e).parse::<f64>().unwrap();
        let v = p * s.int(1001, 9998) as f64 / 1000.0;
        ck!(DD::new_x(0.0).magnitude(v) == e && DD::new_x(0.0).magnitude(-v) == e, "magnitude: the decimal exponent");
        let k = s.int(0, 22) as i32;
        let p = format!("1e{}", k).parse::<f64>().unwrap();
        ck!(DD::new_x(0.0).magnitude(p) == k && DD::new_x(0.0).magnitude(-p) == k, "magnitude: the decimal exponent of a power of ten");
    }
}
fn near_ulp_dd(d: &DD, k: f64) -> bool { let (h, l) = words(d); h == k && l.abs() <= k * 1e-29 || (h - k).abs() <= k * 1e-15 && (h - k + l).abs() <= k * 1e-29 }
