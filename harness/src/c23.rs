use crate::core::geom::coordinate::Coordinate;
use crate::core::geom::position::Position;
use crate::core::geom::quadrant::Quadrant;
use crate::core::util::math_util::MathUtil as Mu;
use crate::core::util::number_util::NumberUtil;
use crate::src::{Meta, S};
use crate::util::*;

contracts! {
    { f: "MathUtil::clamp_f64, MathUtil::clamp_i32, MathUtil::clamp_max", scope: "full", tier: "quick" }
    fn clamping(s) {
        let (x, a, b) = (s.i32(), s.i32(), s.i32());
        ck!(Mu::clamp_max(x, b) == if x > b { b } else { x }, "clamping to a maximum gives the smaller");
        let (u, l, h) = (s.f64(), s.f64(), s.f64());
        s.assume(a <= b);
        let r = Mu::clamp_i32(x, a, b);
        ck!(r >= a && r <= b && (x < a || x > b || r == x) && (x >= a || r == a) && (x <= b || r == b), "clamping an integer gives the nearest value of the range");
        s.assume(l <= h && !u.is_nan());
        let r = Mu::clamp_f64(u, l, h);
        ck!(r >= l && r <= h && (u < l || u > h || r == u) && (u >= l || r == l) && (u <= h || r == h), "clamping a double gives the nearest value of the range");
    }
    { f: "MathUtil::max_3, MathUtil::max_4, MathUtil::min", scope: "full", tier: "quick" }
    fn extremes(s) {
        let (a, b, c, d) = (s.f64(), s.f64(), s.f64(), s.f64());
        s.assume(!a.is_nan() && !b.is_nan() && !c.is_nan() && !d.is_nan());
        let r = Mu::max_3(a, b, c);
        ck!(r >= a && r >= b && r >= c && (r == a || r == b || r == c), "the maximum of three is the greatest argument");
        let r = Mu::max_4(a, b, c, d);
        ck!(r >= a && r >= b && r >= c && r >= d && (r == a || r == b || r == c || r == d), "the maximum of four is the greatest argument");
        let r = Mu::min(a, b, c, d);
        ck!(r <= a && r <= b && r <= c && r <= d && (r == a || r == b || r == c || r == d), "the minimum of four is the least argument");
    }
    { f: "MathUtil::ceil, MathUtil::wrap", tier: "native" }
    fn dividing(s) {
        let (n, d) = if s.int(0, 1) == 1 { (s.int(-30, 30) as i32, s.int(1, 9) as i32) } else { (s.i32(), s.i32().max(1)) };
        s.assume(n > i32::MIN);
        ck!(Mu::ceil(n, d) as i64 == (n as i64 + d as i64 - 1).div_euclid(d as i64), "ceiling division rounds the quotient up");
        let w = Mu::wrap(n, d) as i64;
        ck!((w - n as i64) % d as i64 == 0 && w >= 0 && (w < d as i64 || w == d as i64 && n < 0), "wrapping gives a congruent index of the range");
        ck!(n < 0 || w == n as i64 % d as i64, "wrapping an index that is not negative is the remainder");
        ck!(n >= 0 || w == d as i64 - (-(n as i64)) % d as i64, "wrapping a negative index counts back from the maximum");
    }
    { f: "MathUtil::average, MathUtil::quasirandom_curr, MathUtil::quasirandom_curr_alpha, NumberUtil::equals_with_tolerance", tier: "native" }
    fn averaging(s) {
        let (a, b) = (s.int(-1000, 1000), s.int(-1000, 1000));
        ck!(Mu::average(a as f64, b as f64) * 2. == (a + b) as f64, "the average is half the sum");
        let t = s.int(0, 40) as f64;
        ck!(NumberUtil::equals_with_tolerance(a as f64, b as f64, t) == ((a - b).abs() as f64 <= t), "equal within a tolerance: a difference not beyond it");
        let (x, k) = (s.int(0, 1023), s.int(0, 4096));
        let r = Mu::quasirandom_curr_alpha(x as f64 / 1024., k as f64 / 1024.);
        ck!(r * 1024. == ((x + k) % 1024) as f64, "the next quasi-random number is the sum's fraction");
        let c = x as f64 / 1024.;
        let r = Mu::quasirandom_curr(c);
        let g = c + 0.6180339887498949;
        ck!((0. ..1.).contains(&r) && (r - (g - g.floor())).abs() < 1e-12, "the default recurrence adds the golden ratio's fraction");
    }
    { f: "MathUtil::shuffle", tier: "native" }
    fn shuffling(s) {
        let n = s.many(20) as usize;
        let mut v = Mu::shuffle(n);
        ck!(v.len() == n, "as many as asked for");
        v.sort();
        ck!(v.iter().enumerate().all(|(i, x)| i as i32 == *x), "shuffling gives a permutation of 0..n");
    }
    { f: "Quadrant::quadrant_xy, Quadrant::quadrant_coordinates, Quadrant::is_northern", scope: "full", tier: "quick" }
    fn quadrants(s) {
        let (x, y) = (s.f64(), s.f64());
        s.assume(!x.is_nan() && !y.is_nan());
        let q = Quadrant::quadrant_xy(x, y);
        let f = |e: bool, n: bool| match (e, n) { (true, true) => 0, (false, true) => 1, (false, false) => 2, (true, false) => 3 };
        ck!(q == if x == 0. && y == 0. { -1 } else { f(x >= 0., y >= 0.) }, "the quadrant of a direction");
        let a = Coordinate::new_xy(s.f64(), s.f64());
        s.assume(!a.x.is_nan() && !a.y.is_nan());
        let b = Coordinate::new_xy(x, y);
        let q = Quadrant::quadrant_coordinates(&a, &b);
        ck!(q == if a.x == x && a.y == y { -1 } else { f(x >= a.x, y >= a.y) }, "the quadrant of a directed segment");
        ck!(Quadrant::is_northern(q) == (q >= 0 && y >= a.y && q < 2), "northern: the end is not below the start");
    }
    { f: "Quadrant::is_opposite, Quadrant::common_half_plane, Quadrant::is_in_half_plane, Position::opposite", scope: "full", tier: "quick" }
    fn circle(s) {
        let (a, b) = (s.below(4) as i32, s.below(4) as i32);
        ck!(Quadrant::is_opposite(a, b) == ((a - b).abs() == 2), "opposite quadrants are two apart");
        let h = Quadrant::common_half_plane(a, b);
        ck!(h == if a == b { a } else if (a - b).abs() == 2 { -1 } else if (a + 1) % 4 == b { a } else { b }, "the common half plane is named by its right-hand quadrant");
        ck!(Quadrant::common_half_plane(b, a) == h, "the common half plane is symmetric");
        ck!(h < 0 || Quadrant::is_in_half_plane(a, h) && Quadrant::is_in_half_plane(b, h), "both quadrants lie in their common half plane");
        ck!(Quadrant::is_in_half_plane(a, b) == (a == b || a == (b + 1) % 4), "a half plane holds its quadrant and the next");
        let p = s.i32();
        let o = Position::opposite(p);
        ck!(Position::opposite(o) == p, "the opposite position is an involution");
        ck!(o == if p == Position::LEFT { Position::RIGHT } else if p == Position::RIGHT { Position::LEFT } else { p }, "the opposite of left is right");
        ck!(Position::ON == 0 && Position::LEFT == 1 && Position::RIGHT == 2, "positions are numbered on, left, right");
    }
}
