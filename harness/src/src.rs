//! Input source shared by the three ways a contract is exercised:
//!   * under Kani every draw is a fresh unconstrained symbolic value (the deciding step);
//!   * natively in search mode, draws come from a generator that likes special values,
//!     small integers, repeated values and neighbouring floats (counterexample search);
//!   * natively in replay mode, draws are read back from a recorded list (replay of a
//!     verifier counterexample or of a recorded failing run) against the real compiled code.

#[cfg(kani)]
pub struct S;

#[cfg(kani)]
impl S {
    pub fn new() -> S {
        S
    }
    pub fn u64(&mut self) -> u64 {
        kani::any()
    }
    pub fn f64(&mut self) -> f64 {
        kani::any()
    }
    pub fn i64(&mut self) -> i64 {
        kani::any()
    }
    pub fn i32(&mut self) -> i32 {
        kani::any()
    }
    pub fn i8(&mut self) -> i8 {
        kani::any()
    }
    pub fn u8(&mut self) -> u8 {
        kani::any()
    }
    pub fn bool(&mut self) -> bool {
        kani::any()
    }
    pub fn assume(&mut self, c: bool) {
        kani::assume(c);
    }
    pub fn native(&self) -> bool {
        false
    }
    pub fn end(&mut self) {
        kani::cover!(true, "contract end reachable under its preconditions");
    }
}

#[cfg(not(kani))]
pub struct Discard;

#[cfg(not(kani))]
pub enum Mode {
    Gen,
    Replay(Vec<u64>, usize),
}

#[cfg(not(kani))]
pub struct S {
    pub mode: Mode,
    pub rng: u64,
    pub profile: u32,
    pub pool: Vec<f64>,
    pub log: Vec<u64>,
    pub desc: Vec<String>,
}

#[cfg(not(kani))]
const SPECIAL: [f64; 40] = [
    0.0,
    -0.0,
    1.0,
    -1.0,
    2.0,
    -2.0,
    0.5,
    -0.5,
    3.0,
    10.0,
    -10.0,
    1e-9,
    -1e-9,
    1e-300,
    5e-324,
    -5e-324,
    2.2250738585072014e-308,
    f64::EPSILON,
    1.0 + f64::EPSILON,
    1.0 - f64::EPSILON / 2.0,
    f64::MAX,
    f64::MIN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::NAN,
    9007199254740992.0,
    9007199254740991.0,
    -9007199254740992.0,
    4503599627370496.5,
    2147483647.0,
    2147483648.0,
    -2147483648.0,
    1e15,
    1e16,
    1e100,
    -1e100,
    0.1,
    std::f64::consts::PI,
    -std::f64::consts::PI,
    std::f64::consts::FRAC_PI_2,
];

#[cfg(not(kani))]
impl S {
    pub fn gen(seed: u64) -> S {
        let mut s = S {
            mode: Mode::Gen,
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03,
            profile: 0,
            pool: vec![],
            log: vec![],
            desc: vec![],
        };
        for _ in 0..4 {
            s.next();
        }
        s.profile = (s.next() % 10) as u32;
        s
    }
    pub fn replay(raws: Vec<u64>) -> S {
        let mut s = S::gen(1);
        s.mode = Mode::Replay(raws, 0);
        s
    }
    fn next(&mut self) -> u64 {
        let mut x = self.rng | 1;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.rng = x;
        x.wrapping_mul(0x2545F4914F6CDD1D) >> 3
    }
    fn rec(&mut self, gen: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Gen => gen,
            Mode::Replay(r, p) => {
                if *p >= r.len() {
                    std::panic::panic_any(Discard);
                }
                *p += 1;
                r[*p - 1]
            }
        };
        self.log.push(v);
        v
    }
    pub fn native(&self) -> bool {
        true
    }
    pub fn end(&mut self) {}
    pub fn assume(&mut self, c: bool) {
        if !c {
            std::panic::panic_any(Discard);
        }
    }
    fn gen_f64(&mut self) -> f64 {
        let mut p = self.profile;
        if p >= 8 {
            p = (self.next() % 8) as u32;
        }
        let r = self.next();
        if !self.pool.is_empty() && r % 100 < 30 {
            let k = (self.next() as usize) % self.pool.len();
            let v = self.pool[k];
            return match (r / 100) % 12 {
                0..=5 => v,
                6 => -v,
                7 => nudge(v, 1),
                8 => nudge(v, -1),
                9 => v + 1.0,
                10 => v - 1.0,
                _ => v * 2.0,
            };
        }
        match p {
            0 => ((r / 7) % 5) as f64 - 2.0,
            1 => ((r / 7) % 13) as f64 - 6.0,
            2 => SPECIAL[(r / 7) as usize % SPECIAL.len()],
            3 => f64::from_bits(self.next() ^ (self.next() << 32)),
            4 => ((r >> 8) % (1 << 40)) as f64 / ((1u64 << 40) as f64) * 20.0 - 10.0,
            5 => {
                let e = ((r / 7) % 60) as i32;
                let b = 2f64.powi(e) + ((r >> 20) % 7) as f64 - 3.0;
                if r & (1 << 50) != 0 {
                    -b
                } else {
                    b
                }
            }
            6 => nudge(
                SPECIAL[2 + (r / 7) as usize % 8],
                ((r >> 20) % 9) as i64 - 4,
            ),
            _ => (((r >> 8) % 2001) as f64 - 1000.0) / [1.0, 2.0, 4.0, 10.0, 100.0][(r % 5) as usize],
        }
    }
    pub fn f64(&mut self) -> f64 {
        let g = self.gen_f64();
        let v = f64::from_bits(self.rec(g.to_bits()));
        self.pool.push(v);
        self.desc.push(format!("{:?}", v));
        v
    }
    fn small_gen(&mut self) -> i64 {
        let r = self.next();
        match r % 8 {
            0..=3 => ((r / 8) % 7) as i64 - 3,
            4 | 5 => ((r / 8) % 41) as i64 - 20,
            6 => [i32::MIN as i64, i32::MAX as i64, 127, -128, 255, 1000, -1000, 0]
                [((r / 8) % 8) as usize],
            _ => (self.next() as i64) ^ ((self.next() as i64) << 20),
        }
    }
    pub fn u64(&mut self) -> u64 {
        let g = self.small_gen() as u64;
        let v = self.rec(g);
        self.desc.push(format!("{}", v));
        v
    }
    pub fn i64(&mut self) -> i64 {
        let g = self.small_gen() as u64;
        let v = self.rec(g) as i64;
        self.desc.push(format!("{}", v));
        v
    }
    pub fn i32(&mut self) -> i32 {
        let g = self.small_gen() as i32;
        let v = self.rec(g as u32 as u64) as u32 as i32;
        self.desc.push(format!("{}", v));
        v
    }
    pub fn i8(&mut self) -> i8 {
        let g = self.small_gen() as i8;
        let v = self.rec(g as u8 as u64) as u8 as i8;
        self.desc.push(format!("{}", v));
        v
    }
    pub fn u8(&mut self) -> u8 {
        let g = self.small_gen() as u8;
        let v = self.rec(g as u64) as u8;
        self.desc.push(format!("{}", v));
        v
    }
    pub fn bool(&mut self) -> bool {
        let g = self.next() & 16 != 0;
        let v = self.rec(g as u64) & 1 == 1;
        self.desc.push(format!("{}", v));
        v
    }
    // Range draws are generated inside the range natively.
    fn ranged(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
}

#[cfg(not(kani))]
pub fn nudge(v: f64, k: i64) -> f64 {
    if !v.is_finite() || v == 0.0 {
        return v;
    }
    f64::from_bits((v.to_bits() as i64 + k) as u64)
}

impl S {
    /// finite f64
    pub fn fin(&mut self) -> f64 {
        let v = self.f64();
        self.assume(v.is_finite());
        v
    }
    /// f64 that is not NaN
    pub fn num(&mut self) -> f64 {
        let v = self.f64();
        self.assume(!v.is_nan());
        v
    }
    /// finite f64 of magnitude at most b
    pub fn mag(&mut self, b: f64) -> f64 {
        let v = self.f64();
        self.assume(v >= -b && v <= b);
        v
    }
    /// integer-valued f64 in [-k, k] (k <= 127)
    pub fn grid(&mut self, k: i8) -> f64 {
        self.int8(-k, k) as f64
    }
    #[cfg(kani)]
    pub fn int8(&mut self, lo: i8, hi: i8) -> i8 {
        let v: i8 = kani::any();
        kani::assume(v >= lo && v <= hi);
        v
    }
    #[cfg(not(kani))]
    pub fn int8(&mut self, lo: i8, hi: i8) -> i8 {
        let g = self.ranged(lo as i64, hi as i64) as i8;
        let v = self.rec(g as u8 as u64) as u8 as i8;
        self.desc.push(format!("{}", v));
        self.assume(v >= lo && v <= hi);
        v
    }
    /// Natively any double of magnitude at most b; under Kani an integer in [-k, k] (a stated bound).
    #[cfg(kani)]
    pub fn real(&mut self, _b: f64, k: i8) -> f64 {
        self.int8(-k, k) as f64
    }
    #[cfg(not(kani))]
    pub fn real(&mut self, b: f64, _k: i8) -> f64 {
        let mut g = self.gen_f64();
        if g.to_bits() <= 255 || !(g.abs() <= b) {
            g = (self.next() % 7) as f64 - 3.0;
        }
        let raw = self.rec(g.to_bits());
        // a verifier counterexample records the integer as one byte
        let v = if raw <= 255 { raw as u8 as i8 as f64 } else { f64::from_bits(raw) };
        self.pool.push(v);
        self.desc.push(format!("{:?}", v));
        self.assume(v.abs() <= b);
        v
    }
    #[cfg(kani)]
    pub fn int32(&mut self, lo: i32, hi: i32) -> i32 {
        let v: i32 = kani::any();
        kani::assume(v >= lo && v <= hi);
        v
    }
    #[cfg(not(kani))]
    pub fn int32(&mut self, lo: i32, hi: i32) -> i32 {
        let g = match self.next() % 4 {
            0 => self.ranged(lo as i64, (lo as i64 + 8).min(hi as i64)),
            1 => self.ranged((hi as i64 - 8).max(lo as i64), hi as i64),
            2 => self.ranged((-8i64).max(lo as i64).min(hi as i64), 8i64.min(hi as i64).max(lo as i64)),
            _ => self.ranged(lo as i64, hi as i64),
        } as i32;
        let v = self.rec(g as u32 as u64) as u32 as i32;
        self.desc.push(format!("{}", v));
        self.assume(v >= lo && v <= hi);
        v
    }
    /// native contracts only: an integer in [lo, hi], small values and range ends favoured
    #[cfg(not(kani))]
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let w = self.next() % 6;
        let g = match w {
            0 => self.ranged(lo, (lo.saturating_add(3)).min(hi)),
            1 => self.ranged((hi.saturating_sub(3)).max(lo), hi),
            2 | 3 => self.ranged((-5i64).max(lo).min(hi), 5i64.min(hi).max(lo)),
            _ => {
                let sh = self.next() % 63;
                let v = ((self.next() as i64) ^ ((self.next() as i64) << 31)) >> sh;
                let span = (hi as i128 - lo as i128 + 1) as i128;
                ((v as i128 - lo as i128).rem_euclid(span) + lo as i128) as i64
            }
        };
        let v = self.rec(g as u64) as i64;
        self.desc.push(format!("{}", v));
        self.assume(v >= lo && v <= hi);
        v
    }
    #[cfg(kani)]
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let v: i64 = kani::any();
        kani::assume(v >= lo && v <= hi);
        v
    }
    /// native contracts only: a number of things, now and then a large one
    #[cfg(not(kani))]
    pub fn many(&mut self, usual: i64) -> i64 {
        let n = self.next();
        let g = if n % 100 == 0 { self.ranged(0, 520) } else { self.ranged(0, usual) };
        let v = self.rec(g as u64) as i64;
        self.desc.push(format!("{}", v));
        self.assume(v >= 0 && v <= 520.max(usual));
        v
    }
    #[cfg(kani)]
    pub fn many(&mut self, usual: i64) -> i64 { self.int(0, usual) }
    pub fn below(&mut self, n: usize) -> usize {
        if n > 120 { return self.int(0, n as i64 - 1) as usize; }
        self.int8(0, (n - 1) as i8) as usize
    }
}

/// One clause of a contract: a named proof obligation under Kani, a checked assertion natively.
#[macro_export]
macro_rules! ck {
    ($c:expr, $m:literal) => {{
        let c: bool = $c;
        #[cfg(kani)]
        kani::assert(c, $m);
        #[cfg(not(kani))]
        if !c {
            panic!("clause violated: {}", $m);
        }
    }};
}

pub struct Meta {
    pub name: &'static str,
    /// functions of /repo put under contract
    pub f: &'static str,
    /// "full": every input satisfying the stated precondition, no bound.  Anything else
    /// starts with "bounded:" and says what the bound is.
    pub scope: &'static str,
    /// quick | thorough | native (native: never given to the verifier, only searched)
    pub tier: &'static str,
    pub run: fn(&mut S),
}

pub fn nop(_: &mut S) {}

impl Meta {
    pub const D: Meta = Meta {
        name: "",
        f: "",
        scope: "full",
        tier: "quick",
        run: nop,
    };
}

#[macro_export]
macro_rules! contracts {
    ($( { $($k:ident : $v:expr),* $(,)? } $(#[$attr:meta])* fn $name:ident ($s:ident) $body:block )*) => {
        $( pub fn $name($s: &mut S) $body )*
        #[cfg(kani)]
        pub mod k {
            use super::*;
            $(
                #[kani::proof]
                $(#[$attr])*
                pub fn $name() { let mut s = S::new(); super::$name(&mut s); s.end(); }
            )*
        }
        #[cfg(not(kani))]
        pub fn list() -> Vec<Meta> {
            vec![ $( Meta { name: stringify!($name), run: $name, $($k: $v,)* ..Meta::D } ),* ]
        }
    };
}
