#![allow(dead_code, unused, non_snake_case, static_mut_refs)]
#![recursion_limit = "512"]
#[path = "/repo/src/core/mod.rs"]
mod core;
#[macro_use]
mod src;
mod util;
mod poly;

macro_rules! props {
    ($($p:ident $f:literal),*) => {
        $( #[cfg(feature = $f)] mod $p; )*
        #[cfg(not(kani))]
        fn all() -> Vec<(&'static str, Vec<src::Meta>)> {
            let mut v: Vec<(&'static str, Vec<src::Meta>)> = vec![];
            $( #[cfg(feature = $f)] v.push(($f, $p::list())); )*
            v
        }
    };
}
include!("props.rs");

#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    native::main()
}

#[cfg(not(kani))]
mod native {
    use crate::src::*;
    use std::panic;
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
    use std::time::{Duration, Instant};

    pub enum Out {
        Ok,
        Discard,
        Fail(String),
    }

    thread_local! { static LOC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

    pub fn run1(m: &Meta, s: &mut S) -> Out {
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (m.run)(s)));
        match r {
            Ok(()) => Out::Ok,
            Err(e) => {
                if e.is::<Discard>() {
                    return Out::Discard;
                }
                let msg = if let Some(x) = e.downcast_ref::<&str>() {
                    x.to_string()
                } else if let Some(x) = e.downcast_ref::<String>() {
                    x.clone()
                } else {
                    "panic".to_string()
                };
                let loc = LOC.with(|l| l.borrow().clone());
                Out::Fail(format!("{} (at {})", msg, loc))
            }
        }
    }
    fn esc(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 32 => o.push(' '),
                c => o.push(c),
            }
        }
        o
    }

    // one slot per search thread: contract, generator seed and start of the run under way
    static NAMES: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
    static SEEDS: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
    static STARTS: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
    /// a single run that takes longer than this does not terminate (runs take microseconds)
    const HANG_MS: u64 = 25_000;

    pub fn main() {
        panic::set_hook(Box::new(|i| {
            if let Some(l) = i.location() {
                LOC.with(|x| *x.borrow_mut() = format!("{}:{}", l.file(), l.line()));
            }
        }));
        let a: Vec<String> = std::env::args().collect();
        let metas: Vec<Meta> = super::all().into_iter().flat_map(|(_, v)| v).collect();
        match a[1].as_str() {
            "list" => {
                for m in &metas {
                    println!(
                        "{{\"name\":\"{}\",\"f\":\"{}\",\"scope\":\"{}\",\"tier\":\"{}\"}}",
                        m.name, esc(m.f), esc(m.scope), m.tier
                    );
                }
            }
            // search SECONDS SEED THREADS [names...]
            "search" => {
                let secs: f64 = a[2].parse().unwrap();
                let seed: u64 = a[3].parse().unwrap();
                let nt: usize = a[4].parse().unwrap();
                let names: Vec<&str> = a[5..].iter().map(|s| s.as_str()).collect();
                let ms: Vec<&Meta> = metas
                    .iter()
                    .filter(|m| names.is_empty() || names.contains(&m.name))
                    .collect();
                let per = Duration::from_secs_f64(secs * nt as f64 / ms.len().max(1) as f64);
                let idx = AtomicU64::new(0);
                let born = Instant::now();
                // GH_TRACE=FILE: keep the seed of the run under way there, to name the run a crash happened in
                let trace = std::env::var("GH_TRACE").ok().map(|p| std::fs::File::create(p).unwrap());
                let done = AtomicBool::new(false);
                let left = AtomicU64::new(nt as u64);
                std::thread::scope(|sc| {
                    sc.spawn(|| {
                        while !done.load(Ordering::SeqCst) {
                            std::thread::sleep(Duration::from_millis(100));
                            let now = born.elapsed().as_millis() as u64;
                            for k in 0..nt {
                                let st = STARTS[k].load(Ordering::SeqCst);
                                if st != 0 && now > st + HANG_MS {
                                    let m = ms[NAMES[k].load(Ordering::SeqCst) as usize];
                                    println!(
                                        "{{\"name\":\"{}\",\"runs\":1,\"ok\":0,\"sample\":\"\",\"fail\":{{\"msg\":\"does not terminate\",\"raws\":[],\"seed\":\"{}\",\"inputs\":\"generator seed {}\"}}}}",
                                        m.name, SEEDS[k].load(Ordering::SeqCst), SEEDS[k].load(Ordering::SeqCst)
                                    );
                                    std::process::exit(3);
                                }
                            }
                        }
                    });
                    for slot in 0..nt {
                        let (idx, ms, trace, done, left) = (&idx, &ms, &trace, &done, &left);
                        sc.spawn(move || {
                            // deep recursion is not expected; default stack is enough
                            loop {
                                let i = idx.fetch_add(1, Ordering::SeqCst) as usize;
                                if i >= ms.len() {
                                    break;
                                }
                                let m = ms[i];
                                let t0 = Instant::now();
                                let (mut runs, mut ok) = (0u64, 0u64);
                                let mut sample = String::new();
                                let mut fail: Option<(String, Vec<u64>, Vec<String>)> = None;
                                let h = m.name.bytes().fold(7u64, |a, b| a.wrapping_mul(131) + b as u64);
                                while t0.elapsed() < per && runs < 3_000_000 {
                                    for _ in 0..64 {
                                        runs += 1;
                                        let g = seed.wrapping_mul(1_000_003).wrapping_add(h).wrapping_add(runs.wrapping_mul(0x1F123BB5));
                                        let mut s = S::gen(g);
                                        NAMES[slot].store(i as u64, Ordering::Relaxed);
                                        SEEDS[slot].store(g, Ordering::Relaxed);
                                        STARTS[slot].store(if runs % 64 == 1 { 1 + born.elapsed().as_millis() as u64 } else { STARTS[slot].load(Ordering::Relaxed) }, Ordering::SeqCst);
                                        if let Some(f) = trace { use std::os::unix::fs::FileExt; let _ = f.write_at(&g.to_le_bytes(), 0); }
                                        match run1(m, &mut s) {
                                            Out::Ok => {
                                                ok += 1;
                                                if ok == 3 { sample = s.desc.join(" "); }
                                            }
                                            Out::Discard => {}
                                            Out::Fail(msg) => {
                                                fail = Some((msg, s.log.clone(), s.desc.clone()));
                                                break;
                                            }
                                        }
                                    }
                                    if fail.is_some() {
                                        break;
                                    }
                                }
                                let f = match fail {
                                    None => "null".to_string(),
                                    Some((msg, log, desc)) => format!(
                                        "{{\"msg\":\"{}\",\"raws\":[{}],\"inputs\":\"{}\"}}",
                                        esc(&msg),
                                        log.iter().map(|v| format!("\"{}\"", v)).collect::<Vec<_>>().join(","),
                                        esc(&desc.join(" "))
                                    ),
                                };
                                println!(
                                    "{{\"name\":\"{}\",\"runs\":{},\"ok\":{},\"sample\":\"{}\",\"fail\":{}}}",
                                    m.name, runs, ok, esc(&sample), f
                                );
                            }
                            STARTS[slot].store(0, Ordering::SeqCst);
                            if left.fetch_sub(1, Ordering::SeqCst) == 1 { done.store(true, Ordering::SeqCst); }
                        });
                    }
                });
            }
            // replay NAME raw...
            "replay" => {
                let m = metas.iter().find(|m| m.name == a[2]).expect("no such contract");
                let raws: Vec<u64> = a[3..].iter().map(|s| s.parse().unwrap()).collect();
                let mut s = S::replay(raws);
                let o = run1(m, &mut s);
                println!("inputs: {}", s.desc.join(" "));
                match o {
                    Out::Ok => println!("RESULT ok"),
                    Out::Discard => println!("RESULT discard"),
                    Out::Fail(m) => {
                        println!("RESULT fail {}", m);
                        std::process::exit(1);
                    }
                }
            }
            // replayseed NAME SEED: the run the generator makes of this seed
            "replayseed" => {
                let m = metas.iter().find(|m| m.name == a[2]).expect("no such contract");
                let mut s = S::gen(a[3].parse().unwrap());
                let o = run1(m, &mut s);
                println!("inputs: {}", s.desc.join(" "));
                match o {
                    Out::Fail(m) => { println!("RESULT fail {}", m); std::process::exit(1); }
                    _ => println!("RESULT ok"),
                }
            }
            _ => panic!("usage"),
        }
    }
}
