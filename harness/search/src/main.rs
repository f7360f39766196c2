//! Runs the executable contracts of the hooks on concrete inputs.
//!
//! search <seed> <seconds per contract> <out dir> <contract>...   searches for a failing input
//! replay <file>                                                   runs a recorded input (exit 1: the contract fails)
//! A recorded input is a text file: `contract <name>`, `bytes <hex>`.
#![allow(unexpected_cfgs)]
extern crate rescan;

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
use std::time::Instant;

type Entry = fn(&str, &mut dyn FnMut() -> u8) -> bool;

macro_rules! entries {
    ($($cfg:literal $name:ident;)*) => {
        extern "Rust" { $( #[cfg(rescan_verif = $cfg)] fn $name(name: &str, next: &mut dyn FnMut() -> u8) -> bool; )* }
        #[allow(unused_mut)]
        fn entry(hook: &str) -> Option<Entry> {
            match hook {
                $( #[cfg(rescan_verif = $cfg)] stringify!($name) => Some(|n, f| unsafe { $name(n, f) }), )*
                _ => None,
            }
        }
    };
}
entries! {
    "bitfield" rescan_verif_bitfield;
    "bitfield" rescan_verif_deps;
    "bitfield" rescan_verif_deps_numbers;
    "charreach" rescan_verif_charreach;
    "charreach" rescan_verif_charreach_native;
    "ue2common" rescan_verif_ue2common;
    "depth" rescan_verif_depth;
    "lib" rescan_verif_lib;
    "rose_build_bytecode" rescan_verif_rose;
    "parser" rescan_verif_parser;
    "shortcut_literal" rescan_verif_shortcut_literal;
    "ue2string" rescan_verif_ue2string;
    "report_manager" rescan_verif_report_manager;
    "smallwrite_build" rescan_verif_smallwrite;
    "ng_holder" rescan_verif_ng_holder;
    "compiler" rescan_verif_compiler;
    "ng" rescan_verif_ng;
    "ng" rescan_verif_ng_place;
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// A byte of a case of the given kind: uniform, sparse, dense, boundary values, or a mixture.
    fn byte(&mut self, kind: u64) -> u8 {
        let r = self.next();
        let u = r as u8;
        let edge = [0, 1, 0x7f, 0x80, 0xff, 0x3f, 0x40, 0x41, 0x5a, 0x5b, 0x61, 0x7a, 0x7b, 0xbf, 0xc0, 0x20, 0xfe, 0x60];
        match kind {
            0 | 1 => u,
            2 => if (r >> 8) % 8 == 0 { 1 << (u & 7) } else { 0 },
            3 => if (r >> 8) % 8 == 0 { !(1 << (u & 7)) } else { 0xff },
            4 => edge[u as usize % edge.len()],
            5 => if (r >> 8) % 32 == 0 { u } else { 0 },
            _ => if (r >> 8) % 2 == 0 { u } else { edge[u as usize % edge.len()] },
        }
    }
}

/// The constants of the source (VERIF_DICT), of which those that are new to it come first.
#[derive(Default)]
struct Dict { numbers: Vec<u64>, texts: Vec<Vec<u8>>, new_numbers: usize, new_texts: usize }
impl Dict {
    fn read() -> Dict {
        let mut d = Dict::default();
        let t = std::env::var_os("VERIF_DICT").and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in t.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            if w.len() != 3 { continue; }
            let new = (w[0] == "new") as usize;
            match w[1] {
                "n" => if let Ok(v) = w[2].parse() { d.numbers.push(v); d.new_numbers += new; },
                _ => {
                    d.texts.push((0..w[2].len() / 2).filter_map(|i| u8::from_str_radix(&w[2][2 * i..2 * i + 2], 16).ok()).collect());
                    d.new_texts += new;
                }
            }
        }
        d
    }
    fn pick(r: u64, all: usize, new: usize) -> usize {
        if new > 0 && r % 4 != 0 { (r >> 8) as usize % new } else { (r >> 8) as usize % all }
    }
    /// The bytes of a constant, of one next to it, or of a text after its length, as they are read.
    fn bytes(&self, g: &mut Rng) -> Vec<u8> {
        let r = g.next();
        if r % 8 == 0 && !self.texts.is_empty() {
            let t = &self.texts[Dict::pick(r >> 3, self.texts.len(), self.new_texts)];
            let mut b = vec![t.len() as u8];
            b.extend_from_slice(t);
            return b;
        }
        if self.numbers.is_empty() { return vec![r as u8]; }
        let n = self.numbers[Dict::pick(r >> 3, self.numbers.len(), self.new_numbers)];
        let r = g.next();
        let n = match r % 8 { 0 => n.wrapping_add(1), 1 => n.wrapping_sub(1), 2 => n.wrapping_add(2), _ => n };
        n.to_le_bytes()[..[1, 2, 4, 8][(r >> 8) as usize % 4]].to_vec()
    }
}

enum Outcome { Held, Skipped, Failed(String), Unknown }

fn run(e: Entry, name: &str, bytes: &mut dyn FnMut() -> u8) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| e(name, bytes))) {
        Ok(true) => Outcome::Held,
        Ok(false) => Outcome::Unknown,
        Err(p) => {
            let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
            if m == "VERIF_SKIP" { Outcome::Skipped } else { Outcome::Failed(m) }
        }
    }
}

fn on(e: Entry, name: &str, bytes: &[u8]) -> Outcome {
    let mut i = 0;
    run(e, name, &mut || { let b = bytes.get(i).copied().unwrap_or(0); i += 1; b })
}

/// A case that runs for this long does not end: the slowest takes a few seconds.
const HANG: std::time::Duration = std::time::Duration::from_secs(60);

/// Watches a search: when one case does not end, records its input and ends the process.
fn watch_over(c: &str, out: &str) -> std::sync::Arc<(AtomicPtr<Vec<u8>>, AtomicU64)> {
    let w = std::sync::Arc::new((AtomicPtr::new(std::ptr::null_mut::<Vec<u8>>()), AtomicU64::new(0)));
    let (mine, c, out) = (w.clone(), c.to_string(), out.to_string());
    std::thread::spawn(move || {
        let (mut case, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = mine.1.load(Ordering::SeqCst);
            let p = mine.0.load(Ordering::SeqCst);
            if now != case || p.is_null() { case = now; since = Instant::now(); continue; }
            if since.elapsed() < HANG { continue; }
            // The searching thread is inside the case; the bytes it has drawn so far make up the input.
            let b: Vec<u8> = unsafe { (*p).iter().take(1 << 20).copied().collect() };
            let path = format!("{}/{}.replay", out, c.replace("::", "."));
            let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
            std::fs::write(&path, format!("contract {}\nbytes {}\nmessage does not end within {} s\n", c, hex, HANG.as_secs())).expect("write replay");
            println!("FAILED {} {} does not end within {} s", c, path, HANG.as_secs());
            std::process::exit(1);
        }
    });
    w
}

/// Makes a failing input smaller: drops its tail, zeroes and halves its bytes.
fn shrink(e: Entry, name: &str, mut b: Vec<u8>) -> Vec<u8> {
    let fails = |x: &[u8]| matches!(on(e, name, x), Outcome::Failed(_));
    let t = Instant::now();
    let mut again = true;
    while again && t.elapsed().as_secs() < 10 {
        again = false;
        let mut k = b.len() / 2;
        while k > 0 {
            while b.len() >= k && fails(&b[..b.len() - k]) { let n = b.len() - k; b.truncate(n); again = true; }
            k /= 2;
        }
        for i in 0..b.len() {
            if t.elapsed().as_secs() >= 10 { break; }
            let mut c = b.clone();
            c.remove(i.min(c.len() - 1));
            if fails(&c) { b = c; again = true; break; }
            for v in [0, b[i] / 2, b[i].saturating_sub(1)].iter() {
                if *v < b[i] {
                    let mut c = b.clone();
                    c[i] = *v;
                    if fails(&c) { b = c; again = true; break; }
                }
            }
        }
    }
    b
}

fn split(c: &str) -> (&str, &str) {
    let i = c.find("::").expect("contract names are entry::name");
    (&c[..i], &c[i + 2..])
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var_os("VERIF_SHOW_PANIC").is_none() { std::panic::set_hook(Box::new(|_| ())); }
    if a[1] == "replay" {
        let t = std::fs::read_to_string(&a[2]).expect("replay file");
        let field = |k: &str| t.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].trim().to_string()).expect("field");
        let (c, h) = (field("contract "), field("bytes"));
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).expect("hex")).collect();
        let (e, n) = split(&c);
        let name = c.clone();
        std::thread::spawn(move || {
            std::thread::sleep(HANG);
            println!("FAILED {} does not end within {} s", name, HANG.as_secs());
            std::process::exit(1);
        });
        match on(entry(e).expect("this build has no such contracts"), n, &b) {
            Outcome::Failed(m) => { println!("FAILED {} {}", c, m.replace('\n', " ")); std::process::exit(1) }
            Outcome::Held => println!("HELD {}", c),
            Outcome::Skipped => println!("SKIPPED {}", c),
            Outcome::Unknown => { println!("UNKNOWN {}", c); std::process::exit(3) }
        }
        return;
    }
    let (seed, secs, out): (u64, f64, &str) = (a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4]);
    let dict = std::sync::Arc::new(Dict::read());
    let handles: Vec<_> = a[5..].iter().cloned().map(|c| {
        let (out, dict) = (out.to_string(), dict.clone());
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let (e, n) = split(&c);
            let en = match entry(e) { Some(x) => x, None => { println!("UNKNOWN {}", c); return } };
            let mut seeder = Rng(seed ^ c.bytes().fold(7, |h, b| (h as u64).wrapping_mul(1_000_003) ^ b as u64));
            let (t, mut cases, mut held) = (Instant::now(), 0_u64, 0_u64);
            let mut distinct = std::collections::HashSet::new();
            let watch = watch_over(&c, &out);
            while t.elapsed().as_secs_f64() < secs {
                let kind = seeder.next() % 7;
                let mut r = Rng(seeder.next());
                let mut used = vec![];
                // Constants of the source among the bytes of the case: more of them where the source has new ones.
                let every = if dict.new_numbers + dict.new_texts > 0 { [0, 4, 12, 40] } else { [0, 0, 0, 12] }[seeder.next() as usize % 4];
                let mut queue = std::collections::VecDeque::new();
                cases += 1;
                watch.0.store(&mut used as *mut Vec<u8>, Ordering::SeqCst);
                watch.1.store(cases, Ordering::SeqCst);
                let outcome = run(en, n, &mut || {
                    if every > 0 && queue.is_empty() && r.next() % every == 0 { queue.extend(dict.bytes(&mut r)); }
                    let b = match queue.pop_front() { Some(b) => b, None => r.byte(kind) };
                    used.push(b);
                    b
                });
                watch.0.store(std::ptr::null_mut(), Ordering::SeqCst);
                match outcome {
                    Outcome::Held => {
                        held += 1;
                        if distinct.len() < 200_000 {
                            distinct.insert(used.iter().fold(0xcbf2_9ce4_8422_2325_u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3)));
                        }
                    }
                    Outcome::Skipped => (),
                    Outcome::Unknown => { println!("UNKNOWN {}", c); return }
                    Outcome::Failed(_) => {
                        let b = shrink(en, n, used);
                        let m = match on(en, n, &b) { Outcome::Failed(m) => m, _ => "not reproducible".to_string() };
                        let path = format!("{}/{}.replay", out, c.replace("::", "."));
                        let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                        std::fs::write(&path, format!("contract {}\nbytes {}\nmessage {}\n", c, hex, m.replace('\n', " "))).expect("write replay");
                        println!("FAILED {} {} {}", c, path, m.replace('\n', " "));
                        return;
                    }
                }
            }
            println!("DONE {} cases={} held={} distinct={}", c, cases, held, distinct.len());
        }).unwrap()
    }).collect();
    for h in handles { h.join().unwrap(); }
}
