#![allow(warnings)]
//! Interface between the harnesses and the symbolic executor.
//!
//! The executor intercepts the `vp_*` functions by name.  Run natively, the same functions take
//! their values from a replay file, which is how counterexamples and sampled paths are confirmed
//! against the compiled code.
pub mod gram;
pub mod lex;
pub mod par;
pub mod rec;
pub mod tok;
use std::sync::Mutex;
use std::hint::black_box;

static INPUT: Mutex<(Vec<u64>, usize)> = Mutex::new((vec![], 0));

#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_sym(w: u32) -> u64 {
    let w = black_box(w);
    let v = {
        let mut i = INPUT.lock().unwrap();
        let k = i.1;
        i.1 += 1;
        i.0.get(k).copied().unwrap_or(0)
    };
    let v = if w >= 64 { v } else { v & ((1u64 << w) - 1) };
    black_box(v)
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_assume(c: u32) {
    if black_box(c) == 0 {
        println!("VP-ASSUME");
        std::process::exit(3);
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_assert(c: u32, id: u32) {
    if black_box(c) == 0 {
        println!("VP-ASSERT {}", black_box(id));
        std::process::exit(10);
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_cover(id: u32) {
    println!("cover {}", black_box(id));
    if id == 999 {
        std::panic::set_hook(Box::new(|_| {
            println!("VP-DONE");
            std::process::exit(0)
        }));
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_out(v: u64) {
    println!("out {}", black_box(v));
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_concrete(v: u64) -> u64 {
    black_box(v)
}

pub fn sym_u8() -> u8 {
    vp_sym(8) as u8
}
pub fn sym_u16() -> u16 {
    vp_sym(16) as u16
}
pub fn sym_u32() -> u32 {
    vp_sym(32) as u32
}
pub fn sym_i32() -> i32 {
    vp_sym(32) as i32
}
pub fn sym_u64() -> u64 {
    vp_sym(64)
}
pub fn sym_bool() -> bool {
    vp_sym(1) & 1 == 1
}
/// symbolic value in lo..=hi (as a 64-bit integer built from `bits` free bits)
pub fn sym_in(bits: u32, lo: i64, hi: i64) -> i64 {
    let v = vp_sym(bits) as i64;
    assume(v <= hi - lo);
    v + lo
}
/// a choice among n alternatives; the executor splits the path on it
pub fn choose(n: u64) -> u64 {
    let v = vp_sym(8);
    assume(v < n);
    vp_concrete(v)
}
pub fn concrete(v: u64) -> u64 {
    vp_concrete(v)
}
pub fn assume(c: bool) {
    vp_assume(c as u32)
}
pub fn check(c: bool, id: u32) {
    vp_assert(c as u32, id)
}
pub fn cover(id: u32) {
    vp_cover(id)
}
/// from here on the path has to end with a panic
pub fn expect_panic() {
    vp_cover(999)
}
pub fn out(v: u64) {
    vp_out(v)
}
pub fn out_i(v: isize) {
    vp_out(v as i64 as u64)
}
pub fn out_str(s: &str) {
    vp_out(s.len() as u64);
    for b in s.bytes() {
        vp_out(b as u64);
    }
}

/// native entry point: `BIN harness-name`, inputs in the file named by VP_REPLAY (one per line)
pub fn run_main(table: &[(&str, extern "C" fn())]) {
    let name = std::env::args().nth(1).unwrap_or_default();
    if let Ok(f) = std::env::var("VP_REPLAY") {
        let t = std::fs::read_to_string(f).expect("replay file");
        let v: Vec<u64> = t.lines().filter_map(|l| l.split_whitespace().next().and_then(|x| x.parse().ok())).collect();
        *INPUT.lock().unwrap() = (v, 0);
    }
    for (n, f) in table {
        if *n == name {
            f();
            println!("VP-DONE");
            return;
        }
    }
    eprintln!("unknown harness {:?}", name);
    std::process::exit(4);
}

#[macro_export]
macro_rules! harnesses {
    ($($name:ident),* $(,)?) => {
        fn main() {
            vpharness::run_main(&[$((stringify!($name), $name as extern "C" fn())),*]);
        }
    };
}

/// a symbolic Unicode scalar value whose UTF-8 form has exactly `len` bytes, and that form
pub fn sym_char(len: usize) -> (u32, Vec<u8>) {
    match len {
        1 => {
            let c = vp_sym(7) as u32;
            (c, vec![c as u8])
        }
        2 => {
            let c = vp_sym(11) as u32;
            assume(c >= 0x80);
            (c, vec![0xC0 | (c >> 6) as u8, 0x80 | (c & 0x3f) as u8])
        }
        3 => {
            let c = vp_sym(16) as u32;
            assume((c >= 0x800) & ((c < 0xD800) | (c > 0xDFFF)));
            (c, vec![0xE0 | (c >> 12) as u8, 0x80 | ((c >> 6) & 0x3f) as u8, 0x80 | (c & 0x3f) as u8])
        }
        _ => {
            let c = vp_sym(21) as u32;
            assume((c >= 0x10000) & (c <= 0x10FFFF));
            (
                c,
                vec![
                    0xF0 | (c >> 18) as u8,
                    0x80 | ((c >> 12) & 0x3f) as u8,
                    0x80 | ((c >> 6) & 0x3f) as u8,
                    0x80 | (c & 0x3f) as u8,
                ],
            )
        }
    }
}
/// symbolic text of n characters (UTF-8 lengths chosen by path splitting): code points, index of
/// each character (and of the end), text
pub fn sym_text(n: usize, max_len: u64) -> (Vec<u32>, Vec<usize>, &'static str) {
    let (mut cs, mut ix, mut b) = (vec![], vec![0], vec![]);
    for _ in 0..n {
        let (c, e) = sym_char(choose(max_len) as usize + 1);
        cs.push(c);
        b.extend(e);
        ix.push(b.len());
    }
    let b: &'static [u8] = Box::leak(b.into_boxed_slice());
    (cs, ix, unsafe { std::str::from_utf8_unchecked(b) })
}
/// symbolic 7-bit text
pub fn sym_ascii(n: usize) -> &'static str {
    let v: Vec<u8> = (0..n).map(|_| vp_sym(7) as u8).collect();
    let v: &'static [u8] = Box::leak(v.into_boxed_slice());
    unsafe { std::str::from_utf8_unchecked(v) }
}
/// symbolic text over the given 7-bit alphabet (one symbolic index per character)
pub fn sym_over(n: usize, alphabet: &[u8]) -> &'static str {
    let v: Vec<u8> = (0..n)
        .map(|_| {
            let b = vp_sym(7) as u8;
            assume(alphabet.iter().fold(false, |x, a| x | (*a == b)));
            b
        })
        .collect();
    let v: &'static [u8] = Box::leak(v.into_boxed_slice());
    unsafe { std::str::from_utf8_unchecked(v) }
}
