//! P01: an IntervalSet behaves as the mathematical set of integers it was built from.
#![allow(warnings)]
use antlr_rust::interval_set::{Interval, IntervalSet};
use vpharness::*;

const LO: isize = -2;
const HI: isize = 9;

/// one symbolic update applied to the set, mirrored on a membership bitmask (bit v-LO)
fn rmask(a: isize, b: isize) -> u16 {
    let (a, b) = (a as i8, b as i8);
    let mut m = 0;
    for i in 0..(HI - LO + 1) {
        let v = (i + LO) as i8;
        m |= (((a <= v) & (v <= b)) as u16) << i;
    }
    m
}
/// quick entries use the eight values -2..5, thorough ones -2..9
static SMALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
fn small() -> bool {
    SMALL.load(std::sync::atomic::Ordering::Relaxed)
}
fn wide() {
    SMALL.store(false, std::sync::atomic::Ordering::Relaxed);
}
fn val() -> isize {
    if small() {
        sym_u3() as isize + LO
    } else {
        sym_in(4, LO as i64, HI as i64) as isize
    }
}
fn sym_u3() -> u64 {
    vp_sym(3)
}
fn range() -> (isize, isize) {
    let a = val();
    let b = val();
    assume(a <= b);
    (a, b)
}
fn popcount(m: u16) -> isize {
    let mut n = 0u8;
    for i in 0..(HI - LO + 1) {
        n += ((m >> i) & 1) as u8;
    }
    n as isize
}
fn agree(s: &IntervalSet, m: u16, base: u32) {
    let x = sym_in(5, LO as i64 - 3, HI as i64 + 3) as isize;
    let inside = m & rmask(x, x) != 0;
    check(s.contains(x) == inside, base);
    check(s.length() == popcount(m), base + 1);
    match s.get_min() {
        None => check(m == 0, base + 2),
        Some(v) => check((v >= LO) & (v <= HI) & (m & rmask(LO, v) == rmask(v, v)), base + 2),
    }
}
fn build(n: usize) -> (IntervalSet, u16) {
    let mut s = IntervalSet::new();
    let mut m = 0;
    for _ in 0..n {
        let (a, b) = range();
        s.add_range(a, b);
        m |= rmask(a, b);
    }
    (s, m)
}

fn add_n(n: usize) {
    let (s, m) = build(n);
    out(m as u64);
    agree(&s, m, 1);
    cover(1);
}
#[no_mangle]
pub extern "C" fn h_add4() {
    add_n(4)
}
#[no_mangle]
pub extern "C" fn h_add4w() {
    wide();
    add_n(4)
}
#[no_mangle]
pub extern "C" fn h_add5() {
    add_n(5)
}

/// adding an empty (reversed) range changes nothing
#[no_mangle]
pub extern "C" fn h_reversed() {
    let (mut s, m) = build(2);
    let a = val();
    let b = val();
    assume(a > b);
    s.add_range(a, b);
    agree(&s, m, 1);
    cover(1);
}

fn remove_n(n: usize, k: usize) {
    let (mut s, mut m) = build(n);
    for _ in 0..k {
        let x = sym_in(4, LO as i64 - 1, HI as i64 + 1) as isize;
        s.remove_one(x);
        m &= !rmask(x, x);
    }
    agree(&s, m, 11);
    cover(1);
}
#[no_mangle]
pub extern "C" fn h_remove() {
    remove_n(2, 2)
}
#[no_mangle]
pub extern "C" fn h_remove3() {
    wide();
    remove_n(3, 2)
}

fn sub_n(n: usize, k: usize) {
    let (mut s, m) = build(n);
    let (r, rm) = build(k);
    s.substract(&r);
    agree(&s, m & !rm, 21);
    agree(&r, rm, 25);
    cover(1);
}
#[no_mangle]
pub extern "C" fn h_subtract() {
    sub_n(2, 2)
}
#[no_mangle]
pub extern "C" fn h_subtract32() {
    wide();
    sub_n(3, 2)
}
#[no_mangle]
pub extern "C" fn h_union() {
    let (mut s, m) = build(2);
    let (r, rm) = build(2);
    s.add_set(&r);
    agree(&s, m | rm, 31);
    cover(1);
}
#[no_mangle]
pub extern "C" fn h_equalityw() {
    wide();
    h_equality()
}
#[no_mangle]
pub extern "C" fn h_complement() {
    let (s, m) = build(2);
    let (a, b) = range();
    let c = s.complement(a, b);
    agree(&c, rmask(a, b) & !m, 41);
    agree(&s, m, 45);
    cover(1);
}
/// two sets compare equal exactly when they have the same elements, however they were built
#[no_mangle]
pub extern "C" fn h_equality() {
    let (mut s, mut m) = build(2);
    let x = val();
    s.remove_one(x);
    m &= !rmask(x, x);
    let (r, rm) = build(3);
    check((s == r) == (m == rm), 51);
    if s == r {
        cover(1);
    } else {
        cover(2);
    }
}
/// display: every element once, ascending, comma separated, braces when more than one
#[no_mangle]
pub extern "C" fn h_display() {
    let mut s = IntervalSet::new();
    let mut m = 0u16;
    for _ in 0..2 {
        let a = sym_in(3, -2, 4) as isize;
        let b = sym_in(3, -2, 4) as isize;
        assume(a <= b);
        s.add_range(a, b);
        m |= rmask(a, b);
    }
    let txt = s.to_index_string();
    let mut want = String::new();
    let mut n = 0;
    for i in LO..=4 {
        if (m >> (i - LO)) & 1 == 1 {
            if n > 0 {
                want += ", ";
            }
            n += 1;
            match i {
                -1 => want += "<EOF>",
                -2 => want += "<EPSILON>",
                _ => want.push((b'0' + i as u8) as char),
            }
        }
    }
    if n != 1 {
        want = format!("{{{}}}", want);
    }
    check(txt == want, 61);
    out_str(&txt);
    cover(1);
}
harnesses!(h_add4, h_add4w, h_add5, h_reversed, h_remove, h_remove3, h_subtract, h_subtract32, h_union, h_complement, h_equality, h_equalityw, h_display);
