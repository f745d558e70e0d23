//! P08: a parser reports a syntax error exactly when the input is not in the language.
#![allow(warnings)]
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::*;

fn go(rules: &[G], lr: &[usize], n: usize, max: i64) {
    let n = choose(n as u64 + 1) as usize;
    let g = gram(rules, lr, max);
    let d = dfas(&g.atn);
    let t = sym_types(n, max);
    let mut p = P::new(&g, &d, stream(&t), Strat::new(), vec![]);
    let r = p.rule(0, 0);
    let l = Lang::new(&g, &t);
    let ok = l.accepts(0);
    out(p.reports.borrow().len() as u64);
    check(r.is_ok(), 1);
    check(ok == p.reports.borrow().is_empty(), 2);
    if p.reports.borrow().is_empty() {
        // everything was read
        check(p.base.input.index() == n as isize, 3);
        cover(1);
    } else {
        cover(2);
    }
}
fn k(i: u64, n: usize) {
    let (r, lr, max) = grams(i);
    go(&r, &lr, n, max);
}
fn fam(shapes: u64, n: usize) {
    let (r, lr, max) = family(choose(shapes), choose(shapes), choose(LEAVES));
    go(&r, &lr, n, max);
}
#[no_mangle]
pub extern "C" fn h_g0() {
    k(0, 6);
}
#[no_mangle]
pub extern "C" fn h_g1() {
    k(1, 6);
}
#[no_mangle]
pub extern "C" fn h_g2() {
    k(2, 4);
}
#[no_mangle]
pub extern "C" fn h_g3() {
    k(3, 7);
}
#[no_mangle]
pub extern "C" fn h_g4() {
    k(4, 5);
}
#[no_mangle]
pub extern "C" fn h_g5() {
    k(5, 6);
}
#[no_mangle]
pub extern "C" fn h_g6() {
    k(6, 6);
}
#[no_mangle]
pub extern "C" fn h_g7() {
    k(7, 6);
}
#[no_mangle]
pub extern "C" fn h_g8() {
    k(8, 6);
}
#[no_mangle]
pub extern "C" fn h_g9() {
    k(9, 6);
}
#[no_mangle]
pub extern "C" fn h_g10() {
    k(10, 4);
}
#[no_mangle]
pub extern "C" fn h_g11() {
    k(11, 6);
}
#[no_mangle]
pub extern "C" fn h_family() {
    fam(SHAPES, 3);
}
#[no_mangle]
pub extern "C" fn h_family4() {
    fam(SHAPES, 4);
}
fn lr(n: usize) {
    let (r, lr, max) = lr_family(choose(PRIMARIES), choose(OPERATORS), choose(USES));
    go(&r, &lr, n, max);
}
#[no_mangle]
pub extern "C" fn h_lr() {
    lr(4);
}
#[no_mangle]
pub extern "C" fn h_lr6() {
    lr(6);
}
harnesses! {h_lr, h_lr6, h_g0, h_g1, h_g2, h_g3, h_g4, h_g5, h_g6, h_g7, h_g8, h_g9, h_g10, h_g11, h_family, h_family4}
