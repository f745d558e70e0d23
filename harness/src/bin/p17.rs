//! P17: the tokens a parser expects are exactly those that can come next.
#![allow(warnings)]
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::*;

fn go(rules: &[G], lr: &[usize], n: usize, max: i64) {
    let n = choose(n as u64 + 1) as usize;
    let start = choose(rules.len() as u64) as usize;
    let g = gram(rules, lr, max);
    let d = dfas(&g.atn);
    let t = sym_types(n, max);
    let mut p = P::new(&g, &d, stream(&t), Strat::new(), vec![]);
    p.log_decisions = false;
    p.expect = true;
    p.rule(start, 0).unwrap();
    cover(1);
    cover(if p.reports.borrow().is_empty() { 2 } else { 3 });
}
fn k(i: u64, n: usize) {
    let (r, lr, max) = grams(i);
    go(&r, &lr, n, max);
}
macro_rules! grams_ {
    ($($f:ident $k:expr, $n:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { k($k, $n); })* }
}
grams_! {
    h_g0 0, 7; h_g1 1, 7; h_g2 2, 5; h_g3 3, 7; h_g4 4, 6; h_g5 5, 6; h_g6 6, 6; h_g7 7, 6; h_g8 8, 6; h_g9 9, 7; h_g10 10, 5; h_g11 11, 7;
}
#[no_mangle]
pub extern "C" fn h_family() {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    go(&r, &lr, 2, max);
}
#[no_mangle]
pub extern "C" fn h_family3() {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    go(&r, &lr, 3, max);
}
#[no_mangle]
pub extern "C" fn h_deep() {
    k(choose(12), 8);
}
harnesses! {h_g0, h_g1, h_g2, h_g3, h_g4, h_g5, h_g6, h_g7, h_g8, h_g9, h_g10, h_g11, h_family, h_family3, h_deep}
