//! P09: the parse tree of valid input is the derivation that takes the first alternative that can succeed.
#![allow(warnings)]
use antlr_rust::token_stream::UnbufferedTokenStream;
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::tok::VecSource;
use vpharness::*;

/// after the parse: every decision, then the whole tree
fn judge(g: &Gram, t: &[isize], taken: &[Taken], tr: &T, index: Vec<isize>) {
    let l = Lang::new(g, t);
    check(l.accepts(0), 1);
    check_decisions(&l, taken, 10);
    let t = fix_types(t);
    let l = Lang::new(g, &t);
    check(RefParse::tree_at(&l, 0, index) == *tr, 2);
    cover(1);
}
fn go(rules: &[G], lr: &[usize], n: usize, max: i64) {
    let n = choose(n as u64 + 1) as usize;
    let g = gram(rules, lr, max);
    let d = dfas(&g.atn);
    let t = sym_types(n, max);
    let mut p = P::new(&g, &d, stream(&t), Bail::new(), vec![]);
    if let Ok(r) = p.rule(0, 0) {
        judge(&g, &t, &p.taken, &tree(&*r), (0..=n as isize).collect());
    }
}
/// some tokens on a hidden channel
fn hidden(k: u64, n: usize) {
    let (rules, lr, max) = grams(k);
    let g = gram(&rules, &lr, max);
    let d = dfas(&g.atn);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let ch: Vec<isize> = (0..n).map(|_| choose(2) as isize).collect();
    let src = VecSource::new((0..n).map(|i| (t[i], ch[i])).collect());
    let mut p = P::new(&g, &d, antlr_rust::common_token_stream::CommonTokenStream::new(src), Strat::new(), vec![]);
    p.log_decisions = false;
    let r = p.rule(0, 0).unwrap();
    let vis: Vec<usize> = (0..n).filter(|i| ch[*i] == 0).collect();
    let tv: Vec<isize> = vis.iter().map(|i| t[*i]).collect();
    let mut ix: Vec<isize> = vis.iter().map(|i| *i as isize).collect();
    ix.push(n as isize);
    let l = Lang::new(&g, &tv);
    check(l.accepts(0) == p.reports.borrow().is_empty(), 4);
    if p.reports.borrow().is_empty() {
        judge(&g, &tv, &[], &tree(&*r), ix);
    }
}
fn unbuffered(k: u64, n: usize) {
    let (rules, lr, max) = grams(k);
    let g = gram(&rules, &lr, max);
    let d = dfas(&g.atn);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let src = VecSource::new((0..n).map(|i| (t[i], 0)).collect());
    let mut p = P::new(&g, &d, UnbufferedTokenStream::new_unbuffered(src), Bail::new(), vec![]);
    let r = p.rule(0, 0);
    let l = Lang::new(&g, &t);
    check(l.accepts(0) == r.is_ok(), 4);
    if let Ok(r) = r {
        judge(&g, &t, &p.taken, &tree(&*r), (0..=n as isize).collect());
    }
}
fn k(i: u64, n: usize) {
    let (r, lr, max) = grams(i);
    go(&r, &lr, n, max);
}
fn fam(n: usize) {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    go(&r, &lr, n, max);
}
#[no_mangle]
pub extern "C" fn h_g0() {
    k(0, 8);
}
#[no_mangle]
pub extern "C" fn h_g1() {
    k(1, 8);
}
#[no_mangle]
pub extern "C" fn h_g2() {
    k(2, 5);
}
#[no_mangle]
pub extern "C" fn h_g3() {
    k(3, 9);
}
#[no_mangle]
pub extern "C" fn h_g4() {
    k(4, 5);
}
#[no_mangle]
pub extern "C" fn h_g5() {
    k(5, 7);
}
#[no_mangle]
pub extern "C" fn h_g6() {
    k(6, 8);
}
#[no_mangle]
pub extern "C" fn h_g7() {
    k(7, 7);
}
#[no_mangle]
pub extern "C" fn h_g8() {
    k(8, 7);
}
#[no_mangle]
pub extern "C" fn h_g9() {
    k(9, 7);
}
#[no_mangle]
pub extern "C" fn h_g10() {
    k(10, 5);
}
#[no_mangle]
pub extern "C" fn h_g11() {
    k(11, 7);
}
#[no_mangle]
pub extern "C" fn h_family() {
    fam(3);
}
#[no_mangle]
pub extern "C" fn h_family4() {
    fam(4);
}
#[no_mangle]
pub extern "C" fn h_hidden() {
    hidden(choose(12), 4);
}
#[no_mangle]
pub extern "C" fn h_unbuffered() {
    unbuffered(choose(12), 4);
}
fn lr(n: usize) {
    let (r, lr, max) = lr_family(choose(PRIMARIES), choose(OPERATORS), choose(USES));
    go(&r, &lr, n, max);
}
#[no_mangle]
pub extern "C" fn h_lr() {
    lr(5);
}
#[no_mangle]
pub extern "C" fn h_lr7() {
    lr(7);
}
harnesses! {h_lr, h_lr7, h_g0, h_g1, h_g2, h_g3, h_g4, h_g5, h_g6, h_g7, h_g8, h_g9, h_g10, h_g11, h_family, h_family4, h_hidden, h_unbuffered}
