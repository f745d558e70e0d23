//! P15: the prediction mode changes the effort, never what a valid input means.
#![allow(warnings)]
use antlr_rust::PredictionMode;
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::*;

/// 0: LL with exact ambiguity detection, 1: SLL
fn go(rules: &[G], lr: &[usize], n: usize, max: i64, local: bool) {
    let mode = choose(2);
    let n = choose(n as u64 + 1) as usize;
    let g = gram(rules, lr, max);
    let d = dfas(&g.atn);
    let t = sym_types(n, max);
    let mut p = P::new(&g, &d, stream(&t), Strat::new(), vec![]);
    p.log_decisions = false;
    p.interp.set_prediction_mode(if mode == 0 { PredictionMode::LL_EXACT_AMBIG_DETECTION } else { PredictionMode::SLL });
    let r = p.rule(0, 0).unwrap();
    let ok = p.reports.borrow().is_empty();
    let l = Lang::new(&g, &t);
    let acc = l.accepts(0);
    // rules whose decisions are the same in every context need no full context
    if mode == 0 || local || g.is_ll1 {
        check(acc == ok, 1);
    }
    if ok {
        check(acc, 2);
        let f = fix_types(&t);
        check(RefParse::tree(&Lang::new(&g, &f), 0) == tree(&*r), 3);
        cover(2 + mode as u32);
    }
    cover(1);
}
fn k(i: u64, n: usize) {
    let (r, lr, max) = grams(i);
    go(&r, &lr, n, max, ![2, 10, 11].contains(&i));
}
fn fam(n: usize) {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    go(&r, &lr, n, max, false);
}
/// a two-stage parse: quickly first, then (if that failed) with full context, on the same caches
fn two_stage(i: u64, n: usize) {
    let n = choose(n as u64 + 1) as usize;
    let (rules, lr, max) = grams(i);
    let g = gram(&rules, &lr, max);
    let d = dfas(&g.atn);
    let t = sym_types(n, max);
    let mut p = P::new(&g, &d, stream(&t), Bail::new(), vec![]);
    p.log_decisions = false;
    p.interp.set_prediction_mode(PredictionMode::SLL);
    let first = p.rule(0, 0).map(|r| tree(&*r)).ok();
    let mut q = P::new(&g, &d, stream(&t), Bail::new(), vec![]);
    q.log_decisions = false;
    let second = q.rule(0, 0).map(|r| tree(&*r)).ok();
    let l = Lang::new(&g, &t);
    let acc = l.accepts(0);
    check(acc == second.is_some(), 10);
    if let Some(s) = second {
        check(first.is_none() || first == Some(s.clone()), 11);
        let f = fix_types(&t);
        check(RefParse::tree(&Lang::new(&g, &f), 0) == s, 12);
    } else {
        check(first.is_none(), 13);
    }
    cover(1);
}
macro_rules! grams_ {
    ($($f:ident $k:expr, $n:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { k($k, $n); })* }
}
grams_! {
    h_g0 0, 7; h_g1 1, 7; h_g2 2, 5; h_g3 3, 8; h_g4 4, 6; h_g5 5, 6; h_g6 6, 7; h_g7 7, 6; h_g8 8, 6; h_g9 9, 7; h_g10 10, 5; h_g11 11, 7;
}
#[no_mangle]
pub extern "C" fn h_family() {
    fam(3);
}
#[no_mangle]
pub extern "C" fn h_family4() {
    fam(4);
}
#[no_mangle]
pub extern "C" fn h_two_stage() {
    two_stage(choose(12), 5);
}
#[no_mangle]
pub extern "C" fn h_two_stage7() {
    two_stage(choose(12), 7);
}
harnesses! {h_g0, h_g1, h_g2, h_g3, h_g4, h_g5, h_g6, h_g7, h_g8, h_g9, h_g10, h_g11, h_family, h_family4, h_two_stage, h_two_stage7}
