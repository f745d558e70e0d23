//! P16: what a parser has parsed before never changes a parse.
#![allow(warnings)]
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::parser_atn_simulator::ParserATNSimulator;
use antlr_rust::token_stream::TokenStream;
use antlr_rust::PredictionContextCache;
use antlr_rust::PredictionMode;
use std::sync::Arc;
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::tok::VecSource;
use vpharness::*;

#[derive(PartialEq)]
struct Outcome {
    tree: T,
    reports: Vec<Report>,
    decisions: Vec<(usize, isize)>,
}
fn run(g: &Gram, d: &Dfas, cache: Option<&Arc<PredictionContextCache>>, mode: u64, rule: usize, t: &[isize]) -> Outcome {
    let own = Arc::new(PredictionContextCache::new());
    let mut p = P::with_cache(g, d, cache.unwrap_or(&own), stream(t), Strat::new(), vec![]);
    p.interp.set_prediction_mode(match mode {
        0 => PredictionMode::LL,
        1 => PredictionMode::SLL,
        _ => PredictionMode::LL_EXACT_AMBIG_DETECTION,
    });
    let tr = tree(&*p.rule(rule, 0).unwrap());
    let r = p.reports.borrow().clone();
    Outcome { tree: tr, reports: r, decisions: p.taken.iter().map(|t| (t.at, t.alt)).collect() }
}
/// a first parse, starting with any rule in any mode, then a second one on the same caches
fn warm(rules: &[G], lr: &[usize], n1: usize, n2: usize, max: i64, all: bool) {
    let g = gram(rules, lr, max);
    let start = if all { choose(rules.len() as u64) as usize } else { 0 };
    let mode = if all { choose(2) } else { 0 };
    let shared = !all || choose(2) == 1;
    let n1 = choose(n1 as u64 + 1) as usize;
    let n2 = choose(n2 as u64 + 1) as usize;
    let (t1, t2) = (sym_types(n1, max), sym_types(n2, max));
    let d = dfas(&g.atn);
    let c = Arc::new(PredictionContextCache::new());
    let c = if shared { Some(&c) } else { None };
    run(&g, &d, c, mode, start, &t1);
    let warm = run(&g, &d, c, 0, 0, &t2);
    let cold = run(&g, &dfas(&g.atn), None, 0, 0, &t2);
    check(warm.decisions == cold.decisions, 1);
    check(warm.tree == cold.tree, 2);
    check(warm.reports == cold.reports, 3);
    cover(1);
}
/// one parser, asked for the same rule again and again
fn again(i: u64, n: usize) {
    let (rules, lr, max) = grams(i);
    // the rule called must not consume end-of-file
    let rule = 1;
    let g = gram(&rules, &lr, max);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let mut p = P::new(&g, &dfas(&g.atn), stream(&t), Strat::new(), vec![]);
    p.log_decisions = false;
    for _ in 0..2 {
        let at = p.base.input.index();
        let tr = tree(&*p.rule(rule, 0).unwrap());
        // a new parser, at the same place
        let mut input = stream(&t);
        input.seek(at);
        let mut q = P::new(&g, &dfas(&g.atn), input, Strat::new(), vec![]);
        q.log_decisions = false;
        check(tree(&*q.rule(rule, 0).unwrap()) == tr, 10);
        check(*q.reports.borrow() == *p.reports.borrow(), 11);
        check(q.base.input.index() == p.base.input.index(), 12);
        check(p.base.ctx.is_none(), 13);
        if !p.reports.borrow().is_empty() {
            cover(2);
            break;
        }
    }
    cover(1);
}
fn k(i: u64, a: usize, b: usize) {
    let (r, lr, max) = grams(i);
    warm(&r, &lr, a, b, max, true);
}
macro_rules! grams_ {
    ($($f:ident $k:expr, $a:expr, $b:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { k($k, $a, $b); })* }
}
grams_! {
    h_g0 0, 4, 4; h_g1 1, 4, 4; h_g2 2, 3, 4; h_g3 3, 3, 3; h_g4 4, 3, 4; h_g5 5, 3, 3; h_g6 6, 3, 3; h_g7 7, 2, 3; h_g8 8, 2, 3; h_g9 9, 3, 3; h_g10 10, 3, 4; h_g11 11, 3, 3;
}
#[no_mangle]
pub extern "C" fn h_family() {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    warm(&r, &lr, 1, 2, max, false);
}
#[no_mangle]
pub extern "C" fn h_deep() {
    k(choose(12), 4, 4);
}
#[no_mangle]
pub extern "C" fn h_family2() {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    warm(&r, &lr, 2, 2, max, true);
}
#[no_mangle]
pub extern "C" fn h_again() {
    again([1, 2, 3, 6, 7, 9, 10, 11][choose(8) as usize], 5);
}
harnesses! {h_g0, h_g1, h_g2, h_g3, h_g4, h_g5, h_g6, h_g7, h_g8, h_g9, h_g10, h_g11, h_family, h_again, h_deep, h_family2}
