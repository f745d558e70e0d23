//! P21: parsers and lexers in several threads share their caches without noticing each other.
#![allow(warnings)]
use antlr_rust::PredictionContextCache;
use std::sync::Arc;
use vpconc::run;
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::*;

use antlr_rust::input_stream::InputStream;
use vpharness::lex;

type Out = (T, Vec<(usize, isize)>, Vec<Report>);
fn parse(g: &Gram, d: &Dfas, c: &Arc<PredictionContextCache>, t: &[isize], preds: &[bool]) -> Out {
    let mut p = P::with_cache(g, d, c, stream(t), Strat::new(), preds.to_vec());
    if !preds.is_empty() {
        p.base.owners = owners(g, preds.len());
    }
    let r = p.rule(0, 0).unwrap();
    let reports = p.reports.borrow().clone();
    (tree(&*r), p.taken.iter().map(|t| (t.at, t.alt)).collect(), reports)
}
/// one parser per entry of `n`, each with an input of up to that many tokens
fn parsers(rules: &[G], lr: &[usize], max: i64, n: &[usize], preds: usize, budget: u64) {
    let g = gram(rules, lr, max);
    let t: Vec<Vec<isize>> = n.iter().map(|n| sym_types(choose(*n as u64 + 1) as usize, max)).collect();
    let v: Vec<Vec<bool>> = n.iter().map(|_| (0..preds).map(|_| choose(2) == 1).collect()).collect();
    let fresh = || Arc::new(PredictionContextCache::new());
    let alone: Vec<Out> = (0..n.len()).map(|k| parse(&g, &dfas(&g.atn), &fresh(), &t[k], &v[k])).collect();
    let d = dfas(&g.atn);
    let c = fresh();
    let mut got: Vec<Option<Out>> = n.iter().map(|_| None).collect();
    let (g, d, c) = (&g, &d, &c);
    let threads = got.iter_mut().zip(t.iter().zip(&v)).map(|(o, (t, v))| Box::new(move || *o = Some(parse(g, d, c, t, v))) as Box<dyn FnMut()>).collect();
    run(threads, budget);
    for k in 0..n.len() {
        check(got[k].as_ref() == Some(&alone[k]), 1);
    }
    // whatever they have left behind
    for k in 0..n.len() {
        check(parse(g, d, c, &t[k], &v[k]) == alone[k], 2);
    }
    cover(1);
}
fn gr(k: u64, n: &[usize], budget: u64) {
    let (r, lr, max) = grams(k);
    parsers(&r, &lr, max, n, 0, budget);
}
fn pr(k: u64, n: &[usize], budget: u64) {
    let (r, max) = pg(k);
    parsers(&r, &[], max, n, 2, budget);
}
fn lexers(k: u64, n: &[usize], budget: u64) {
    let (rules, modes) = lex::lexers(k);
    let a = lex::atn(&lexer_builder(&rules, modes));
    let t: Vec<&'static str> = n.iter().map(|n| sym_over(choose(*n as u64 + 1) as usize, b"abcde")).collect();
    let v: Vec<Vec<bool>> = n.iter().map(|_| if k == 2 { (0..3).map(|_| choose(2) == 1).collect() } else { vec![] }).collect();
    let lex = |d: &Dfas, k: usize| {
        let (mut l, log, _) = lex::lexer(InputStream::new(t[k]), &a, d, v[k].clone());
        let r = lex::run(&mut l, t[k].len() + 1);
        let log = log.borrow().clone();
        (r, log)
    };
    let alone: Vec<_> = (0..n.len()).map(|k| lex(&dfas(&a), k)).collect();
    let d = dfas(&a);
    let mut got: Vec<Option<(Vec<lex::Tk>, Vec<(isize, isize, String)>)>> = n.iter().map(|_| None).collect();
    let (l, d) = (&lex, &d);
    let threads = got.iter_mut().enumerate().map(|(k, o)| Box::new(move || *o = Some(l(d, k))) as Box<dyn FnMut()>).collect();
    run(threads, budget);
    for k in 0..n.len() {
        check(got[k].as_ref() == Some(&alone[k]), 3);
        check(lex(d, k) == alone[k], 4);
    }
    cover(1);
}
macro_rules! entries {
    ($($f:ident $e:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { $e })* harnesses! {$($f),*} }
}
entries! {
    h_parsers gr(choose(12), &[2, 2], 1);
    h_parsers2 gr(choose(12), &[1, 1], 2);
    h_three gr([2, 4, 7, 9][choose(4) as usize], &[1, 1, 1], 1);
    h_preds pr(choose(PGS), &[2, 1], 1);
    h_lexers lexers(choose(lex::LEXERS), &[2, 1], 1);
    h_lexers2 lexers(choose(lex::LEXERS), &[1, 1], 2);
    h_parsers3 gr(choose(12), &[2, 2], 2);
    h_long gr(choose(12), &[4, 3], 1);
    h_preds2 pr(choose(PGS), &[2, 2], 2);
    h_lexers3 lexers(choose(lex::LEXERS), &[3, 2], 2);
    h_three2 gr(choose(12), &[2, 1, 1], 2);
}
