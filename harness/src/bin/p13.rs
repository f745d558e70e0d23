//! P13: any grammar, any input: recovery loses no token, and the first error is where the input stops being viable.
#![allow(warnings)]
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::errors::ANTLRError;
use antlr_rust::parser::Parser;
use antlr_rust::token::Token;
use antlr_rust::token_factory::CommonTokenFactory;
use antlr_rust::token_stream::*;
use antlr_rust::{TidAble, TidExt};
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::tok::VecSource;
use vpharness::*;

/// first error reported when the parser stood at `at` with offending token `bad`
/// (exact: no decision of the grammar depends on the calling rules; otherwise an alternative that only
/// another caller could continue may be predicted for invalid input)
fn first_error(l: &Lang, at: isize, bad: isize, exact: bool, idn: u32) {
    let n = l.len() as isize;
    check((at >= 0) & (at <= bad) & (bad <= n), idn);
    // what was read so far could have become a sentence
    check(l.viable_prefix(0, at as usize), idn + 1);
    // what was read, with everything up to the offending token, cannot
    if exact {
        check(!l.viable_prefix(0, bad as usize + 1), idn + 2);
    }
}
fn run<I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>>(g: &Gram, input: I, t: &[isize], exact: bool) {
    let n = t.len();
    let d = dfas(&g.atn);
    let mut input = input;
    let m = input.mark();
    input.release(m);
    let mut p = P::new(g, &d, input, Strat::new(), vec![]);
    p.log_decisions = false;
    p.base.add_error_listener(Box::new(Diag(p.evs.clone())));
    let r = p.rule(0, 0);
    // every mark taken while parsing was released
    check(p.base.input.mark() == m, 40);
    check(r.is_ok(), 1);
    let mut ls = vec![];
    leaves(&tree(&*r.unwrap()), &mut ls);
    // every token read is one leaf, in order
    let mut next = 0;
    for x in &ls {
        let i = match x {
            T::Tok(i) => *i,
            T::Err(-1, _) => continue,
            T::Err(i, ty) => {
                check(*ty == if *i < n as isize { t[*i as usize] } else { -1 }, 2);
                *i
            }
            _ => unreachable!(),
        };
        check(i == next, 3);
        if i < n as isize {
            next += 1;
        }
    }
    check(p.base.input.index() == next, 4);
    let l = Lang::new(g, t);
    let reports = p.reports.borrow();
    if reports.is_empty() {
        check(ls.iter().all(|x| matches!(x, T::Tok(_))), 5);
        check(l.accepts(0), 6);
        return;
    }
    cover(1);
    failures(&l, &p.failed);
    // at most one report for each token, and one at the end
    check(reports.len() <= n + 1, 7);
    let f = &reports[0];
    first_error(&l, f.at, f.token, exact, 10);
    for r in reports.iter() {
        check((r.at <= r.token) & (r.column == r.token), 8);
        if r.kind == 1 {
            let w: String = (r.at..=r.token).filter(|i| *i < n as isize).map(|i| tok::text(i as usize)).collect();
            let w = if r.at == n as isize { "<EOF>".to_string() } else { w };
            check(r.msg == format!("no viable alternative at input '{}'", w), 9);
            cover(2);
        }
    }
}
/// a prediction only fails if no alternative got the parser to the end of its rule before the
/// offending token (unless full context was needed)
fn failures(l: &Lang, f: &[Failed]) {
    for f in f {
        check(f.at <= f.bad && f.bad <= l.len(), 50);
        if l.g.lr.contains(&true) || f.full {
            continue;
        }
        cover(3);
        for a in &f.paths {
            check(!l.derives(f.at, f.bad, a), 51);
        }
    }
}
fn bail(g: &Gram, t: &[isize], exact: bool) {
    let d = dfas(&g.atn);
    let mut p = P::new(g, &d, stream(t), Bail::new(), vec![]);
    p.log_decisions = false;
    let r = p.rule(0, 0);
    let l = Lang::new(g, t);
    check(l.accepts(0) == r.is_ok(), 20);
    let reports = p.reports.borrow();
    check(reports.len() <= 1, 25);
    if let Err(e) = r {
        cover(1);
        check(l.viable_prefix(0, p.base.input.index() as usize), 21);
        match e {
            ANTLRError::FallThrough(e) => {
                let src = e.source().expect("cause");
                let bad = match src.downcast_ref::<ANTLRError>() {
                    Some(e @ ANTLRError::NoAltError(_)) | Some(e @ ANTLRError::InputMismatchError(_)) => e.get_offending_token().unwrap().get_token_index(),
                    _ => {
                        check(false, 22);
                        0
                    }
                };
                first_error(&l, p.base.input.index(), bad, exact, 30);
            }
            _ => check(false, 23),
        }
    } else {
        check(reports.is_empty(), 24);
    }
}
fn go(rules: &[G], lr: &[usize], n: usize, max: i64, how: u64, exact: bool) {
    let n = choose(n as u64 + 1) as usize;
    let g = gram(rules, lr, max);
    let t = sym_types(n, max);
    match how {
        0 => run(&g, stream(&t), &t, exact),
        1 => bail(&g, &t, exact),
        _ => {
            let src = VecSource::new((0..n).map(|i| (t[i], 0)).collect());
            run(&g, UnbufferedTokenStream::new_unbuffered(src), &t, exact)
        }
    }
}
fn k(i: u64, n: usize) {
    let (r, lr, max) = grams(i);
    go(&r, &lr, n, max, choose(2), i < 10);
}
fn fam(n: usize, how: u64) {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    go(&r, &lr, n, max, how, false);
}
#[no_mangle]
pub extern "C" fn h_g0() {
    k(0, 6);
}
#[no_mangle]
pub extern "C" fn h_g1() {
    k(1, 6);
}
#[no_mangle]
pub extern "C" fn h_g2() {
    k(2, 4);
}
#[no_mangle]
pub extern "C" fn h_g3() {
    k(3, 7);
}
#[no_mangle]
pub extern "C" fn h_g4() {
    k(4, 5);
}
#[no_mangle]
pub extern "C" fn h_g5() {
    k(5, 6);
}
#[no_mangle]
pub extern "C" fn h_g6() {
    k(6, 6);
}
#[no_mangle]
pub extern "C" fn h_g7() {
    k(7, 5);
}
#[no_mangle]
pub extern "C" fn h_g8() {
    k(8, 5);
}
#[no_mangle]
pub extern "C" fn h_g9() {
    k(9, 6);
}
#[no_mangle]
pub extern "C" fn h_g10() {
    k(10, 4);
}
#[no_mangle]
pub extern "C" fn h_g11() {
    k(11, 6);
}
#[no_mangle]
pub extern "C" fn h_family() {
    fam(3, 0);
}
#[no_mangle]
pub extern "C" fn h_family_bail() {
    fam(3, 1);
}
#[no_mangle]
pub extern "C" fn h_unbuffered() {
    let k = choose(12);
    let (r, lr, max) = grams(k);
    go(&r, &lr, 4, max, 2, k < 10);
}
#[no_mangle]
pub extern "C" fn h_family4() {
    fam(4, choose(2));
}
harnesses! {h_family4, h_g0, h_g1, h_g2, h_g3, h_g4, h_g5, h_g6, h_g7, h_g8, h_g9, h_g10, h_g11, h_family, h_family_bail, h_unbuffered}
