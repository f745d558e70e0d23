//! P12: error recovery of the default strategy on LL(1) grammars, against an independent account.
#![allow(warnings)]
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::rec::*;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::parser_rule_context::*;
use antlr_rust::token::Token;
use antlr_rust::token_factory::CommonTokenFactory;
use antlr_rust::token_stream::*;
use antlr_rust::tree::*;
use antlr_rust::{TidAble, TidExt};
use vpharness::tok::VecSource;
use vpharness::*;

fn made(n: &(dyn PCtx<'static> + 'static), out: &mut Vec<(String, isize, isize)>) {
    if let Some(t) = n.downcast_ref::<ErrorNode<'static, PType>>() {
        let t = &t.symbol;
        if t.get_token_index() == -1 {
            out.push((t.get_text().to_string(), t.get_line(), t.get_column()));
        }
    }
    n.get_children().for_each(|c| made(&*c, out));
}
fn judge<I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>>(g: &Gram, input: I, t: &[isize], index: Vec<usize>, ll1: bool, texts: fn(usize) -> &'static str) {
    let d = dfas(&g.atn);
    let mut p = P::new(&g, &d, input, Strat::new(), vec![]);
    p.ll1 = ll1;
    p.log_decisions = false;
    let r = p.rule(0, 0);
    check(r.is_ok(), 1);
    let r = r.unwrap();
    let got = tree(&*r);
    let reports = p.reports.borrow();
    let (want, rec) = Rec::parse(g, t, !ll1, index, texts);
    check(reports.len() == rec.reports.len(), 2);
    for (r, (tok, msg)) in reports.iter().zip(rec.reports.iter()) {
        check(r.token == *tok as isize, 3);
        check(r.msg == *msg, 4);
        check((r.line == 1) & (r.column == *tok as isize), 5);
    }
    check(got == want, 6);
    let mut m = vec![];
    made(&*r, &mut m);
    check(m.len() <= rec.made.len(), 7);
    check(m.len() == rec.made.len(), 8);
    for (m, w) in m.iter().zip(rec.made.iter()) {
        check(m.0 == w.0, 9);
        check((m.1 == 1) & (m.2 == w.1), 10);
    }
    if !rec.reports.is_empty() {
        cover(1);
    }
    if !rec.made.is_empty() {
        cover(3);
    }
}
fn go(rules: &[G], n: usize, max: i64) {
    let g = gram(rules, &[], max);
    if !g.is_ll1 {
        return;
    }
    cover(2);
    let ll1 = choose(2) == 0;
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    judge(&g, stream(&t), &t, (0..=n).collect(), ll1, tok::text);
}
fn go_unbuffered(rules: &[G], n: usize, max: i64) {
    let g = gram(rules, &[], max);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let src = VecSource::new((0..n).map(|i| (t[i], 0)).collect());
    judge(&g, UnbufferedTokenStream::new_unbuffered(src), &t, (0..=n).collect(), choose(2) == 0, tok::text);
}
fn go_hidden(rules: &[G], n: usize, max: i64) {
    let g = gram(rules, &[], max);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let ch: Vec<isize> = (0..n).map(|_| choose(2) as isize).collect();
    let src = VecSource::new((0..n).map(|i| (t[i], ch[i])).collect());
    let mut src = src;
    src.text = tok::text_ws;
    let mut index: Vec<usize> = (0..n).filter(|i| ch[*i] == 0).collect();
    let tv: Vec<isize> = index.iter().map(|i| t[*i]).collect();
    index.push(n);
    judge(&g, CommonTokenStream::new(src), &tv, index, choose(2) == 0, tok::text_ws);
}
fn k(i: u64) -> (Vec<G>, i64) {
    let s = |v: Vec<G>| Seq(v);
    match i {
        // s: A? (B A)* C EOF
        0 => (vec![s(vec![opt(tk(1)), star(s(vec![tk(2), tk(1)])), tk(3), tk(-1)])], 4),
        // s: item+ EOF; item: A (B | C item D) ;
        1 => (vec![s(vec![plus(Ref(1)), tk(-1)]), s(vec![tk(1), Alt(vec![tk(2), s(vec![tk(3), Ref(1), tk(4)])])])], 5),
        // object/list syntax: s: v EOF; v: A | B (v (C v)*)? D ;
        2 => (vec![s(vec![Ref(1), tk(-1)]), Alt(vec![tk(1), s(vec![tk(2), opt(s(vec![Ref(1), star(s(vec![tk(3), Ref(1)]))])), tk(4)])])], 5),
        // sets, wildcard, inverted sets: s: [A B] . ~[A C] opt EOF
        3 => (vec![s(vec![S(vec![(1, 2)]), Any, Not(vec![(1, 1), (3, 3)]), opt(Ref(1)), tk(-1)]), s(vec![tk(4), S(vec![(1, 1), (3, 3)])])], 4),
        // statements: s: st* EOF; st: A e B | C st* D ; e: A (E A)* ;
        4 => (vec![s(vec![star(Ref(1)), tk(-1)]), Alt(vec![s(vec![tk(1), Ref(2), tk(2)]), s(vec![tk(3), star(Ref(1)), tk(4)])]), s(vec![tk(1), star(s(vec![tk(5), tk(1)]))])], 5),
        // no end-of-file in the start rule: s: x A ; x: B? y ; y: C | D* ;
        5 => (vec![s(vec![Ref(1), tk(1)]), s(vec![opt(tk(2)), Ref(2)]), Alt(vec![tk(3), star(tk(4))])], 4),
        // plus loops inside rules inside loops
        _ => (vec![s(vec![star(s(vec![tk(1), Ref(1)])), tk(2), tk(-1)]), s(vec![plus(Alt(vec![tk(3), s(vec![tk(4), Ref(2)])]))]), s(vec![opt(tk(1)), tk(5)])], 5),
    }
}
#[no_mangle]
pub extern "C" fn h_e0() {
    let (r, max) = k(0);
    go(&r, 7, max);
}
#[no_mangle]
pub extern "C" fn h_e1() {
    let (r, max) = k(1);
    go(&r, 7, max);
}
#[no_mangle]
pub extern "C" fn h_e2() {
    let (r, max) = k(2);
    go(&r, 7, max);
}
#[no_mangle]
pub extern "C" fn h_e3() {
    let (r, max) = k(3);
    go(&r, 7, max);
}
#[no_mangle]
pub extern "C" fn h_e4() {
    let (r, max) = k(4);
    go(&r, 7, max);
}
#[no_mangle]
pub extern "C" fn h_e5() {
    let (r, max) = k(5);
    go(&r, 7, max);
}
#[no_mangle]
pub extern "C" fn h_e6() {
    let (r, max) = k(6);
    go(&r, 7, max);
}
#[no_mangle]
pub extern "C" fn h_family() {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    go(&r, 5, max);
}
#[no_mangle]
pub extern "C" fn h_unbuffered() {
    let (r, max) = k(choose(7));
    go_unbuffered(&r, 5, max);
}
#[no_mangle]
pub extern "C" fn h_hidden() {
    let (r, max) = k(choose(7));
    go_hidden(&r, 4, max);
}
#[no_mangle]
pub extern "C" fn h_deep() {
    let (r, max) = k(choose(7));
    go(&r, 8, max);
}
#[no_mangle]
pub extern "C" fn h_family7() {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    go(&r, 7, max);
}
harnesses! {h_deep, h_family7, h_unbuffered, h_hidden, h_e0, h_e1, h_e2, h_e3, h_e4, h_e5, h_e6, h_family}
