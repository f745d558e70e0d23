//! P07: what a lexer produces does not depend on what was lexed before with the same shared caches.
#![allow(warnings)]
use antlr_rust::input_stream::InputStream;
use vpharness::gram::*;
use vpharness::lex::*;
use vpharness::*;

fn go(k: u64, n1: usize, n2: usize, runs: usize) {
    let (rules, modes) = lexers(k);
    let a = atn(&lexer_builder(&rules, modes));
    let d = dfas(&a);
    for _ in 0..runs {
        let t1 = sym_over(n1, b"abcde");
        let p1: Vec<bool> = if k == 2 { (0..3).map(|_| choose(2) == 1).collect() } else { vec![] };
        let (mut l, _, _) = lexer(InputStream::new(t1), &a, &d, p1);
        run(&mut l, n1 + 1);
    }
    let t2 = sym_over(n2, b"abcde");
    let p2: Vec<bool> = if k == 2 { (0..3).map(|_| choose(2) == 1).collect() } else { vec![] };
    let (mut l, log, _) = lexer(InputStream::new(t2), &a, &d, p2.clone());
    let got = run(&mut l, n2 + 1);
    let (cs, ix) = ascii(t2);
    let w = Oracle::with_preds(&rules, n2 + 1, &p2).run(&cs, &ix, t2);
    compare(&w, &got, &log, 1);
    cover(1);
}
#[no_mangle]
pub extern "C" fn h_plain() {
    go(0, 2, 3, 1)
}
#[no_mangle]
pub extern "C" fn h_commands() {
    go(1, 2, 3, 1)
}
#[no_mangle]
pub extern "C" fn h_preds() {
    go(2, 2, 2, 1)
}
#[no_mangle]
pub extern "C" fn h_nongreedy() {
    go(3, 2, 3, 1)
}
#[no_mangle]
pub extern "C" fn h_twice() {
    go(choose(4), 1, 2, 2)
}
#[no_mangle]
pub extern "C" fn h_deep() {
    go(choose(4), 3, 4, 1)
}
/// characters of all UTF-8 lengths: edges beyond 127 are never cached under another character
#[no_mangle]
pub extern "C" fn h_unicode() {
    let rules = vec![lr(1, C(vec![(0x40, 0x100)]), vec![]), lr(2, S(vec![(0x20, 0x3f), (0x1000, 0x1FFFF)]), vec![]), lr(3, plus(ch('a')), vec![])];
    let a = atn(&lexer_builder(&rules, 1));
    let d = dfas(&a);
    let (_, _, t1) = sym_text(1, 4);
    let (mut l, _, _) = lexer(InputStream::new(t1), &a, &d, vec![]);
    run(&mut l, 3);
    let (cs, ix, t2) = sym_text(2, 4);
    let (mut l, log, _) = lexer(InputStream::new(t2), &a, &d, vec![]);
    let got = run(&mut l, 4);
    let w = Oracle::new(&rules, 2).run(&cs, &ix, t2);
    compare(&w, &got, &log, 1);
    cover(1);
}
harnesses!(h_plain, h_commands, h_preds, h_nongreedy, h_twice, h_deep, h_unicode);
