//! P05: tokenisation is longest match, first rule on ties, and tokens + errors partition the input.
#![allow(warnings)]
use antlr_rust::input_stream::InputStream;
use vpharness::gram::*;
use vpharness::lex::*;
use vpharness::*;

fn go_on(rules: &[LRule], cs: &[u32], ix: &[usize], text: &'static str) {
    let b = lexer_builder(rules, 1);
    let a = atn(&b);
    let d = dfas(&a);
    let (mut l, log, _) = lexer(InputStream::new(text), &a, &d, vec![]);
    let got = run(&mut l, text.len() + 1);
    let w = Oracle::new(rules, cs.len() + 1).run(&cs, &ix, text);
    // nothing lost, nothing twice: tokens lie one after the other
    let mut at = 0;
    for t in &got {
        check(t.start >= at, 20);
        at = t.stop + 1;
    }
    check(at == text.len() as i64, 21);
    compare(&w, &got, &log, 1);
    if log.borrow().len() > 0 {
        cover(2);
    }
    cover(1);
}
fn go(rules: &[LRule], text: &'static str) {
    let (cs, ix) = ascii(text);
    go_on(rules, &cs, &ix, text)
}
fn basic() -> Vec<LRule> {
    vec![
        lr(1, lit("ab"), vec![]),
        lr(2, plus(rng('a', 'c')), vec![]),
        lr(3, S(vec![(10, 10), (32, 32)]), vec![]),
        lr(4, Seq(vec![ch('"'), star(Not(vec![(34, 34)])), ch('"')]), vec![]),
    ]
}
#[no_mangle]
pub extern "C" fn h_basic() {
    go(&basic(), sym_ascii(3));
}
#[no_mangle]
pub extern "C" fn h_basic4() {
    go(&basic(), sym_ascii(4));
}
#[no_mangle]
pub extern "C" fn h_basic5() {
    go(&basic(), sym_ascii(5));
}
fn numbers() -> Vec<LRule> {
    let d = || Ref(0);
    vec![
        frag(rng('0', '9')),
        lr(1, Seq(vec![plus(d()), opt(Seq(vec![ch('.'), plus(d())]))]), vec![]),
        lr(2, Seq(vec![plus(d()), ch('.'), ch('.')]), vec![]),
        lr(3, ch('.'), vec![]),
        lr(4, Alt(vec![lit("if"), lit("in")]), vec![]),
        lr(5, Seq(vec![C(vec![(97, 122), (95, 95)]), star(Alt(vec![C(vec![(97, 122), (95, 95)]), d()]))]), vec![]),
    ]
}
/// backing up over a partly matched longer token, keywords against identifiers, fragments
#[no_mangle]
pub extern "C" fn h_numbers() {
    go(&numbers(), sym_ascii(3));
}
#[no_mangle]
pub extern "C" fn h_numbers4() {
    go(&numbers(), sym_over(4, b"0.if_"));
}
/// every 21-bit code point, alone and in pairs: single, range, set, negated set, wildcard edges
#[no_mangle]
pub extern "C" fn h_unicode() {
    let rules = match choose(4) {
        0 => vec![lr(1, Any, vec![])],
        1 => vec![lr(1, C(vec![(0x80, 0xFFFF)]), vec![]), lr(2, C(vec![(0, 0x7F)]), vec![]), lr(3, S(vec![(0x10000, 0x10FFFE)]), vec![])],
        2 => vec![lr(1, S(vec![(0x41, 0x5A), (0x410, 0x44F), (0x1F600, 0x1F64F)]), vec![]), lr(2, plus(Not(vec![(0x41, 0x5A), (0x410, 0x44F), (0x1F600, 0x1F64F)])), vec![])],
        _ => vec![lr(1, Not(vec![(0, 0xFF)]), vec![]), lr(2, Seq(vec![ch('é'), Any]), vec![]), lr(3, ch('\u{fffd}'), vec![])],
    };
    let (cs, ix, text) = sym_text(2, 4);
    go_on(&rules, &cs, &ix, text);
}
/// a recursive rule: nested parentheses
#[no_mangle]
pub extern "C" fn h_nested() {
    let rules = [
        lr(1, Seq(vec![ch('('), star(Alt(vec![Ref(0), Not(vec![(40, 41)])])), ch(')')]), vec![]),
        lr(2, Not(vec![(40, 41)]), vec![]),
    ];
    go(&rules, sym_ascii(4));
}
#[no_mangle]
pub extern "C" fn h_nested6() {
    let rules = [
        lr(1, Seq(vec![ch('('), star(Alt(vec![Ref(0), Not(vec![(40, 41)])])), ch(')')]), vec![]),
        lr(2, Not(vec![(40, 41)]), vec![]),
    ];
    go(&rules, sym_over(6, b"()x"));
}
/// non-greedy loops stop at the first possible end
#[no_mangle]
pub extern "C" fn h_nongreedy() {
    let rules = match choose(3) {
        0 => vec![lrs(1, Seq(vec![ch('<'), star_ng(Any), ch('>')]), vec![]), lr(2, plus(Not(vec![(60, 60)])), vec![])],
        1 => vec![lrs(1, Seq(vec![ch('<'), plus_ng(Any), lit("->")]), vec![]), lr(2, Seq(vec![ch('<'), star(ch('-')), ch('>')]), vec![]), lr(3, Any, vec![])],
        _ => vec![lrs(1, Seq(vec![ch('<'), opt_ng(ch('-')), opt_ng(ch('-')), ch('>')]), vec![]), lr(3, Any, vec![])],
    };
    go(&rules, sym_over(4, b"<->x\n"));
}
#[no_mangle]
pub extern "C" fn h_nongreedy6() {
    let rules = match choose(2) {
        0 => vec![lrs(1, Seq(vec![ch('<'), star_ng(Any), ch('>')]), vec![]), lr(2, plus(Not(vec![(60, 60)])), vec![])],
        _ => vec![lrs(1, Seq(vec![ch('<'), plus_ng(Any), lit("->")]), vec![]), lr(2, Seq(vec![ch('<'), star(ch('-')), ch('>')]), vec![]), lr(3, Any, vec![])],
    };
    go(&rules, sym_over(6, b"<->x\n"));
}
/// rules that mention the end of input
#[no_mangle]
pub extern "C" fn h_eof() {
    let rules = [
        lr(1, Seq(vec![ch('#'), star(Not(vec![(10, 10)])), Alt(vec![ch('\n'), tk(-1)])]), vec![]),
        lr(2, Seq(vec![ch('a'), tk(-1)]), vec![]),
        lr(3, plus(rng('a', 'z')), vec![]),
        lr(4, ch('\n'), vec![]),
    ];
    go(&rules, sym_ascii(3));
}
fn atom(k: u64) -> G {
    match k {
        0 => ch('a'),
        1 => rng('a', 'b'),
        2 => Any,
        3 => ch('b'),
        _ => Not(vec![(97, 97)]),
    }
}
fn shape(k: u64, x: G, y: G) -> G {
    match k {
        0 => Seq(vec![x, y]),
        1 => Seq(vec![star(x), y]),
        2 => plus(x),
        3 => Seq(vec![opt(x), y]),
        4 => Alt(vec![x, Seq(vec![y.clone(), y])]),
        5 => plus(Alt(vec![x, y])),
        6 => plus(Seq(vec![x, y])),
        7 => Seq(vec![x.clone(), star(Seq(vec![y, x]))]),
        8 => Seq(vec![x.clone(), opt(Seq(vec![y, x]))]),
        _ => x,
    }
}
fn family(n1: u64, a1: u64, n2: u64, a2: u64, text: &'static str) {
    let r1 = shape(choose(n1), atom(choose(a1)), atom(choose(a1)));
    let r2 = shape(9 - choose(n2), atom(choose(a2)), atom(choose(a2)));
    go(&[lr(1, r1, vec![]), lr(2, r2, vec![])], text)
}
/// all two-rule grammars of a family of shapes
#[no_mangle]
pub extern "C" fn h_family() {
    family(9, 3, 2, 2, sym_over(3, b"abc"))
}
#[no_mangle]
pub extern "C" fn h_family_all() {
    family(9, 5, 10, 4, sym_over(4, b"abc"))
}
/// literals made of symbolic characters: "xy" against "xx" against z+
#[no_mangle]
pub extern "C" fn h_labels() {
    let mut c = || {
        let v = vp_sym(5) as i64 + 65;
        C(vec![(v, v)])
    };
    let (x, y, z) = (c(), c(), c());
    let rules = [lr(1, Seq(vec![x.clone(), y]), vec![]), lr(2, Seq(vec![x.clone(), x]), vec![]), lr(3, plus(z), vec![])];
    go(&rules, sym_ascii(2));
}
harnesses!(h_basic, h_basic4, h_basic5, h_numbers, h_numbers4, h_unicode, h_nested, h_nested6, h_nongreedy, h_nongreedy6, h_eof, h_family, h_family_all, h_labels);
