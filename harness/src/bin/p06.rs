//! P06: lexer commands, embedded actions and predicates take effect exactly for the rule that won.
#![allow(warnings)]
use antlr_rust::input_stream::InputStream;
use antlr_rust::lexer::Lexer;
use antlr_rust::TokenSource;
use vpharness::gram::*;
use vpharness::lex::*;
use vpharness::*;

fn go(rules: &[LRule], modes: usize, preds: Vec<bool>, text: &'static str) {
    let (cs, ix) = ascii(text);
    let b = lexer_builder(rules, modes);
    let a = atn(&b);
    let d = dfas(&a);
    let (mut l, log, calls) = lexer(InputStream::new(text), &a, &d, preds.clone());
    let got = run(&mut l, text.len() + 1);
    let w = Oracle::with_preds(rules, cs.len() + 1, &preds).run(&cs, &ix, text);
    compare(&w, &got, &log, 1);
    compare_acts(&w, &calls, 20);
    if log.borrow().len() > 0 {
        cover(2);
    }
    cover(1);
}
fn modes_grammar() -> Vec<LRule> {
    vec![
        lr(1, ch('('), vec![Cmd::Push(1)]),
        lr(2, ch('['), vec![Cmd::More, Cmd::Push(2)]),
        lr(3, ch('{'), vec![Cmd::Mode(1)]),
        lr(4, plus(ch(' ')), vec![Cmd::Skip]),
        lr(5, plus(ch('x')), vec![Cmd::Channel(2), Cmd::Type(9)]),
        lrm(1, 6, ch(')'), vec![Cmd::Pop]),
        lrm(1, 7, ch('('), vec![Cmd::Push(1)]),
        lrm(1, 8, plus(ch('x')), vec![]),
        lrm(1, 3, ch('}'), vec![Cmd::Mode(0)]),
        lrm(2, 10, ch(']'), vec![Cmd::Pop]),
        lrm(2, 11, Not(vec![(93, 93)]), vec![Cmd::More]),
    ]
}
#[no_mangle]
pub extern "C" fn h_modes() {
    go(&modes_grammar(), 3, vec![], sym_ascii(3))
}
#[no_mangle]
pub extern "C" fn h_modes5() {
    go(&modes_grammar(), 3, vec![], sym_over(5, b"(){}[]x "))
}
/// different commands on the alternatives of one rule, and on rules sharing prefixes
fn alts_grammar() -> Vec<LRule> {
    vec![
        lra(1, vec![(ch('a'), vec![Cmd::Channel(1)]), (ch('b'), vec![Cmd::Channel(2)]), (lit("ab"), vec![Cmd::Type(7)]), (ch('c'), vec![Cmd::Skip]), (lit("cc"), vec![]), (ch('d'), vec![Cmd::Channel(4)]), (ch('e'), vec![Cmd::Type(8)])]),
        lra(2, vec![(lit("ca"), vec![Cmd::Custom(1, 1)]), (lit("cb"), vec![Cmd::Custom(1, 2), Cmd::Channel(3)])]),
        lr(3, Any, vec![]),
    ]
}
#[no_mangle]
pub extern "C" fn h_alts() {
    go(&alts_grammar(), 1, vec![], sym_ascii(3))
}
#[no_mangle]
pub extern "C" fn h_alts5() {
    go(&alts_grammar(), 1, vec![], sym_over(5, b"abcde"))
}
/// what embedded code may do from an action
#[no_mangle]
pub extern "C" fn h_embedded() {
    let k = 20 + choose(8) as i64;
    let rules = vec![
        lr(1, plus(ch('a')), vec![Cmd::Custom(0, k)]),
        lr(2, ch('b'), vec![Cmd::Channel(2), Cmd::Custom(1, k)]),
        lr(3, ch('c'), vec![]),
        lr(4, ch('d'), vec![Cmd::Custom(3, 1), Cmd::Custom(3, 2)]),
        lrm(1, 5, ch('a'), vec![Cmd::Custom(4, DO_POP as i64)]),
        lrm(1, 6, Not(vec![(97, 97)]), vec![]),
    ];
    go(&rules, 2, vec![], sym_over(3, b"abcde\n"))
}
/// predicates with constant values at the start, in the middle and at the end of rules
#[no_mangle]
pub extern "C" fn h_preds() {
    let p: Vec<bool> = (0..4).map(|_| choose(2) == 1).collect();
    let rules = vec![
        lr(1, Seq(vec![Pred(0, 0), plus(ch('a'))]), vec![]),
        lr(2, Seq(vec![ch('a'), Pred(1, 1)]), vec![Cmd::Channel(2)]),
        lr(3, Seq(vec![ch('b'), Pred(2, 2), ch('a')]), vec![]),
        lr(4, Alt(vec![ch('b'), Seq(vec![Pred(3, 3), ch('c')])]), vec![]),
        lr(5, plus(ch('a')), vec![]),
    ];
    go(&rules, 1, p, sym_over(3, b"abcd"))
}
/// predicates that depend on the position
#[no_mangle]
pub extern "C" fn h_positional() {
    let text = sym_over(4, b"#x\nz");
    let rules = vec![
        lr(1, Seq(vec![Pred(0, AT_LINE_START as usize), ch('#')]), vec![]),
        lr(2, ch('#'), vec![]),
        lr(3, Seq(vec![ch('x'), Pred(2, AT_EVEN as usize)]), vec![]),
        lr(4, ch('x'), vec![]),
        lr(5, ch('\n'), vec![]),
        lr(6, ch('z'), vec![]),
    ];
    let b = lexer_builder(&rules, 1);
    let a = atn(&b);
    let d = dfas(&a);
    let (mut l, log, _) = lexer(InputStream::new(text), &a, &d, vec![]);
    let got = run(&mut l, text.len() + 1);
    check(got.len() == 5, 30);
    check(log.borrow().len() == 0, 31);
    let mut col = 0;
    for (i, c) in text.bytes().enumerate() {
        let want = match c {
            b'#' => if col == 0 { 1 } else { 2 },
            b'x' => if (i + 1) % 2 == 0 { 3 } else { 4 },
            b'\n' => 5,
            _ => 6,
        };
        check(got[i].ty == want, 32);
        check(got[i].start == i as i64, 33);
        check(got[i].column == col, 34);
        col = if c == b'\n' { 0 } else { col + 1 };
    }
    cover(1);
}
/// an action in the middle of a rule runs once, when the token is accepted, at its own position
#[no_mangle]
pub extern "C" fn h_middle() {
    let text = sym_over(4, b"abc");
    let mut rules = vec![
        lr(1, Seq(vec![ch('a'), Act(0), star(ch('b')), Act(1), ch('c')]), vec![]),
        lr(2, Any, vec![]),
    ];
    let mut b = lexer_builder(&rules, 1);
    b.actions = vec![(1, 0, 4), (1, 0, 5)];
    let a = atn(&b);
    let d = dfas(&a);
    let (mut l, log, calls) = lexer(InputStream::new(text), &a, &d, vec![]);
    let got = run(&mut l, text.len() + 1);
    let (cs, ix) = ascii(text);
    let w = Oracle::new(&rules, 5).run(&cs, &ix, text);
    compare(&w, &got, &log, 1);
    let c = calls.borrow();
    let mut k = 0;
    for t in &w.toks {
        if t.ty == 1 {
            check(c.len() >= k + 2, 40);
            check((c[k].1 == 4) & (c[k].2 as i64 == t.start + 1), 41);
            check((c[k + 1].1 == 5) & (c[k + 1].2 as i64 == t.stop), 42);
            check(same_text(&c[k].3, "a"), 43);
            k += 2;
            cover(2);
        }
    }
    check(c.len() == k, 44);
    cover(1);
}
/// the mode operations themselves
#[no_mangle]
pub extern "C" fn h_stack() {
    let rules = modes_grammar();
    let a = atn(&lexer_builder(&rules, 3));
    let d = dfas(&a);
    let (mut l, _, _) = lexer(InputStream::new(""), &a, &d, vec![]);
    let (mut mode, mut stack) = (0usize, vec![]);
    for _ in 0..4 {
        let m = vp_sym(4) as usize;
        match choose(3) {
            0 => {
                l.push_mode(m);
                stack.push(mode);
                mode = m;
            }
            1 => {
                let r = l.pop_mode();
                check(r == stack.last().copied(), 50);
                if let Some(m) = stack.pop() {
                    mode = m;
                }
            }
            _ => {
                l.set_mode(m);
                mode = m;
            }
        }
        check(l.mode == mode, 51);
        check(l.mode_stack == stack, 52);
    }
    cover(1);
}
/// one action in the middle and one at the end; the end action sees the whole token
#[no_mangle]
pub extern "C" fn h_middle_end() {
    let text = sym_over(4, b"abc");
    let mut rules = vec![
        lr(1, Seq(vec![ch('a'), Act(0), star(ch('b')), Act(1)]), vec![]),
        lr(2, Seq(vec![Act(2), ch('c'), Act(3), ch('a'), opt(ch('b')), Act(4)]), vec![]),
        lr(3, Any, vec![]),
    ];
    let mut b = lexer_builder(&rules, 1);
    b.actions = vec![(1, 0, 4), (1, 0, 5), (1, 1, 6), (1, 1, 7), (1, 1, 8)];
    let a = atn(&b);
    let d = dfas(&a);
    let (mut l, log, calls) = lexer(InputStream::new(text), &a, &d, vec![]);
    let got = run(&mut l, text.len() + 1);
    let (cs, ix) = ascii(text);
    let w = Oracle::new(&rules, 5).run(&cs, &ix, text);
    compare(&w, &got, &log, 1);
    let c = calls.borrow();
    let mut k = 0;
    for t in &w.toks {
        let want: Vec<(isize, isize, i64)> = match t.ty {
            1 => vec![(0, 4, t.start + 1), (0, 5, t.stop + 1)],
            2 => vec![(1, 6, t.start), (1, 7, t.start + 1), (1, 8, t.stop + 1)],
            _ => vec![],
        };
        check(c.len() >= k + want.len(), 40);
        for (r, n, at) in want {
            check((c[k].0 == r) & (c[k].1 == n) & (c[k].2 as i64 == at), 41);
            check(same_text(&c[k].3, &text[t.start as usize..at as usize]), 42);
            k += 1;
        }
        if t.ty == 1 {
            cover(1)
        }
        if t.ty == 2 {
            cover(2)
        }
    }
    check(c.len() == k, 43);
}
harnesses!(h_middle_end, h_modes, h_modes5, h_alts, h_alts5, h_embedded, h_preds, h_positional, h_middle, h_stack);
