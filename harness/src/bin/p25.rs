//! P25: every error is told to every listener once, with the right token, place and expectations.
#![allow(warnings)]
use antlr_rust::atn_config_set::ATNConfigSet;
use antlr_rust::dfa::DFA;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::error_strategy::ErrorStrategy;
use antlr_rust::errors::ANTLRError;
use antlr_rust::input_stream::InputStream;
use antlr_rust::parser::Parser;
use antlr_rust::recognizer::Recognizer;
use antlr_rust::token::{CommonToken, Token};
use antlr_rust::token_factory::{CommonTokenFactory, TokenFactory};
use antlr_rust::token_stream::TokenStream;
use antlr_rust::{InputStream as Input, TidAble};
use bit_set::BitSet;
use std::cell::RefCell;
use std::rc::Rc;
use vpharness::gram::*;
use vpharness::lex;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::*;

type Heard = Rc<RefCell<Vec<(u8, String)>>>;
struct Ear(u8, Heard);
impl<'i, I: TokenStream<'i, TF = CommonTokenFactory> + TidAble<'i>> ErrorListener<'i, Base<'i, I>> for Ear {
    fn syntax_error(&self, r: &Base<'i, I>, t: Option<&CommonToken<'i>>, line: isize, column: isize, msg: &str, e: Option<&ANTLRError>) {
        let t = t.unwrap();
        check(line == t.get_line() && column == t.get_column(), 1);
        let mut s = format!("{} {} {} {}", t.get_token_index(), line, column, msg);
        if let Some(e) = e {
            let o = e.get_offending_token().unwrap();
            check(o.get_token_index() == t.get_token_index() && o.get_token_type() == t.get_token_type(), 2);
            check(o.get_line() == line && o.get_column() == column && o.get_text() == t.get_text(), 3);
            match e {
                ANTLRError::InputMismatchError(e) => {
                    let x = e.base.get_expected_tokens(r).to_token_string(r.get_vocabulary());
                    let q = if t.get_token_type() == -1 { "<EOF>" } else { t.get_text() };
                    check(msg == format!("mismatched input '{}' expecting {}", q, x), 4);
                    cover(2);
                }
                ANTLRError::NoAltError(e) => {
                    check(e.start_token.get_token_index() == r.input.index() && e.start_token.get_token_index() <= o.get_token_index(), 6);
                    cover(3);
                }
                _ => check(false, 7),
            }
        }
        self.1.borrow_mut().push((self.0, s));
    }
    fn report_ambiguity(&self, _: &Base<'i, I>, dfa: &DFA, start: isize, stop: isize, exact: bool, alts: &BitSet, _: &ATNConfigSet) {
        self.1.borrow_mut().push((self.0, format!("amb {} {} {} {} {:?}", dfa.decision, start, stop, exact, alts)));
    }
    fn report_attempting_full_context(&self, _: &Base<'i, I>, dfa: &DFA, start: isize, stop: isize, alts: &BitSet, _: &ATNConfigSet) {
        self.1.borrow_mut().push((self.0, format!("full {} {} {} {:?}", dfa.decision, start, stop, alts)));
    }
    fn report_context_sensitivity(&self, _: &Base<'i, I>, dfa: &DFA, start: isize, stop: isize, prediction: isize, _: &ATNConfigSet) {
        self.1.borrow_mut().push((self.0, format!("ctx {} {} {} {}", dfa.decision, start, stop, prediction)));
    }
}
struct LexEar(u8, Heard);
impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for LexEar {
    fn syntax_error(&self, _: &T, t: Option<&<T::TF as TokenFactory<'a>>::Inner>, line: isize, column: isize, msg: &str, e: Option<&ANTLRError>) {
        check(t.is_none(), 20);
        match e {
            Some(ANTLRError::LexerNoAltError { start_index }) => self.1.borrow_mut().push((self.0, format!("{} {} {} {}", start_index, line, column, msg))),
            _ => check(false, 21),
        }
    }
}
/// attach and remove; what is attached in the end
fn attach(add: &mut dyn FnMut(Option<u8>)) -> Vec<u8> {
    let mut l = vec![];
    for k in 0..3 {
        match choose(3) {
            0 => {}
            1 => {
                add(Some(k));
                l.push(k);
            }
            _ => {
                add(None);
                l.clear();
            }
        }
    }
    add(Some(9));
    l.push(9);
    l
}
/// each event to each of them, in order; the events
fn each(l: &[u8], h: &Heard) -> Vec<String> {
    let h = h.borrow();
    check(h.len() % l.len() == 0, 30);
    for e in h.chunks(l.len()) {
        check(e.iter().map(|x| x.0).eq(l.iter().copied()), 31);
        check(e.iter().all(|x| x.1 == e[0].1), 32);
    }
    if !h.is_empty() && l.len() > 1 {
        cover(4);
    }
    h.iter().step_by(l.len()).map(|x| x.1.clone()).collect()
}
fn parser(rules: &[G], lr: &[usize], max: i64, n: usize, many: bool) {
    let g = gram(rules, lr, max);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let h: Heard = Default::default();
    let mut p = P::new(&g, &dfas(&g.atn), stream(&t), Strat::new(), vec![]);
    p.log_decisions = false;
    let mut l = vec![7u8];
    if many {
        l = attach(&mut |k| match k {
            Some(k) => p.base.add_error_listener(Box::new(Ear(k, h.clone()))),
            None => p.base.remove_error_listeners(),
        });
    } else {
        p.base.add_error_listener(Box::new(Ear(7, h.clone())));
    }
    let direct = tree(&*p.rule(0, 0).unwrap());
    let heard = each(&l, &h);
    if !many {
        // the same strategy, behind a box
        let h: Heard = Default::default();
        let boxed: Box<dyn ErrorStrategy<'_, Base<'_, Stream>>> = Box::new(Strat::new());
        let mut q = P::new(&g, &dfas(&g.atn), stream(&t), boxed, vec![]);
        q.log_decisions = false;
        q.base.add_error_listener(Box::new(Ear(7, h.clone())));
        check(tree(&*q.rule(0, 0).unwrap()) == direct, 33);
        check(each(&[7], &h) == heard, 34);
        check(*q.reports.borrow() == *p.reports.borrow(), 35);
    }
    cover(1);
}
/// the application's own messages
fn notify() {
    let (rules, lr, max) = grams(0);
    let g = gram(&rules, &lr, max);
    let n = choose(4) as usize;
    let t = sym_types(n, max);
    let h: Heard = Default::default();
    let mut p = P::new(&g, &dfas(&g.atn), stream(&t), Strat::new(), vec![]);
    let l = attach(&mut |k| match k {
        Some(k) => p.base.add_error_listener(Box::new(Ear(k, h.clone()))),
        None => p.base.remove_error_listeners(),
    });
    let at = choose(n as u64 + 1) as isize;
    p.base.input.seek(at);
    let k = choose(at as u64 + 2) as isize - 1;
    p.base.notify_error_listeners("hello".to_string(), if k < 0 { None } else { Some(k) }, None);
    let k = if k < 0 { at } else { k };
    check(each(&l, &h) == [format!("{} {} {} hello", k, p.base.input.get(k).get_line(), k)], 40);
    cover(1);
}
fn lexer(k: u64, n: u64) {
    let (rules, alphabet): (Vec<LRule>, &[u8]) = match k {
        0 => (vec![lr(1, lit("ab"), vec![]), lr(2, plus(ch('\n')), vec![])], b"abc\n"),
        1 => (vec![lr(1, Seq(vec![ch('"'), star(Not(vec![(34, 34)])), ch('"')]), vec![]), lr(2, ch('a'), vec![])], b"a\"\n"),
        _ => (vec![lr(1, lit("a"), vec![Cmd::More]), lr(2, lit("b"), vec![]), lr(3, lit("\n"), vec![Cmd::Skip])], b"abc\n"),
    };
    let text = sym_over(choose(n + 1) as usize, alphabet);
    let a = lex::atn(&lexer_builder(&rules, 1));
    let (mut x, log, _) = lex::lexer(InputStream::new(text), &a, &dfas(&a), vec![]);
    let h: Heard = Default::default();
    let l = attach(&mut |k| match k {
        Some(k) => x.add_error_listener(Box::new(LexEar(k, h.clone()))),
        None => x.remove_error_listeners(),
    });
    lex::run(&mut x, text.len() + 1);
    let heard = each(&l, &h);
    let (cs, ix) = lex::ascii(text);
    let w = lex::Oracle::new(&rules, cs.len() + 1).run(&cs, &ix, text);
    check(heard.len() == w.errs.len(), 41);
    for (h, (line, column, msg)) in heard.iter().zip(&w.errs) {
        // the place, from the text
        let start = (0..text.len()).find(|k| text[..*k].matches('\n').count() as i64 + 1 == *line && (k - text[..*k].rfind('\n').map_or(0, |x| x + 1)) as i64 == *column).unwrap_or(text.len());
        let said = format!("{} {} {}", line, column, msg);
        // after a `more`, an attempt starts later than its token
        check(if k == 2 { h.ends_with(&format!(" {}", said)) } else { *h == format!("{} {}", start, said) }, 42);
        cover(2);
    }
    cover(1);
}
macro_rules! entries {
    ($($f:ident $e:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { $e })* harnesses! {$($f),*} }
}
entries! {
    h_grams { let (r, lr, max) = grams(choose(12)); parser(&r, &lr, max, 5, false) };
    h_family { let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES)); parser(&r, &lr, max, 2, false) };
    h_listeners { let (r, lr, max) = grams(choose(12)); parser(&r, &lr, max, 2, true) };
    h_notify notify();
    h_lexers lexer(choose(3), 4);
    h_grams5 { let (r, lr, max) = grams(choose(12)); parser(&r, &lr, max, 6, false) };
    h_family3 { let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES)); parser(&r, &lr, max, 3, false) };
    h_lexers6 lexer(choose(3), 6);
}
