//! P24: a decision automaton says what was decided, and is printed as it is.
#![allow(warnings)]
use antlr_rust::dfa::DFA;
use antlr_rust::input_stream::InputStream;
use antlr_rust::parser_atn_simulator::ParserATNSimulator;
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use antlr_rust::PredictionMode;
use vpharness::gram::*;
use vpharness::lex;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::*;

const NONE: usize = 0;
const FAILS: usize = usize::MAX;

/// one line per edge
fn show(d: &DFA, label: &dyn Fn(usize) -> String) -> String {
    let name = |k: usize| {
        let s = &d.states[k];
        let mut t = format!("{}s{}{}", if s.is_accept_state { ":" } else { "" }, k - 1, if s.requires_full_context { "^" } else { "" });
        if s.is_accept_state {
            let p: Vec<String> = s.predicates.iter().map(|p| p.to_string()).collect();
            t += &if p.is_empty() { format!("=>{}", s.prediction) } else { format!("=>[{}]", p.join(", ")) };
        }
        t
    };
    let mut o = String::new();
    for (k, s) in d.states.iter().enumerate() {
        // the entries of a precedence decision are not edges
        if d.is_precedence_dfa() && d.s0 == Some(k) {
            continue;
        }
        for (i, e) in s.edges.iter().enumerate() {
            if *e != NONE && *e != FAILS {
                o += &format!("{}-{}->{}\n", name(k), label(i), name(*e));
            }
        }
    }
    o
}
fn whole(d: &DFA) {
    for (k, s) in d.states.iter().enumerate().skip(1) {
        check(s.state_number == k, 1);
        check(s.edges.iter().all(|e| *e == FAILS || *e < d.states.len()), 2);
        // what has been decided needs nothing more
        check(!s.is_accept_state || s.requires_full_context || s.prediction > 0 || !s.predicates.is_empty(), 3);
    }
}
fn alts(p: &[antlr_rust::dfa_state::PredPrediction]) -> Vec<isize> {
    p.iter().map(|p| p.to_string()[1..].split(',').next().unwrap().parse().unwrap()).collect()
}
/// every prediction made, followed in the automaton of its decision
fn walk(d: &DFA, w: &Predicted, t: &[isize]) {
    let mut s = if d.is_precedence_dfa() { d.get_precedence_start_state(w.prec) } else { d.s0 }.unwrap_or(0);
    check(s != 0, 10);
    let mut at = w.at as usize;
    loop {
        let st = &d.states[s];
        if st.is_accept_state {
            if st.requires_full_context {
                cover(4);
            } else if st.predicates.is_empty() {
                check(st.prediction == w.alt, 11);
                cover(2);
            } else {
                check(w.alt == 0 || alts(&st.predicates).contains(&w.alt), 12);
                cover(5);
            }
            return;
        }
        let ty = if at < t.len() { t[at] } else { -1 };
        // known since the prediction was made
        let e = st.edges.get((ty + 1) as usize).copied().unwrap_or(NONE);
        check(e != NONE, 13);
        if e == FAILS {
            cover(3);
            return;
        }
        s = e;
        at += 1;
    }
}
fn voc() -> VocabularyImpl {
    let lit = [None, Some("'a'"), None, Some("'c'")];
    let sym = [None, Some("A"), Some("B"), Some("C"), None, Some("E"), Some("F"), Some("G"), Some("H"), Some("I")];
    VocabularyImpl::new(lit.iter(), sym.iter(), None)
}
fn display(x: usize) -> String {
    ["EOF", "0", "'a'", "B", "'c'", "4", "E", "F", "G", "H", "I"].get(x).map_or_else(|| (x as i64 - 1).to_string(), |x| x.to_string())
}
fn parser(rules: &[G], lr: &[usize], max: i64, n: usize, preds: usize, runs: usize) {
    let g = gram(rules, lr, max);
    let d = dfas(&g.atn);
    let v = voc();
    let mode = choose(3);
    let mut had = false;
    for _ in 0..runs {
        let n = choose(n as u64 + 1) as usize;
        let t = sym_types(n, max);
        let vals = (0..preds).map(|_| choose(2) == 1).collect();
        let mut p = P::new(&g, &d, stream(&t), Strat::new(), vals);
        p.log_decisions = false;
        p.interp.set_prediction_mode(match mode {
            0 => PredictionMode::LL,
            1 => PredictionMode::SLL,
            _ => PredictionMode::LL_EXACT_AMBIG_DETECTION,
        });
        p.rule(0, 0).unwrap();
        for w in &p.predicted {
            walk(&d[w.decision as usize].read(), w, &t);
        }
        for x in d.iter() {
            let x = x.read();
            check(x.to_string(&v) == show(&x, &display), 20);
            if runs == 1 {
                whole(&x);
            }
            cover(1);
        }
    }
}
fn k(i: u64, n: usize, runs: usize) {
    let (r, lr, max) = grams(i);
    parser(&r, &lr, max, n, 0, runs)
}
fn lexer(k: u64, n: u64) {
    let rules = &sample(k);
    let text = sym_over(choose(n + 1) as usize, [&b"abcd \n"[..], b"01.", b"xyz\n"][k as usize]);
    let b = lexer_builder(rules, 1);
    let a = lex::atn(&b);
    let d = dfas(&a);
    let (mut l, log, _) = lex::lexer(InputStream::new(text), &a, &d, vec![]);
    let got = lex::run(&mut l, text.len() + 1);
    let x = d[0].read();
    for t in &got[..got.len() - 1] {
        let mut s = x.s0.unwrap_or(0);
        check(s != 0, 30);
        let mut at = t.start as usize;
        let mut last = (0, 0);
        loop {
            let st = &x.states[s];
            if st.is_accept_state {
                last = (at as i64, st.prediction as i64);
            }
            let e = if at < text.len() { st.edges.get(text.as_bytes()[at] as usize).copied().unwrap_or(NONE) } else { NONE };
            if e == NONE || e == FAILS {
                break;
            }
            s = e;
            at += 1;
        }
        check(last == (t.stop + 1, t.ty), 31);
        cover(2);
    }
    check(x.to_lexer_string() == show(&x, &|c| format!("'{}'", c as u8 as char)), 32);
    cover(1);
}
fn sample(i: u64) -> Vec<LRule> {
    let d = || Ref(0);
    match i {
        0 => vec![lr(1, lit("ab"), vec![]), lr(2, plus(rng('a', 'c')), vec![]), lr(3, S(vec![(10, 10), (32, 32)]), vec![])],
        1 => vec![frag(rng('0', '1')), lr(1, Seq(vec![plus(d()), opt(Seq(vec![ch('.'), plus(d())]))]), vec![]), lr(2, Seq(vec![plus(d()), ch('.'), ch('.')]), vec![]), lr(3, ch('.'), vec![])],
        _ => vec![lr(1, Seq(vec![lit("x"), star_ng(Any), lit("y")]), vec![]), lr(2, plus(rng('x', 'z')), vec![])],
    }
}
macro_rules! entries {
    ($($f:ident $e:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { $e })* harnesses! {$($f),*} }
}
entries! {
    h_grams k(choose(12), 3, 1);
    h_twice k(choose(12), 2, 2);
    h_preds { let (r, max) = pg(choose(PGS)); parser(&r, &[], max, 3, 2, 2) };
    h_family { let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES)); parser(&r, &lr, max, 2, 0, 1) };
    h_lexers lexer(choose(3), 4);
    h_grams5 k(choose(12), 5, 1);
    h_twice3 k(choose(12), 3, 2);
    h_preds4 { let (r, max) = pg(choose(PGS)); parser(&r, &[], max, 4, 2, 2) };
    h_family3 { let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES)); parser(&r, &lr, max, 3, 0, 1) };
    h_lexers4 lexer(choose(3), 5);
}
