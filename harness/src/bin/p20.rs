//! P20: reports of full-context predictions and ambiguities are true and complete.
#![allow(warnings)]
use antlr_rust::error_listener::DiagnosticErrorListener;
use antlr_rust::token_stream::UnbufferedTokenStream;
use antlr_rust::parser::Parser;
use antlr_rust::PredictionMode;
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::tok::VecSource;
use vpharness::*;

/// what the predictions of one parse reported
/// (`ls`: the language, seen from each position if there are predicates)
fn judge(g: &Gram, ls: &[Lang], p: &[Predicted], evs: &[Ev], taken: &[Taken], exact: bool, sll: bool, ok: bool, lr: bool) {
    let n = ls[0].len() as isize;
    let preds = !ls[0].preds.is_empty();
    let lang = |t: &Taken| &ls[t.at.min(ls.len() - 1)];
    let mut seen = 0;
    for q in p {
        // every event belongs to a prediction, in order
        check(q.evs.0 == seen, 1);
        seen = q.evs.1;
        let ev = &evs[q.evs.0..q.evs.1];
        for e in ev {
            check(e.decision == q.decision, 2);
            check(e.start == q.at, 3);
            check(e.stop >= e.start && e.stop <= n, 4);
        }
        if ev.is_empty() {
            continue;
        }
        if preds && ev[0].kind == 1 {
            predicated(lang(&taken[q.taken]), &taken[q.taken], ev, q.alt, n, sll, ok);
            continue;
        }
        check(!sll, 5);
        // the attempt, then at most one result; none only if the prediction fails
        check(ev[0].kind == 0 && (ev[0].alts.len() >= 2 || (preds && ev[0].alts.is_empty())), 6);
        check(ev.len() == 1 || (ev.len() == 2 && ev[1].kind != 0), 7);
        check(ev.len() == 2 || !ok, 8);
        if ev.len() < 2 {
            continue;
        }
        let e = &ev[1];
        let k = q.taken;
        check(q.alt > 0 && k < taken.len(), 9);
        let t = &taken[k];
        let m = t.alts.len();
        let l = lang(t);
        if e.kind == 2 {
            check(e.prediction == q.alt, 10);
            // stop is the first token with which all other alternatives are out
            let upto = |a: usize, u: isize| l.viable_upto(t.at, &[&t.alts[a], &t.rest], u as usize);
            if !lr {
                let mut many = 0;
                for a in 0..m {
                    let alive = upto(a, e.stop + 1);
                    check(alive == (a + 1 == q.alt as usize), 11);
                    if e.stop > e.start {
                        many += upto(a, e.stop) as u64;
                    }
                }
                check(e.stop == e.start || many >= 2, 12);
            }
            cover(2);
        } else {
            check(e.alts.len() >= 2, 13);
            check(e.alts[0] as isize == q.alt, 14);
            check(e.alts.iter().fold(true, |a, x| a & (*x >= 1 && *x <= m)), 15);
            check(!e.exact || exact, 16);
            if exact {
                check(e.exact, 17);
                if ok && !lr {
                    // the reported alternatives are those that can succeed
                    for a in 0..m {
                        check(l.viable(t.at, &[&t.alts[a], &t.rest]) == e.alts.contains(&(a + 1)), 18);
                    }
                    cover(4);
                }
            }
            cover(3);
        }
    }
    check(seen == evs.len(), 19);
    // in exact mode no ambiguity goes unnoticed
    if exact && ok && !lr {
        for q in p {
            let t = &taken[q.taken];
            let l = lang(t);
            let mut v = 0u64;
            for a in &t.alts {
                v += l.viable(t.at, &[a, &t.rest]) as u64;
            }
            let found = evs[q.evs.0..q.evs.1].iter().any(|e| e.kind == 1);
            check((v >= 2) == found, 20);
        }
    }
}
/// the predicate an alternative begins with
fn guard(a: &[(&N, i64)]) -> Option<usize> {
    match a.first()?.0 {
        N::Pred { index, .. } => Some(*index),
        N::Seq(v) => guard(&[(v.first()?, 0)]),
        _ => None,
    }
}
/// alternatives in conflict of which several remain after asking their predicates
fn predicated(l: &Lang, t: &Taken, ev: &[Ev], alt: isize, n: isize, sll: bool, ok: bool) {
    check(sll, 21);
    check(ev.len() == 1, 22);
    let e = &ev[0];
    check(!e.exact && e.alts.len() >= 2, 23);
    check(e.alts[0] as isize == alt, 24);
    for a in &e.alts {
        check(*a >= 1 && *a <= t.alts.len(), 25);
        if let Some(k) = guard(&t.alts[*a - 1]) {
            check(l.pred(k, t.at), 26);
        }
    }
    cover(5);
}
fn mode(k: u64) -> PredictionMode {
    match k {
        0 => PredictionMode::LL,
        1 => PredictionMode::LL_EXACT_AMBIG_DETECTION,
        _ => PredictionMode::SLL,
    }
}
fn go(rules: &[G], lr: &[usize], n: usize, max: i64) {
    let m = choose(3);
    let n = choose(n as u64 + 1) as usize;
    let g = gram(rules, lr, max);
    let d = dfas(&g.atn);
    let t = sym_types(n, max);
    let mut p = P::new(&g, &d, stream(&t), Strat::new(), vec![]);
    p.interp.set_prediction_mode(mode(m));
    p.base.add_error_listener(Box::new(Diag(p.evs.clone())));
    let r = p.rule(0, 0).unwrap();
    let ok = p.reports.borrow().is_empty();
    let l = Lang::new(&g, &t);
    let evs = p.evs.borrow().clone();
    judge(&g, &[l], &p.predicted, &evs, &p.taken, m == 1, m == 2, ok, !lr.is_empty());
    // once more, with what the caches have learnt
    let mut q = P::new(&g, &d, stream(&t), Strat::new(), vec![]);
    q.interp.set_prediction_mode(mode(m));
    q.base.add_error_listener(Box::new(Diag(q.evs.clone())));
    q.log_decisions = false;
    let _ = q.rule(0, 0);
    check(*q.evs.borrow() == evs, 30);
    for e in &evs {
        out(e.kind as u64);
        out(e.start as u64);
        out(e.stop as u64);
    }
    cover(1);
}
/// with predicates, whose values differ from place to place
fn go_preds(rules: &[G], max: i64, n: usize) {
    let m = choose(3);
    let n = choose(n as u64 + 1) as usize;
    let g = gram(rules, &[], max);
    let d = dfas(&g.atn);
    let t = sym_types(n, max);
    let vals: Vec<bool> = (0..2 * (n + 1)).map(|_| sym_bool()).collect();
    let mut p = P::new(&g, &d, stream(&t), Strat::new(), vals.clone());
    p.base.stride = n + 1;
    p.base.owners = owners(&g, 2);
    p.interp.set_prediction_mode(mode(m));
    p.base.add_error_listener(Box::new(Diag(p.evs.clone())));
    let r = p.rule(0, 0).unwrap();
    let ok = p.reports.borrow().is_empty();
    let ls: Vec<Lang> = (0..=n)
        .map(|i| {
            let mut l = Lang::new(&g, &t);
            l.preds = vals.clone();
            l.stride = n + 1;
            l.only = Some(i);
            l
        })
        .collect();
    let evs = p.evs.borrow().clone();
    judge(&g, &ls, &p.predicted, &evs, &p.taken, m == 1, m == 2, ok, false);
    if m == 2 && ok {
        // several alternatives that can succeed, one of them asked by its predicate: said so
        for q in &p.predicted {
            let t = &p.taken[q.taken];
            let l = &ls[t.at];
            let (mut v, mut guarded) = (0u64, false);
            let can: Vec<bool> = t.alts.iter().map(|a| l.viable(t.at, &[a, &t.rest])).collect();
            for (a, c) in t.alts.iter().zip(&can) {
                v += *c as u64;
                guarded |= *c & guard(a).is_some();
            }
            let e = evs[q.evs.0..q.evs.1].first();
            check(!((v >= 2) & guarded) | e.is_some(), 27);
            if let Some(e) = e {
                for k in 0..can.len() {
                    check(!can[k] | e.alts.contains(&(k + 1)), 28);
                }
            }
        }
    }
    for e in &evs {
        out(e.kind as u64);
        out(e.start as u64);
        out(e.stop as u64);
    }
    cover(1);
}
fn k(i: u64, n: usize) {
    let (r, lr, max) = grams(i);
    go(&r, &lr, n, max);
}
fn fam(n: usize) {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    go(&r, &lr, n, max);
}
/// what is reported depends only on the tokens up to where the report stops
fn prefix(rules: &[G], lr: &[usize], n: usize, max: i64) {
    let m = choose(3);
    let k = 1 + choose(n as u64) as usize;
    let (a, b) = (n + 1 - choose((n + 2 - k) as u64) as usize, k + choose((n + 2 - k) as u64) as usize);
    assume(a >= b);
    let g = gram(rules, lr, max);
    let t = sym_types(a, max);
    let mut u = t[..k.min(a)].to_vec();
    u.extend(sym_types(b - u.len(), max));
    let run = |t: &[isize]| {
        let d = dfas(&g.atn);
        let mut p = P::new(&g, &d, stream(t), Bail::new(), vec![]);
        p.interp.set_prediction_mode(mode(m));
        p.log_decisions = false;
        p.base.add_error_listener(Box::new(Diag(p.evs.clone())));
        let _ = p.rule(0, 0);
        let e = p.evs.borrow().clone();
        (p.predicted, e)
    };
    let ((p, pe), (q, qe)) = (run(&t), run(&u));
    for (x, y) in p.iter().zip(&q) {
        if x.decision != y.decision || x.at != y.at {
            break;
        }
        let (xe, ye) = (&pe[x.evs.0..x.evs.1], &qe[y.evs.0..y.evs.1]);
        for j in 0..xe.len().max(ye.len()) {
            let (e, f) = (xe.get(j), ye.get(j));
            let within = |e: Option<&Ev>| e.map_or(false, |e| e.stop < k as isize);
            if !within(e) && !within(f) {
                break;
            }
            check(e == f, 50);
            cover(2);
        }
        if x.alt != y.alt {
            break;
        }
    }
    cover(1);
}
fn set(v: &[usize]) -> String {
    format!("{{{}}}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
}
fn rule_of(g: &Gram, d: isize) -> usize {
    g.atn.states[g.atn.decision_to_state[d as usize]].get_rule_index()
}
/// the diagnostic listener's messages reach every error listener
fn messages(i: u64, n: usize, unbuffered: bool) {
    let m = choose(2);
    let only = choose(2) == 1;
    let first = choose(2) == 1;
    let (rules, lr, max) = grams(i);
    let n = choose(n as u64 + 1) as usize;
    let g = gram(&rules, &lr, max);
    let d = dfas(&g.atn);
    let t = sym_types(n, max);
    let run = |p: &mut dyn FnMut() -> (Vec<Ev>, Vec<Report>, Vec<Report>)| {
        let (evs, reports, other) = p();
        let texts: Vec<&Report> = reports.iter().filter(|r| r.msg.starts_with("report")).collect();
        let want: Vec<(&Ev, String)> = evs
            .iter()
            .filter(|e| !(only && e.kind == 1 && !e.exact))
            .map(|e| {
                let r = rule_of(&g, e.decision);
                let text: String = (e.start..=e.stop).filter(|i| *i < n as isize).map(|i| vpharness::tok::text(i as usize)).collect();
                let s = match e.kind {
                    0 => format!("reportAttemptingFullContext d={} (r{}), input='{}'", e.decision, r, text),
                    1 => format!("reportAmbiguity d={} (r{}): ambigAlts={}, input='{}'", e.decision, r, set(&e.alts), text),
                    _ => format!("reportContextSensitivity d={} (r{}), input='{}'", e.decision, r, text),
                };
                (e, s)
            })
            .collect();
        check(texts.len() == want.len(), 40);
        for ((e, w), t) in want.iter().zip(&texts) {
            check(t.msg == *w, 41);
            check(t.kind == 0, 42);
            check(t.token >= e.start && t.token <= n as isize, 43);
            cover(2 + e.kind as u32);
        }
        // every listener hears everything
        check(reports == other, 44);
        cover(1);
    };
    macro_rules! parse {
        ($s:expr) => {{
            let mut p = P::new(&g, &d, $s, Strat::new(), vec![]);
            p.interp.set_prediction_mode(mode(m));
            p.log_decisions = false;
            if first {
                p.base.remove_error_listeners();
                p.base.add_error_listener(Box::new(DiagnosticErrorListener::new(only)));
                p.base.add_error_listener(Box::new(PRec(p.reports.clone())));
            } else {
                p.base.add_error_listener(Box::new(DiagnosticErrorListener::new(only)));
            }
            p.base.add_error_listener(Box::new(Diag(p.evs.clone())));
            let other: Reports = Default::default();
            p.base.add_error_listener(Box::new(PRec(other.clone())));
            let _ = p.rule(0, 0);
            let r = (p.evs.borrow().clone(), p.reports.borrow().clone(), other.borrow().clone());
            r
        }};
    }
    if unbuffered {
        run(&mut || parse!(UnbufferedTokenStream::new_unbuffered(VecSource::new((0..n).map(|i| (t[i], 0)).collect()))));
    } else {
        run(&mut || parse!(stream(&t)));
    }
}
#[no_mangle]
pub extern "C" fn h_preds() {
    let (r, max) = pg(choose(PGS));
    go_preds(&r, max, 4);
}
#[no_mangle]
pub extern "C" fn h_preds6() {
    let (r, max) = pg(choose(PGS));
    go_preds(&r, max, 6);
}
#[no_mangle]
pub extern "C" fn h_pfamily() {
    let (r, max) = pfamily(choose(SHAPES), choose(SHAPES / 2) * 2, choose(LEAVES / 2) * 2, choose(4));
    go_preds(&r, max, 1);
}
#[no_mangle]
pub extern "C" fn h_pfamily2() {
    let (r, max) = pfamily(choose(SHAPES), choose(SHAPES / 2) * 2 + 1, choose(LEAVES / 2) * 2 + 1, choose(4));
    go_preds(&r, max, 2);
}
macro_rules! grams_ {
    ($($f:ident $k:expr, $n:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { k($k, $n); })* }
}
grams_! {
    h_g0 0, 6; h_g1 1, 6; h_g2 2, 5; h_g3 3, 7; h_g4 4, 5; h_g5 5, 5; h_g6 6, 6; h_g7 7, 5; h_g8 8, 5; h_g9 9, 6; h_g10 10, 5; h_g11 11, 6;
}
#[no_mangle]
pub extern "C" fn h_family() {
    fam(2);
}
#[no_mangle]
pub extern "C" fn h_family3() {
    fam(3);
}
#[no_mangle]
pub extern "C" fn h_messages() {
    messages(choose(12), 4, false);
}
#[no_mangle]
pub extern "C" fn h_messages_unbuffered() {
    messages(choose(12), 3, true);
}
#[no_mangle]
pub extern "C" fn h_prefix() {
    let (r, lr, max) = grams([2, 3, 4, 5, 8, 9, 11][choose(7) as usize]);
    prefix(&r, &lr, 3, max);
}
#[no_mangle]
pub extern "C" fn h_prefix5() {
    let (r, lr, max) = grams(choose(12));
    prefix(&r, &lr, 5, max);
}
harnesses! {h_preds, h_preds6, h_pfamily, h_pfamily2, h_prefix, h_prefix5, h_g0, h_g1, h_g2, h_g3, h_g4, h_g5, h_g6, h_g7, h_g8, h_g9, h_g10, h_g11, h_family, h_family3, h_messages, h_messages_unbuffered}
