//! P23: the serialized grammar is read back exactly, and edges match the symbols they say.
#![allow(warnings)]
use antlr_rust::atn::ATN;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::atn_state::*;
use antlr_rust::input_stream::InputStream;
use antlr_rust::interval_set::IntervalSet;
use antlr_rust::semantic_context::SemanticContext;
use antlr_rust::transition::*;
use vpharness::gram::*;
use vpharness::lex;
use vpharness::par;
use vpharness::*;

/// the serialized form, section by section
#[derive(Clone, Default)]
struct Raw {
    lexer: bool,
    max: i64,
    states: Vec<(i64, i64, i64)>,
    nongreedy: Vec<i64>,
    precedence: Vec<i64>,
    rules: Vec<(i64, i64)>,
    modes: Vec<i64>,
    sets: Vec<(bool, Vec<(i64, i64)>)>,
    wide: Vec<(bool, Vec<(i64, i64)>)>,
    edges: Vec<[i64; 6]>,
    decisions: Vec<i64>,
    actions: Vec<(i64, i64, i64)>,
}
fn has_extra(t: i64) -> bool {
    (BLOCK_START..=STAR_BLOCK_START).contains(&t) || t == LOOP_END
}
impl Raw {
    fn values(&self) -> Vec<i64> {
        let mut o = vec![if self.lexer { 0 } else { 1 }, self.max, self.states.len() as i64];
        for (t, r, x) in &self.states {
            o.extend([*t, *r]);
            if has_extra(*t) {
                o.push(*x);
            }
        }
        for l in [&self.nongreedy, &self.precedence] {
            o.push(l.len() as i64);
            o.extend(l.iter());
        }
        o.push(self.rules.len() as i64);
        for (s, t) in &self.rules {
            o.push(*s);
            if self.lexer {
                o.push(*t);
            }
        }
        o.push(self.modes.len() as i64);
        o.extend(&self.modes);
        for (wide, l) in [(false, &self.sets), (true, &self.wide)] {
            o.push(l.len() as i64);
            for (eof, v) in l {
                o.extend([v.len() as i64, *eof as i64]);
                for x in v.iter().flat_map(|(a, b)| [*a, *b]) {
                    if wide {
                        o.extend([x & 0xFFFF, x >> 16]);
                    } else {
                        o.push(x);
                    }
                }
            }
        }
        o.push(self.edges.len() as i64);
        o.extend(self.edges.iter().flatten());
        o.push(self.decisions.len() as i64);
        o.extend(&self.decisions);
        if self.lexer {
            o.push(self.actions.len() as i64);
            o.extend(self.actions.iter().flat_map(|(a, b, c)| [*a, *b, *c]));
        }
        o
    }
    /// the sections of values that are concrete (or at least the counts and state types)
    fn read(v: &[i64]) -> Raw {
        let mut i = 0;
        let mut n = || {
            i += 1;
            v[i - 1]
        };
        let mut r = Raw { lexer: n() == 0, max: n(), ..Raw::default() };
        for _ in 0..n() {
            let (t, rule) = (n(), n());
            let x = if has_extra(t) { n() } else { 0 };
            r.states.push((t, rule, x));
        }
        for _ in 0..n() {
            r.nongreedy.push(n());
        }
        for _ in 0..n() {
            r.precedence.push(n());
        }
        for _ in 0..n() {
            let s = n();
            let t = if r.lexer { n() } else { 0 };
            r.rules.push((s, t));
        }
        for _ in 0..n() {
            r.modes.push(n());
        }
        for wide in [false, true] {
            for _ in 0..n() {
                let (k, eof) = (n(), n() != 0);
                let s = (0..k)
                    .map(|_| {
                        let mut x = || if wide { n() | n() << 16 } else { n() };
                        (x(), x())
                    })
                    .collect();
                if wide { &mut r.wide } else { &mut r.sets }.push((eof, s));
            }
        }
        for _ in 0..n() {
            r.edges.push([n(), n(), n(), n(), n(), n()]);
        }
        for _ in 0..n() {
            r.decisions.push(n());
        }
        if r.lexer {
            for _ in 0..n() {
                r.actions.push((n(), n(), n()));
            }
        }
        r
    }
    fn set(&self, k: i64) -> &(bool, Vec<(i64, i64)>) {
        let k = k as usize;
        if k < self.sets.len() { &self.sets[k] } else { &self.wide[k - self.sets.len()] }
    }
    /// an edge as far as it tells edges with the same target apart
    fn same_edge(&self, a: &[i64; 6], b: &[i64; 6]) -> bool {
        let eps = |e: &[i64; 6]| ![E_RANGE, E_ATOM, E_SET, E_NOTSET, E_WILDCARD].contains(&e[2]);
        if eps(a) || eps(b) {
            return eps(a) && eps(b);
        }
        let label = |e: &[i64; 6]| match e[2] {
            E_ATOM if e[5] != 0 => Some((vec![], true)),
            E_ATOM => Some((vec![(e[3], e[3])], false)),
            E_RANGE if e[5] != 0 => Some((vec![(0, e[4])], true)),
            E_RANGE => Some((vec![(e[3], e[4])], false)),
            E_WILDCARD => None,
            _ => Some((self.set(e[3]).1.clone(), self.set(e[3]).0)),
        };
        label(a).is_some() && label(a) == label(b)
    }
    /// (source, edge or return edge)
    fn all_edges(&self) -> Vec<Vec<Edge>> {
        let mut o: Vec<Vec<Edge>> = self.states.iter().map(|_| vec![]).collect();
        let target = |e: &[i64; 6]| if e[2] == E_RULE { e[3] } else { e[1] };
        for e in &self.edges {
            let l = &mut o[e[0] as usize];
            if !l.iter().any(|x| matches!(x, Edge::Given(x) if target(x) == target(e) && self.same_edge(x, e))) {
                l.push(Edge::Given(*e));
            }
        }
        let mut back = vec![];
        for l in &o {
            for e in l {
                if let Edge::Given(e) = e {
                    if e[2] == E_RULE {
                        let rule = self.states[e[3] as usize].1;
                        let stop = self.states.iter().position(|s| s.0 == RULE_STOP && s.1 == rule).unwrap();
                        let recursive = self.precedence.contains(&self.rules[rule as usize].0);
                        back.push((stop, Edge::Return(e[1], if recursive { Some((rule, e[5])) } else { None })));
                    }
                }
            }
        }
        for (s, e) in back {
            let Edge::Return(f, _) = e else { unreachable!() };
            if !o[s].iter().any(|x| matches!(x, Edge::Return(g, _) if *g == f) || matches!(x, Edge::Given(g) if g[1] == f)) {
                o[s].push(e);
            }
        }
        o
    }
    fn rule_of(x: i64) -> usize {
        if x == -1 || x == 0xFFFF { usize::MAX } else { x as usize }
    }
    fn compare(&self, atn: &ATN) {
        let lx = matches!(format!("{:?}", atn.grammar_type).as_str(), "LEXER");
        check(lx == self.lexer, 1);
        check(atn.max_token_type as i64 == self.max, 2);
        check(atn.states.len() == self.states.len(), 3);
        check(atn.rule_to_start_state.len() == self.rules.len() && atn.rule_to_stop_state.len() == self.rules.len(), 4);
        for (k, (s, t)) in self.rules.iter().enumerate() {
            check(atn.rule_to_start_state[k] == *s as usize, 5);
            if self.lexer {
                check(atn.rule_to_token_type[k] == *t as isize, 6);
            }
            let stop = self.states.iter().position(|x| x.0 == RULE_STOP && x.1 == k as i64).unwrap_or(0);
            check(atn.rule_to_stop_state[k] == stop, 7);
        }
        check(atn.mode_to_start_state.iter().map(|x| *x as i64).collect::<Vec<_>>() == self.modes, 8);
        check(atn.decision_to_state.iter().map(|x| *x as i64).collect::<Vec<_>>() == self.decisions, 9);
        let edges = self.all_edges();
        for (k, (t, r, x)) in self.states.iter().enumerate() {
            let s = &atn.states[k];
            check(s.get_state_number() == k && s.get_state_type_id() as i64 == *t, 10);
            check(s.get_rule_index() == Self::rule_of(*r), 11);
            let d = self.decisions.iter().rposition(|d| *d == k as i64).map_or(-1, |d| d as isize);
            let g = self.nongreedy.contains(&(k as i64));
            use ATNDecisionState::*;
            use ATNStateType::*;
            let ok = match (*t, s.get_state_type()) {
                (0, InvalidState) | (BASIC, BasicState) | (RULE_STOP, RuleStopState) | (BLOCK_END, BlockEndState(_)) | (STAR_LOOP_BACK, StarLoopbackState) => true,
                (RULE_START, RuleStartState { stop_state, is_left_recursive }) => {
                    let own = self.rules.get(*r as usize).map_or(false, |q| q.0 == k as i64);
                    (!own || *stop_state == self.states.iter().position(|x| x.0 == RULE_STOP && x.1 == *r).unwrap_or(0)) && *is_left_recursive == self.precedence.contains(&(k as i64))
                }
                (LOOP_END, LoopEndState(b)) => *b == *x as usize,
                (_, DecisionState { decision, nongreedy, state }) => {
                    *decision == d
                        && *nongreedy == g
                        && match (*t, state) {
                            (BLOCK_START, BlockStartState { end_state, en: ATNBlockStart::BasicBlockStart }) => *end_state == *x as usize,
                            (PLUS_BLOCK_START, BlockStartState { end_state, en: ATNBlockStart::PlusBlockStart(_) }) => *end_state == *x as usize,
                            (STAR_BLOCK_START, BlockStartState { end_state, en: ATNBlockStart::StarBlockStart }) => *end_state == *x as usize,
                            (TOKEN_START, TokenStartState) | (PLUS_LOOP_BACK, PlusLoopBack) => true,
                            (STAR_LOOP_ENTRY, StarLoopEntry { is_precedence, .. }) => *is_precedence == self.precedence_loop(k, &edges),
                            _ => false,
                        }
                }
                _ => false,
            };
            check(ok, 12);
            let got = s.get_transitions();
            check(got.len() == edges[k].len(), 13);
            for (e, t) in edges[k].iter().zip(got) {
                self.edge(e, t.as_ref());
            }
            check(s.has_epsilon_only_transitions() == (!edges[k].is_empty() && edges[k].iter().all(|e| e.epsilon())), 14);
        }
    }
    /// the loop that ends a left-recursive rule
    fn precedence_loop(&self, k: usize, edges: &[Vec<Edge>]) -> bool {
        let rule = self.states[k].1;
        if !self.precedence.contains(&self.rules[rule as usize].0) {
            return false;
        }
        let end = match edges[k].last() {
            Some(Edge::Given(e)) => e[1] as usize,
            _ => return false,
        };
        self.states[end].0 == LOOP_END
            && edges[end].iter().all(|e| e.epsilon())
            && match edges[end].first() {
                Some(Edge::Given(e)) => self.states[e[1] as usize].0 == RULE_STOP,
                _ => false,
            }
    }
    fn edge(&self, e: &Edge, t: &dyn Transition) {
        let e = match e {
            Edge::Return(f, p) => {
                check(t.get_serialization_type() == TransitionType::TRANSITION_EPSILON && t.get_target() as i64 == *f && t.is_epsilon(), 20);
                let o = t.cast::<EpsilonTransition>().outermost_precedence_return as i64;
                check(o == p.map_or(-1, |(rule, prec)| if prec == 0 { rule } else { -1 }), 21);
                return;
            }
            Edge::Given(e) => e,
        };
        let [_, trg, ty, a, b, c] = *e;
        check(t.is_epsilon() == Edge::Given(*e).epsilon(), 22);
        check(t.get_target() as i64 == if ty == E_RULE { a } else { trg }, 23);
        let (is, pred) = match ty {
            E_EPSILON => (t.get_serialization_type() == TransitionType::TRANSITION_EPSILON, None),
            E_RANGE => {
                let r = t.cast::<RangeTransition>();
                (r.start as i64 == if c != 0 { -1 } else { a } && r.stop as i64 == b, None)
            }
            E_RULE => {
                let r = t.cast::<RuleTransition>();
                ((r.follow_state as i64, r.rule_index as i64, r.precedence as i64) == (trg, b, c), None)
            }
            E_PREDICATE => {
                let r = t.cast::<PredicateTransition>();
                (
                    (r.rule_index as i64, r.pred_index as i64, r.is_ctx_dependent) == (a, b, c != 0),
                    Some(SemanticContext::Predicate { rule_index: a as isize, pred_index: b as isize, is_ctx_dependent: c != 0 }),
                )
            }
            E_ATOM => (t.cast::<AtomTransition>().label as i64 == if c != 0 { -1 } else { a }, None),
            E_ACTION => {
                let r = t.cast::<ActionTransition>();
                ((r.rule_index as i64, r.action_index as i64, r.is_ctx_dependent) == (a, b, c != 0), None)
            }
            E_SET => (self.same_set(a, &t.cast::<SetTransition>().set), None),
            E_NOTSET => (self.same_set(a, &t.cast::<NotSetTransition>().set), None),
            E_WILDCARD => (t.get_serialization_type() == TransitionType::TRANSITION_WILDCARD, None),
            E_PRECEDENCE => (t.cast::<PrecedencePredicateTransition>().precedence as i64 == a, Some(SemanticContext::Precedence(a as isize))),
            _ => (false, None),
        };
        check(is, 24);
        check(t.get_serialization_type() as i64 == ty, 25);
        check(t.get_predicate() == pred, 26);
        match t.get_label() {
            None => check(Edge::Given(*e).epsilon() || ty == E_WILDCARD, 27),
            Some(l) => {
                let of = |lo: i64, hi: i64| l.get_min().map(|x| x as i64) == Some(lo) && l.contains(hi as isize) && l.length() as i64 == hi - lo + 1;
                check(
                    match ty {
                        E_ATOM => of(if c != 0 { -1 } else { a }, if c != 0 { -1 } else { a }),
                        E_RANGE => of(if c != 0 { -1 } else { a }, b),
                        E_SET | E_NOTSET => self.same_set(a, &l),
                        _ => false,
                    },
                    28,
                );
            }
        }
    }
    /// the same members: each of the expected ranges, and nothing at all that is not in one of them
    fn same_set(&self, k: i64, s: &IntervalSet) -> bool {
        let (eof, v) = self.set(k);
        let x = sym_in(22, 0, 0x110001) - 1;
        let expected = (*eof && x == -1) | v.iter().fold(false, |y, (p, q)| y | ((*p <= x) & (x <= *q)));
        s.contains(x as i32 as _) == expected
    }
    /// what an edge says about a symbol
    fn says(&self, e: &[i64; 6], x: i64, lo: i64, hi: i64) -> bool {
        let [_, _, ty, a, b, c] = *e;
        let within = |k| {
            let (eof, v) = self.set(k);
            (*eof && x == -1) | v.iter().fold(false, |y, (p, q)| y | ((*p <= x) & (x <= *q)))
        };
        match ty {
            E_ATOM => x == if c != 0 { -1 } else { a },
            E_RANGE => ((if c != 0 { -1 } else { a }) <= x) & (x <= b),
            E_SET => within(a),
            E_NOTSET => (lo <= x) & (x <= hi) & !within(a),
            E_WILDCARD => (lo <= x) & (x <= hi),
            _ => false,
        }
    }
}
#[derive(Clone, Copy)]
enum Edge {
    Given([i64; 6]),
    /// to the follow state; rule and precedence of the call if the rule is left-recursive
    Return(i64, Option<(i64, i64)>),
}
impl Edge {
    fn epsilon(&self) -> bool {
        match self {
            Edge::Return(..) => true,
            Edge::Given(e) => ![E_RANGE, E_ATOM, E_SET, E_NOTSET, E_WILDCARD].contains(&e[2]),
        }
    }
}
fn load(values: &[i64]) -> ATN {
    ATNDeserializer::new(None).deserialize(serialize(values).chars())
}
/// one rule: start 0, stop 1, two plain states 2 and 3
fn small(lexer: bool) -> Raw {
    Raw {
        lexer,
        max: 9,
        states: vec![(RULE_START, 0, 0), (RULE_STOP, 0, 0), (BASIC, 0, 0), (BASIC, 0, 0)],
        rules: vec![(0, 4)],
        ..Raw::default()
    }
}
fn go(r: &Raw) -> ATN {
    let a = load(&r.values());
    r.compare(&a);
    cover(1);
    a
}
fn word() -> i64 {
    sym_u16() as i64
}

fn version() {
    let v = small(false).values();
    let w = word();
    let t: String = std::iter::once(char::from_u32(if (0xD800..=0xDFFF).contains(&w) { w + 0x3000 } else { w } as u32).unwrap()).chain(serialize(&v).chars().skip(1)).collect();
    if w == 3 {
        small(false).compare(&ATNDeserializer::new(None).deserialize(t.chars()));
        cover(1);
    } else {
        expect_panic();
        ATNDeserializer::new(None).deserialize(t.chars());
        check(false, 30);
    }
}
/// the format this runtime reads has one more identification; any other word must be refused
fn uuid() {
    let v = small(false).values();
    let k = choose(8) as usize;
    let w = word();
    let mut id: Vec<i64> = UUID.iter().map(|u| *u as i64 - 2).collect();
    let same = id[k] & 0xFFFF == w;
    id[k] = w;
    let mut t = String::from("\u{3}");
    for x in id.iter().chain(&v) {
        t.push(enc(*x));
    }
    if same {
        small(false).compare(&ATNDeserializer::new(None).deserialize(t.chars()));
        cover(1);
    } else {
        expect_panic();
        ATNDeserializer::new(None).deserialize(t.chars());
        check(false, 31);
    }
}
fn grammar_type() {
    let mut v = small(false).values();
    v[0] = word();
    v[1] = word();
    let (t, max) = (v[0], v[1]);
    if t == 0 {
        // a lexer has more sections
        let mut r = small(true);
        r.max = max;
        go(&r);
    } else if t == 1 {
        let mut r = small(false);
        r.max = max;
        go(&r);
    } else {
        expect_panic();
        load(&v);
        check(false, 32);
    }
}
fn states() {
    let mut r = small(choose(2) == 1);
    let t = choose(15) as i64;
    let rule = if t == RULE_START || t == RULE_STOP || t == STAR_LOOP_ENTRY { 0 } else { word() };
    let x = if has_extra(t) { word() } else { 0 };
    r.states.push((t, rule, x));
    if t == RULE_STOP {
        // the stop state of another rule
        r.states.push((RULE_START, 1, 0));
        r.states[4].1 = 1;
        r.rules.push((5, 0));
    }
    if t == STAR_LOOP_ENTRY {
        r.edges.push([4, 2, E_EPSILON, 0, 0, 0]);
    }
    if t <= 12 {
        go(&r);
    } else {
        expect_panic();
        load(&r.values());
        check(false, 33);
    }
}
fn flags() {
    let mut r = small(false);
    r.states.extend([(BLOCK_START, 0, 7), (PLUS_LOOP_BACK, 0, 0), (STAR_LOOP_ENTRY, 0, 0), (BLOCK_END, 0, 0), (LOOP_END, 0, 5), (STAR_BLOCK_START, 0, 7), (PLUS_BLOCK_START, 0, 7), (TOKEN_START, 0, 0)]);
    r.edges.push([6, 8, E_EPSILON, 0, 0, 0]);
    let d = [4, 5, 6, 9, 10, 11];
    r.decisions = match choose(3) {
        0 => d.to_vec(),
        1 => d.iter().rev().copied().collect(),
        _ => vec![d[choose(6) as usize]],
    };
    for s in d {
        if choose(2) == 1 {
            r.nongreedy.push(s);
        }
    }
    if choose(2) == 1 {
        r.precedence.push(0);
    }
    go(&r);
}
fn rules() {
    let lexer = choose(2) == 1;
    // start and stop states in any order and place
    let mut at: Vec<i64> = (0..6).collect();
    let mut r = Raw { lexer, max: 3, states: vec![(BASIC, 0, 0); 6], ..Raw::default() };
    for k in 0..3 {
        let s = at.remove(choose(if k == 0 { 3 } else { 2 }) as usize);
        let e = at.remove(choose(2).min(at.len() as u64 - 1) as usize);
        r.states[s as usize] = (RULE_START, k, 0);
        r.states[e as usize] = (RULE_STOP, k, 0);
        r.rules.push((s, word() & 0x7FFF));
        if choose(2) == 1 {
            r.precedence.push(s);
        }
    }
    if lexer {
        r.modes = (0..choose(3)).map(|k| k as i64 + 2).collect();
    }
    go(&r);
}
fn edge_of(r: &mut Raw, ty: i64) -> [i64; 6] {
    let (a, b, c) = match ty {
        E_RULE => (0, word(), word()),
        E_SET | E_NOTSET => {
            let set = |wide: bool| {
                let (w, m) = if wide { (21, 0x10FFFF) } else { (16, 0xFFFF) };
                let (a, b) = (sym_in(w, 0, m), sym_in(w, 0, m));
                let c = if wide { 0xFFFF } else { 0x7FFF };
                assume((a <= b) & ((b < c - 1) | (a > c + 1)));
                (choose(2) == 1, if a < c { vec![(a, b), (c, c)] } else { vec![(c, c), (a, b)] })
            };
            r.sets = vec![(false, vec![(5, 6)])];
            let wide = choose(2) == 1;
            let s = set(wide);
            if wide { &mut r.wide } else { &mut r.sets }.push(s);
            (1, 0, 0)
        }
        E_ATOM => (word(), 0, word()),
        E_RANGE => {
            let (a, b, c) = (word(), word(), choose(2) as i64);
            assume(a <= b);
            (if c == 1 { 0 } else { a }, b, c)
        }
        _ => (word(), word(), word()),
    };
    [2, 3, ty, a, b, c]
}
fn edges(sets: bool) {
    let mut r = small(choose(2) == 1);
    let ty = if sets { [E_SET, E_NOTSET][choose(2) as usize] } else { [0, 1, 2, 3, 4, 5, 6, 9, 10, 11][choose(10) as usize] };
    let e = edge_of(&mut r, ty);
    r.edges.push(e);
    if ty < 1 || ty > 10 {
        expect_panic();
        load(&r.values());
        check(false, 34);
        return;
    }
    go(&r);
}
fn matching() {
    let mut r = small(true);
    let ty = [E_EPSILON, E_RANGE, E_ATOM, E_SET, E_NOTSET, E_WILDCARD, E_PREDICATE, E_ACTION, E_PRECEDENCE][choose(9) as usize];
    let e = edge_of(&mut r, ty);
    r.edges.push(e);
    let a = load(&r.values());
    let t = &a.states[2].get_transitions()[0];
    let x = sym_i32() as i64;
    let (lo, hi) = if choose(2) == 1 { (0, 0x10FFFF) } else { (1, word()) };
    let says = r.says(&e, x, lo, hi);
    check(t.matches(x as isize, lo as isize, hi as isize) == says, 40);
    let says = r.says(&e, x, 0, 0x10FFFF);
    check(t.get_reachable_target(x as isize) == if says { Some(3) } else { None }, 41);
    cover(1);
}
/// two edges between the same states
fn twice() {
    let mut r = small(false);
    r.sets = vec![(false, vec![(5, 6)]), (false, vec![(5, 6)]), (true, vec![(5, 5)])];
    for _ in 0..2 {
        let ty = [E_EPSILON, E_RANGE, E_ATOM, E_SET, E_NOTSET, E_WILDCARD, E_PREDICATE, E_ACTION, E_PRECEDENCE][choose(9) as usize];
        let (a, b, c) = match ty {
            E_RANGE => (5, 5 + choose(2) as i64, 0),
            E_ATOM => (5 + choose(2) as i64, 0, choose(2) as i64),
            E_SET | E_NOTSET => (choose(3) as i64, 0, 0),
            _ => (0, 0, 0),
        };
        r.edges.push([2, 3, ty, a, b, c]);
    }
    go(&r);
}
/// calls: where they come back to, and with what
fn returns() {
    let mut r = small(false);
    // rule 1: start 4, stop 5
    r.states.extend([(RULE_START, 1, 0), (RULE_STOP, 1, 0), (BASIC, 1, 0), (BASIC, 0, 0)]);
    r.rules.push((4, 0));
    for s in [0, 4] {
        if choose(2) == 1 {
            r.precedence.push(s);
        }
    }
    for (from, to) in [(2, 3), (3, 7), (6, 5)] {
        let callee = choose(3) as i64;
        if callee < 2 {
            r.edges.push([from, to, E_RULE, 4 * callee, callee, word()]);
        } else {
            r.edges.push([from, to, E_EPSILON, 0, 0, 0]);
        }
    }
    go(&r);
}
/// which loops are the operator loop of a left-recursive rule
fn precedence() {
    let mut r = small(false);
    r.states.extend([(STAR_LOOP_ENTRY, 0, 0), ([LOOP_END, BASIC, BLOCK_END][choose(3) as usize], 0, 2), (STAR_LOOP_ENTRY, choose(2) as i64, 0), (RULE_START, 1, 0), (RULE_STOP, 1, 0)]);
    r.rules.push((7, 0));
    for s in [0, 7] {
        if choose(2) == 1 {
            r.precedence.push(s);
        }
    }
    // the last edge of the entry leaves the loop
    let (a, b) = if choose(2) == 1 { (5, 2) } else { (2, 5) };
    r.edges.extend([[4, a, E_EPSILON, 0, 0, 0], [4, b, E_EPSILON, 0, 0, 0], [6, 5, E_EPSILON, 0, 0, 0]]);
    // what follows it
    match choose(4) {
        0 => r.edges.push([5, 1, E_EPSILON, 0, 0, 0]),
        1 => r.edges.push([5, 3, E_EPSILON, 0, 0, 0]),
        2 => r.edges.push([5, 1, E_ATOM, 7, 0, 0]),
        _ => r.edges.extend([[5, 1, E_EPSILON, 0, 0, 0], [5, 3, E_ATOM, 7, 0, 0]]),
    }
    go(&r);
}
/// lexer actions, as the lexer carries them out
fn actions() {
    let k = choose(6);
    // the actions' hash is computed from the number
    let n = [0, 1, 2, 3, 5, 7, 255, 0x7FFF, 0xFFFE, 0xFFFF][choose(10) as usize];
    let cmd = match k {
        0 => (7, n, 0),
        1 => (0, n, 0),
        2 => (1, 0, n),
        3 => (6, 0, 0),
        4 => (8 + (n & 7), 0, 0),
        _ => (2, 0, 0),
    };
    let mut b = lexer_builder(&[lr(5, ch('a'), vec![Cmd::Pop])], 1);
    b.actions[0] = cmd;
    if k == 4 {
        expect_panic();
        load(&b.values());
        check(false, 35);
        return;
    }
    let n = if n == 0xFFFF { -1 } else { n };
    let a = std::sync::Arc::new(load(&b.values()));
    let (mut l, log, calls) = lex::lexer(InputStream::new("a"), &a, &lex::dfas(&a), vec![]);
    let t = lex::run(&mut l, 2);
    check(log.borrow().is_empty(), 50);
    match k {
        0 => check(t[0].ty == if n == 0 { 5 } else { n } && t[0].channel == 0, 51),
        1 => check(t[0].channel == n && t[0].ty == 5, 52),
        2 => check(calls.borrow().len() == 1 && (calls.borrow()[0].0, calls.borrow()[0].1) == (0, n as isize) && t[0].ty == 5, 53),
        3 => check(t.len() == 1 && t[0].ty == -1, 54),
        _ => check(t[0].ty == 5 && t[0].channel == 0, 55),
    }
    cover(1);
}
/// whole grammars
fn grammars() {
    let v = match choose(3) {
        0 => {
            let (r, lr, max) = par::grams(choose(12));
            par_values(&r, &lr, max)
        }
        1 => {
            let (r, max) = par::pg(choose(par::PGS));
            par_values(&r, &[], max)
        }
        _ => {
            let (r, modes) = lex::lexers(choose(lex::LEXERS));
            lexer_builder(&r, modes).values()
        }
    };
    go(&Raw::read(&v));
}
fn par_values(r: &[G], lr: &[usize], max: i64) -> Vec<i64> {
    let mut b = Builder::new(false, max);
    b.define_rules(r.len(), &[], lr);
    for (k, g) in r.iter().enumerate() {
        b.rule(k, g);
    }
    b.values()
}
macro_rules! entries {
    ($($f:ident $e:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { $e })* harnesses! {$($f),*} }
}
entries! {
    h_version version();
    h_uuid uuid();
    h_type grammar_type();
    h_states states();
    h_flags flags();
    h_rules rules();
    h_edges edges(false);
    h_edge_sets edges(true);
    h_matching matching();
    h_twice twice();
    h_returns returns();
    h_precedence precedence();
    h_actions actions();
    h_grammars grammars();
}
