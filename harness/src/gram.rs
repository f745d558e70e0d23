//! Small grammar language: builds the serialized form that ANTLR would generate (format 3, UUID
//! 59627784-...), and a Glushkov automaton used as an independent description of the language.
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum G {
    /// union of ranges (one element: ATOM edge, one range: RANGE edge, otherwise a SET edge); -1 = end of input
    C(Vec<(i64, i64)>),
    /// the same, always as a SET edge
    S(Vec<(i64, i64)>),
    Not(Vec<(i64, i64)>),
    Any,
    Seq(Vec<G>),
    Alt(Vec<G>),
    Star(Box<G>, bool),
    Plus(Box<G>, bool),
    Opt(Box<G>, bool),
    Ref(usize),
    /// reference with a precedence argument
    RefP(usize, i64),
    /// action number (lexer: index into the action table)
    Act(usize),
    Pred(usize, usize),
    Prec(i64),
}
pub use G::*;
pub fn ch(c: char) -> G {
    C(vec![(c as i64, c as i64)])
}
pub fn tk(t: i64) -> G {
    C(vec![(t, t)])
}
pub fn lit(s: &str) -> G {
    Seq(s.chars().map(ch).collect())
}
pub fn rng(a: char, b: char) -> G {
    C(vec![(a as i64, b as i64)])
}
pub fn star(g: G) -> G {
    Star(Box::new(g), true)
}
pub fn plus(g: G) -> G {
    Plus(Box::new(g), true)
}
pub fn opt(g: G) -> G {
    Opt(Box::new(g), true)
}
pub fn star_ng(g: G) -> G {
    Star(Box::new(g), false)
}
pub fn plus_ng(g: G) -> G {
    Plus(Box::new(g), false)
}
pub fn opt_ng(g: G) -> G {
    Opt(Box::new(g), false)
}

/// Grammar element annotated with the state and decision numbers generated code would mention.
#[derive(Clone, Debug)]
pub enum N {
    Tok { state: isize, g: G },
    Seq(Vec<N>),
    Alt { state: isize, decision: isize, alts: Vec<N> },
    /// state: decision state (loop entry), again: state named after each iteration
    Star { state: isize, again: isize, decision: isize, body: Box<N>, greedy: bool },
    Plus { state: isize, again: isize, decision: isize, body: Box<N>, greedy: bool },
    Opt { state: isize, decision: isize, body: Box<N>, greedy: bool },
    Ref { state: isize, rule: usize, prec: i64 },
    Act { state: isize, action: usize },
    Pred { state: isize, rule: usize, index: usize },
    Prec { state: isize, prec: i64 },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cmd {
    Skip,
    More,
    Channel(i64),
    Type(i64),
    Mode(i64),
    Push(i64),
    Pop,
    Custom(i64, i64),
}

pub struct Builder {
    pub states: Vec<(i64, i64, Option<i64>)>,
    pub edges: Vec<[i64; 6]>,
    pub sets: Vec<Vec<(i64, i64)>>,
    pub decisions: Vec<i64>,
    pub nongreedy: Vec<i64>,
    pub precedence: Vec<i64>,
    pub rules: Vec<(i64, i64)>,
    pub modes: Vec<i64>,
    pub actions: Vec<(i64, i64, i64)>,
    pub lexer: bool,
    pub max_type: i64,
    starts: Vec<i64>,
}
pub const BASIC: i64 = 1;
pub const RULE_START: i64 = 2;
pub const BLOCK_START: i64 = 3;
pub const PLUS_BLOCK_START: i64 = 4;
pub const STAR_BLOCK_START: i64 = 5;
pub const TOKEN_START: i64 = 6;
pub const RULE_STOP: i64 = 7;
pub const BLOCK_END: i64 = 8;
pub const STAR_LOOP_BACK: i64 = 9;
pub const STAR_LOOP_ENTRY: i64 = 10;
pub const PLUS_LOOP_BACK: i64 = 11;
pub const LOOP_END: i64 = 12;

pub const E_EPSILON: i64 = 1;
pub const E_RANGE: i64 = 2;
pub const E_RULE: i64 = 3;
pub const E_PREDICATE: i64 = 4;
pub const E_ATOM: i64 = 5;
pub const E_ACTION: i64 = 6;
pub const E_SET: i64 = 7;
pub const E_NOTSET: i64 = 8;
pub const E_WILDCARD: i64 = 9;
pub const E_PRECEDENCE: i64 = 10;

/// one serialized value: shifted by 2, moved out of the surrogate range
pub fn enc(v: i64) -> char {
    let mut x = (v + 2) & 0xFFFF;
    if x >= 0xD800 && x <= 0xDFFF {
        x += 0x3000;
    }
    char::from_u32(x as u32).unwrap()
}
pub const UUID: [u32; 8] = [0x608b, 0xa72a, 0x8133, 0xb9ed, 0x417c, 0x3be7, 0x7786, 0x5964];

impl Builder {
    pub fn new(lexer: bool, max_type: i64) -> Self {
        Builder {
            states: vec![],
            edges: vec![],
            sets: vec![],
            decisions: vec![],
            nongreedy: vec![],
            precedence: vec![],
            rules: vec![],
            modes: vec![],
            actions: vec![],
            lexer,
            max_type,
            starts: vec![],
        }
    }
    pub fn state(&mut self, t: i64, rule: i64) -> i64 {
        let arg = if (3..=5).contains(&t) || t == LOOP_END { Some(0) } else { None };
        self.states.push((t, rule, arg));
        self.states.len() as i64 - 1
    }
    pub fn edge(&mut self, a: i64, b: i64, t: i64, x: i64, y: i64, z: i64) {
        self.edges.push([a, b, t, x, y, z]);
    }
    pub fn eps(&mut self, a: i64, b: i64) {
        self.edge(a, b, E_EPSILON, 0, 0, 0)
    }
    pub fn decision(&mut self, s: i64) -> isize {
        self.decisions.push(s);
        self.decisions.len() as isize - 1
    }
    fn set_index(&mut self, s: &Vec<(i64, i64)>) -> i64 {
        for (i, x) in self.sets.iter().enumerate() {
            if x == s {
                return i as i64;
            }
        }
        self.sets.push(s.clone());
        self.sets.len() as i64 - 1
    }
    /// allocates start and stop states of the rules; `types`: token types (lexer)
    pub fn define_rules(&mut self, n: usize, types: &[i64], left_recursive: &[usize]) {
        for r in 0..n {
            let s = self.state(RULE_START, r as i64);
            self.state(RULE_STOP, r as i64);
            self.starts.push(s);
            self.rules.push((s, types.get(r).copied().unwrap_or(0)));
            if left_recursive.contains(&r) {
                self.precedence.push(s);
            }
        }
    }
    pub fn rule(&mut self, r: usize, g: &G) -> N {
        let (a, b, n) = self.build(g, r as i64);
        let s = self.starts[r];
        self.eps(s, a);
        self.eps(b, s + 1);
        n
    }
    fn leaf(&mut self, r: i64, t: i64, x: i64, y: i64, z: i64) -> (i64, i64) {
        let a = self.state(BASIC, r);
        let b = self.state(BASIC, r);
        self.edge(a, b, t, x, y, z);
        (a, b)
    }
    fn alts_of(g: &G) -> Vec<&G> {
        match g {
            Alt(v) => v.iter().collect(),
            _ => vec![g],
        }
    }
    pub fn build(&mut self, g: &G, r: i64) -> (i64, i64, N) {
        match g {
            C(v) if v.len() == 1 => {
                let (lo, hi) = v[0];
                let (a, b) = if lo == hi {
                    if lo == -1 {
                        self.leaf(r, E_ATOM, 0, 0, 1)
                    } else {
                        self.leaf(r, E_ATOM, lo, 0, 0)
                    }
                } else {
                    self.leaf(r, E_RANGE, lo, hi, 0)
                };
                (a, b, N::Tok { state: a as isize, g: g.clone() })
            }
            C(v) | S(v) => {
                let k = self.set_index(v);
                let (a, b) = self.leaf(r, E_SET, k, 0, 0);
                (a, b, N::Tok { state: a as isize, g: g.clone() })
            }
            Not(v) => {
                let k = self.set_index(v);
                let (a, b) = self.leaf(r, E_NOTSET, k, 0, 0);
                (a, b, N::Tok { state: a as isize, g: g.clone() })
            }
            Any => {
                let (a, b) = self.leaf(r, E_WILDCARD, 0, 0, 0);
                (a, b, N::Tok { state: a as isize, g: g.clone() })
            }
            Act(k) => {
                let (a, b) = self.leaf(r, E_ACTION, r, *k as i64, 0);
                (a, b, N::Act { state: a as isize, action: *k })
            }
            Pred(pr, k) => {
                let (a, b) = self.leaf(r, E_PREDICATE, *pr as i64, *k as i64, 0);
                (a, b, N::Pred { state: a as isize, rule: *pr, index: *k })
            }
            Prec(p) => {
                let (a, b) = self.leaf(r, E_PRECEDENCE, *p, 0, 0);
                (a, b, N::Prec { state: a as isize, prec: *p })
            }
            Ref(k) | RefP(k, _) => {
                let p = if let RefP(_, p) = g { *p } else { 0 };
                let a = self.state(BASIC, r);
                let b = self.state(BASIC, r);
                let s = self.starts[*k];
                self.edge(a, b, E_RULE, s, *k as i64, p);
                (a, b, N::Ref { state: a as isize, rule: *k, prec: p })
            }
            Seq(v) => {
                if v.is_empty() {
                    let a = self.state(BASIC, r);
                    let b = self.state(BASIC, r);
                    self.eps(a, b);
                    return (a, b, N::Seq(vec![]));
                }
                let (first, mut end, n) = self.build(&v[0], r);
                let mut ns = vec![n];
                for x in &v[1..] {
                    let (a, b, n) = self.build(x, r);
                    self.eps(end, a);
                    end = b;
                    ns.push(n);
                }
                (first, end, N::Seq(ns))
            }
            Alt(v) => {
                let s = self.state(BLOCK_START, r);
                let e = self.state(BLOCK_END, r);
                self.states[s as usize].2 = Some(e);
                let d = self.decision(s);
                let mut alts = vec![];
                for x in v {
                    let (a, b, n) = self.build(x, r);
                    self.eps(s, a);
                    self.eps(b, e);
                    alts.push(n);
                }
                (s, e, N::Alt { state: s as isize, decision: d, alts })
            }
            Opt(x, greedy) => {
                let s = self.state(BLOCK_START, r);
                let e = self.state(BLOCK_END, r);
                self.states[s as usize].2 = Some(e);
                let d = self.decision(s);
                if !*greedy {
                    self.nongreedy.push(s);
                    self.eps(s, e);
                }
                let (a, b, n) = self.build(x, r);
                self.eps(s, a);
                self.eps(b, e);
                if *greedy {
                    self.eps(s, e);
                }
                (s, e, N::Opt { state: s as isize, decision: d, body: Box::new(n), greedy: *greedy })
            }
            Star(x, greedy) => {
                let entry = self.state(STAR_LOOP_ENTRY, r);
                let blk = self.state(STAR_BLOCK_START, r);
                let be = self.state(BLOCK_END, r);
                let back = self.state(STAR_LOOP_BACK, r);
                let end = self.state(LOOP_END, r);
                self.states[blk as usize].2 = Some(be);
                self.states[end as usize].2 = Some(back);
                let alts = Self::alts_of(x);
                let bd = if alts.len() > 1 { self.decision(blk) } else { -1 };
                let mut ns = vec![];
                for x in &alts {
                    let (a, b, n) = self.build(x, r);
                    self.eps(blk, a);
                    self.eps(b, be);
                    ns.push(n);
                }
                let d = self.decision(entry);
                if *greedy {
                    self.eps(entry, blk);
                    self.eps(entry, end);
                } else {
                    self.nongreedy.push(entry);
                    self.eps(entry, end);
                    self.eps(entry, blk);
                }
                self.eps(be, back);
                self.eps(back, entry);
                let body = if alts.len() > 1 { N::Alt { state: blk as isize, decision: bd, alts: ns } } else { ns.pop().unwrap() };
                (entry, end, N::Star { state: entry as isize, again: back as isize, decision: d, body: Box::new(body), greedy: *greedy })
            }
            Plus(x, greedy) => {
                let blk = self.state(PLUS_BLOCK_START, r);
                let be = self.state(BLOCK_END, r);
                let back = self.state(PLUS_LOOP_BACK, r);
                let end = self.state(LOOP_END, r);
                self.states[blk as usize].2 = Some(be);
                self.states[end as usize].2 = Some(back);
                let alts = Self::alts_of(x);
                let bd = if alts.len() > 1 { self.decision(blk) } else { -1 };
                let mut ns = vec![];
                for x in &alts {
                    let (a, b, n) = self.build(x, r);
                    self.eps(blk, a);
                    self.eps(b, be);
                    ns.push(n);
                }
                let d = self.decision(back);
                self.eps(be, back);
                if *greedy {
                    self.eps(back, blk);
                    self.eps(back, end);
                } else {
                    self.nongreedy.push(back);
                    self.eps(back, end);
                    self.eps(back, blk);
                }
                let body = if alts.len() > 1 { N::Alt { state: blk as isize, decision: bd, alts: ns } } else { ns.pop().unwrap() };
                (blk, end, N::Plus { state: blk as isize, again: back as isize, decision: d, body: Box::new(body), greedy: *greedy })
            }
        }
    }
    /// the values of the serialized form after version and UUID
    pub fn values(&self) -> Vec<i64> {
        let mut o = vec![if self.lexer { 0 } else { 1 }, self.max_type, self.states.len() as i64];
        for (t, r, a) in &self.states {
            o.push(*t);
            o.push(*r);
            if let Some(a) = a {
                o.push(*a);
            }
        }
        o.push(self.nongreedy.len() as i64);
        o.extend(&self.nongreedy);
        o.push(self.precedence.len() as i64);
        o.extend(&self.precedence);
        o.push(self.rules.len() as i64);
        for (s, t) in &self.rules {
            o.push(*s);
            if self.lexer {
                o.push(*t);
            }
        }
        o.push(self.modes.len() as i64);
        o.extend(&self.modes);
        // small sets first, then the ones that need 32-bit values; edges name them in that order
        let big = |s: &Vec<(i64, i64)>| s.iter().any(|x| x.1 > 0xFFFF);
        let mut order: Vec<usize> = (0..self.sets.len()).filter(|i| !big(&self.sets[*i])).collect();
        let nsmall = order.len();
        order.extend((0..self.sets.len()).filter(|i| big(&self.sets[*i])));
        for (wide, from, to) in [(false, 0, nsmall), (true, nsmall, order.len())] {
            o.push((to - from) as i64);
            for k in &order[from..to] {
                let s: Vec<_> = self.sets[*k].iter().filter(|x| x.0 >= 0).collect();
                o.push(s.len() as i64);
                o.push((s.len() != self.sets[*k].len()) as i64);
                for (a, b) in s {
                    for v in [*a, *b] {
                        if !wide {
                            o.push(v);
                        } else {
                            o.push(v & 0xFFFF);
                            o.push(v >> 16);
                        }
                    }
                }
            }
        }
        let mut e = self.edges.clone();
        e.sort_by_key(|x| x[0]);
        o.push(e.len() as i64);
        for x in &e {
            let mut x = *x;
            if x[2] == E_SET || x[2] == E_NOTSET {
                x[3] = order.iter().position(|k| *k as i64 == x[3]).unwrap() as i64;
            }
            o.extend(&x);
        }
        o.push(self.decisions.len() as i64);
        o.extend(&self.decisions);
        if self.lexer {
            o.push(self.actions.len() as i64);
            for (t, a, b) in &self.actions {
                o.push(*t);
                o.push(*a);
                o.push(*b);
            }
        }
        o
    }
    pub fn serialize(&self) -> String {
        serialize(&self.values())
    }
}
pub fn serialize(values: &[i64]) -> String {
    let mut s = String::new();
    s.push('\u{3}');
    for u in UUID {
        s.push(char::from_u32(u).unwrap());
    }
    for v in values {
        s.push(enc(*v));
    }
    s
}

#[derive(Clone)]
pub struct LRule {
    pub fragment: bool,
    pub mode: usize,
    pub ty: i64,
    /// contains a non-greedy loop: matches the shortest text only
    pub shortest: bool,
    pub alts: Vec<(G, Vec<Cmd>)>,
}
pub fn lr(ty: i64, g: G, cmds: Vec<Cmd>) -> LRule {
    LRule { fragment: false, mode: 0, ty, shortest: false, alts: vec![(g, cmds)] }
}
pub fn lrm(mode: usize, ty: i64, g: G, cmds: Vec<Cmd>) -> LRule {
    LRule { fragment: false, mode, ty, shortest: false, alts: vec![(g, cmds)] }
}
pub fn lrs(ty: i64, g: G, cmds: Vec<Cmd>) -> LRule {
    LRule { fragment: false, mode: 0, ty, shortest: true, alts: vec![(g, cmds)] }
}
pub fn lra(ty: i64, alts: Vec<(G, Vec<Cmd>)>) -> LRule {
    LRule { fragment: false, mode: 0, ty, shortest: false, alts }
}
pub fn frag(g: G) -> LRule {
    LRule { fragment: true, mode: 0, ty: 0, shortest: false, alts: vec![(g, vec![])] }
}
fn cmd_value(c: Cmd) -> (i64, i64, i64) {
    match c {
        Cmd::Channel(n) => (0, n, 0),
        Cmd::Custom(r, k) => (1, r, k),
        Cmd::Mode(n) => (2, n, 0),
        Cmd::More => (3, 0, 0),
        Cmd::Pop => (4, 0, 0),
        Cmd::Push(n) => (5, n, 0),
        Cmd::Skip => (6, 0, 0),
        Cmd::Type(n) => (7, n, 0),
    }
}
pub fn lexer_builder(rules: &[LRule], nmodes: usize) -> Builder {
    let maxt = rules.iter().map(|r| r.ty).max().unwrap_or(0);
    let mut b = Builder::new(true, maxt);
    for _ in 0..nmodes {
        let s = b.state(TOKEN_START, -1);
        b.modes.push(s);
        b.decision(s);
    }
    let types: Vec<i64> = rules.iter().map(|r| r.ty).collect();
    b.define_rules(rules.len(), &types, &[]);
    for m in 0..nmodes {
        for (k, r) in rules.iter().enumerate() {
            if r.mode == m && !r.fragment {
                let (s, _) = b.rules[k];
                b.eps(m as i64, s);
            }
        }
    }
    for (k, r) in rules.iter().enumerate() {
        let mut alts = vec![];
        for (g, cmds) in &r.alts {
            let mut v = vec![g.clone()];
            for c in cmds {
                let val = cmd_value(*c);
                let i = match b.actions.iter().position(|x| *x == val) {
                    Some(i) => i,
                    None => {
                        b.actions.push(val);
                        b.actions.len() - 1
                    }
                };
                v.push(Act(i));
            }
            alts.push(if v.len() == 1 { v.pop().unwrap() } else { Seq(v) });
        }
        let g = if alts.len() == 1 { alts.pop().unwrap() } else { Alt(alts) };
        b.rule(k, &g);
    }
    b
}

/// Glushkov automaton of a rule alternative (rule references inlined, no recursion).
/// References are inlined at most `depth` deep; a word of n symbols cannot need more than n.
#[derive(Default, Clone)]
pub struct Auto {
    depth: usize,
    preds: Vec<bool>,
    pub cls: Vec<G>,
    pub nullable: bool,
    pub first: Vec<usize>,
    pub last: Vec<usize>,
    pub follow: Vec<Vec<usize>>,
}
struct Frag {
    nullable: bool,
    first: Vec<usize>,
    last: Vec<usize>,
}
fn merge(a: &mut Vec<usize>, b: &[usize]) {
    for x in b {
        if !a.contains(x) {
            a.push(*x);
        }
    }
}
impl Auto {
    pub fn new(g: &G, depth: usize, preds: &[bool], rules: &dyn Fn(usize) -> G) -> Auto {
        let mut a = Auto::default();
        a.depth = depth;
        a.preds = preds.to_vec();
        let f = a.add(g, rules);
        a.nullable = f.nullable;
        a.first = f.first;
        a.last = f.last;
        a.trim();
        a
    }
    /// drops positions from which no end can be reached
    fn trim(&mut self) {
        let n = self.cls.len();
        let mut ok = vec![false; n];
        for p in &self.last {
            ok[*p] = true;
        }
        loop {
            let mut changed = false;
            for p in 0..n {
                if !ok[p] && self.follow[p].iter().any(|q| ok[*q]) {
                    ok[p] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        self.first.retain(|p| ok[*p]);
        for f in self.follow.iter_mut() {
            f.retain(|p| ok[*p]);
        }
    }
    fn link(&mut self, from: &[usize], to: &[usize]) {
        for x in from {
            let mut f = std::mem::take(&mut self.follow[*x]);
            merge(&mut f, to);
            self.follow[*x] = f;
        }
    }
    fn add(&mut self, g: &G, rules: &dyn Fn(usize) -> G) -> Frag {
        match g {
            C(_) | S(_) | Not(_) | Any => {
                self.cls.push(g.clone());
                self.follow.push(vec![]);
                let k = self.cls.len() - 1;
                Frag { nullable: false, first: vec![k], last: vec![k] }
            }
            Pred(_, k) => Frag { nullable: self.preds.get(*k).copied().unwrap_or(true), first: vec![], last: vec![] },
            Act(_) | Prec(_) => Frag { nullable: true, first: vec![], last: vec![] },
            Ref(k) | RefP(k, _) => {
                if self.depth == 0 {
                    return Frag { nullable: false, first: vec![], last: vec![] };
                }
                let g = rules(*k);
                self.depth -= 1;
                let f = self.add(&g, rules);
                self.depth += 1;
                f
            }
            Seq(v) => {
                let mut f = Frag { nullable: true, first: vec![], last: vec![] };
                for x in v {
                    let h = self.add(x, rules);
                    self.link(&f.last.clone(), &h.first);
                    if f.nullable {
                        merge(&mut f.first, &h.first);
                    }
                    if h.nullable {
                        merge(&mut f.last, &h.last);
                    } else {
                        f.last = h.last;
                    }
                    f.nullable &= h.nullable;
                }
                f
            }
            Alt(v) => {
                let mut f = Frag { nullable: false, first: vec![], last: vec![] };
                for x in v {
                    let h = self.add(x, rules);
                    merge(&mut f.first, &h.first);
                    merge(&mut f.last, &h.last);
                    f.nullable |= h.nullable;
                }
                f
            }
            Opt(x, _) => {
                let mut f = self.add(x, rules);
                f.nullable = true;
                f
            }
            Star(x, _) | Plus(x, _) => {
                let mut f = self.add(x, rules);
                self.link(&f.last.clone(), &f.first);
                if let Star(..) = g {
                    f.nullable = true;
                }
                f
            }
        }
    }
    /// states after reading `c` in the initial situation
    pub fn start(&self, c: i64) -> Vec<bool> {
        let mut r = vec![false; self.cls.len()];
        for p in &self.first {
            r[*p] = class(&self.cls[*p], c);
        }
        r
    }
    pub fn step(&self, s: &[bool], c: i64) -> Vec<bool> {
        let mut r = vec![false; self.cls.len()];
        for p in 0..s.len() {
            for q in &self.follow[p] {
                r[*q] |= s[p];
            }
        }
        for q in 0..r.len() {
            r[q] &= class(&self.cls[q], c);
        }
        r
    }
    pub fn accepts(&self, s: &[bool]) -> bool {
        self.last.iter().fold(false, |x, p| x | s[*p])
    }
    pub fn alive(&self, s: &[bool]) -> bool {
        s.iter().fold(false, |x, p| x | *p)
    }
}
/// does the one-symbol element `g` match `c`? (no short-circuit: one formula)
pub fn class(g: &G, c: i64) -> bool {
    match g {
        C(v) | S(v) => v.iter().fold(false, |x, (a, b)| x | ((c >= *a) & (c <= *b))),
        Not(v) => !v.iter().fold(false, |x, (a, b)| x | ((c >= *a) & (c <= *b))) & (c >= 0),
        Any => c >= 0,
        _ => unreachable!(),
    }
}
