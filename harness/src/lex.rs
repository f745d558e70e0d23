//! Running a lexer for a `gram` grammar, and an independent account of what it should produce.
use crate::gram::*;
use crate::*;
use antlr_rust::atn::ATN;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::char_stream::CharStream;
use antlr_rust::dfa::DFA;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::errors::ANTLRError;
use antlr_rust::input_stream::InputStream;
use antlr_rust::int_stream::IntStream;
use antlr_rust::lexer::*;
use antlr_rust::lexer_atn_simulator::*;
use antlr_rust::parser::ParserNodeType;
use antlr_rust::recognizer::*;
use antlr_rust::rule_context::*;
use antlr_rust::token::*;
use antlr_rust::token_factory::*;
use antlr_rust::{PredictionContextCache, RwLock, TokenSource};
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

pub type Log = Rc<RefCell<Vec<(isize, isize, String)>>>;
pub type Calls = Rc<RefCell<Vec<(isize, isize, isize, String)>>>;
pub struct Acts {
    /// custom actions executed: rule, index, position, text so far
    pub calls: Calls,
    /// value of predicate k (k < 10)
    pub preds: Vec<bool>,
    /// predicate evaluations: index, position
    pub asked: Rc<RefCell<Vec<(isize, isize)>>>,
}
pub const SET_TEXT: isize = 20;
pub const SET_CHANNEL: isize = 21;
pub const SET_TYPE: isize = 22;
pub const DO_SKIP: isize = 23;
pub const DO_MORE: isize = 24;
pub const DO_PUSH: isize = 25;
pub const DO_POP: isize = 26;
pub const SET_TOKEN: isize = 27;
pub const AT_LINE_START: isize = 10;
pub const AT_EVEN: isize = 11;
pub type L<'i, I> = BaseLexer<'i, Acts, I, CommonTokenFactory>;
impl<'i, I: CharStream<Cow<'i, str>>> Actions<'i, L<'i, I>> for Acts {
    fn action(_: Option<&EmptyContext<'i, CommonTokenFactory>>, r: isize, a: isize, recog: &mut L<'i, I>) {
        let at = recog.get_char_index();
        let t = recog.get_text().to_string();
        recog.calls.borrow_mut().push((r, a, at, t));
        // what embedded actions may do, by action number
        match a {
            SET_TEXT => recog.set_text("replaced".to_string()),
            SET_CHANNEL => recog.channel = 7,
            SET_TYPE => recog.set_type(40),
            DO_SKIP => recog.skip(),
            DO_MORE => recog.more(),
            DO_PUSH => recog.push_mode(1),
            DO_POP => {
                recog.pop_mode();
            }
            SET_TOKEN => {
                let t = (&TF).create(None::<&mut I>, 41, Some("made".to_string()), 3, 5, 6, 7, 8);
                recog.token = Some(t);
            }
            _ => {}
        }
    }
    fn sempred(_: Option<&EmptyContext<'i, CommonTokenFactory>>, _r: isize, a: isize, recog: &mut L<'i, I>) -> bool {
        let at = recog.get_char_index();
        recog.asked.borrow_mut().push((a, at));
        match a {
            AT_LINE_START => recog.get_char_position_in_line() == 0,
            AT_EVEN => at % 2 == 0,
            _ => recog.preds[a as usize],
        }
    }
}
impl<'i, I: CharStream<Cow<'i, str>>> LexerRecog<'i, L<'i, I>> for Acts {}
impl<'i> TokenAware<'i> for Acts {
    type TF = CommonTokenFactory;
}
pub struct Rec(pub Log);
impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for Rec {
    fn syntax_error(
        &self,
        _: &T,
        _: Option<&<T::TF as TokenFactory<'a>>::Inner>,
        line: isize,
        column: isize,
        msg: &str,
        _: Option<&ANTLRError>,
    ) {
        self.0.borrow_mut().push((line, column, msg.to_string()));
    }
}
pub static TF: CommonTokenFactory = CommonTokenFactory;
pub type Dfas = Arc<Vec<RwLock<DFA>>>;
pub fn atn(b: &Builder) -> Arc<ATN> {
    Arc::new(ATNDeserializer::new(None).deserialize(b.serialize().chars()))
}
pub fn dfas(atn: &Arc<ATN>) -> Dfas {
    let mut v = vec![];
    for i in 0..atn.decision_to_state.len() {
        v.push(DFA::new(atn.clone(), atn.get_decision_state(i), i as isize).into());
    }
    Arc::new(v)
}
pub fn lexer<'i, I: CharStream<Cow<'i, str>>>(input: I, atn: &Arc<ATN>, dfas: &Dfas, preds: Vec<bool>) -> (L<'i, I>, Log, Calls) {
    let sim = LexerATNSimulator::new_lexer_atnsimulator(atn.clone(), dfas.clone(), Arc::new(PredictionContextCache::new()));
    let calls: Calls = Rc::new(RefCell::new(vec![]));
    let acts = Acts { calls: calls.clone(), preds, asked: Rc::new(RefCell::new(vec![])) };
    let mut l = BaseLexer::new_base_lexer(input, sim, acts, &TF);
    l.remove_error_listeners();
    let log: Log = Rc::new(RefCell::new(vec![]));
    l.add_error_listener(Box::new(Rec(log.clone())));
    (l, log, calls)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tk {
    pub ty: i64,
    pub channel: i64,
    pub start: i64,
    pub stop: i64,
    pub line: i64,
    pub column: i64,
    pub text: String,
}
pub fn tk_of(t: &CommonToken<'_>) -> Tk {
    Tk {
        ty: t.token_type as i64,
        channel: t.channel as i64,
        start: t.start as i64,
        stop: t.stop as i64,
        line: t.line as i64,
        column: t.column as i64,
        text: t.text.to_string(),
    }
}
/// all tokens up to end of file (at most n + 2)
pub fn run<'i, I: CharStream<Cow<'i, str>>>(l: &mut L<'i, I>, max: usize) -> Vec<Tk> {
    let mut v = vec![];
    loop {
        let t = tk_of(&l.next_token());
        let eof = t.ty == TOKEN_EOF as i64;
        v.push(t);
        if eof || v.len() > max {
            return v;
        }
    }
}

/// Expected tokens and errors.  `cs`: code points, `ix`: stream index of each (and of the end).
pub struct Oracle {
    pub autos: Vec<(usize, usize, Auto)>, // (rule, alternative, automaton), fragments left out
    pub rules: Vec<LRule>,
}
pub struct Want {
    pub toks: Vec<Tk>,
    pub errs: Vec<(i64, i64, String)>,
    /// custom actions: rule, index, position, text so far
    pub acts: Vec<(i64, i64, i64, String)>,
}
impl Oracle {
    pub fn new(rules: &[LRule], depth: usize) -> Oracle {
        Self::with_preds(rules, depth, &[])
    }
    pub fn with_preds(rules: &[LRule], depth: usize, preds: &[bool]) -> Oracle {
        let rs = rules.to_vec();
        let body = move |k: usize| {
            let r = &rs[k];
            if r.alts.len() == 1 {
                r.alts[0].0.clone()
            } else {
                Alt(r.alts.iter().map(|x| x.0.clone()).collect())
            }
        };
        let mut autos = vec![];
        for (k, r) in rules.iter().enumerate() {
            if !r.fragment {
                for (a, (g, _)) in r.alts.iter().enumerate() {
                    autos.push((k, a, Auto::new(g, depth, preds, &body)));
                }
            }
        }
        Oracle { autos, rules: rules.to_vec() }
    }
    pub fn run(&self, cs: &[u32], ix: &[usize], text: &str) -> Want {
        let n = cs.len();
        let mut w = Want { toks: vec![], errs: vec![], acts: vec![] };
        let (mut pos, mut line, mut col, mut mode) = (0, 1i64, 0i64, 0usize);
        let mut stack: Vec<usize> = vec![];
        'token: while pos < n {
            let (start, sline, scol) = (pos, line, col);
            let (mut ty, mut channel);
            channel = 0;
            let (mut over, mut made) = (None, false);
            loop {
                // more: may start at the end of input
                if pos == n {
                    ty = TOKEN_EOF as i64;
                    break;
                }
                let mut cur: Vec<Option<Vec<bool>>> = self.autos.iter().map(|_| None).collect();
                let (mut best, mut winner) = (pos, usize::MAX);
                let mut p = pos;
                loop {
                    // read symbol p (the end of input counts as one)
                    let c = if p == n { -1 } else { cs[p] as i64 };
                    let mut any = false;
                    for k in 0..self.autos.len() {
                        if self.rules[self.autos[k].0].mode != mode {
                            continue;
                        }
                        let a = &self.autos[k].2;
                        let s = match &cur[k] {
                            None => a.start(c),
                            Some(s) => a.step(s, c),
                        };
                        any |= a.alive(&s);
                        cur[k] = Some(s);
                    }
                    if !any {
                        break;
                    }
                    if p < n {
                        p += 1;
                    }
                    let mut found = false;
                    for k in 0..self.autos.len() {
                        let mut dead = false;
                        if let Some(s) = &cur[k] {
                            let short = self.rules[self.autos[k].0].shortest;
                            if (short || !found) && self.autos[k].2.accepts(s) {
                                if !found {
                                    best = p;
                                    winner = k;
                                    found = true;
                                }
                                dead = short;
                            }
                        }
                        if dead {
                            for x in cur[k].as_mut().unwrap() {
                                *x = false;
                            }
                        }
                    }
                    if c == -1 {
                        break;
                    }
                }
                if winner == usize::MAX {
                    // the viable prefix and the symbol that ended it are dropped
                    let e = (p + 1).min(n);
                    w.errs.push((sline, scol, format!("token recognition error at: '{}'", &text[ix[start]..ix[e]])));
                    advance(&cs[pos..e], &mut line, &mut col);
                    pos = e;
                    continue 'token;
                }
                advance(&cs[pos..best], &mut line, &mut col);
                pos = best;
                let (r, a, _) = self.autos[winner];
                ty = self.rules[r].ty;
                let mut set = false;
                let mut more = false;
                let mut skip = false;
                for c in &self.rules[r].alts[a].1 {
                    match *c {
                        Cmd::Channel(k) => channel = k,
                        Cmd::Mode(m) => mode = m as usize,
                        Cmd::Push(m) => {
                            stack.push(mode);
                            mode = m as usize
                        }
                        Cmd::Pop => {
                            if let Some(m) = stack.pop() {
                                mode = m
                            }
                        }
                        Cmd::Skip => {
                            skip = true;
                            more = false;
                        }
                        Cmd::More => {
                            more = true;
                            skip = false;
                        }
                        Cmd::Type(t) => {
                            ty = t;
                            set = true;
                            more = false;
                            skip = false
                        }
                        Cmd::Custom(r, k) => {
                            w.acts.push((r, k, ix[pos] as i64, text[ix[start]..ix[pos]].to_string()));
                            match k as isize {
                                SET_TEXT => over = Some("replaced"),
                                SET_CHANNEL => channel = 7,
                                SET_TYPE => {
                                    ty = 40;
                                    more = false;
                                    skip = false;
                                }
                                DO_SKIP => {
                                    skip = true;
                                    more = false;
                                }
                                DO_MORE => {
                                    more = true;
                                    skip = false;
                                }
                                DO_PUSH => {
                                    stack.push(mode);
                                    mode = 1
                                }
                                DO_POP => {
                                    if let Some(m) = stack.pop() {
                                        mode = m
                                    }
                                }
                                SET_TOKEN => made = true,
                                _ => {}
                            }
                        }
                    }
                }
                let _ = set;
                if skip {
                    continue 'token;
                }
                if !more {
                    break;
                }
            }
            if made {
                w.toks.push(Tk { ty: 41, channel: 3, start: 5, stop: 6, line: 7, column: 8, text: "made".to_string() });
                continue;
            }
            w.toks.push(Tk {
                ty,
                channel,
                start: ix[start] as i64,
                stop: ix[pos] as i64 - 1,
                line: sline,
                column: scol,
                text: over.unwrap_or(&text[ix[start]..ix[pos]]).to_string(),
            });
            if ty == TOKEN_EOF as i64 {
                return w;
            }
        }
        w.toks.push(Tk { ty: TOKEN_EOF as i64, channel: 0, start: ix[n] as i64, stop: ix[n] as i64 - 1, line, column: col, text: String::new() });
        w
    }
}
fn advance(cs: &[u32], line: &mut i64, col: &mut i64) {
    for c in cs {
        if *c == 10 {
            *line += 1;
            *col = 0;
        } else {
            *col += 1;
        }
    }
}
/// positions and types are concrete on each path; the text is compared symbol by symbol
pub fn same_text(a: &str, b: &str) -> bool {
    if a.len() != b.len() {
        return false;
    }
    a.bytes().zip(b.bytes()).fold(true, |x, (p, q)| x & (p == q))
}
pub fn compare(w: &Want, got: &[Tk], log: &Log, base: u32) {
    let log = log.borrow();
    check(w.toks.len() == got.len(), base);
    if w.toks.len() != got.len() {
        return;
    }
    for (a, b) in w.toks.iter().zip(got) {
        check(a.ty == b.ty, base + 1);
        check(a.channel == b.channel, base + 2);
        check((a.start == b.start) & (a.stop == b.stop), base + 3);
        check(a.line == b.line, base + 4);
        check(a.column == b.column, base + 5);
        if a.ty != -1 {
            check(same_text(&a.text, &b.text), base + 6);
        }
        out(b.ty as u64);
        out(b.start as u64);
    }
    check(w.errs.len() == log.len(), base + 7);
    for (a, b) in w.errs.iter().zip(log.iter()) {
        check((a.0 == b.0 as i64) & (a.1 == b.1 as i64), base + 8);
        check(same_text(&a.2, &b.2), base + 9);
    }
}
pub fn compare_acts(w: &Want, calls: &Calls, base: u32) {
    let c = calls.borrow();
    check(w.acts.len() == c.len(), base);
    for (a, b) in w.acts.iter().zip(c.iter()) {
        check((a.0 == b.0 as i64) & (a.1 == b.1 as i64), base + 1);
        check(a.2 == b.2 as i64, base + 2);
        check(same_text(&a.3, &b.3), base + 3);
    }
}
pub fn ascii(text: &'static str) -> (Vec<u32>, Vec<usize>) {
    (text.bytes().map(|b| b as u32).collect(), (0..=text.len()).collect())
}
/// lexers: plain, with modes and commands, with predicates, non-greedy
pub fn lexers(k: u64) -> (Vec<LRule>, usize) {
    match k {
        0 => (
            vec![lr(1, lit("ab"), vec![]), lr(2, plus(rng('a', 'c')), vec![]), lr(3, Seq(vec![ch('d'), star(Not(vec![(97, 97)])), ch('e')]), vec![]), lr(4, Seq(vec![lit("bb"), ch('d')]), vec![])],
            1,
        ),
        1 => (
            vec![
                lra(1, vec![(ch('a'), vec![Cmd::Channel(1)]), (ch('b'), vec![Cmd::Channel(2)]), (ch('c'), vec![Cmd::Skip])]),
                lr(2, ch('d'), vec![Cmd::Push(1)]),
                lrm(1, 3, ch('a'), vec![Cmd::Pop]),
                lrm(1, 4, ch('b'), vec![Cmd::More]),
                lrm(1, 5, plus(rng('c', 'd')), vec![]),
            ],
            2,
        ),
        2 => (
            vec![
                lr(1, Seq(vec![Pred(0, 0), plus(ch('a'))]), vec![]),
                lr(2, Seq(vec![ch('a'), Pred(1, 1)]), vec![]),
                lr(3, Seq(vec![ch('b'), Pred(2, 2), ch('a')]), vec![]),
                lr(5, Seq(vec![ch('c'), ch('c'), Pred(3, 2)]), vec![]),
                lr(6, Seq(vec![Pred(4, 1), lit("e")]), vec![]),
                lr(4, rng('a', 'd'), vec![]),
            ],
            1,
        ),
        _ => (
            vec![lrs(1, Seq(vec![ch('a'), star_ng(Any), ch('b')]), vec![]), lr(2, plus(Not(vec![(97, 97)])), vec![])],
            1,
        ),
    }
}
pub const LEXERS: u64 = 4;
