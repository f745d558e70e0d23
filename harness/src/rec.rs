//! FIRST/FOLLOW sets, and an independent account of parsing with error recovery for LL(1) grammars.
use crate::gram::*;
use crate::par::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn class_set(g: &G, max: i64) -> Set {
    let all = || (1..=max).fold(0, |a, t| a | bit(t as isize));
    let of = |v: &Vec<(i64, i64)>| (-1..=max).filter(|t| v.iter().any(|(a, b)| a <= t && t <= b)).fold(0, |a, t| a | bit(t as isize));
    match g {
        C(v) | S(v) => of(v),
        Not(v) => all() & !of(v),
        Any => all(),
        _ => unreachable!(),
    }
}
/// an element, or (flag) the rest of a loop after an iteration
pub type Item<'g> = (&'g N, bool);
pub fn first(g: &Gram, n: &N) -> Set {
    match n {
        N::Tok { g: c, .. } => class_set(c, g.max),
        N::Seq(v) => {
            let mut s = EPS;
            for x in v {
                if s & EPS == 0 {
                    break;
                }
                s = (s & !EPS) | first(g, x);
            }
            s
        }
        N::Alt { alts, .. } => alts.iter().fold(0, |a, n| a | first(g, n)),
        N::Opt { body, .. } | N::Star { body, .. } => first(g, body) | EPS,
        N::Plus { body, .. } => first(g, body),
        N::Ref { rule, .. } => g.first[*rule],
        _ => EPS,
    }
}
pub fn first_item(g: &Gram, i: &Item) -> Set {
    match i {
        (N::Star { body, .. }, true) | (N::Plus { body, .. }, true) => first(g, body) | EPS,
        (n, _) => first(g, n),
    }
}
/// what can come next, given what remains of the rule (innermost last)
pub fn next_tokens(g: &Gram, rest: &[Item]) -> Set {
    let mut s = EPS;
    for i in rest.iter().rev() {
        if s & EPS == 0 {
            break;
        }
        s = (s & !EPS) | first_item(g, i);
    }
    s
}
fn decisions<'g>(g: &Gram, n: &'g N, rest: &mut Vec<Item<'g>>, follow: Set, out: &mut Vec<(usize, Vec<Set>, Vec<Set>)>, uses: &mut Vec<(usize, Set)>) {
    let after = |g: &Gram, rest: &Vec<Item>| {
        let s = next_tokens(g, rest);
        if s & EPS != 0 { (s & !EPS) | follow } else { s }
    };
    let with = |f: Set, a: Set| if f & EPS != 0 { (f & !EPS) | a } else { f };
    match n {
        N::Seq(v) => {
            let d = rest.len();
            for x in v.iter().rev() {
                rest.push((x, false));
            }
            for x in v {
                rest.pop();
                decisions(g, x, rest, follow, out, uses);
            }
            rest.truncate(d);
        }
        N::Alt { alts, .. } => {
            let a = after(g, rest);
            let s: Vec<Set> = alts.iter().map(|n| with(first(g, n), a)).collect();
            out.push((id(n), s.clone(), s));
            for x in alts {
                decisions(g, x, rest, follow, out, uses);
            }
        }
        N::Opt { body, .. } => {
            let a = after(g, rest);
            out.push((id(n), vec![with(first(g, body), a)], vec![with(first(g, body), a), a]));
            decisions(g, body, rest, follow, out, uses);
        }
        N::Star { body, .. } | N::Plus { body, .. } => {
            let a = after(g, rest);
            // a body that may be empty makes the decision not LL(1)
            out.push((id(n), vec![first(g, body) & !EPS], vec![with(first(g, body), a), a]));
            rest.push((n, true));
            decisions(g, body, rest, follow, out, uses);
            rest.pop();
        }
        N::Ref { rule, .. } => uses.push((*rule, after(g, rest))),
        _ => {}
    }
}
pub fn analyse(g: &mut Gram) {
    loop {
        let f: Vec<Set> = g.rules.iter().map(|n| first(g, n)).collect();
        let same = f == g.first;
        g.first = f;
        if same {
            break;
        }
    }
    let rules = std::mem::take(&mut g.rules);
    g.ll1.clear();
    let mut follow = vec![0; rules.len()];
    loop {
        let (mut out, mut uses) = (vec![], vec![]);
        for (r, n) in rules.iter().enumerate() {
            decisions(g, n, &mut vec![], follow[r], &mut out, &mut uses);
        }
        let mut f = follow.clone();
        for (r, s) in uses {
            f[r] |= s;
        }
        if f == follow {
            g.is_ll1 = !g.lr.iter().any(|x| *x);
            for (id, take, alts) in out {
                let mut seen = 0;
                for s in &alts {
                    if seen & s != 0 {
                        g.is_ll1 = false;
                    }
                    seen |= s;
                }
                g.ll1.insert(id, take);
            }
            break;
        }
        follow = f;
    }
    g.follow = follow;
    g.rules = rules;
}

pub fn escape(s: &str) -> String {
    s.replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}
enum Fail {
    Mismatch(Set),
    /// start, offending token
    NoAlt(usize, usize),
}
/// Parses with single-token deletion, single-token insertion and resynchronisation.
pub struct Rec<'g> {
    g: &'g Gram,
    t: Vec<isize>,
    /// decisions taken by full prediction instead of one token
    adaptive: bool,
    at: usize,
    frames: Vec<Vec<Item<'g>>>,
    stack: Vec<usize>,
    state: isize,
    recovering: bool,
    last: Option<usize>,
    last_states: BTreeSet<isize>,
    first_doubt: Option<Set>,
    /// offending token, message
    pub reports: Vec<(usize, String)>,
    /// made-up tokens: text, column
    pub made: Vec<(String, isize)>,
    pub texts: fn(usize) -> &'static str,
    /// visible token number -> token index (the last one is end-of-file)
    pub index: Vec<usize>,
}
impl<'g> Rec<'g> {
    pub fn parse(g: &'g Gram, types: &[isize], adaptive: bool, index: Vec<usize>, texts: fn(usize) -> &'static str) -> (T, Self) {
        let mut r = Rec {
            made: vec![],
            index,
            texts,
            g,
            t: types.to_vec(),
            adaptive,
            at: 0,
            frames: vec![],
            stack: vec![],
            state: -1,
            recovering: false,
            last: None,
            last_states: Default::default(),
            first_doubt: None,
            reports: vec![],
        };
        let t = r.rule(0);
        (t, r)
    }
    fn la(&self, k: usize) -> isize {
        self.t.get(self.at + k - 1).copied().unwrap_or(-1)
    }
    fn text(&self, i: usize) -> String {
        if i < self.t.len() { escape((self.texts)(self.index[i])) } else { "<EOF>".to_string() }
    }
    pub fn name(t: isize) -> String {
        match t {
            -1 => "<EOF>".into(),
            1 => "'one'".into(),
            t => SYMBOLIC.get(t as usize).and_then(|x| x.map(|x| x.to_string())).unwrap_or(t.to_string()),
        }
    }
    pub fn show(s: Set) -> String {
        let v: Vec<String> = (-1..30).filter(|t| s & bit(*t) != 0).map(Self::name).collect();
        match v.len() {
            0 => "{}".to_string(),
            1 => v[0].clone(),
            _ => format!("{{{}}}", v.join(", ")),
        }
    }
    /// expected tokens, looking through the ends of the rules being parsed
    fn expected(&self) -> Set {
        let mut s = EPS;
        for f in self.frames.iter().rev() {
            if s & EPS == 0 {
                break;
            }
            s = (s & !EPS) | next_tokens(self.g, f);
        }
        if s & EPS != 0 { (s & !EPS) | bit(-1) } else { s }
    }
    fn recovery_set(&self) -> Set {
        let k = self.frames.len() - 1;
        self.frames[..k].iter().fold(0, |a, f| a | next_tokens(self.g, f)) & !EPS
    }
    fn report(&mut self, tok: usize, msg: String) {
        if !self.recovering {
            self.recovering = true;
            self.reports.push((self.index[tok], msg));
        }
    }
    fn matched(&mut self) {
        self.recovering = false;
        self.last = None;
        self.last_states.clear();
    }
    fn consume(&mut self, out: &mut Vec<T>) {
        let i = self.at.min(self.t.len());
        let x = self.index[i] as isize;
        out.push(if self.recovering { T::Err(x, self.la(1)) } else { T::Tok(x) });
        if self.at < self.t.len() {
            self.at += 1;
        }
    }
    fn consume_until(&mut self, s: Set, out: &mut Vec<T>) {
        while self.la(1) != -1 && s & bit(self.la(1)) == 0 {
            self.consume(out);
        }
    }
    fn top(&mut self) -> &mut Vec<Item<'g>> {
        self.frames.last_mut().unwrap()
    }
    /// the current token is spurious: the one after it is expected
    fn delete(&mut self, out: &mut Vec<T>) -> bool {
        let e = self.expected();
        if e & bit(self.la(2)) == 0 {
            return false;
        }
        let m = format!("extraneous input '{}' expecting {}", self.text(self.at), Self::show(e));
        self.report(self.at, m);
        self.consume(out);
        self.matched();
        true
    }
    /// with `item` (not yet matched) on top of the current frame
    fn sync(&mut self, looping: bool, out: &mut Vec<T>) -> Result<(), Fail> {
        if self.recovering {
            return Ok(());
        }
        let g = self.g;
        let next = next_tokens(g, self.top());
        if next & bit(self.la(1)) != 0 {
            self.first_doubt = None;
            return Ok(());
        }
        if next & EPS != 0 {
            if self.first_doubt.is_none() {
                self.first_doubt = Some(self.expected());
            }
            return Ok(());
        }
        if looping {
            let m = format!("extraneous input '{}' expecting {}", self.text(self.at), Self::show(self.expected()));
            self.report(self.at, m);
            let s = self.expected() | self.recovery_set();
            self.consume_until(s, out);
            return Ok(());
        }
        if !self.delete(out) {
            return Err(Fail::Mismatch(self.expected()));
        }
        Ok(())
    }
    /// an input token that does not match
    fn inline(&mut self, token_like: bool, out: &mut Vec<T>) -> Result<(), Fail> {
        if self.delete(out) {
            self.consume(out);
            return Ok(());
        }
        let e = self.expected();
        let it = self.top().pop().unwrap();
        let after = self.expected();
        self.top().push(it);
        if after & bit(self.la(1)) != 0 {
            let m = format!("missing {} at '{}'", Self::show(e), self.text(self.at));
            self.report(self.at, m);
            if token_like {
                let t = (-1..30).find(|t| e & bit(*t) != 0).unwrap();
                out.push(T::Err(-1, t));
                let near = if self.at < self.t.len() || self.at == 0 { self.at } else { self.at - 1 };
                self.made.push((format!("<missing {}>", if t == -1 { "EOF".to_string() } else { Self::name(t) }), self.index[near] as isize));
            }
            return Ok(());
        }
        Err(Fail::Mismatch(self.first_doubt.unwrap_or(e)))
    }
    /// a decision without a viable alternative on the next token: an alternative that can end the
    /// whole rule is still taken by full prediction
    fn ending(&mut self, alts: Vec<Vec<Item<'g>>>) -> Result<usize, Fail> {
        let g = self.g;
        for (k, a) in alts.iter().enumerate() {
            let mut v = self.top().clone();
            v.pop();
            v.extend(a.iter().rev().cloned());
            if next_tokens(g, &v) & EPS != 0 {
                return Ok(k);
            }
        }
        Err(Fail::NoAlt(self.at, self.at))
    }
    /// alternatives of decision n (which is on top of the frame); 0-based
    fn decide(&mut self, n: &'g N) -> Result<usize, Fail> {
        let g = self.g;
        let la = bit(self.la(1));
        let sets = &g.ll1[&id(n)];
        match n {
            N::Alt { alts, .. } => {
                if let Some(k) = sets.iter().position(|s| s & la != 0) {
                    return Ok(k);
                }
                if self.adaptive {
                    return self.ending(alts.iter().map(|a| vec![(a, false)]).collect());
                }
                Err(Fail::NoAlt(self.at, self.at))
            }
            N::Opt { body, greedy, .. } | N::Star { body, greedy, .. } | N::Plus { body, greedy, .. } => {
                // 0: body, 1: leave
                if sets[0] & la != 0 {
                    return Ok(0);
                }
                if !self.adaptive {
                    return Ok(1);
                }
                let mut rest = self.top().clone();
                rest.pop();
                let after = next_tokens(g, &rest);
                let mut follow = after & !EPS;
                if after & EPS != 0 {
                    follow |= self.follow();
                }
                if follow & la != 0 {
                    return Ok(1);
                }
                let go = if let N::Opt { .. } = n { vec![(&**body, false)] } else { vec![(&**body, false), (n, true)] };
                if *greedy {
                    self.ending(vec![go, vec![]])
                } else {
                    Ok(1 - self.ending(vec![vec![], go])?)
                }
            }
            _ => unreachable!(),
        }
    }
    /// everything that can follow the current rule, wherever it is used
    fn follow(&self) -> Set {
        self.g.follow[*self.stack.last().unwrap()]
    }
    fn rule(&mut self, r: usize) -> T {
        let g = self.g;
        let called_from = self.state;
        self.state = g.starts[r];
        self.stack.push(r);
        self.frames.push(vec![(&g.rules[r], false)]);
        let mut kids = vec![];
        if let Err(e) = self.el(&mut kids) {
            // the rule method reports the error and skips to something a caller can continue with
            match e {
                Fail::Mismatch(s) => {
                    let m = format!("mismatched input '{}' expecting {}", self.text(self.at), Self::show(s));
                    self.report(self.at, m);
                }
                Fail::NoAlt(a, b) => {
                    let m = if a >= self.t.len() {
                        "no viable alternative at input '<EOF>'".to_string()
                    } else {
                        format!("no viable alternative at input '{}'", (self.index[a]..=self.index[b]).filter(|i| *i < *self.index.last().unwrap()).map(|i| escape((self.texts)(i))).collect::<String>())
                    };
                    self.report(b, m);
                }
            }
            if self.last == Some(self.at) && self.last_states.contains(&self.state) {
                self.consume(&mut kids);
            }
            self.last = Some(self.at);
            self.last_states.insert(self.state);
            let s = self.recovery_set();
            self.consume_until(s, &mut kids);
        }
        self.frames.pop();
        self.stack.pop();
        self.state = called_from;
        T::Rule(r, kids)
    }
    /// parses the element on top of the frame and removes it
    fn el(&mut self, out: &mut Vec<T>) -> Result<(), Fail> {
        let n = self.top().last().unwrap().0;
        match n {
            N::Tok { state, g: c } => {
                self.state = *state;
                let hit = class_set(c, self.g.max) & bit(self.la(1)) != 0;
                if hit {
                    self.matched();
                    self.consume(out);
                } else {
                    let single = match c {
                        C(v) => v.len() == 1 && v[0].0 == v[0].1,
                        Any => true,
                        _ => false,
                    };
                    self.inline(single, out)?;
                }
                self.top().pop();
            }
            N::Seq(v) => {
                self.top().pop();
                for x in v.iter().rev() {
                    self.top().push((x, false));
                }
                for _ in v {
                    self.el(out)?;
                }
            }
            N::Alt { state, alts, .. } => {
                self.state = *state;
                self.sync(false, out)?;
                let k = self.decide(n)?;
                self.top().pop();
                self.top().push((&alts[k], false));
                self.el(out)?;
            }
            N::Opt { state, body, .. } => {
                self.state = *state;
                self.sync(false, out)?;
                let k = self.decide(n)?;
                self.top().pop();
                if k == 0 {
                    self.top().push((body, false));
                    self.el(out)?;
                }
            }
            N::Star { state, again, body, .. } | N::Plus { state, again, body, .. } => {
                self.state = *state;
                self.sync(false, out)?;
                let mut go = matches!(n, N::Plus { .. }) || self.decide(n)? == 0;
                self.top().pop();
                self.top().push((n, true));
                while go {
                    self.top().push((body, false));
                    self.el(out)?;
                    self.state = *again;
                    self.sync(true, out)?;
                    go = self.decide(n)? == 0;
                }
                self.top().pop();
            }
            N::Ref { state, rule, .. } => {
                self.state = *state;
                self.top().pop();
                let t = self.rule(*rule);
                out.push(t);
            }
            _ => {
                self.top().pop();
            }
        }
        Ok(())
    }
}
