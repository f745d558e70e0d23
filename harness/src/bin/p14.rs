//! P14: parse listeners, tree walkers and visitors see every node once, in order.
#![allow(warnings)]
use antlr_rust::parser::*;
use antlr_rust::parser_rule_context::*;
use antlr_rust::rule_context::*;
use antlr_rust::token::Token;
use antlr_rust::tree::*;
use antlr_rust::TidExt;
use std::cell::RefCell;
use std::rc::Rc;
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::*;

type Dyn = dyn PCtx<'static> + 'static;
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    /// every-rule callback came first: rule, start
    Enter(usize, isize),
    /// rule, start, children, stop
    Exit(usize, isize, usize, isize),
    Term(isize),
    Err(isize, isize),
}
type Log = Rc<RefCell<Vec<(u8, Ev)>>>;
struct L {
    id: u8,
    log: Log,
    every: Option<usize>,
    lr: Vec<bool>,
}
impl L {
    fn new(id: u8, log: &Log, g: &Gram) -> Box<L> {
        Box::new(L { id, log: log.clone(), every: None, lr: g.lr.clone() })
    }
    fn put(&self, e: Ev) {
        self.log.borrow_mut().push((self.id, e));
    }
}
impl ParseTreeListener<'static, PType> for L {
    fn visit_terminal(&mut self, n: &TerminalNode<'static, PType>) {
        self.put(Ev::Term(n.symbol.get_token_index()));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'static, PType>) {
        self.put(Ev::Err(n.symbol.get_token_index(), n.symbol.get_token_type()));
    }
    fn enter_every_rule(&mut self, c: &Dyn) {
        self.every = Some(c.get_rule_index());
    }
    fn exit_every_rule(&mut self, c: &Dyn) {
        check(self.every == Some(1000 + c.get_rule_index()), 1);
        self.every = None;
    }
}
impl PListener<'static> for L {
    fn enter_node(&mut self, c: &Node<'static>) {
        check(self.every == Some(c.rule), 2);
        self.every = None;
        self.put(Ev::Enter(c.rule, c.start().get_token_index()));
    }
    fn exit_node(&mut self, c: &Node<'static>) {
        self.every = Some(1000 + c.rule);
        // (the extent of a left-recursive rule is only final when the outermost one is left)
        let stop = if self.lr[c.rule] { -7 } else { c.stop().get_token_index() };
        self.put(Ev::Exit(c.rule, c.start().get_token_index(), c.get_child_count(), stop));
    }
}
/// what a walk over the finished tree has to report
fn events(n: &Dyn, lr: &[bool], parsing: bool, out: &mut Vec<Ev>) {
    if let Some(x) = n.downcast_ref::<TerminalNode<'static, PType>>() {
        return out.push(Ev::Term(x.symbol.get_token_index()));
    }
    if let Some(x) = n.downcast_ref::<ErrorNode<'static, PType>>() {
        let i = x.symbol.get_token_index();
        // made-up tokens are not announced while parsing
        if !(parsing && i == -1) {
            out.push(Ev::Err(i, x.symbol.get_token_type()));
        }
        return;
    }
    let r = n.get_rule_index();
    let start = n.start().get_token_index();
    let stop = if lr[r] { -7 } else { n.stop().get_token_index() };
    let kids: Vec<_> = n.get_children().collect();
    let mut from = 0;
    if parsing && lr[r] && !kids.is_empty() && kids[0].downcast_ref_rule() == Some(r) {
        // the left operand was complete before its parent was created
        events(&*kids[0], lr, parsing, out);
        from = 1;
    }
    out.push(Ev::Enter(r, start));
    for k in &kids[from..] {
        events(&**k, lr, parsing, out);
    }
    out.push(Ev::Exit(r, start, kids.len(), stop));
}
trait RuleOf {
    fn downcast_ref_rule(&self) -> Option<usize>;
}
impl RuleOf for Rc<Dyn> {
    fn downcast_ref_rule(&self) -> Option<usize> {
        (**self).downcast_ref::<Node<'static>>().map(|n| n.rule)
    }
}
fn take(log: &Log) -> Vec<(u8, Ev)> {
    std::mem::take(&mut *log.borrow_mut())
}
/// the same events in the order in which several listeners (in order of addition) receive them
fn interleave(ids: &[u8], v: &[Ev]) -> Vec<(u8, Ev)> {
    let mut r = vec![];
    for e in v {
        let back = matches!(e, Ev::Exit(..));
        for k in 0..ids.len() {
            r.push((ids[if back { ids.len() - 1 - k } else { k }], e.clone()));
        }
    }
    r
}
fn listen(rules: &[G], lr: &[usize], n: usize, max: i64) {
    let g = gram(rules, lr, max);
    let d = dfas(&g.atn);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let log: Log = Default::default();
    let mut p = P::new(&g, &d, stream(&t), Strat::new(), vec![]);
    p.log_decisions = false;
    p.base.add_parse_listener(L::new(1, &log, &g));
    p.base.add_parse_listener(L::new(2, &log, &g));
    let r: Rc<Dyn> = p.rule(0, 0).unwrap();
    let heard = take(&log);
    let mut want = vec![];
    events(&*r, &g.lr, true, &mut want);
    check(heard == interleave(&[1, 2], &want), 10);
    // the same for a walk over the finished tree
    let mut all = vec![];
    events(&*r, &g.lr, false, &mut all);
    let l = Walker::walk(L::new(5, &log, &g), &*r.clone().downcast_rc::<Node<'static>>().ok().unwrap());
    check(l.id == 5, 11);
    check(take(&log) == interleave(&[5], &all), 12);
    if !p.reports.borrow().is_empty() {
        cover(2);
    } else {
        cover(3);
    }
    cover(1);
}
/// listeners hear the same when no tree is built
fn no_tree(i: u64, n: usize) {
    let (rules, lr, max) = grams(i);
    let g = gram(&rules, &lr, max);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let mut heard = vec![];
    for build in [true, false] {
        let log: Log = Default::default();
        let mut p = P::new(&g, &dfas(&g.atn), stream(&t), Strat::new(), vec![]);
        p.log_decisions = false;
        p.base.build_parse_trees = build;
        p.base.add_parse_listener(L::new(1, &log, &g));
        p.rule(0, 0).unwrap();
        heard.push(take(&log).into_iter().map(|(i, e)| match e {
            Ev::Exit(r, a, _, b) => (i, Ev::Exit(r, a, 0, b)),
            e => (i, e),
        }).collect::<Vec<_>>());
    }
    check(heard[0] == heard[1], 20);
    let mut p = P::new(&g, &dfas(&g.atn), stream(&t), Strat::new(), vec![]);
    p.log_decisions = false;
    p.base.build_parse_trees = false;
    let r = p.rule(0, 0).unwrap();
    check(r.get_child_count() == 0, 21);
    cover(1);
}
/// adding and removing listeners, of types with and without data
macro_rules! quiet {
    ($($n:ident $k:expr;)*) => { $(
        struct $n;
        impl ParseTreeListener<'static, PType> for $n {
            fn visit_terminal(&mut self, _: &TerminalNode<'static, PType>) {
                HEARD.with(|h| h.borrow_mut().push($k));
            }
        }
        impl PListener<'static> for $n {}
        impl Id for $n { fn id(&self) -> u8 { $k } }
    )* };
}
trait Id {
    fn id(&self) -> u8;
}
thread_local! {
    static HEARD: RefCell<Vec<u8>> = RefCell::new(vec![]);
}
quiet! { A 1; B 2; C 3; }
struct D(u64);
impl ParseTreeListener<'static, PType> for D {
    fn visit_terminal(&mut self, _: &TerminalNode<'static, PType>) {
        HEARD.with(|h| h.borrow_mut().push(4));
        self.0 += 1;
    }
}
impl PListener<'static> for D {}
fn removal() {
    let g = gram(&[Seq(vec![tk(1), star(tk(2)), tk(-1)])], &[], 2);
    let d = dfas(&g.atn);
    let n = choose(3) as usize;
    let t: Vec<isize> = (0..n).map(|i| if i == 0 { 1 } else { 2 }).collect();
    let t = if n == 0 { vec![1] } else { t };
    let mut p = P::new(&g, &d, stream(&t), Strat::new(), vec![]);
    p.log_decisions = false;
    let mut order = vec![1, 2, 4, 3];
    let a = p.base.add_parse_listener(Box::new(A));
    let b = p.base.add_parse_listener(Box::new(B));
    let dd = p.base.add_parse_listener(Box::new(D(sym_u8() as u64)));
    let c = p.base.add_parse_listener(Box::new(C));
    let (x, y) = (choose(5), choose(5));
    let (mut a, mut b, mut c, mut dd) = (Some(a), Some(b), Some(c), Some(dd));
    for k in [x, y] {
        match k {
            0 => {
                if let Some(a) = a.take() {
                    check(p.base.remove_parse_listener(a).id() == 1, 30);
                    order.retain(|x| *x != 1);
                }
            }
            1 => {
                if let Some(b) = b.take() {
                    check(p.base.remove_parse_listener(b).id() == 2, 31);
                    order.retain(|x| *x != 2);
                }
            }
            2 => {
                if let Some(c) = c.take() {
                    check(p.base.remove_parse_listener(c).id() == 3, 32);
                    order.retain(|x| *x != 3);
                }
            }
            3 => {
                if let Some(d) = dd.take() {
                    check(p.base.remove_parse_listener(d).0 < 256, 33);
                    order.retain(|x| *x != 4);
                }
            }
            _ => {}
        }
    }
    let add = choose(2) == 1;
    if add {
        p.base.add_parse_listener(Box::new(A));
        order.push(1);
    }
    p.rule(0, 0).unwrap();
    let heard = HEARD.with(|h| h.take());
    let want: Vec<u8> = (0..t.len() + 1).flat_map(|_| order.clone()).collect();
    check(heard == want, 34);
    if let Some(d) = dd {
        // still there after the parse, with what it counted
        let before = p.base.remove_parse_listener(d).0;
        check(before >= t.len() as u64 + 1, 35);
    }
    p.base.remove_parse_listeners();
    cover(1);
}

// ---- visitors -----------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum V {
    Rule(usize),
    Term(isize),
    Err(isize),
}
/// records everything; does not go below rule `stop`
struct Pre {
    log: Vec<V>,
    stop: usize,
}
impl ParseTreeVisitor<'static, PType> for Pre {
    fn visit_terminal(&mut self, n: &TerminalNode<'static, PType>) {
        self.log.push(V::Term(n.symbol.get_token_index()));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'static, PType>) {
        self.log.push(V::Err(n.symbol.get_token_index()));
    }
}
impl PVisitor<'static> for Pre {
    fn visit_rule(&mut self, n: &Node<'static>) {
        self.log.push(V::Rule(n.rule));
        if n.rule != self.stop {
            self.visit_children(n)
        }
    }
}
fn preorder(t: &T, stop: usize, out: &mut Vec<V>) {
    match t {
        T::Rule(r, k) => {
            out.push(V::Rule(*r));
            if *r != stop {
                k.iter().for_each(|x| preorder(x, stop, out));
            }
        }
        T::Tok(i) => out.push(V::Term(*i)),
        T::Err(i, _) => out.push(V::Err(*i)),
    }
}
/// values: children are visited while the value so far is below `limit`, and folded if `fold`
struct Val {
    tmp: u64,
    limit: u64,
}
impl ParseTreeVisitorCompat<'static> for Val {
    type Node = PType;
    type Return = u64;
    fn temp_result(&mut self) -> &mut u64 {
        &mut self.tmp
    }
    fn visit_terminal(&mut self, n: &TerminalNode<'static, PType>) -> u64 {
        n.symbol.get_token_index() as u64 + 1
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'static, PType>) -> u64 {
        100
    }
    fn aggregate_results(&self, a: u64, b: u64) -> u64 {
        a.wrapping_mul(3).wrapping_add(b)
    }
    fn should_visit_next_child(&self, n: &Dyn, current: &u64) -> bool {
        *current < self.limit
    }
}
impl PVisitorCompat<'static> for Val {}
fn val(t: &T, limit: u64) -> u64 {
    match t {
        T::Rule(_, k) => {
            let mut v: u64 = 0;
            for x in k {
                if v >= limit {
                    break;
                }
                v = v.wrapping_mul(3).wrapping_add(val(x, limit));
            }
            v
        }
        T::Tok(i) => *i as u64 + 1,
        T::Err(..) => 100,
    }
}
/// everything left at its default except the leaves
struct Plain {
    tmp: isize,
    rules: Vec<usize>,
}
impl ParseTreeVisitorCompat<'static> for Plain {
    type Node = PType;
    type Return = isize;
    fn temp_result(&mut self) -> &mut isize {
        &mut self.tmp
    }
    fn visit_terminal(&mut self, n: &TerminalNode<'static, PType>) -> isize {
        n.symbol.get_token_index() + 1
    }
}
impl PVisitorCompat<'static> for Plain {
    fn visit_rule(&mut self, n: &Node<'static>) -> isize {
        self.rules.push(n.rule);
        ParseTreeVisitorCompat::visit_children(self, n)
    }
}
/// by default the result of the last child, error nodes and childless rules giving the default
fn last(t: &T) -> isize {
    match t {
        T::Rule(_, k) => k.iter().last().map(last).unwrap_or(0),
        T::Tok(i) => *i + 1,
        T::Err(..) => 0,
    }
}
fn visit(i: u64, n: usize) {
    let (rules, lr, max) = grams(i);
    let g = gram(&rules, &lr, max);
    let d = dfas(&g.atn);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let mut p = P::new(&g, &d, stream(&t), Strat::new(), vec![]);
    p.log_decisions = false;
    let r: Rc<Dyn> = p.rule(0, 0).unwrap();
    let t = tree(&*r);
    for stop in [99, 1, 0] {
        let mut v = Pre { log: vec![], stop };
        v.visit_node(&*r);
        let mut want = vec![];
        preorder(&t, stop, &mut want);
        check(v.log == want, 40);
    }
    for limit in [u64::MAX, 1, 4] {
        let mut v = Val { tmp: 77, limit };
        check(ParseTreeVisitorCompat::visit(&mut v, &*r) == val(&t, limit), 41);
        check(v.tmp == 0, 42);
        check(ParseTreeVisitorCompat::visit(&mut v, &*r) == val(&t, limit), 43);
    }
    let mut v = Plain { tmp: 0, rules: vec![] };
    check(ParseTreeVisitorCompat::visit(&mut v, &*r) == last(&t), 44);
    let mut pre = vec![];
    preorder(&t, 99, &mut pre);
    let want: Vec<usize> = pre.iter().filter_map(|x| if let V::Rule(r) = x { Some(*r) } else { None }).collect();
    check(v.rules == want, 45);
    // children only
    let mut v = Pre { log: vec![], stop: 99 };
    r.accept_children(&mut v);
    check(v.log == pre[1..], 46);
    cover(1);
}
fn k(i: u64, n: usize) {
    let (r, lr, max) = grams(i);
    listen(&r, &lr, n, max);
}
macro_rules! grams_ {
    ($($f:ident $k:expr, $n:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { k($k, $n); })* }
}
grams_! {
    h_g0 0, 7; h_g1 1, 7; h_g2 2, 5; h_g3 3, 7; h_g4 4, 6; h_g5 5, 6; h_g6 6, 6; h_g7 7, 6; h_g8 8, 6; h_g9 9, 7; h_g10 10, 5; h_g11 11, 6;
}
#[no_mangle]
pub extern "C" fn h_family() {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    listen(&r, &lr, 2, max);
}
#[no_mangle]
pub extern "C" fn h_family3() {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    listen(&r, &lr, 3, max);
}
#[no_mangle]
pub extern "C" fn h_no_tree() {
    no_tree(choose(12), 4);
}
#[no_mangle]
pub extern "C" fn h_removal() {
    removal();
}
#[no_mangle]
pub extern "C" fn h_visit() {
    visit(choose(12), 5);
}
#[no_mangle]
pub extern "C" fn h_deep() {
    k(choose(12), 8);
}
#[no_mangle]
pub extern "C" fn h_visit7() {
    visit(choose(12), 7);
}
harnesses! {h_g0, h_g1, h_g2, h_g3, h_g4, h_g5, h_g6, h_g7, h_g8, h_g9, h_g10, h_g11, h_family, h_family3, h_no_tree, h_removal, h_visit, h_deep, h_visit7}
