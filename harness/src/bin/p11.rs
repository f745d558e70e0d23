//! P11: the parse tree's own account of itself: parents, children, texts, intervals, printing, typed access.
#![allow(warnings)]
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::parser::Parser;
use antlr_rust::parser_rule_context::*;
use antlr_rust::rule_context::*;
use antlr_rust::token::Token;
use antlr_rust::token_factory::CommonTokenFactory;
use antlr_rust::token_stream::*;
use antlr_rust::tree::*;
use antlr_rust::{TidAble, TidExt};
use std::rc::Rc;
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::tok::VecSource;
use vpharness::*;

type N_ = Node<'static>;
type Dyn = dyn PCtx<'static> + 'static;
fn escape(s: &str) -> String {
    s.replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r")
}
struct Walk<'a> {
    /// token indices of the visible tokens, then the index of end-of-file
    index: &'a [isize],
    texts: fn(usize) -> &'static str,
    /// number of real tokens (leaves of the tree) passed so far
    seen: usize,
    /// end-of-file was matched
    eof: bool,
    /// no error node right before end-of-file
    last_ok: bool,
    n: isize,
    types: &'a [isize],
    lr: &'a [bool],
}
/// a node's address, whatever the type it is seen through
fn addr(n: &Rc<Dyn>) -> *const u8 {
    Rc::as_ptr(n) as *const u8
}
impl<'a> Walk<'a> {
    fn text_of(&self, i: isize) -> String {
        if i == self.n {
            "<EOF>".to_string()
        } else {
            (self.texts)(i as usize).to_string()
        }
    }
    /// returns text, printed form
    fn leaf(&mut self, n: &Rc<Dyn>) -> (String, String) {
        check(n.get_child_count() == 0, 1);
        check(n.get_child(0).is_none(), 2);
        check(n.get_children().next().is_none(), 2);
        let (tok, made) = if let Some(x) = (**n).downcast_ref::<TerminalNode<'static, PType>>() {
            check((**n).downcast_ref::<ErrorNode<'static, PType>>().is_none(), 3);
            (x.symbol.clone(), false)
        } else if let Some(x) = (**n).downcast_ref::<ErrorNode<'static, PType>>() {
            cover(3);
            (x.symbol.clone(), x.symbol.get_token_index() == -1)
        } else {
            check(false, 3);
            unreachable!()
        };
        let i = tok.get_token_index();
        let text = if made {
            cover(4);
            check(tok.get_text().starts_with("<missing "), 4);
            tok.get_text().to_string()
        } else {
            check(i == self.index[self.seen], 5);
            if i == self.n {
                // (giving up at end-of-file makes an error node of it)
                self.eof |= (**n).downcast_ref::<ErrorNode<'static, PType>>().is_none();
            } else {
                self.seen += 1;
                self.last_ok = (**n).downcast_ref::<ErrorNode<'static, PType>>().is_none();
                check(tok.get_token_type() == self.types[i as usize], 6);
            }
            self.text_of(i)
        };
        check(n.get_text() == text, 7);
        let iv = n.get_source_interval();
        check((iv.a == i) & (iv.b == i), 8);
        let e = escape(&text);
        (text, e)
    }
    fn rule(&mut self, n: &Rc<Dyn>, parent: Option<&Rc<Dyn>>, above: &str) -> (String, String) {
        let node = n.clone().downcast_rc::<N_>().ok().expect("rule node");
        // upwards
        check(n.has_parent() == parent.is_some(), 10);
        match (parent, n.get_parent()) {
            (None, None) => {}
            (Some(a), Some(b)) => check(addr(a) == addr(&b), 11),
            _ => check(false, 12),
        }
        check(n.get_parent_ctx().map(|x| addr(&x)) == n.get_parent().map(|x| addr(&x)), 13);
        check(n.is_empty() == parent.is_none(), 14);
        let name = RULES[n.get_rule_index()];
        check(node.rule == n.get_rule_index(), 15);
        let chain = if above.is_empty() { name.to_string() } else { format!("{} {}", name, above) };
        check(RuleContextExt::to_string(&node, Some(&RULES), None) == format!("[{}]", chain), 16);
        // its children, through every accessor
        let kids: Vec<Rc<Dyn>> = n.get_children().collect();
        check(kids.len() == n.get_child_count(), 20);
        for (i, k) in kids.iter().enumerate() {
            check(n.get_child(i).map(|x| addr(&x)) == Some(addr(k)), 21);
        }
        check(n.get_child(kids.len()).is_none() & n.get_child(usize::MAX).is_none(), 22);
        let is_leaf = |k: &Rc<Dyn>| (**k).downcast_ref::<N_>().is_none();
        let rules: Vec<_> = kids.iter().filter(|k| !is_leaf(*k)).map(addr).collect();
        let terms: Vec<_> = kids.iter().filter(|k| (***k).downcast_ref::<TerminalNode<'static, PType>>().is_some()).map(addr).collect();
        let errs: Vec<_> = kids.iter().filter(|k| (***k).downcast_ref::<ErrorNode<'static, PType>>().is_some()).map(addr).collect();
        check(rules.len() + terms.len() + errs.len() == kids.len(), 23);
        check(node.children_of_type::<N_>().iter().map(|x| Rc::as_ptr(x) as *const u8).collect::<Vec<_>>() == rules, 24);
        check(node.children_of_type::<TerminalNode<'static, PType>>().iter().map(|x| Rc::as_ptr(x) as *const u8).collect::<Vec<_>>() == terms, 25);
        check(node.children_of_type::<ErrorNode<'static, PType>>().iter().map(|x| Rc::as_ptr(x) as *const u8).collect::<Vec<_>>() == errs, 26);
        for k in 0..=kids.len() {
            check(node.child_of_type::<N_>(k).map(|x| Rc::as_ptr(&x) as *const u8) == rules.get(k).cloned(), 27);
            check(node.child_of_type::<TerminalNode<'static, PType>>(k).map(|x| Rc::as_ptr(&x) as *const u8) == terms.get(k).cloned(), 28);
            check(node.child_of_type::<ErrorNode<'static, PType>>(k).map(|x| Rc::as_ptr(&x) as *const u8) == errs.get(k).cloned(), 28);
        }
        // downwards
        let first = self.seen;
        let lr = node.alt >= 100 || self.lr[node.rule];
        check(n.get_alt_number() == if lr { 0 } else { node.alt }, 17);
        let shown = if n.get_alt_number() == 0 { name.to_string() } else { format!("{}#{}", name, n.get_alt_number()) };
        let (mut text, mut lisp) = (String::new(), escape(&shown));
        if !kids.is_empty() {
            lisp = format!("({}", lisp);
        }
        for k in &kids {
            let (t, l) = if is_leaf(k) { self.leaf(k) } else { self.rule(k, Some(n), &chain) };
            text.push_str(&t);
            lisp.push(' ');
            lisp.push_str(&l);
        }
        if !kids.is_empty() {
            lisp.push(')');
        }
        check(n.get_text() == text, 30);
        check(antlr_rust::trees::string_tree(&**n, &RULES) == lisp, 31);
        // extent: the tokens the rule found, and the last one it took
        let a = self.index[first];
        let last = if self.seen == 0 { -1 } else { self.index[self.seen - 1] };
        // (end-of-file found by dropping the token before it does not count as taken)
        let b = if self.eof && (self.last_ok || n.stop().get_token_index() != last) { self.n } else { last };
        check(n.start().get_token_index() == a, 32);
        check(n.stop().get_token_index() == b, 33);
        let iv = n.get_source_interval();
        check((iv.a == a) & (iv.b == b), 34);
        (text, lisp)
    }
}
fn judge<I: TokenStream<'static, TF = CommonTokenFactory> + TidAble<'static>>(g: &Gram, input: I, t: &[isize], index: Vec<isize>, texts: fn(usize) -> &'static str) {
    let d = dfas(&g.atn);
    let mut p = P::new(&g, &d, input, Strat::new(), vec![]);
    p.log_decisions = false;
    p.watch = true;
    let r = p.rule(0, 0).unwrap();
    check(p.base.ctx.is_none(), 40);
    check(p.base.get_state() == -1, 41);
    let r: Rc<Dyn> = r;
    let mut w = Walk { index: &index, texts, seen: 0, eof: false, last_ok: true, n: t.len() as isize, types: t, lr: &g.lr };
    let (_, lisp) = w.rule(&r, None, "");
    check(r.to_string_tree(&p.base) == lisp, 42);
    cover(1);
}
fn go(rules: &[G], lr: &[usize], n: usize, max: i64) {
    let g = gram(rules, lr, max);
    let d = dfas(&g.atn);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    judge(&g, stream(&t), &t, (0..=n as isize).collect(), tok::text);
}
fn k(i: u64, n: usize) {
    let (r, lr, max) = grams(i);
    go(&r, &lr, n, max);
}
/// labelled alternatives: the label is the alternative taken, the tree is the same
fn labels(i: u64, n: usize) {
    let (rules, lr, max) = grams(i);
    let g = gram(&rules, &lr, max);
    let d = dfas(&g.atn);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let mut p = P::new(&g, &d, stream(&t), Bail::new(), vec![]);
    p.log_decisions = false;
    p.labels = true;
    if let Ok(r) = p.rule(0, 0) {
        let r: Rc<Dyn> = r;
        let mut w = Walk { index: &(0..=n as isize).collect::<Vec<_>>(), texts: tok::text, seen: 0, eof: false, last_ok: true, n: n as isize, types: &t, lr: &g.lr };
        w.rule(&r, None, "");
        let t = fix_types(&t);
        let l = Lang::new(&g, &t);
        check(l.accepts(0), 50);
        let (want, alts) = RefParse::labelled(&l, 0);
        check(tree(&*r) == want, 51);
        let mut got = vec![];
        fn collect(n: &Dyn, out: &mut Vec<isize>) {
            if let Some(x) = n.downcast_ref::<N_>() {
                out.push(x.alt);
                n.get_children().for_each(|c| collect(&*c, out));
            }
        }
        collect(&*r, &mut got);
        check(got == alts, 52);
        cover(1);
    }
}
/// tokens by type
fn tokens(i: u64, n: usize) {
    let (rules, lr, max) = grams(i);
    let g = gram(&rules, &lr, max);
    let d = dfas(&g.atn);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let mut p = P::new(&g, &d, stream(&t), Strat::new(), vec![]);
    p.log_decisions = false;
    let r = p.rule(0, 0).unwrap();
    fn walk(n: &Rc<Dyn>, max: isize) {
        if (**n).downcast_ref::<N_>().is_none() {
            check(n.get_tokens(1).is_empty() & n.get_token(1, 0).is_none(), 60);
            return;
        }
        let kids: Vec<_> = n.get_children().filter_map(|k| k.downcast_rc::<TerminalNode<'static, PType>>().ok()).collect();
        let mut total = 0;
        for ty in -1..=max {
            let want: Vec<_> = kids.iter().filter(|x| x.symbol.get_token_type() == ty).map(Rc::as_ptr).collect();
            let got: Vec<_> = n.get_tokens(ty).iter().map(Rc::as_ptr).collect();
            check(got == want, 61);
            for k in 0..=want.len() {
                check(n.get_token(ty, k).map(|x| Rc::as_ptr(&x)) == want.get(k).cloned(), 62);
            }
            total += want.len();
        }
        check(total == kids.len(), 63);
        if total > 0 {
            cover(1);
        }
        n.get_children().for_each(|k| walk(&k, max));
    }
    let r: Rc<Dyn> = r;
    walk(&r, max as isize);
}
fn hidden(i: u64, n: usize) {
    let (rules, lr, max) = grams(i);
    let g = gram(&rules, &lr, max);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let ch: Vec<isize> = (0..n).map(|_| choose(2) as isize).collect();
    let mut src = VecSource::new((0..n).map(|i| (t[i], ch[i])).collect());
    src.text = tok::text_ws;
    let mut index: Vec<isize> = (0..n).filter(|i| ch[*i] == 0).map(|i| i as isize).collect();
    index.push(n as isize);
    judge(&g, CommonTokenStream::new(src), &t, index, tok::text_ws);
}
fn unbuffered(i: u64, n: usize) {
    let (rules, lr, max) = grams(i);
    let g = gram(&rules, &lr, max);
    let n = choose(n as u64 + 1) as usize;
    let t = sym_types(n, max);
    let src = VecSource::new((0..n).map(|i| (t[i], 0)).collect());
    judge(&g, UnbufferedTokenStream::new_unbuffered(src), &t, (0..=n as isize).collect(), tok::text);
}
macro_rules! grams_ {
    ($($f:ident $k:expr, $n:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { k($k, $n); })* }
}
grams_! {
    h_g0 0, 7; h_g1 1, 7; h_g2 2, 5; h_g3 3, 7; h_g4 4, 6; h_g5 5, 6; h_g6 6, 6; h_g7 7, 6; h_g8 8, 6; h_g9 9, 7; h_g10 10, 5; h_g11 11, 6;
}
#[no_mangle]
pub extern "C" fn h_family() {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    go(&r, &lr, 2, max);
}
#[no_mangle]
pub extern "C" fn h_hidden() {
    hidden(choose(12), 4);
}
#[no_mangle]
pub extern "C" fn h_unbuffered() {
    unbuffered(choose(12), 4);
}
#[no_mangle]
pub extern "C" fn h_labels() {
    labels(choose(12), 6);
}
#[no_mangle]
pub extern "C" fn h_labels_lr() {
    labels(7, 8);
}
#[no_mangle]
pub extern "C" fn h_tokens() {
    tokens(choose(12), 4);
}
#[no_mangle]
pub extern "C" fn h_deep() {
    k(choose(12), 8);
}
#[no_mangle]
pub extern "C" fn h_family3() {
    let (r, lr, max) = family(choose(SHAPES), choose(SHAPES), choose(LEAVES));
    go(&r, &lr, 3, max);
}
harnesses! {h_g0, h_g1, h_g2, h_g3, h_g4, h_g5, h_g6, h_g7, h_g8, h_g9, h_g10, h_g11, h_family, h_hidden, h_unbuffered, h_labels, h_labels_lr, h_tokens, h_deep, h_family3}
