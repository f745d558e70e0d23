//! Running a parser for a `gram` grammar the way generated code would, and an independent account
//! of what it should do.
use crate::gram::*;
use crate::tok::*;
use crate::*;
use antlr_rust::atn::{ATN, INVALID_ALT};
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::atn_config_set::ATNConfigSet;
use antlr_rust::dfa::DFA;
use bit_set::BitSet;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::error_strategy::*;
use antlr_rust::errors::*;
pub use antlr_rust::int_stream::IntStream;
use antlr_rust::parser::*;
use antlr_rust::parser_atn_simulator::ParserATNSimulator;
use antlr_rust::parser_rule_context::*;
use antlr_rust::recognizer::*;
use antlr_rust::rule_context::*;
use antlr_rust::token::*;
use antlr_rust::token_factory::*;
use antlr_rust::token_stream::*;
use antlr_rust::tree::*;
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use antlr_rust::{PredictionContextCache, RwLock, TidAble, TidExt, TokenSource};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

// ---- what the generator would emit for every grammar ------------------------------------------
pub trait PListener<'i>: ParseTreeListener<'i, PType> {
    fn enter_node(&mut self, _ctx: &Node<'i>) {}
    fn exit_node(&mut self, _ctx: &Node<'i>) {}
}
antlr_rust::coerce_from! { 'i : PListener<'i> }
pub trait PVisitor<'i>: ParseTreeVisitor<'i, PType> {
    fn visit_rule(&mut self, ctx: &Node<'i>) {
        self.visit_children(ctx)
    }
}
pub trait PVisitorCompat<'i>: ParseTreeVisitorCompat<'i, Node = PType> {
    fn visit_rule(&mut self, ctx: &Node<'i>) -> Self::Return {
        self.visit_children(ctx)
    }
}
impl<'i, T: PVisitorCompat<'i>> PVisitor<'i> for T {
    fn visit_rule(&mut self, ctx: &Node<'i>) {
        let result = <Self as PVisitorCompat>::visit_rule(self, ctx);
        *<Self as ParseTreeVisitorCompat>::temp_result(self) = result;
    }
}
impl<'i, 'x, T: PVisitor<'i> + 'x> VisitableDyn<T> for dyn PCtx<'i> + 'i {
    fn accept_dyn(&self, visitor: &mut T) {
        self.accept(visitor as &mut (dyn PVisitor<'i> + 'x))
    }
}
impl<'i, 'a> Visitable<dyn PVisitor<'i> + 'a> for Node<'i> {
    fn accept(&self, v: &mut (dyn PVisitor<'i> + 'a)) {
        v.visit_rule(self)
    }
}
pub type Walker<'i, 'a> = ParseTreeWalker<'i, 'a, PType, dyn PListener<'i> + 'a>;
pub trait PCtx<'i>: for<'x> Listenable<dyn PListener<'i> + 'x> + for<'x> Visitable<dyn PVisitor<'i> + 'x> + ParserRuleContext<'i, TF = CommonTokenFactory, Ctx = PType> {}
antlr_rust::coerce_from! { 'i : PCtx<'i> }
impl<'i> PCtx<'i> for TerminalNode<'i, PType> {}
impl<'i> PCtx<'i> for ErrorNode<'i, PType> {}
antlr_rust::tid! { impl<'i> TidAble<'i> for dyn PCtx<'i> + 'i }
antlr_rust::tid! { impl<'i> TidAble<'i> for dyn PListener<'i> + 'i }
pub struct PType;
antlr_rust::tid! {PType}
impl<'i> ParserNodeType<'i> for PType {
    type TF = CommonTokenFactory;
    type Type = dyn PCtx<'i> + 'i;
}
pub struct NodeExt<'i> {
    pub rule: usize,
    /// label of the alternative (when the grammar is taken as having labelled alternatives), else 0
    pub alt: isize,
    /// what the parser said the alternative is
    pub num: Cell<isize>,
    ph: PhantomData<&'i str>,
}
antlr_rust::tid! {NodeExt<'a>}
impl<'i> CustomRuleContext<'i> for NodeExt<'i> {
    type TF = CommonTokenFactory;
    type Ctx = PType;
    fn get_rule_index(&self) -> usize {
        self.rule
    }
    fn get_alt_number(&self) -> isize {
        self.num.get()
    }
    fn set_alt_number(&self, n: isize) {
        self.num.set(n)
    }
    fn get_node_text(&self, names: &[&str]) -> String {
        if self.num.get() == 0 { names[self.rule].to_string() } else { format!("{}#{}", names[self.rule], self.num.get()) }
    }
}
pub type Node<'i> = BaseParserRuleContext<'i, NodeExt<'i>>;
impl<'i> PCtx<'i> for Node<'i> {}
impl<'i, 'a> Listenable<dyn PListener<'i> + 'a> for Node<'i> {
    fn enter(&self, l: &mut (dyn PListener<'i> + 'a)) {
        l.enter_every_rule(self);
        l.enter_node(self);
    }
    fn exit(&self, l: &mut (dyn PListener<'i> + 'a)) {
        l.exit_node(self);
        l.exit_every_rule(self);
    }
}
fn new_node<'i>(parent: Option<Rc<dyn PCtx<'i> + 'i>>, state: isize, rule: usize) -> Rc<Node<'i>> {
    Rc::new(BaseParserRuleContext::new_parser_ctx(parent, state, NodeExt { rule, alt: 0, num: Cell::new(0), ph: PhantomData }))
}
fn relabel<'i>(n: &Node<'i>, rule: usize, alt: isize) -> Rc<Node<'i>> {
    Rc::new(BaseParserRuleContext::copy_from(n, NodeExt { rule, alt, num: Cell::new(0), ph: PhantomData }))
}
pub const RULES: [&str; 8] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7"];
/// token 1 has a literal name, tokens 2.. have symbolic names only
pub const LITERAL: [Option<&str>; 3] = [None, Some("'one'"), None];
pub const SYMBOLIC: [Option<&str>; 7] = [None, None, Some("TWO"), Some("THREE"), Some("FOUR"), Some("FIVE"), Some("SIX")];
pub fn vocabulary() -> VocabularyImpl {
    VocabularyImpl::new(LITERAL.iter(), SYMBOLIC.iter(), None)
}
pub struct Ext<'i> {
    voc: VocabularyImpl,
    /// value of predicate k
    pub preds: Vec<bool>,
    /// 0, or: value of predicate k at position i is number k * stride + i
    pub stride: usize,
    /// rule of each predicate (if given)
    pub owners: Vec<usize>,
    /// predicate evaluations: index, token position
    pub asked: Rc<RefCell<Vec<(isize, isize)>>>,
    ph: PhantomData<&'i str>,
}
antlr_rust::tid! { Ext<'a> }
impl<'i> TokenAware<'i> for Ext<'i> {
    type TF = CommonTokenFactory;
}
pub type Base<'i, I> = BaseParser<'i, Ext<'i>, I, PType, dyn PListener<'i> + 'i>;
impl<'i, I: TokenStream<'i, TF = CommonTokenFactory> + TidAble<'i>> ParserRecog<'i, Base<'i, I>> for Ext<'i> {}
impl<'i, I: TokenStream<'i, TF = CommonTokenFactory> + TidAble<'i>> Actions<'i, Base<'i, I>> for Ext<'i> {
    fn get_grammar_file_name(&self) -> &str {
        "G.g4"
    }
    fn get_rule_names(&self) -> &[&str] {
        &RULES
    }
    fn get_vocabulary(&self) -> &dyn Vocabulary {
        &self.voc
    }
    fn sempred(_: Option<&(dyn PCtx<'i> + 'i)>, rule: isize, k: isize, recog: &mut Base<'i, I>) -> bool {
        if let Some(r) = recog.owners.get(k as usize) {
            check(*r as isize == rule, 921);
        }
        let at = recog.input.index();
        recog.asked.borrow_mut().push((k, at));
        if recog.stride == 0 { recog.preds[k as usize] } else { recog.preds[k as usize * recog.stride + at as usize] }
    }
}

// ---- grammars ---------------------------------------------------------------------------------
/// set of token types: bit t+1, and EPS
pub type Set = u32;
pub const EPS: Set = 1 << 31;
pub fn bit(t: isize) -> Set {
    1 << (t + 1)
}
pub struct Gram {
    pub rules: Vec<N>,
    pub starts: Vec<isize>,
    pub lr: Vec<bool>,
    pub atn: Arc<ATN>,
    pub max: i64,
    /// FIRST sets of the rules
    pub first: Vec<Set>,
    /// lookahead sets of every decision's alternatives (loops, options: of the body)
    pub ll1: BTreeMap<usize, Vec<Set>>,
    /// can every decision be taken on one token of lookahead?
    pub is_ll1: bool,
    /// what can follow each rule, wherever it is used
    pub follow: Vec<Set>,
}
pub fn gram(rules: &[G], lr: &[usize], max_type: i64) -> Rc<Gram> {
    let mut b = Builder::new(false, max_type);
    b.define_rules(rules.len(), &[], lr);
    let ns = rules.iter().enumerate().map(|(i, g)| b.rule(i, g)).collect();
    let atn = crate::lex::atn(&b);
    let mut g = Gram {
        rules: ns,
        starts: b.rules.iter().map(|r| r.0 as isize).collect(),
        lr: (0..rules.len()).map(|i| lr.contains(&i)).collect(),
        atn,
        max: max_type,
        first: vec![0; rules.len()],
        ll1: BTreeMap::new(),
        is_ll1: true,
        follow: vec![],
    };
    crate::rec::analyse(&mut g);
    Rc::new(g)
}

/// one decision taken by the parser
#[derive(Clone)]
pub struct Taken<'g> {
    /// position of the next token
    pub at: usize,
    /// alternative chosen
    pub alt: isize,
    /// the alternatives, in order, each as what follows up to the end of the decision's element
    pub alts: Vec<Vec<(&'g N, i64)>>,
    /// what must follow after the element, innermost first
    pub rest: Vec<(&'g N, i64)>,
}
/// what a prediction told the error listeners
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    /// 0: full context is attempted, 1: ambiguity, 2: context sensitivity
    pub kind: u8,
    pub decision: isize,
    pub start: isize,
    pub stop: isize,
    pub exact: bool,
    pub alts: Vec<usize>,
    pub prediction: isize,
}
pub type Evs = Rc<RefCell<Vec<Ev>>>;
/// records them
pub struct Diag(pub Evs);
impl<'i, I: TokenStream<'i, TF = CommonTokenFactory> + TidAble<'i>> ErrorListener<'i, Base<'i, I>> for Diag {
    fn report_ambiguity(&self, _: &Base<'i, I>, dfa: &DFA, start: isize, stop: isize, exact: bool, alts: &BitSet, _: &ATNConfigSet) {
        self.0.borrow_mut().push(Ev { kind: 1, decision: dfa.decision, start, stop, exact, alts: alts.iter().collect(), prediction: 0 });
    }
    fn report_attempting_full_context(&self, _: &Base<'i, I>, dfa: &DFA, start: isize, stop: isize, alts: &BitSet, _: &ATNConfigSet) {
        self.0.borrow_mut().push(Ev { kind: 0, decision: dfa.decision, start, stop, exact: false, alts: alts.iter().collect(), prediction: 0 });
    }
    fn report_context_sensitivity(&self, _: &Base<'i, I>, dfa: &DFA, start: isize, stop: isize, prediction: isize, _: &ATNConfigSet) {
        self.0.borrow_mut().push(Ev { kind: 2, decision: dfa.decision, start, stop, exact: false, alts: vec![], prediction });
    }
}
/// one call of the predictor: decision, position, result (0: none), events before and after, place
/// in `taken` (or usize::MAX)
#[derive(Clone, Debug, PartialEq)]
pub struct Predicted {
    pub decision: isize,
    pub at: isize,
    pub alt: isize,
    pub evs: (usize, usize),
    pub taken: usize,
    /// precedence of the rule the decision is in
    pub prec: isize,
}
/// a prediction that failed: its position and, for each alternative, everything up to the end of the
/// rule the decision is in
pub struct Failed<'g> {
    pub at: usize,
    pub bad: usize,
    pub paths: Vec<Vec<(&'g N, i64)>>,
    /// full context was attempted
    pub full: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Report {
    /// index of the offending token
    pub token: isize,
    pub line: isize,
    pub column: isize,
    pub msg: String,
    /// position of the parser when it was reported
    pub at: isize,
    /// errors: 0 none given, 1 no viable alternative, 2 mismatch, 3 predicate, 4 other
    pub kind: u8,
}
pub type Reports = Rc<RefCell<Vec<Report>>>;
pub struct PRec(pub Reports);
impl<'i, I: TokenStream<'i, TF = CommonTokenFactory> + TidAble<'i>> ErrorListener<'i, Base<'i, I>> for PRec {
    fn syntax_error(&self, r: &Base<'i, I>, t: Option<&CommonToken<'i>>, line: isize, column: isize, msg: &str, e: Option<&ANTLRError>) {
        let kind = match e {
            None => 0,
            Some(ANTLRError::NoAltError(_)) => 1,
            Some(ANTLRError::InputMismatchError(_)) => 2,
            Some(ANTLRError::PredicateError(_)) => 3,
            _ => 4,
        };
        self.0.borrow_mut().push(Report { token: t.map(|t| t.get_token_index()).unwrap_or(-9), line, column, msg: msg.to_string(), at: r.input.index(), kind });
    }
}
pub struct P<'g, 'i, I: TokenStream<'i, TF = CommonTokenFactory> + TidAble<'i>, H> {
    pub base: Base<'i, I>,
    pub interp: Arc<ParserATNSimulator>,
    pub h: H,
    pub g: &'g Gram,
    pub reports: Reports,
    pub taken: Vec<Taken<'g>>,
    pub log_decisions: bool,
    /// every alternative of a rule has a label
    pub labels: bool,
    /// decide by one token of lookahead, as generated for LL(1) decisions
    pub ll1: bool,
    /// compare the parser's own idea of where it is with the calls made so far
    pub watch: bool,
    /// compare the tokens the parser expects with those that can come next
    pub expect: bool,
    /// filled by a `Diag` listener
    pub evs: Evs,
    pub predicted: Vec<Predicted>,
    pub failed: Vec<Failed<'g>>,
    calls: Vec<usize>,
    /// length of `rest` at the start of each rule being parsed
    depths: Vec<usize>,
    rest: Vec<(&'g N, i64)>,
}
pub type Stream = CommonTokenStream<'static, VecSource>;
pub type Strat<'i> = DefaultErrorStrategy<'i, PType>;
pub type Bail<'i> = BailErrorStrategy<'i, PType>;
pub type Dfas = Arc<Vec<RwLock<DFA>>>;
pub fn stream(types: &[isize]) -> Stream {
    CommonTokenStream::new(VecSource::new(types.iter().map(|t| (*t, 0)).collect()))
}
/// n symbolic token types in 1..=max
pub fn sym_types(n: usize, max: i64) -> Vec<isize> {
    (0..n).map(|_| sym_in(4, 1, max) as isize).collect()
}
impl<'g, 'i, I: TokenStream<'i, TF = CommonTokenFactory> + TidAble<'i>, H: ErrorStrategy<'i, Base<'i, I>>> P<'g, 'i, I, H> {
    pub fn new(g: &'g Gram, dfas: &Dfas, input: I, h: H, preds: Vec<bool>) -> Self {
        Self::with_cache(g, dfas, &Arc::new(PredictionContextCache::new()), input, h, preds)
    }
    pub fn with_cache(g: &'g Gram, dfas: &Dfas, cache: &Arc<PredictionContextCache>, input: I, h: H, preds: Vec<bool>) -> Self {
        let interp = Arc::new(ParserATNSimulator::new(g.atn.clone(), dfas.clone(), cache.clone()));
        let ext = Ext { voc: vocabulary(), preds, stride: 0, owners: vec![], asked: Rc::new(RefCell::new(vec![])), ph: PhantomData };
        let mut base = BaseParser::new_base_parser(input, interp.clone(), ext);
        base.remove_error_listeners();
        let reports: Reports = Rc::new(RefCell::new(vec![]));
        base.add_error_listener(Box::new(PRec(reports.clone())));
        P { base, interp, h, g, reports, taken: vec![], log_decisions: true, labels: false, ll1: false, watch: false, expect: false, evs: Default::default(), predicted: vec![], failed: vec![], calls: vec![], depths: vec![], rest: vec![] }
    }
    fn predict(&mut self, decision: isize, alts: Vec<Vec<(&'g N, i64)>>) -> Result<isize, ANTLRError> {
        let at = self.base.input.index();
        let asked = self.base.asked.clone();
        let before = asked.borrow().len();
        let from = self.evs.borrow().len();
        let prec = self.base.get_precedence();
        let alt = self.interp.adaptive_predict(decision, &mut self.base);
        let to = self.evs.borrow().len();
        let (a, k) = match &alt {
            Ok(a) => (*a, self.taken.len()),
            _ => (0, usize::MAX),
        };
        self.predicted.push(Predicted { decision, at, alt: a, evs: (from, to), taken: k, prec });
        // predicates are evaluated at the start of the decision
        check(asked.borrow()[before..].iter().fold(true, |a, x| a & (x.1 == at)), 920);
        if let Err(ANTLRError::NoAltError(e)) = &alt {
            let rest = &self.rest[*self.depths.last().unwrap()..];
            let paths = alts.iter().map(|a| a.iter().chain(rest.iter().rev()).cloned().collect()).collect();
            let bad = e.base.offending_token.get_token_index() as usize;
            self.failed.push(Failed { at: at as usize, bad, paths, full: to > from });
        }
        let alt = alt?;
        if self.log_decisions {
            let rest = self.rest.iter().rev().cloned().collect();
            self.taken.push(Taken { at: at as usize, alt, alts, rest });
        }
        Ok(alt)
    }
    fn no_viable(&mut self) -> ANTLRError {
        ANTLRError::NoAltError(NoViableAltError::new(&mut self.base))
    }
    /// the method generated for rule r (or for the left-recursive rule r, called with precedence p)
    pub fn rule(&mut self, r: usize, p: i64) -> Result<Rc<Node<'i>>, ANTLRError> {
        let depth = self.rest.len();
        self.calls.push(r);
        self.depths.push(depth);
        let res = if self.g.lr[r] { self.rec_rule(r, p) } else { self.plain_rule(r, p) };
        self.calls.pop();
        self.depths.pop();
        self.rest.truncate(depth);
        res
    }
    fn handle(&mut self, result: Result<(), ANTLRError>) -> Result<(), ANTLRError> {
        match result {
            Ok(_) => Ok(()),
            Err(e @ ANTLRError::FallThrough(_)) => Err(e),
            Err(ref re) => {
                self.h.report_error(&mut self.base, re);
                self.h.recover(&mut self.base, re)
            }
        }
    }
    fn plain_rule(&mut self, r: usize, p: i64) -> Result<Rc<Node<'i>>, ANTLRError> {
        let g = self.g;
        let parent = self.base.ctx.take();
        let mut local = new_node(parent.clone(), self.base.get_state(), r);
        self.base.enter_rule(local.clone(), g.starts[r], r);
        let result = self.plain_body(r, p, &mut local);
        self.handle(result)?;
        self.base.exit_rule();
        Ok(local)
    }
    fn plain_body(&mut self, r: usize, p: i64, local: &mut Rc<Node<'i>>) -> Result<(), ANTLRError> {
        let g = self.g;
        match &g.rules[r] {
            n @ N::Alt { state, alts, .. } => {
                self.base.set_state(*state);
                self.expecting(n, false);
                self.h.sync(&mut self.base)?;
                let k = self.pick_alt(n, p)?;
                let mut new = None;
                if self.labels {
                    *local = relabel(local, r, k);
                    new = Some(local.clone() as Rc<dyn PCtx<'i> + 'i>);
                }
                self.base.enter_outer_alt(new, k);
                self.el(&alts[k as usize - 1], p)
            }
            n => {
                let mut new = None;
                if self.labels {
                    *local = relabel(local, r, 1);
                    new = Some(local.clone() as Rc<dyn PCtx<'i> + 'i>);
                }
                self.base.enter_outer_alt(new, 1);
                self.el(n, p)
            }
        }
    }
    fn pick_alt(&mut self, n: &'g N, p: i64) -> Result<isize, ANTLRError> {
        if let N::Alt { decision, alts, .. } = n {
            if self.ll1 {
                let la = bit(self.base.input.la(1));
                return match (0..alts.len()).find(|k| self.g.ll1[&id(n)][*k] & la != 0) {
                    Some(k) => Ok(k as isize + 1),
                    None => Err(self.no_viable()),
                };
            }
            let k = self.predict(*decision, alts.iter().map(|n| vec![(n, p)]).collect())?;
            if k < 1 || k as usize > alts.len() {
                return Err(self.no_viable());
            }
            return Ok(k);
        }
        unreachable!()
    }
    /// LL(1) loops and options: is the next token one that starts the body?
    fn starts(&mut self, n: &N) -> bool {
        let la = bit(self.base.input.la(1));
        self.g.ll1[&id(n)][0] & la != 0
    }
    fn rec_rule(&mut self, r: usize, p: i64) -> Result<Rc<Node<'i>>, ANTLRError> {
        let g = self.g;
        let parent = self.base.ctx.take();
        let pstate = self.base.get_state();
        let mut local = new_node(parent.clone(), pstate, r);
        self.base.enter_recursion_rule(local.clone(), g.starts[r], r, p as isize);
        let result = self.rec_body(r, p, &parent, pstate, &mut local);
        self.handle(result)?;
        self.base.unroll_recursion_context(parent);
        Ok(local)
    }
    fn rec_body(&mut self, r: usize, p: i64, parent: &Option<Rc<dyn PCtx<'i> + 'i>>, pstate: isize, local: &mut Rc<Node<'i>>) -> Result<(), ANTLRError> {
        let g = self.g;
        self.base.enter_outer_alt(None, 1);
        let v = match &g.rules[r] {
            N::Seq(v) => v,
            _ => unreachable!(),
        };
        let (primary, lp) = (&v[..v.len() - 1], &v[v.len() - 1]);
        let depth = self.rest.len();
        for k in (0..v.len()).rev() {
            self.rest.push((&v[k], p));
        }
        for n in primary {
            self.rest.pop();
            if let (true, 1, N::Alt { state, alts, .. }) = (self.labels, primary.len(), n) {
                self.base.set_state(*state);
                self.h.sync(&mut self.base)?;
                let k = self.pick_alt(n, p)?;
                *local = relabel(local, r, k);
                self.base.ctx = Some(local.clone());
                self.el(&alts[k as usize - 1], p)?;
            } else {
                self.el(n, p)?;
            }
        }
        self.rest.pop();
        let stop = self.base.input.lt(-1).cloned();
        self.base.ctx.as_ref().unwrap().set_stop(stop);
        if let N::Star { state, again, decision, body, .. } = lp {
            self.base.set_state(*state);
            self.h.sync(&mut self.base)?;
            let alts = || vec![vec![(&**body, p), (lp, p)], vec![]];
            let mut alt = self.predict(*decision, alts())?;
            while alt != 2 && alt != INVALID_ALT {
                if alt == 1 {
                    self.base.trigger_exit_rule_event();
                    self.rest.push((lp, p));
                    let mut chosen = &**body;
                    let mut k = 1;
                    if let N::Alt { state, alts, .. } = &**body {
                        self.base.set_state(*state);
                        self.h.sync(&mut self.base)?;
                        k = self.pick_alt(body, p)?;
                        chosen = &alts[k as usize - 1];
                    }
                    let mut tmp = new_node(parent.clone(), pstate, r);
                    if self.labels {
                        tmp = relabel(&tmp, r, 100 + k);
                    }
                    self.base.push_new_recursion_context(tmp.clone(), g.starts[r], r);
                    *local = tmp;
                    self.el(chosen, p)?;
                    self.rest.pop();
                }
                self.base.set_state(*again);
                self.h.sync(&mut self.base)?;
                alt = self.predict(*decision, alts())?;
            }
        }
        self.rest.truncate(depth);
        Ok(())
    }
    /// `more`: n is a loop after an iteration
    fn expecting(&mut self, n: &'g N, more: bool) {
        if !self.expect {
            return;
        }
        let g = self.g;
        let mut want = crate::rec::first_item(g, &(n, more));
        for (n, p) in self.rest.iter().rev() {
            if want & EPS == 0 {
                break;
            }
            want = (want & !EPS) | crate::rec::first_item(g, &(n, *p <= -500));
        }
        if want & EPS != 0 {
            want = (want & !EPS) | bit(-1);
        }
        let got = self.base.get_expected_tokens();
        for t in -2..=g.max as isize + 1 {
            let w = t >= -1 && want & bit(t) != 0;
            check(got.contains(t) == w, 910);
            check(self.base.is_expected_token(t) == w, 911);
        }
        check(got.get_min().is_some() == (want != 0), 912);
        let from = self.base.input.la(1);
        check(got.contains(from) == (want & bit(from) != 0), 913);
        cover(9);
    }
    fn el(&mut self, n: &'g N, p: i64) -> Result<(), ANTLRError> {
        match n {
            N::Tok { state, g } => {
                self.base.set_state(*state);
                self.expecting(n, false);
                if self.watch {
                    let want: Vec<&str> = self.calls.iter().rev().map(|r| RULES[*r]).collect();
                    check(self.base.get_rule_invocation_stack() == want, 900);
                }
                match g {
                    C(v) if v.len() == 1 && v[0].0 == v[0].1 => {
                        self.base.match_token(v[0].0 as isize, &mut self.h)?;
                    }
                    Any => {
                        self.base.match_wildcard(&mut self.h)?;
                    }
                    _ => {
                        let la = self.base.input.la(1);
                        let hit = match g {
                            Not(v) => !(la <= 0 || v.iter().fold(false, |x, (a, b)| x | ((la as i64 >= *a) & (la as i64 <= *b)))),
                            C(v) | S(v) => v.iter().fold(false, |x, (a, b)| x | ((la as i64 >= *a) & (la as i64 <= *b))),
                            _ => unreachable!(),
                        };
                        if !hit {
                            self.h.recover_inline(&mut self.base)?;
                        } else {
                            if self.base.input.la(1) == TOKEN_EOF {
                                self.base.matched_eof = true
                            };
                            self.h.report_match(&mut self.base);
                            self.base.consume(&mut self.h);
                        }
                    }
                }
            }
            N::Seq(v) => {
                let depth = self.rest.len();
                for x in v.iter().rev() {
                    self.rest.push((x, p));
                }
                for x in v {
                    self.rest.pop();
                    self.el(x, p)?;
                }
                self.rest.truncate(depth);
            }
            N::Alt { state, alts, .. } => {
                self.base.set_state(*state);
                self.expecting(n, false);
                self.h.sync(&mut self.base)?;
                let k = self.pick_alt(n, p)?;
                self.el(&alts[k as usize - 1], p)?;
            }
            N::Opt { state, decision, body, greedy } => {
                self.base.set_state(*state);
                self.expecting(n, false);
                self.h.sync(&mut self.base)?;
                let (yes, v) = if *greedy { (1, vec![vec![(&**body, p)], vec![]]) } else { (2, vec![vec![], vec![(&**body, p)]]) };
                if if self.ll1 { self.starts(n) } else { self.predict(*decision, v)? == yes } {
                    self.el(body, p)?;
                }
            }
            N::Star { state, again, decision, body, greedy } => {
                let alts = |g: bool| {
                    let go = vec![(&**body, p), (n, p)];
                    if g {
                        vec![go, vec![]]
                    } else {
                        vec![vec![], go]
                    }
                };
                let (yes, no) = if *greedy { (1, 2) } else { (2, 1) };
                self.base.set_state(*state);
                self.expecting(n, false);
                self.h.sync(&mut self.base)?;
                if self.ll1 {
                    while self.starts(n) {
                        self.el(body, p)?;
                        self.base.set_state(*again);
                        self.expecting(n, true);
                        self.h.sync(&mut self.base)?;
                    }
                    return Ok(());
                }
                let mut alt = self.predict(*decision, alts(*greedy))?;
                while alt != no && alt != INVALID_ALT {
                    if alt == yes {
                        self.rest.push((n, p));
                        self.el(body, p)?;
                        self.rest.pop();
                    }
                    self.base.set_state(*again);
                    self.expecting(n, true);
                    self.h.sync(&mut self.base)?;
                    alt = self.predict(*decision, alts(*greedy))?;
                }
            }
            N::Plus { state, again, decision, body, greedy } => {
                // after one iteration: either the whole element again, or its end
                let alts = |g: bool| {
                    let go = vec![(n, p)];
                    if g {
                        vec![go, vec![]]
                    } else {
                        vec![vec![], go]
                    }
                };
                let (yes, no) = if *greedy { (1, 2) } else { (2, 1) };
                self.base.set_state(*state);
                self.expecting(n, false);
                self.h.sync(&mut self.base)?;
                if self.ll1 {
                    loop {
                        self.el(body, p)?;
                        self.base.set_state(*again);
                        self.expecting(n, true);
                        self.h.sync(&mut self.base)?;
                        if !self.starts(n) {
                            return Ok(());
                        }
                    }
                }
                let mut alt = yes;
                loop {
                    if alt == yes {
                        self.rest.push((&OPTIONAL_MORE, p));
                        let k = self.rest.len() - 1;
                        self.rest[k] = (n, -1000 - p);
                        self.el(body, p)?;
                        self.rest.pop();
                    } else {
                        return Err(self.no_viable());
                    }
                    self.base.set_state(*again);
                    self.expecting(n, true);
                    self.h.sync(&mut self.base)?;
                    alt = self.predict(*decision, alts(*greedy))?;
                    if alt == no || alt == INVALID_ALT {
                        break;
                    }
                }
            }
            N::Ref { state, rule, prec } => {
                self.base.set_state(*state);
                self.expecting(n, false);
                self.rule(*rule, *prec)?;
            }
            N::Act { state, .. } => {
                self.base.set_state(*state);
            }
            N::Pred { state, rule, index } => {
                self.base.set_state(*state);
                if !self.base.sempred(None, *rule as isize, *index as isize) {
                    return Err(FailedPredicateError::new(&mut self.base, Some("pred".to_owned()), None));
                }
            }
            N::Prec { state, prec } => {
                self.base.set_state(*state);
                if !self.base.precpred(None, *prec as isize) {
                    return Err(FailedPredicateError::new(&mut self.base, Some("prec".to_owned()), None));
                }
            }
        }
        Ok(())
    }
}
static OPTIONAL_MORE: N = N::Seq(vec![]);

// ---- the tree, as plain data ------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Rule(usize, Vec<T>),
    /// token index
    Tok(isize),
    /// error node: token index (-1: made up), token type
    Err(isize, isize),
}
pub fn tree(n: &(dyn PCtx<'static> + 'static)) -> T {
    if let Some(t) = n.downcast_ref::<TerminalNode<'static, PType>>() {
        return T::Tok(t.symbol.get_token_index());
    }
    if let Some(t) = n.downcast_ref::<ErrorNode<'static, PType>>() {
        return T::Err(t.symbol.get_token_index(), t.symbol.get_token_type());
    }
    T::Rule(n.get_rule_index(), n.get_children().map(|c| tree(&*c)).collect())
}
pub fn leaves(t: &T, out: &mut Vec<T>) {
    match t {
        T::Rule(_, v) => v.iter().for_each(|x| leaves(x, out)),
        x => out.push(x.clone()),
    }
}

// ---- oracle -----------------------------------------------------------------------------------
/// Possible end positions; None: structurally impossible, Some(formula over the token types).
pub type Ends = Vec<Option<bool>>;
fn or(a: &mut Option<bool>, b: bool) {
    *a = Some(a.unwrap_or(false) | b);
}
/// Which spans of the token sequence does each grammar element derive?  All answers are formulas
/// over the (symbolic) token types, built without branching on them.
pub struct Lang<'g> {
    pub g: &'g Gram,
    /// token types, then -1
    pub t: Vec<i64>,
    /// value of predicate k at position i: number k * stride + i
    pub preds: Vec<bool>,
    pub stride: usize,
    /// predicates hold everywhere but here
    pub only: Option<usize>,
    memo: RefCell<BTreeMap<(usize, i64, usize), Ends>>,
    pmemo: RefCell<BTreeMap<(usize, i64, usize), bool>>,
}
pub fn id(n: &N) -> usize {
    n as *const N as usize
}
/// the rule each of n predicates is in
pub fn owners(g: &Gram, n: usize) -> Vec<usize> {
    fn walk(n: &N, out: &mut Vec<usize>) {
        match n {
            N::Pred { rule, index, .. } => out[*index] = *rule,
            N::Seq(v) | N::Alt { alts: v, .. } => v.iter().for_each(|x| walk(x, out)),
            N::Opt { body, .. } | N::Star { body, .. } | N::Plus { body, .. } => walk(body, out),
            _ => {}
        }
    }
    let mut v = vec![99; n];
    g.rules.iter().for_each(|n| walk(n, &mut v));
    v
}
impl<'g> Lang<'g> {
    pub fn new(g: &'g Gram, types: &[isize]) -> Self {
        Lang { g, t: types.iter().map(|x| *x as i64).chain(Some(-1)).collect(), preds: vec![], stride: 0, only: None, memo: Default::default(), pmemo: Default::default() }
    }
    pub fn pred(&self, k: usize, i: usize) -> bool {
        self.preds[k * self.stride + i]
    }
    pub fn len(&self) -> usize {
        self.t.len() - 1
    }
    fn zero(&self) -> Ends {
        vec![None; self.t.len()]
    }
    fn one(&self, i: usize) -> Ends {
        let mut v = self.zero();
        v[i] = Some(true);
        v
    }
    fn then(&self, a: &Ends, n: &N, p: i64) -> Ends {
        let mut r = self.zero();
        for i in 0..a.len() {
            if let Some(x) = a[i] {
                for (j, e) in self.ends(n, p, i).iter().enumerate() {
                    if let Some(e) = e {
                        or(&mut r[j], x & *e);
                    }
                }
            }
        }
        r
    }
    /// at index j: does `n` derive exactly the tokens i..j? (end-of-file is matched without moving)
    pub fn ends(&self, n: &N, p: i64, i: usize) -> Ends {
        if let Some(v) = self.memo.borrow().get(&(id(n), p, i)) {
            return v.clone();
        }
        let v = self.compute(n, p, i);
        self.memo.borrow_mut().insert((id(n), p, i), v.clone());
        v
    }
    fn closure(&self, mut cur: Ends, body: &N, p: i64) -> Ends {
        // iterations consume something, so positions only grow
        for i in 0..cur.len() {
            if let Some(x) = cur[i] {
                let e = self.ends(body, p, i);
                for j in i + 1..cur.len() {
                    if let Some(e) = e[j] {
                        or(&mut cur[j], x & e);
                    }
                }
            }
        }
        cur
    }
    fn compute(&self, n: &N, p: i64, i: usize) -> Ends {
        match n {
            N::Tok { g, .. } => {
                let mut v = self.zero();
                if i == self.len() {
                    if class(g, -1) {
                        v[i] = Some(true);
                    }
                } else {
                    v[i + 1] = Some(class(g, self.t[i]));
                }
                v
            }
            N::Seq(x) => x.iter().fold(self.one(i), |a, n| self.then(&a, n, p)),
            N::Alt { alts, .. } => {
                let mut v = self.zero();
                for a in alts {
                    for (j, x) in self.ends(a, p, i).iter().enumerate() {
                        if let Some(x) = x {
                            or(&mut v[j], *x);
                        }
                    }
                }
                v
            }
            N::Opt { body, .. } => {
                let mut v = self.ends(body, p, i);
                v[i] = Some(true);
                v
            }
            N::Star { body, .. } => self.closure(self.one(i), body, p),
            N::Plus { body, .. } => {
                if p <= -500 {
                    // the rest of the loop after the current iteration
                    self.closure(self.one(i), body, -1000 - p)
                } else {
                    let first = self.ends(body, p, i);
                    self.closure(first, body, p)
                }
            }
            N::Ref { rule, prec, .. } => self.ends(&self.g.rules[*rule], *prec, i),
            N::Act { .. } => self.one(i),
            N::Pred { index, .. } => {
                let mut v = self.zero();
                v[i] = Some(self.only.map_or(false, |s| s != i) || self.pred(*index, i));
                v
            }
            N::Prec { prec, .. } => {
                let mut v = self.zero();
                if *prec >= p {
                    v[i] = Some(true);
                }
                v
            }
        }
    }
    /// can the whole rest of the input be derived by these elements in order?
    pub fn viable(&self, i: usize, parts: &[&[(&'g N, i64)]]) -> bool {
        let mut cur = self.one(i);
        for v in parts {
            for (n, p) in v.iter() {
                cur = self.then(&cur, n, *p);
            }
        }
        cur[self.len()].unwrap_or(false)
    }
    /// do these elements in order derive exactly the tokens i..j?
    pub fn derives(&self, i: usize, j: usize, parts: &[(&'g N, i64)]) -> bool {
        let mut cur = self.one(i);
        for (n, p) in parts.iter() {
            cur = self.then(&cur, n, *p);
        }
        cur[j].unwrap_or(false)
    }
    pub fn accepts(&self, rule: usize) -> bool {
        self.ends(&self.g.rules[rule], 0, 0)[self.len()].unwrap_or(false)
    }
    /// is the token sequence from i to `upto` (exclusive) a beginning of something n derives, all
    /// of it inside n?  (every element of the grammars used derives something)
    fn prefix(&self, n: &N, p: i64, i: usize, upto: usize) -> bool {
        match n {
            N::Tok { g, .. } => (i == upto) || (i + 1 == upto && class(g, self.t[i])),
            N::Seq(x) => {
                let mut cur = self.one(i);
                let mut ok = i == upto;
                for n in x {
                    for j in i..upto {
                        if let Some(c) = cur[j] {
                            let q = self.pfx(n, p, j, upto);
                            ok |= c & q;
                        }
                    }
                    cur = self.then(&cur, n, p);
                }
                ok | cur[upto].unwrap_or(false)
            }
            N::Alt { alts, .. } => alts.iter().fold(false, |a, n| a | self.pfx(n, p, i, upto)),
            N::Opt { body, .. } => (i == upto) || self.pfx(body, p, i, upto),
            N::Star { body, .. } | N::Plus { body, .. } => {
                // the rest of a loop is marked by its precedence
                let p = if p <= -500 { -1000 - p } else { p };
                let cur = self.closure(self.one(i), body, p);
                let mut ok = cur[upto].unwrap_or(false);
                for j in i..upto {
                    if let Some(c) = cur[j] {
                        let q = self.pfx(body, p, j, upto);
                        ok |= c & q;
                    }
                }
                ok
            }
            N::Ref { rule, prec, .. } => (i == upto) || self.pfx(&self.g.rules[*rule], *prec, i, upto),
            N::Prec { prec, .. } => i == upto && *prec >= p,
            _ => i == upto,
        }
    }
    fn pfx(&self, n: &N, p: i64, i: usize, upto: usize) -> bool {
        let k = (id(n), p, i * 100 + upto);
        if let Some(v) = self.pmemo.borrow().get(&k) {
            return *v;
        }
        let v = self.prefix(n, p, i, upto);
        self.pmemo.borrow_mut().insert(k, v);
        v
    }
    /// are the tokens i..upto (upto = len + 1 includes end-of-file) a beginning of something these
    /// elements derive in order?
    pub fn viable_upto(&self, i: usize, parts: &[&[(&'g N, i64)]], upto: usize) -> bool {
        if upto > self.len() {
            return self.viable(i, parts);
        }
        let mut cur = self.one(i);
        let mut ok = i == upto;
        for v in parts {
            for (n, p) in v.iter() {
                for j in i..upto {
                    if let Some(c) = cur[j] {
                        let q = self.pfx(n, *p, j, upto);
                        ok |= c & q;
                    }
                }
                cur = self.then(&cur, n, *p);
            }
        }
        ok | cur[upto].unwrap_or(false)
    }
    /// are the first k tokens (k = len + 1 includes end-of-file) the beginning of a sentence?
    pub fn viable_prefix(&self, rule: usize, k: usize) -> bool {
        if k > self.len() {
            return self.accepts(rule);
        }
        self.pfx(&self.g.rules[rule], 0, 0, k)
    }
}
/// checks every logged decision of an error-free parse: the smallest alternative with which the
/// whole remaining input is derivable
pub fn check_decisions(l: &Lang, taken: &[Taken], idn: u32) {
    for t in taken {
        let v: Vec<bool> = t.alts.iter().map(|a| l.viable(t.at, &[a, &t.rest])).collect();
        let k = t.alt as usize;
        check(k >= 1 && k <= v.len(), idn);
        check(v[k - 1], idn + 1);
        check(!v[..k - 1].iter().fold(false, |a, b| a | *b), idn + 2);
    }
}

// ---- grammars -----------------------------------------------------------------------------------
/// grammars: rules (rule 0 is the start rule), left-recursive ones, greatest token type
pub fn grams(k: u64) -> (Vec<G>, Vec<usize>, i64) {
    let s = |v: Vec<G>| Seq(v);
    match k {
        // s: (A B | A C)* EOF
        0 => (vec![s(vec![star(Alt(vec![s(vec![tk(1), tk(2)]), s(vec![tk(1), tk(3)])])), tk(-1)])], vec![], 4),
        // unbounded lookahead: s: (A* B | A* C r1) EOF ; r1: ~A? . ;
        1 => (
            vec![s(vec![Alt(vec![s(vec![star(tk(1)), tk(2)]), s(vec![star(tk(1)), tk(3), Ref(1)])]), tk(-1)]), s(vec![opt(Not(vec![(1, 1)])), Any])],
            vec![],
            4,
        ),
        // SLL conflict resolved by full context: s: (A a | B b) EOF; a: e C; b: e D C; e: D | ;
        2 => (
            vec![
                s(vec![Alt(vec![s(vec![tk(1), Ref(1)]), s(vec![tk(2), Ref(2)])]), tk(-1)]),
                s(vec![Ref(3), tk(3)]),
                s(vec![Ref(3), tk(4), tk(3)]),
                Alt(vec![tk(4), s(vec![])]),
            ],
            vec![],
            5,
        ),
        // dangling else: stat: IF stat (ELSE stat)? | ID
        3 => (vec![s(vec![Ref(1), tk(-1)]), Alt(vec![s(vec![tk(1), Ref(1), opt(s(vec![tk(2), Ref(1)]))]), tk(3)])], vec![], 4),
        // ambiguous alternatives
        4 => (vec![s(vec![Alt(vec![s(vec![tk(1), tk(2)]), tk(1), s(vec![tk(1), tk(2)]), plus(tk(1))]), opt(tk(2)), opt(tk(2)), tk(-1)])], vec![], 3),
        // non-greedy: s: A .*? B (C | .)?? EOF
        5 => (vec![s(vec![tk(1), star_ng(Any), tk(2), opt_ng(Alt(vec![tk(3), Any])), tk(-1)])], vec![], 4),
        // nesting: e: '(' e* ')' | ID
        6 => (vec![s(vec![Ref(1), tk(-1)]), Alt(vec![s(vec![tk(1), star(Ref(1)), tk(2)]), S(vec![(3, 3), (5, 5)])])], vec![], 5),
        // left recursion: e: e '*' e (4) | e '+' e (3) | '-' e (2)... | ID
        7 => (
            vec![
                s(vec![Ref(1), tk(-1)]),
                s(vec![
                    Alt(vec![s(vec![tk(3), RefP(1, 2)]), tk(4)]),
                    star(Alt(vec![
                        s(vec![Prec(5), tk(1), RefP(1, 6)]),
                        s(vec![Prec(4), tk(2), RefP(1, 4)]),
                        s(vec![Prec(3), tk(3)]),
                    ])),
                ]),
            ],
            vec![1],
            5,
        ),
        // plus loops: s: (A | B C?)+ (B | D)+? EOF
        8 => (vec![s(vec![plus(Alt(vec![tk(1), s(vec![tk(2), opt(tk(3))])])), plus_ng(Alt(vec![tk(2), tk(4)])), tk(-1)])], vec![], 5),
        // rules that may be empty
        9 => (vec![s(vec![Ref(1), Ref(2), Ref(1), tk(-1)]), opt(tk(1)), star(s(vec![Ref(1), tk(2)]))], vec![], 3),
        // global follow wider than the actual context: s: A x B | C x D; x: (B | D)? ;
        10 => (
            vec![s(vec![Alt(vec![s(vec![tk(1), Ref(1), tk(2)]), s(vec![tk(3), Ref(1), tk(4)])]), tk(-1)]), opt(Alt(vec![tk(2), tk(4), s(vec![tk(2), tk(4)])]))],
            vec![],
            5,
        ),
        // palindrome-like, two recursive references
        _ => (vec![s(vec![Ref(1), tk(-1)]), Alt(vec![s(vec![tk(1), Ref(1), tk(1)]), s(vec![tk(2), Ref(1), tk(2)]), opt(tk(1))])], vec![], 3),
    }
}

/// grammars with two predicates
pub fn pg(k: u64) -> (Vec<G>, i64) {
    let s = |v: Vec<G>| Seq(v);
    let p = |r: usize, k: usize| Pred(r, k);
    let (a, b, c) = (|| tk(1), || tk(2), || tk(3));
    let eof = || tk(-1);
    match k {
        0 => (vec![s(vec![Alt(vec![s(vec![p(0, 0), a()]), s(vec![a(), opt(b())]), s(vec![p(0, 1), b()])]), eof()])], 3),
        1 => (vec![s(vec![star(Alt(vec![s(vec![p(0, 0), a()]), s(vec![p(0, 1), a()]), b()])), eof()])], 2),
        2 => (vec![s(vec![Ref(1), Ref(1), eof()]), Alt(vec![s(vec![p(1, 0), a()]), a(), s(vec![p(1, 1), b()])])], 2),
        // seen through a rule call
        3 => (vec![s(vec![Alt(vec![Ref(1), Ref(2)]), eof()]), s(vec![p(1, 0), a(), star(b())]), Alt(vec![s(vec![p(2, 1), a(), star(b())]), s(vec![a(), c()])])], 3),
        // only full context tells the alternatives apart
        4 => (
            vec![
                s(vec![Alt(vec![s(vec![a(), Ref(1)]), s(vec![b(), Ref(2)])]), eof()]),
                s(vec![Ref(3), c()]),
                s(vec![Ref(3), tk(4), c()]),
                Alt(vec![s(vec![p(3, 0), tk(4)]), s(vec![]), s(vec![p(3, 1), tk(4)])]),
            ],
            4,
        ),
        5 => (vec![s(vec![star(s(vec![p(0, 0), a()])), star(a()), opt(s(vec![p(0, 1), b()])), eof()])], 2),
        6 => (vec![s(vec![plus(Alt(vec![s(vec![p(0, 0), a()]), s(vec![p(0, 1), a(), b()]), a()])), eof()])], 2),
        7 => (vec![s(vec![Ref(1), eof()]), Alt(vec![s(vec![p(1, 0), a(), Ref(1)]), s(vec![a(), Ref(1), opt(b())]), b()])], 2),
        // both have to hold
        8 => (vec![s(vec![Alt(vec![s(vec![p(0, 0), p(0, 1), a()]), a(), b()]), opt(a()), eof()])], 2),
        // either has to hold
        9 => (vec![s(vec![Alt(vec![Ref(1), a(), s(vec![a(), c()])]), opt(c()), eof()]), Alt(vec![s(vec![p(1, 0), a()]), s(vec![p(1, 1), a()])])], 3),
        // behind a token: plays no part in the decision
        10 => (vec![s(vec![Alt(vec![s(vec![a(), p(0, 0), b()]), s(vec![a(), b()]), s(vec![a(), c()])]), eof()])], 3),
        // behind the end of the rule
        11 => (vec![s(vec![Ref(1), Alt(vec![s(vec![p(0, 0), a()]), b()]), eof()]), opt(a())], 2),
        12 => (vec![s(vec![Alt(vec![s(vec![Ref(1), p(0, 0), a()]), s(vec![b(), Ref(1), a()])]), eof()]), opt(a())], 2),
        // options and loops that stop early
        13 => (vec![s(vec![opt_ng(s(vec![p(0, 0), a()])), star_ng(s(vec![p(0, 1), Any])), opt(a()), eof()])], 2),
        // three-way conflict
        _ => (vec![s(vec![Alt(vec![s(vec![p(0, 0), a(), opt(b())]), s(vec![p(0, 1), a(), b()]), s(vec![a(), b()]), a()]), eof()])], 2),
    }
}
pub const PGS: u64 = 15;

/// An enumerated family: s: <shape> EOF ; r1: <shape> ; r2: <shape over tokens> ;
pub const SHAPES: u64 = 14;
pub fn family(a: u64, b: u64, c: u64) -> (Vec<G>, Vec<usize>, i64) {
    fn shape(k: u64, x: G, y: G) -> G {
        let s = |v: Vec<G>| Seq(v);
        match k {
            0 => s(vec![x, y]),
            1 => Alt(vec![x.clone(), s(vec![x, y])]),
            2 => Alt(vec![s(vec![x.clone(), y]), x]),
            3 => s(vec![opt(x.clone()), y, x]),
            4 => s(vec![star(s(vec![tk(1), x])), y]),
            5 => s(vec![x, star(tk(2)), y]),
            6 => Alt(vec![s(vec![tk(1), x]), s(vec![tk(2), y]), s(vec![tk(1), tk(1)])]),
            7 => s(vec![plus(Alt(vec![tk(1), tk(2)])), x]),
            8 => s(vec![opt(tk(2)), x.clone(), opt(x)]),
            9 => s(vec![star_ng(Any), y, opt(x)]),
            10 => Alt(vec![s(vec![x.clone(), tk(1)]), s(vec![x, tk(2)]), y]),
            11 => s(vec![opt(s(vec![tk(1), x.clone()])), opt(s(vec![tk(1), y])), x]),
            12 => Alt(vec![y, s(vec![]), s(vec![x, tk(3)])]),
            _ => s(vec![x.clone(), Not(vec![(2, 2)]), opt(y)]),
        }
    }
    let leaf = match c {
        0 => tk(1),
        1 => Alt(vec![tk(1), tk(2)]),
        2 => opt(tk(1)),
        3 => Seq(vec![tk(1), opt(tk(2))]),
        4 => Alt(vec![tk(2), Seq(vec![])]),
        5 => star(tk(1)),
        6 => Alt(vec![Seq(vec![tk(1), Ref(2), tk(2)]), tk(3)]),
        _ => plus(S(vec![(1, 1), (3, 3)])),
    };
    (vec![Seq(vec![shape(a, Ref(1), Ref(2)), tk(-1)]), shape(b, Ref(2), tk(2)), leaf], vec![], 3)
}
pub const LEAVES: u64 = 8;
/// the enumerated family with predicates put in front of rules
pub fn pfamily(a: u64, b: u64, c: u64, k: u64) -> (Vec<G>, i64) {
    let (mut r, _, max) = family(a, b, c);
    let with = |k: usize, g: &G| Seq(vec![Pred(k + 1, k), g.clone()]);
    match k {
        0 => r[1] = with(0, &r[1]),
        1 => r[2] = with(1, &r[2]),
        2 => {
            r[1] = Alt(vec![with(0, &r[1]), Ref(2)]);
        }
        _ => {
            r[1] = Alt(vec![with(0, &tk(1)), with(0, &r[1])]);
            r[2] = Alt(vec![with(1, &r[2]), tk(2)]);
        }
    }
    (r, max)
}
/// A second family: left-recursive expressions used in several ways.
/// s: <use> EOF ; e: <primary> <operators>* ; suffix ; f ; lambda
pub const PRIMARIES: u64 = 4;
pub const OPERATORS: u64 = 6;
pub const USES: u64 = 5;
pub fn lr_family(a: u64, b: u64, c: u64) -> (Vec<G>, Vec<usize>, i64) {
    let s = |v: Vec<G>| Seq(v);
    let primary = match a {
        0 => tk(1),
        1 => Alt(vec![tk(1), s(vec![tk(4), RefP(1, 3)])]),
        2 => Alt(vec![tk(1), s(vec![tk(4), Ref(1), tk(5)])]),
        _ => Alt(vec![tk(1), Ref(4)]),
    };
    let ops = match b {
        0 => Alt(vec![s(vec![Prec(3), tk(2), RefP(1, 4)]), s(vec![Prec(2), tk(3), RefP(1, 3)])]),
        1 => s(vec![Prec(3), Ref(2)]),
        2 => Alt(vec![s(vec![Prec(3), tk(2), RefP(1, 3)]), s(vec![Prec(2), Ref(2)])]),
        3 => s(vec![Prec(2), tk(2), Ref(1), tk(3), RefP(1, 2)]),
        4 => Alt(vec![s(vec![Prec(3), tk(2)]), s(vec![Prec(2), tk(2), RefP(1, 3)]), s(vec![Prec(1), tk(3), tk(3)])]),
        _ => s(vec![Prec(2), opt(tk(2)), RefP(1, 3)]),
    };
    let u = match c {
        0 => Ref(1),
        1 => Ref(3),
        2 => s(vec![Ref(1), star(s(vec![tk(2), Ref(1)]))]),
        3 => Alt(vec![s(vec![Ref(1), tk(5)]), s(vec![tk(1), Ref(3)]), Ref(1)]),
        _ => star(s(vec![Ref(1), opt(tk(3))])),
    };
    let rules = vec![
        s(vec![u, tk(-1)]),
        s(vec![primary, star(ops)]),
        Alt(vec![s(vec![tk(2), tk(1)]), tk(3)]),
        s(vec![Ref(1), Ref(2)]),
        s(vec![tk(4), Ref(1)]),
    ];
    (rules, vec![1], 5)
}

// ---- reference parse (over token types fixed by the path) ----------------------------------------
/// the tree of the derivation that takes, at every choice, the first alternative with which the
/// whole input can be derived; only for accepted input
pub struct RefParse<'a, 'g> {
    pub l: &'a Lang<'g>,
    /// alternative (label) of every rule node, in preorder
    alts: Vec<isize>,
    rest: Vec<(&'g N, i64)>,
    at: usize,
    /// decisions see the predicates at their start only, and may fail
    preds: bool,
    pub failed: bool,
    /// visible token number -> token index
    pub index: Vec<isize>,
}
impl<'a, 'g> RefParse<'a, 'g> {
    pub fn tree(l: &'a Lang<'g>, rule: usize) -> T {
        let index = (0..=l.len()).map(|i| i as isize).collect();
        Self::tree_at(l, rule, index)
    }
    pub fn labelled(l: &'a Lang<'g>, rule: usize) -> (T, Vec<isize>) {
        let mut r = RefParse { l, alts: vec![], rest: vec![], at: 0, preds: false, failed: false, index: (0..=l.len()).map(|i| i as isize).collect() };
        let t = r.rule(rule, 0);
        (t, r.alts)
    }
    pub fn tree_at(l: &'a Lang<'g>, rule: usize, index: Vec<isize>) -> T {
        let mut r = RefParse { l, alts: vec![], rest: vec![], at: 0, preds: false, failed: false, index };
        r.rule(rule, 0)
    }
    /// the tree, unless a predicate fails or no alternative is left
    pub fn predicated(l: &'a Lang<'g>, rule: usize) -> Option<T> {
        let index = (0..=l.len()).map(|i| i as isize).collect();
        let mut r = RefParse { l, alts: vec![], rest: vec![], at: 0, preds: true, failed: false, index };
        let t = r.rule(rule, 0);
        if r.failed { None } else { Some(t) }
    }
    fn pick(&mut self, alts: &[Vec<(&'g N, i64)>]) -> usize {
        let rest: Vec<_> = self.rest.iter().rev().cloned().collect();
        if self.preds {
            let l = Lang { g: self.l.g, t: self.l.t.clone(), preds: self.l.preds.clone(), stride: self.l.stride, only: Some(self.at), memo: Default::default(), pmemo: Default::default() };
            let k = alts.iter().position(|a| l.viable(self.at, &[a, &rest]));
            self.failed |= k.is_none();
            return if self.failed { usize::MAX } else { k.unwrap() };
        }
        alts.iter().position(|a| self.l.viable(self.at, &[a, &rest])).expect("no alternative")
    }
    fn rule(&mut self, r: usize, p: i64) -> T {
        let g = self.l.g;
        let mut kids = vec![];
        let here = self.alts.len();
        self.alts.push(0);
        if !g.lr[r] {
            self.alts[here] = self.el_alt(&g.rules[r], p, &mut kids);
            return T::Rule(r, kids);
        }
        let v = match &g.rules[r] {
            N::Seq(v) => v,
            _ => unreachable!(),
        };
        let lp = &v[v.len() - 1];
        for x in v.iter().rev() {
            self.rest.push((x, p));
        }
        for x in &v[..v.len() - 1] {
            self.rest.pop();
            let k = self.el_alt(x, p, &mut kids);
            if let (2, N::Alt { .. }) = (v.len(), x) {
                self.alts[here] = k;
            }
        }
        self.rest.pop();
        let mut node = T::Rule(r, kids);
        if let N::Star { body, .. } = lp {
            while self.pick(&[vec![(&**body, p), (lp, p)], vec![]]) == 0 {
                let mut kids = vec![node];
                self.rest.push((lp, p));
                self.alts.insert(here, 0);
                self.alts[here] = 100 + self.el_alt(body, p, &mut kids);
                self.rest.pop();
                node = T::Rule(r, kids);
            }
        }
        node
    }
    /// also the alternative taken (1 if there is no choice)
    fn el_alt(&mut self, n: &'g N, p: i64, out: &mut Vec<T>) -> isize {
        if let N::Alt { alts, .. } = n {
            let k = self.pick(&alts.iter().map(|n| vec![(n, p)]).collect::<Vec<_>>());
            if k >= alts.len() {
                return 0;
            }
            self.el(&alts[k], p, out);
            return k as isize + 1;
        }
        self.el(n, p, out);
        1
    }
    fn el(&mut self, n: &'g N, p: i64, out: &mut Vec<T>) {
        match n {
            N::Tok { g, .. } => {
                if self.preds && !class(g, self.l.t[self.at]) {
                    self.failed = true;
                }
                out.push(T::Tok(self.index[self.at]));
                if self.at < self.l.len() {
                    self.at += 1;
                }
            }
            N::Seq(v) => {
                for x in v.iter().rev() {
                    self.rest.push((x, p));
                }
                for x in v {
                    self.rest.pop();
                    self.el(x, p, out);
                }
            }
            N::Alt { alts, .. } => {
                let k = self.pick(&alts.iter().map(|n| vec![(n, p)]).collect::<Vec<_>>());
                if k < alts.len() {
                    self.el(&alts[k], p, out);
                }
            }
            N::Pred { index, .. } => self.failed |= self.preds && !self.l.pred(*index, self.at),
            N::Opt { body, greedy, .. } => {
                let yes = vec![(&**body, p)];
                let take = if *greedy { self.pick(&[yes, vec![]]) == 0 } else { self.pick(&[vec![], yes]) == 1 };
                if take {
                    self.el(body, p, out);
                }
            }
            N::Star { body, greedy, .. } | N::Plus { body, greedy, .. } => {
                let again = if let N::Plus { .. } = n { (n, -1000 - p) } else { (n, p) };
                let mut first = matches!(n, N::Plus { .. });
                loop {
                    let yes = vec![(&**body, p), again];
                    let take = first || if *greedy { self.pick(&[yes, vec![]]) == 0 } else { self.pick(&[vec![], yes]) == 1 };
                    if !take {
                        break;
                    }
                    first = false;
                    self.rest.push(again);
                    self.el(body, p, out);
                    self.rest.pop();
                }
            }
            N::Ref { rule, prec, .. } => {
                let t = self.rule(*rule, *prec);
                out.push(t);
            }
            _ => {}
        }
    }
}
pub fn fix_types(t: &[isize]) -> Vec<isize> {
    t.iter().map(|x| concrete(*x as u64) as isize).collect()
}
