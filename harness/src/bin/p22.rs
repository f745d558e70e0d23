//! P22: generated lexers and parsers, used as an application uses them, do what their grammar says
//! with every text.
#![allow(warnings)]
#[path = "/repo/tests/gen/csvlexer.rs"]
mod csvlexer;
#[path = "/repo/tests/gen/csvlistener.rs"]
mod csvlistener;
#[path = "/repo/tests/gen/csvparser.rs"]
mod csvparser;
#[path = "/repo/tests/gen/csvvisitor.rs"]
mod csvvisitor;
#[path = "/repo/tests/gen/labelslexer.rs"]
mod labelslexer;
#[path = "/repo/tests/gen/labelslistener.rs"]
mod labelslistener;
#[path = "/repo/tests/gen/labelsparser.rs"]
mod labelsparser;
#[path = "/repo/tests/gen/visitorcalclexer.rs"]
mod visitorcalclexer;
#[path = "/repo/tests/gen/visitorcalclistener.rs"]
mod visitorcalclistener;
#[path = "/repo/tests/gen/visitorcalcparser.rs"]
mod visitorcalcparser;
#[path = "/repo/tests/gen/visitorcalcvisitor.rs"]
mod visitorcalcvisitor;
#[path = "/repo/tests/gen/xmllexer.rs"]
mod xmllexer;

use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::parser::Parser;
use antlr_rust::parser_rule_context::ParserRuleContext;
use antlr_rust::rule_context::RuleContext;
use antlr_rust::token::Token;
use antlr_rust::token_factory::ArenaCommonFactory;
use antlr_rust::tree::*;
use antlr_rust::{InputStream, TokenSource};
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;
use vpharness::gram::*;
use vpharness::lex::{ascii, same_text, Log, Oracle, Rec, Tk, Want};
use vpharness::*;

fn log() -> Log {
    Rc::new(RefCell::new(vec![]))
}
fn lexer_errors(w: &Want, l: &Log, id: u32) {
    let l = l.borrow();
    check(l.len() == w.errs.len(), id);
    for (a, b) in l.iter().zip(&w.errs) {
        check((a.0 as i64, a.1 as i64) == (b.0, b.1) && same_text(&a.2, &b.2), id + 1);
    }
}
/// what a parser gets to see
fn visible(w: &Want) -> Vec<Tk> {
    w.toks.iter().filter(|t| t.channel == 0).cloned().collect()
}

// ---- CSV: arena tokens, LL(1) loops, an empty alternative, listeners, visitors --------------------
use csvparser::{CSVParserContext, CSVParserContextType, CsvFileContext, CsvFileContextAttrs, FieldContext, FieldContextAttrs, HdrContext, HdrContextAttrs, RowContext, RowContextAttrs};

fn csv_rules() -> Vec<LRule> {
    let not = |s: &str| Not(s.chars().map(|c| (c as i64, c as i64)).collect());
    vec![
        lr(1, ch(','), vec![]),
        lr(2, ch('\r'), vec![]),
        lr(3, ch('\n'), vec![]),
        lr(4, plus(ch(' ')), vec![Cmd::Channel(1)]),
        lr(5, plus(not(" ,\n\r\"")), vec![]),
        lr(6, Seq(vec![ch('"'), star(Alt(vec![lit("\"\""), not("\"")])), ch('"')]), vec![]),
    ]
}
type Events = Rc<RefCell<Vec<String>>>;
struct Heard(Events);
impl<'i> ParseTreeListener<'i, CSVParserContextType> for Heard {
    fn visit_terminal(&mut self, n: &TerminalNode<'i, CSVParserContextType>) {
        self.0.borrow_mut().push(n.symbol.get_text().to_string())
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'i, CSVParserContextType>) {
        self.0.borrow_mut().push("error".to_string())
    }
}
impl<'i> csvlistener::CSVListener<'i> for Heard {
    fn enter_csvFile(&mut self, c: &CsvFileContext<'i>) {
        self.0.borrow_mut().push("<csvFile".to_string())
    }
    fn exit_csvFile(&mut self, c: &CsvFileContext<'i>) {
        self.0.borrow_mut().push("csvFile>".to_string())
    }
    fn enter_hdr(&mut self, c: &HdrContext<'i>) {
        self.0.borrow_mut().push("<hdr".to_string())
    }
    fn exit_hdr(&mut self, c: &HdrContext<'i>) {
        self.0.borrow_mut().push("hdr>".to_string())
    }
    fn enter_row(&mut self, c: &RowContext<'i>) {
        self.0.borrow_mut().push("<row".to_string())
    }
    fn exit_row(&mut self, c: &RowContext<'i>) {
        self.0.borrow_mut().push("row>".to_string())
    }
    fn enter_field(&mut self, c: &FieldContext<'i>) {
        self.0.borrow_mut().push("<field".to_string())
    }
    fn exit_field(&mut self, c: &FieldContext<'i>) {
        self.0.borrow_mut().push("field>".to_string())
    }
}
/// every field with its row, as borrowed from the input
struct Fields<'i>(Vec<Vec<Vec<&'i str>>>);
impl<'i> ParseTreeVisitor<'i, CSVParserContextType> for Fields<'i> {
    fn visit_terminal(&mut self, n: &TerminalNode<'i, CSVParserContextType>) {
        if n.symbol.get_token_type() >= 5 {
            if let Cow::Borrowed(s) = n.symbol.text {
                self.0.last_mut().unwrap().last_mut().unwrap().push(s)
            }
        }
    }
}
impl<'i> csvvisitor::CSVVisitor<'i> for Fields<'i> {
    fn visit_row(&mut self, c: &RowContext<'i>) {
        self.0.push(vec![]);
        self.visit_children(c)
    }
    fn visit_field(&mut self, c: &FieldContext<'i>) {
        self.0.last_mut().unwrap().push(vec![]);
        self.visit_children(c)
    }
}
/// rows of fields, if the tokens are such
fn csv_parse(t: &[Tk]) -> Option<Vec<(Vec<String>, bool)>> {
    let (mut rows, mut i) = (vec![], 0);
    while t[i].ty != -1 {
        let mut row = vec![];
        loop {
            if t[i].ty >= 5 {
                row.push(t[i].text.clone());
                i += 1;
            } else {
                row.push(String::new());
            }
            if t[i].ty != 1 {
                break;
            }
            i += 1;
        }
        let cr = t[i].ty == 2;
        i += cr as usize;
        if t[i].ty != 3 {
            return None;
        }
        i += 1;
        rows.push((row, cr));
    }
    if rows.len() >= 2 { Some(rows) } else { None }
}
fn csv(text: &'static str, oracle: &Oracle) {
    let (cs, ix) = ascii(text);
    let w = oracle.run(&cs, &ix, text);
    let tf = ArenaCommonFactory::default();
    let mut lexer = csvlexer::CSVLexer::new_with_token_factory(InputStream::new(text), &tf);
    lexer.remove_error_listeners();
    let (le, pe) = (log(), log());
    lexer.add_error_listener(Box::new(Rec(le.clone())));
    let mut parser = csvparser::CSVParser::new(CommonTokenStream::new(lexer));
    parser.remove_error_listeners();
    parser.add_error_listener(Box::new(Rec(pe.clone())));
    let heard: Events = Rc::new(RefCell::new(vec![]));
    parser.add_parse_listener(Box::new(Heard(heard.clone())));
    let tree = parser.csvFile();
    check(tree.is_ok(), 1);
    let tree = tree.unwrap();
    lexer_errors(&w, &le, 2);
    let rows = match csv_parse(&visible(&w)) {
        None => {
            check(pe.borrow().len() > 0, 4);
            cover(2);
            return;
        }
        Some(r) => r,
    };
    check(pe.borrow().len() == 0, 5);
    cover(1);
    // the tree as text, the events and the fields
    let mut s = String::from("(csvFile");
    let mut e = vec!["<csvFile".to_string()];
    for (k, (r, cr)) in rows.iter().enumerate() {
        s.push_str(if k == 0 { " (hdr (row" } else { " (row" });
        if k == 0 {
            e.push("<hdr".to_string());
        }
        e.push("<row".to_string());
        for (j, f) in r.iter().enumerate() {
            if j > 0 {
                s.push_str(" ,");
                e.push(",".to_string());
            }
            e.push("<field".to_string());
            if f.is_empty() {
                s.push_str(" field");
            } else {
                s.push_str(" (field ");
                s.push_str(&f.replace('\n', "\\n").replace('\r', "\\r"));
                s.push_str(")");
                e.push(f.clone());
            }
            e.push("field>".to_string());
        }
        if *cr {
            s.push_str(" \\r");
            e.push("\r".to_string());
        }
        s.push_str(" \\n)");
        e.push("\n".to_string());
        e.push("row>".to_string());
        if k == 0 {
            s.push_str(")");
            e.push("hdr>".to_string());
        }
    }
    s.push_str(")");
    e.push("csvFile>".to_string());
    check(same_text(&tree.to_string_tree(&*parser), &s), 6);
    check(*heard.borrow() == e, 7);
    heard.borrow_mut().clear();
    csvparser::CSVTreeWalker::walk(Box::new(Heard(heard.clone())), &*tree);
    check(*heard.borrow() == e, 8);
    let mut v = Fields(vec![]);
    tree.accept(&mut v);
    check(v.0.len() == rows.len(), 9);
    for (a, (b, _)) in v.0.iter().zip(&rows) {
        check(a.len() == b.len(), 10);
        for (a, b) in a.iter().zip(b) {
            check(if b.is_empty() { a.is_empty() } else { a.len() == 1 && a[0] == b.as_str() && inside(a[0], text) }, 11);
        }
    }
    // typed access
    check(tree.row_all().len() == rows.len() - 1, 12);
    let hdr = tree.hdr().unwrap().row().unwrap();
    for (k, (b, cr)) in rows.iter().enumerate() {
        let r = if k == 0 { hdr.clone() } else { tree.row(k - 1).unwrap() };
        check(r.field_all().len() == b.len() && r.field(b.len()).is_none(), 13);
        for (j, f) in b.iter().enumerate() {
            let x = r.field(j).unwrap();
            check(x.TEXT().map_or(false, |t| t.symbol.get_text() == f.as_str()) == (!f.is_empty() && !f.starts_with('"')), 14);
            check(x.STRING().map_or(false, |t| t.symbol.get_text() == f.as_str()) == f.starts_with('"'), 15);
            check(&x.get_text() == f, 16);
        }
    }
}
fn inside(a: &str, b: &str) -> bool {
    let (a, n, b, m) = (a.as_ptr() as usize, a.len(), b.as_ptr() as usize, b.len());
    b <= a && a + n <= b + m
}
fn csv_n(n: u64, alphabet: &[u8]) {
    let o = Oracle::new(&csv_rules(), n as usize + 1);
    csv(sym_over(choose(n + 1) as usize, alphabet), &o)
}

// ---- Labels: left recursion, labels, return values, actions ---------------------------------------
fn labels_rules() -> Vec<LRule> {
    vec![
        lr(1, ch('*'), vec![]),
        lr(2, ch('+'), vec![]),
        lr(3, ch('('), vec![]),
        lr(4, ch(')'), vec![]),
        lr(5, lit("++"), vec![]),
        lr(6, lit("--"), vec![]),
        lr(7, plus(rng('a', 'z')), vec![]),
        lr(8, plus(rng('0', '9')), vec![]),
        lr(9, Alt(vec![ch(' '), ch('\n')]), vec![Cmd::Skip]),
    ]
}
#[derive(Debug, PartialEq)]
enum E {
    Bin(i64, Box<E>, Box<E>),
    Post(i64, Box<E>),
    Paren(Box<E>),
    Leaf(i64, String),
}
fn op(t: i64) -> &'static str {
    match t {
        1 => "*",
        2 => "+",
        5 => "++",
        _ => "--",
    }
}
impl E {
    /// what the actions make of it
    fn v(&self) -> String {
        match self {
            E::Bin(o, a, b) => op(*o).to_string() + " " + &a.v() + " " + &b.v(),
            E::Post(o, a) => " ".to_string() + op(*o) + &a.v(),
            E::Paren(a) => a.v(),
            E::Leaf(_, s) => s.clone(),
        }
    }
    fn tree(&self) -> String {
        match self {
            E::Bin(o, a, b) => format!("(e {} {} {})", a.tree(), op(*o), b.tree()),
            E::Post(o, a) => format!("(e {} {})", a.tree(), op(*o)),
            E::Paren(a) => format!("(e ( {} ))", a.tree()),
            E::Leaf(_, s) => format!("(e {})", s),
        }
    }
    fn text(&self) -> String {
        match self {
            E::Bin(o, a, b) => a.text() + op(*o) + &b.text(),
            E::Post(o, a) => a.text() + op(*o),
            E::Paren(a) => format!("({})", a.text()),
            E::Leaf(_, s) => s.clone(),
        }
    }
}
fn expr(t: &[Tk], i: &mut usize, p: i64) -> Option<E> {
    let mut l = match t[*i].ty {
        7 | 8 => E::Leaf(t[*i].ty, t[*i].text.clone()),
        3 => {
            *i += 1;
            let e = expr(t, i, 0)?;
            if t[*i].ty != 4 {
                return None;
            }
            E::Paren(Box::new(e))
        }
        _ => return None,
    };
    *i += 1;
    loop {
        let o = t[*i].ty;
        let q = match o {
            1 => 7,
            2 => 6,
            5 => 3,
            6 => 2,
            _ => return Some(l),
        };
        if q < p {
            return Some(l);
        }
        *i += 1;
        l = if o > 2 { E::Post(o, Box::new(l)) } else { E::Bin(o, Box::new(l), Box::new(expr(t, i, q + 1)?)) };
    }
}
fn labelled(e: &E, c: &labelsparser::EContextAll) -> bool {
    use labelsparser::EContextAll::*;
    let is = |e: &E, c: &Option<Rc<labelsparser::EContextAll>>| c.as_ref().map_or(false, |c| labelled(e, c));
    c.get_text() == e.text()
        && match (e, c) {
            (E::Bin(1, a, b), MultContext(c)) => is(a, &c.a) && is(b, &c.b) && c.op.as_ref().map_or(false, |o| o.get_text() == "*"),
            (E::Bin(2, a, b), AddContext(c)) => is(a, &c.a) && is(b, &c.b),
            (E::Post(5, a), IncContext(c)) => is(a, &c.x),
            (E::Post(6, a), DecContext(c)) => is(a, &c.x),
            (E::Paren(a), ParensContext(c)) => is(a, &c.x),
            (E::Leaf(7, s), AnIDContext(c)) => c.ID.as_ref().map_or(false, |t| t.get_text() == s),
            (E::Leaf(8, s), AnIntContext(c)) => c.INT.as_ref().map_or(false, |t| t.get_text() == s),
            _ => false,
        }
}
fn labels(text: &'static str, oracle: &Oracle) {
    let (cs, ix) = ascii(text);
    let w = oracle.run(&cs, &ix, text);
    let points: Vec<u32> = text.bytes().map(|b| b as u32).collect();
    let mut lexer = labelslexer::LabelsLexer::new(InputStream::new(&points[..]));
    lexer.remove_error_listeners();
    let (le, pe) = (log(), log());
    lexer.add_error_listener(Box::new(Rec(le.clone())));
    let mut parser = labelsparser::LabelsParser::new(CommonTokenStream::new(lexer));
    parser.remove_error_listeners();
    parser.add_error_listener(Box::new(Rec(pe.clone())));
    let tree = parser.s();
    check(tree.is_ok(), 20);
    let tree = tree.unwrap();
    let t = visible(&w);
    let mut i = 0;
    match expr(&t, &mut i, 0) {
        None => {
            check(pe.borrow().len() > 0, 21);
            cover(2);
        }
        Some(e) => {
            check(pe.borrow().len() == 0, 22);
            check(parser.get_input_stream_mut().index() == t.len() as isize - 1 || t[i].ty != -1, 23);
            check(parser.get_current_token().get_start() == t[i].start as isize, 24);
            let q = tree.q.as_ref();
            check(q.is_some(), 25);
            let q = q.unwrap();
            check(same_text(q.get_v(), &e.v()), 26);
            check(labelled(&e, q), 27);
            check(same_text(&tree.to_string_tree(&*parser), &format!("(s {})", e.tree())), 28);
            cover(1);
            if t[i].ty == -1 {
                lexer_errors(&w, &le, 30);
            }
        }
    }
}
fn labels_n(n: u64, alphabet: &[u8]) {
    let o = Oracle::new(&labels_rules(), n as usize + 1);
    labels(sym_over(choose(n + 1) as usize, alphabet), &o)
}

// ---- VisitorCalc: visitors with results -----------------------------------------------------------
use visitorcalcparser::{AddContext, AddContextAttrs, MultiplyContext, MultiplyContextAttrs, NumberContext, NumberContextAttrs, SContext, SContextAttrs, VisitorCalcParserContextType};
struct Calc(String);
impl ParseTreeVisitorCompat<'_> for Calc {
    type Node = VisitorCalcParserContextType;
    type Return = String;
    fn temp_result(&mut self) -> &mut String {
        &mut self.0
    }
    fn aggregate_results(&self, _: String, _: String) -> String {
        "aggregated".to_string()
    }
}
impl visitorcalcvisitor::VisitorCalcVisitorCompat<'_> for Calc {
    fn visit_s(&mut self, c: &SContext<'_>) -> String {
        self.visit(&*c.expr().unwrap())
    }
    fn visit_add(&mut self, c: &AddContext<'_>) -> String {
        let (l, r) = (self.visit(&*c.expr(0).unwrap()), self.visit(&*c.expr(1).unwrap()));
        let o = if c.ADD().is_some() { "+" } else if c.SUB().is_some() { "-" } else { "?" };
        format!("({}{}{})", l, o, r)
    }
    fn visit_number(&mut self, c: &NumberContext<'_>) -> String {
        c.INT().unwrap().get_text()
    }
    fn visit_multiply(&mut self, c: &MultiplyContext<'_>) -> String {
        let (l, r) = (self.visit(&*c.expr(0).unwrap()), self.visit(&*c.expr(1).unwrap()));
        let o = if c.MUL().is_some() { "*" } else if c.DIV().is_some() { "/" } else { "?" };
        format!("({}{}{})", l, o, r)
    }
}
/// default methods: results are put together in order
struct Flat(String);
impl ParseTreeVisitorCompat<'_> for Flat {
    type Node = VisitorCalcParserContextType;
    type Return = String;
    fn temp_result(&mut self) -> &mut String {
        &mut self.0
    }
    fn visit_terminal(&mut self, n: &TerminalNode<'_, Self::Node>) -> String {
        n.symbol.get_text().to_string()
    }
    fn aggregate_results(&self, a: String, b: String) -> String {
        a + &b
    }
}
impl visitorcalcvisitor::VisitorCalcVisitorCompat<'_> for Flat {}
fn calc_rules() -> Vec<LRule> {
    vec![
        lr(1, plus(rng('0', '9')), vec![]),
        lr(2, ch('*'), vec![]),
        lr(3, ch('/'), vec![]),
        lr(4, ch('+'), vec![]),
        lr(5, ch('-'), vec![]),
        lr(6, plus(Alt(vec![ch(' '), ch('\t')])), vec![Cmd::Channel(1)]),
    ]
}
/// terms of factors: (grouped, tree)
fn calc_parse(t: &[Tk]) -> Option<(String, String)> {
    let mut i = 0;
    fn num(t: &[Tk], i: &mut usize) -> Option<(String, String)> {
        *i += 1;
        if t[*i - 1].ty == 1 { Some((t[*i - 1].text.clone(), format!("(expr {})", t[*i - 1].text))) } else { None }
    }
    fn bin(a: (String, String), o: &str, b: (String, String)) -> (String, String) {
        (format!("({}{}{})", a.0, o, b.0), format!("(expr {} {} {})", a.1, o, b.1))
    }
    fn term(t: &[Tk], i: &mut usize) -> Option<(String, String)> {
        let mut l = num(t, i)?;
        while t[*i].ty == 2 || t[*i].ty == 3 {
            let o = if t[*i].ty == 2 { "*" } else { "/" };
            *i += 1;
            l = bin(l, o, num(t, i)?);
        }
        Some(l)
    }
    let mut l = term(t, &mut i)?;
    while t[i].ty == 4 || t[i].ty == 5 {
        let o = if t[i].ty == 4 { "+" } else { "-" };
        i += 1;
        l = bin(l, o, term(t, &mut i)?);
    }
    if t[i].ty == -1 { Some(l) } else { None }
}
fn calc(text: &'static str, oracle: &Oracle) {
    let (cs, ix) = ascii(text);
    let w = oracle.run(&cs, &ix, text);
    let mut lexer = visitorcalclexer::VisitorCalcLexer::new(InputStream::new(text));
    lexer.remove_error_listeners();
    let (le, pe) = (log(), log());
    lexer.add_error_listener(Box::new(Rec(le.clone())));
    let mut parser = visitorcalcparser::VisitorCalcParser::new(CommonTokenStream::new(lexer));
    parser.remove_error_listeners();
    parser.add_error_listener(Box::new(Rec(pe.clone())));
    let root = parser.s();
    check(root.is_ok(), 40);
    let root = root.unwrap();
    match calc_parse(&visible(&w)) {
        None => {
            check(pe.borrow().len() > 0, 41);
            cover(2);
        }
        Some((grouped, tree)) => {
            check(pe.borrow().len() == 0, 42);
            lexer_errors(&w, &le, 43);
            check(same_text(&root.to_string_tree(&*parser), &format!("(s {} <EOF>)", tree)), 45);
            check(same_text(&Calc(String::new()).visit(&*root), &grouped), 46);
            let flat: String = visible(&w).iter().map(|t| if t.ty == -1 { "<EOF>".to_string() } else { t.text.clone() }).collect();
            check(same_text(&Flat(String::new()).visit(&*root), &flat), 47);
            check(same_text(&root.get_text(), &flat), 48);
            cover(1);
        }
    }
}
fn calc_n(n: u64, alphabet: &[u8]) {
    let o = Oracle::new(&calc_rules(), n as usize + 1);
    calc(sym_over(choose(n + 1) as usize, alphabet), &o)
}

// ---- XML: modes, more, non-greedy loops, a predicate, an embedded action ---------------------------
fn xml_rules() -> Vec<LRule> {
    let any = |l: &str, r: &str| Seq(vec![lit(l), star_ng(Any), lit(r)]);
    let not = |s: &str| Not(s.chars().map(|c| (c as i64, c as i64)).collect());
    let set = |s: &str| C(s.chars().map(|c| (c as i64, c as i64)).collect());
    let short = |mut r: LRule| {
        r.shortest = true;
        r
    };
    // fragments are spelt out (only ASCII is lexed)
    let start = || C(vec![(':' as i64, ':' as i64), ('a' as i64, 'z' as i64), ('A' as i64, 'Z' as i64)]);
    let digit = || rng('0', '9');
    let hex = || C(vec![('0' as i64, '9' as i64), ('a' as i64, 'f' as i64), ('A' as i64, 'F' as i64)]);
    let name = || Seq(vec![start(), star(Alt(vec![start(), set("-."), digit()]))]);
    vec![
        short(lr(1, any("<!--", "-->"), vec![])),
        short(lr(2, any("<![CDATA[", "]]>"), vec![])),
        short(lr(3, any("<!", ">"), vec![Cmd::Skip])),
        lr(4, Seq(vec![ch('&'), name(), ch(';')]), vec![]),
        lr(5, Alt(vec![Seq(vec![lit("&#"), plus(digit()), ch(';')]), Seq(vec![lit("&#x"), plus(hex()), ch(';')])]), vec![]),
        lr(6, Alt(vec![set(" \t"), Seq(vec![opt(ch('\r')), ch('\n')])]), vec![]),
        lr(7, ch('<'), vec![Cmd::Push(1)]),
        lr(8, Seq(vec![lit("<?xml"), set(" \t\r\n")]), vec![Cmd::Push(1)]),
        lr(18, Seq(vec![lit("<?"), name()]), vec![Cmd::More, Cmd::Push(2)]),
        lr(9, plus(not("<&")), vec![]),
        lrm(1, 10, ch('>'), vec![Cmd::Pop]),
        lrm(1, 11, lit("?>"), vec![Cmd::Pop]),
        lrm(1, 12, lit("/>"), vec![Cmd::Pop]),
        lrm(1, 13, ch('/'), vec![]),
        lrm(1, 14, ch('='), vec![]),
        lrm(1, 15, Alt(vec![Seq(vec![ch('"'), star(not("<\"")), ch('"')]), Seq(vec![ch('\''), star(not("<'")), ch('\'')])]), vec![]),
        lrm(1, 16, name(), vec![]),
        lrm(1, 17, set(" \t\r\n"), vec![Cmd::Skip]),
        lrm(2, 18, lit("?>"), vec![Cmd::Pop]),
        lrm(2, 19, Any, vec![Cmd::More]),
    ]
}
fn xml(text: &'static str, oracle: &Oracle) {
    let (cs, ix) = ascii(text);
    let w = oracle.run(&cs, &ix, text);
    let mut lexer = xmllexer::XMLLexer::new(InputStream::new(text));
    lexer.remove_error_listeners();
    let le = log();
    lexer.add_error_listener(Box::new(Rec(le.clone())));
    for x in &w.toks {
        let t = lexer.next_token();
        check(t.get_token_type() as i64 == x.ty && t.get_channel() as i64 == x.channel, 60);
        check((t.get_start() as i64, t.get_stop() as i64) == (x.start, x.stop), 61);
        check((t.get_line() as i64, t.get_column() as i64) == (x.line, x.column), 62);
        if x.ty != -1 {
            check(t.get_text() == x.text.as_str(), 63);
        }
    }
    lexer_errors(&w, &le, 64);
    cover(1);
    if w.errs.len() > 0 {
        cover(2);
    }
}
fn xml_n(prefix: &'static str, n: u64, alphabet: &[u8]) {
    let o = Oracle::new(&xml_rules(), prefix.len() + n as usize + 1);
    let t = sym_over(choose(n + 1) as usize, alphabet);
    xml(Box::leak(format!("{}{}", prefix, t).into_boxed_str()), &o)
}
macro_rules! entries {
    ($($f:ident $e:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { $e })* harnesses! {$($f),*} }
}
entries! {
    h_csv csv_n(5, b"a,\"\n ");
    h_csv_cr csv_n(6, b"a\r\n");
    h_csv7 csv_n(7, b"a,\n");
    h_csv6 csv_n(6, b"a,\"\r\n ");
    h_labels labels_n(5, b"a1+*() ");
    h_labels_post labels_n(7, b"a+-");
    h_labels6 labels_n(7, b"a+*()");
    h_calc calc_n(5, b"12+-*/ ");
    h_calc7 calc_n(7, b"1+*");
    h_calc8 calc_n(8, b"1+-/ ");
    h_xml xml_n("", 4, b"<>/a&;! ");
    h_xml_tag xml_n("<a", 4, b"<>/a=\" ?");
    h_xml_decl xml_n("<?", 4, b"?>axml ");
    h_xml_comment xml_n("<!--", 5, b"->a");
    h_xml_cdata xml_n("<![CDATA[", 5, b"]>a");
    h_xml_entity xml_n("&", 5, b"#x1a;");
    h_xml6 xml_n("", 6, b"<>/a&;! ");
}
