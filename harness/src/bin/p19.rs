//! P19: tokens, token factories, vocabularies and every kind of input stream.
#![allow(warnings)]
use antlr_rust::char_stream::CharStream;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::errors::ANTLRError;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::input_stream::InputStream;
use antlr_rust::int_stream::IntStream;
use antlr_rust::lexer::*;
use antlr_rust::lexer_atn_simulator::*;
use antlr_rust::recognizer::*;
use antlr_rust::rule_context::*;
use antlr_rust::token::*;
use antlr_rust::token_factory::*;
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::vocabulary::*;
use antlr_rust::{PredictionContextCache, TidAble, TokenSource};
use std::borrow::{Borrow, Cow};
use std::sync::Arc;
use vpharness::gram::*;
use vpharness::lex::{ascii, atn, dfas, same_text, tk_of, Dfas, Log, Oracle, Rec, Tk};
use vpharness::*;

fn sym_field(lo: i64, hi: i64) -> isize {
    sym_in(16, lo, hi) as isize
}
struct Fields {
    ty: isize,
    channel: isize,
    line: isize,
    column: isize,
}
fn fields() -> Fields {
    Fields { ty: sym_field(-1, 30000), channel: sym_field(0, 30000), line: sym_field(0, 30000), column: sym_field(-1, 30000) }
}
fn look<T: Token<Data = str> + ?Sized>(t: &T, f: &Fields, start: isize, stop: isize, index: isize, text: &str, base: u32) {
    check(t.get_token_type() == f.ty, base);
    check(t.get_channel() == f.channel, base + 1);
    check((t.get_start() == start) & (t.get_stop() == stop), base + 2);
    check((t.get_line() == f.line) & (t.get_column() == f.column), base + 3);
    check(t.get_token_index() == index, base + 4);
    if f.ty == TOKEN_EOF {
        check(t.get_text() == "<EOF>", base + 5);
    } else {
        check(same_text(t.get_text(), text), base + 5);
    }
}
/// a token made by factory `tf` says what it was made of; so do its clone and its owned copy
fn create<'a, F, Inner>(tf: &'a F)
where
    Inner: Token<Data = str> + 'a,
    F: TokenFactory<'a, Data = str, Inner = Inner>,
    InputStream<&'static str>: CharStream<F::From>,
{
    let f = fields();
    let src = sym_ascii(3);
    let mut s = InputStream::new(src);
    let (text, start, stop, with, want): (Option<String>, isize, isize, bool, String) = match choose(4) {
        // given text, with or without a source
        0 => {
            let t = sym_ascii(choose(3) as usize);
            (Some(t.to_string()), sym_field(-1, 30000), sym_field(-2, 30000), choose(2) == 0, t.to_string())
        }
        // no text, span of the source
        1 => {
            let a = choose(3) as isize;
            let b = a - 1 + choose(4 - a as u64) as isize;
            (None, a, b, true, src[a as usize..(b + 1) as usize].to_string())
        }
        // beyond the source
        2 => {
            let a = 3 + choose(2) as isize;
            (None, a, a - 1 + choose(2) as isize, true, "<EOF>".to_string())
        }
        _ => (None, sym_field(-1, 30000), sym_field(-2, 30000), false, String::new()),
    };
    let t = tf.create(if with { Some(&mut s) } else { None }, f.ty, text, f.channel, start, stop, f.line, f.column);
    {
        let t: &Inner = t.borrow();
        look(t, &f, start, stop, -1, &want, 10);
    }
    let c = t.clone();
    let i = sym_field(0, 30000);
    {
        let t: &Inner = t.borrow();
        t.set_token_index(i);
        look(t, &f, start, stop, i, &want, 20);
        let o = Token::to_owned(t);
        look(&o, &f, start, stop, i, &want, 30);
        let p = o.clone();
        o.set_token_index(i + 1);
        look(&p, &f, start, stop, i, &want, 40);
    }
    {
        let c: &Inner = c.borrow();
        look(c, &f, start, stop, if std::mem::size_of::<F::Tok>() == 8 && std::ptr::eq(c, t.borrow()) { i } else { -1 }, &want, 50);
    }
    // a second token leaves the first alone
    let u = tf.create(None::<&mut InputStream<&'static str>>, 5, Some("zz".to_string()), 0, 0, 0, 0, 0);
    {
        let (t, u): (&Inner, &Inner) = (t.borrow(), u.borrow());
        look(t, &f, start, stop, i, &want, 60);
        check(u.get_text() == "zz" && u.get_token_type() == 5 && u.get_token_index() == -1, 66);
    }
    let v = F::create_invalid();
    let v: &Inner = v.borrow();
    check(v.get_token_type() == TOKEN_INVALID_TYPE && v.get_text() == "<invalid>", 67);
    check(v.get_start() == -1 && v.get_stop() == -1 && v.get_line() == -1 && v.get_column() == -1 && v.get_channel() == 0, 68);
    cover(1);
}
#[no_mangle]
pub extern "C" fn h_create() {
    match choose(4) {
        0 => {
            let f: &'static CommonTokenFactory = Box::leak(Box::new(CommonTokenFactory));
            create(f)
        }
        1 => {
            let f: &'static OwningTokenFactory = Box::leak(Box::new(OwningTokenFactory));
            create(f)
        }
        2 => {
            let f: &'static ArenaCommonFactory<'static> = Box::leak(Box::new(Default::default()));
            create(f)
        }
        _ => {
            let f: &'static ArenaOwningFactory<'static> = Box::leak(Box::new(Default::default()));
            create(f)
        }
    }
}
#[no_mangle]
pub extern "C" fn h_set_text() {
    let f = fields();
    let (a, b) = (sym_ascii(2), sym_ascii(choose(3) as usize));
    let mut t = (&vpharness::lex::TF).create(None::<&mut InputStream<&'static str>>, f.ty, Some(a.to_string()), f.channel, 3, 4, f.line, f.column);
    let mut o = Token::to_owned(&*t);
    t.set_text(b.to_string());
    look(&*t, &f, 3, 4, -1, b, 10);
    look(&o, &f, 3, 4, -1, a, 20);
    o.set_text(b.to_string());
    look(&o, &f, 3, 4, -1, b, 30);
    look(&Token::to_owned(&*t), &f, 3, 4, -1, b, 40);
    cover(1);
}
fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c => r.push(c),
        }
    }
    r
}
#[no_mangle]
pub extern "C" fn h_display() {
    let a = sym_ascii(2);
    let ty = [-1, 1, 12][choose(3) as usize];
    let ch = [0isize, 1, 25][choose(3) as usize];
    let (start, stop, line, col) = [(0isize, 1isize, 1isize, 0isize), (10, 9, 120, 33)][choose(2) as usize];
    let t = (&vpharness::lex::TF).create(None::<&mut InputStream<&'static str>>, ty, Some(a.to_string()), ch, start, stop, line, col);
    if choose(2) == 0 {
        t.set_token_index(7);
    }
    let got = if choose(2) == 0 { t.to_string() } else { Token::to_owned(&*t).to_string() };
    let text = if ty == -1 { "<EOF>".to_string() } else { esc(a) };
    let chs = if ch > 0 { format!("{}", ch) } else { String::new() };
    let want = format!("[@{},{}:{}='{}',<{}>{},{}:{}]", t.get_token_index(), start, stop, text, ty, chs, line, col);
    check(same_text(&want, &got), 1);
    out_str(&got);
    cover(1);
}

// ---- vocabularies -------------------------------------------------------------------------------
fn name(k: u64) -> Option<&'static str> {
    match k {
        0 => None,
        1 => Some("'x'"),
        _ => Some("Yy"),
    }
}
#[no_mangle]
pub extern "C" fn h_vocabulary() {
    let lens = (choose(4) as usize, choose(4) as usize, choose(4) as usize);
    let list = |n: usize, s: &'static [&'static str]| -> Vec<Option<&'static str>> { (0..n).map(|i| if choose(2) == 0 { None } else { Some(s[i]) }).collect() };
    let lit = list(lens.0, &["'a'", "'b'", "'c'"]);
    let sym = list(lens.1, &["A", "B", "C"]);
    let dis = list(lens.2, &["da", "db", "dc"]);
    let v = VocabularyImpl::new(lit.iter(), sym.iter(), if lens.2 == 0 && choose(2) == 0 { None } else { Some(dis.iter()) });
    check(v.get_max_token_type() == lens.0.max(lens.1).max(lens.2) as isize - 1, 1);
    for t in -2..5isize {
        let at = |l: &Vec<Option<&'static str>>| if t < 0 { None } else { l.get(t as usize).copied().flatten() };
        let s = if t == TOKEN_EOF { Some("EOF") } else { at(&sym) };
        check(v.get_literal_name(t) == at(&lit), 2);
        check(v.get_symbolic_name(t) == s, 3);
        let want = at(&dis).or(at(&lit)).or(s).map(|x| x.to_string()).unwrap_or(t.to_string());
        check(v.get_display_name(t) == want, 4);
    }
    cover(1);
}
/// token names as older grammars give them
#[no_mangle]
pub extern "C" fn h_token_names() {
    let n = choose(3) as usize;
    let mut names: Vec<Option<&'static str>> = (0..n).map(|_| match choose(4) {
        0 => None,
        1 => Some(""),
        2 => Some(["é", "Éa", "ß"][choose(3) as usize]),
        _ => Some(sym_ascii(2)),
    }).collect();
    let v = VocabularyImpl::from_token_names(&names);
    check(v.get_max_token_type() == n as isize - 1, 1);
    for t in 0..n {
        let (l, s, d) = (v.get_literal_name(t as isize), v.get_symbolic_name(t as isize), v.get_display_name(t as isize));
        match names[t] {
            None => {
                check(l.is_none() && s.is_none(), 2);
                check(d == t.to_string(), 3);
            }
            Some(x) => {
                let quoted = x.as_bytes().first() == Some(&39);
                let upper = x.as_bytes().first().map_or(false, |c| (*c >= 65) & (*c <= 90)) || x == "Éa";
                check(l.is_some() == quoted, 4);
                check(s.is_some() == upper, 5);
                for y in l.iter().chain(s.iter()) {
                    check(same_text(x, y), 6);
                }
                check(same_text(x, &d), 7);
            }
        }
    }
    cover(1);
}

// ---- streams and factories under a lexer --------------------------------------------------------
struct Nothing;
impl<'i, I: CharStream<TF::From>, TF: TokenFactory<'i>> Actions<'i, BaseLexer<'i, Nothing, I, TF>> for Nothing {}
impl<'i, I: CharStream<TF::From>, TF: TokenFactory<'i>> LexerRecog<'i, BaseLexer<'i, Nothing, I, TF>> for Nothing {}

fn make<I, TF>(input: I, tf: &'static TF, a: &Arc<antlr_rust::atn::ATN>, d: &Dfas) -> (BaseLexer<'static, Nothing, I, TF>, Log)
where
    I: CharStream<TF::From>,
    TF: TokenFactory<'static> + 'static,
{
    let sim = LexerATNSimulator::new_lexer_atnsimulator(a.clone(), d.clone(), Arc::new(PredictionContextCache::new()));
    let mut l = BaseLexer::new_base_lexer(input, sim, Nothing, tf);
    l.remove_error_listeners();
    let log: Log = Default::default();
    l.add_error_listener(Box::new(Rec(log.clone())));
    (l, log)
}
fn tk<T: Token<Data = str> + ?Sized>(t: &T) -> Tk {
    Tk {
        ty: t.get_token_type() as i64,
        channel: t.get_channel() as i64,
        start: t.get_start() as i64,
        stop: t.get_stop() as i64,
        line: t.get_line() as i64,
        column: t.get_column() as i64,
        text: t.get_text().to_string(),
    }
}
fn lex<I, TF, Inner>(input: I, tf: &'static TF, a: &Arc<antlr_rust::atn::ATN>, d: &Dfas, how: u64, w: &vpharness::lex::Want, text: &str)
where
    I: CharStream<TF::From> + 'static,
    Inner: Token<Data = str> + 'static,
    TF: TokenFactory<'static, Data = str, Inner = Inner> + 'static,
{
    let (mut l, log) = make(input, tf, a, d);
    let mut got = vec![];
    match how {
        // one by one
        0 => loop {
            let t = l.next_token();
            let t: &Inner = t.borrow();
            got.push(tk(t));
            if t.get_token_type() == TOKEN_EOF || got.len() > 8 {
                break;
            }
        },
        // collected first, looked at later
        1 => {
            let mut v = vec![];
            loop {
                let t = (&mut &mut l).next_token();
                let e = { let t: &Inner = t.borrow(); t.get_token_type() } == TOKEN_EOF;
                v.push(t);
                if e || v.len() > 8 {
                    break;
                }
            }
            got = v.iter().map(|t| { let t: &Inner = t.borrow(); tk(t) }).collect();
        }
        // through a buffered stream
        2 => {
            let mut s = CommonTokenStream::new(l);
            while s.la(1) != TOKEN_EOF && s.index() < 8 {
                s.consume();
            }
            for i in 0..=s.index() {
                let t: &Inner = s.get(i).borrow();
                check(t.get_token_index() == i, 30);
                got.push(tk(t));
            }
            let all = s.get_all_text();
            if (*log).borrow().is_empty() {
                check(all.len() == text.len() && same_text(&all, text), 31);
            }
            cover(4);
        }
        // through an unbuffered stream
        _ => {
            let mut s = UnbufferedTokenStream::new_unbuffered(l);
            loop {
                let i = s.index();
                let t: &Inner = s.lt(1).unwrap().borrow();
                check(t.get_token_index() == i, 32);
                got.push(tk(t));
                if s.la(1) == TOKEN_EOF || got.len() > 8 {
                    break;
                }
                s.consume();
            }
        }
    }
    vpharness::lex::compare(w, &got, &log, 1);
    if (*log).borrow().len() > 0 {
        cover(2);
    }
    cover(1);
}
fn rules() -> Vec<LRule> {
    vec![
        lr(1, lit("ab"), vec![]),
        lr(2, plus(C(vec![(97, 99), (0xE0, 0xFF)])), vec![]),
        lr(3, S(vec![(10, 10), (32, 32), (0x20AC, 0x20AC)]), vec![Cmd::Channel(0)]),
    ]
}
fn leak<T: 'static>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}
fn factories<I: CharStream<Cow<'static, str>> + CharStream<String> + 'static>(input: I, a: &Arc<antlr_rust::atn::ATN>, d: &Dfas, w: &vpharness::lex::Want, text: &str) {
    let how = choose(4);
    match choose(4) {
        0 => lex(input, leak(CommonTokenFactory), a, d, how, w, text),
        1 => lex(input, leak(OwningTokenFactory), a, d, how, w, text),
        2 => lex(input, leak(ArenaCommonFactory::default()), a, d, how, w, text),
        _ => lex(input, leak(ArenaOwningFactory::default()), a, d, how, w, text),
    }
}
fn setup() -> (Arc<antlr_rust::atn::ATN>, Dfas, Vec<LRule>) {
    let r = rules();
    let a = atn(&lexer_builder(&r, 1));
    let d = dfas(&a);
    (a, d, r)
}
fn strings(n: usize, len: u64) {
    let (a, d, r) = setup();
    let (cs, ix, text) = sym_text(n, len);
    let w = Oracle::new(&r, cs.len() + 1).run(&cs, &ix, text);
    if choose(2) == 0 {
        factories(InputStream::new(text), &a, &d, &w, text);
    } else {
        factories(InputStream::new_owned(text.to_string().into_boxed_str()), &a, &d, &w, text);
    }
}
/// borrowed and owned strings
#[no_mangle]
pub extern "C" fn h_strings() {
    strings(2, 3);
}
#[no_mangle]
pub extern "C" fn h_strings3() {
    strings(3, 2);
}
/// symbols of 8, 16 and 32 bits: positions count symbols
fn units(n: usize, len: u64) {
    let (a, d, r) = setup();
    let w = choose(3);
    let len = if w == 0 { len.min(2) } else { len };
    let (cs, bx, text) = sym_text(n, len);
    let mut want = Oracle::new(&r, cs.len() + 1).run(&cs, &bx, text);
    // byte offsets -> symbol offsets
    let pos = |b: i64| bx.iter().position(|x| *x as i64 == b).unwrap() as i64;
    for t in &mut want.toks {
        let (s, e) = (pos(t.start), pos(t.stop + 1) - 1);
        t.start = s;
        t.stop = e;
    }
    match w {
        0 => {
            cs.iter().for_each(|c| assume(*c < 256));
            let v: Vec<u8> = cs.iter().map(|c| *c as u8).collect();
            factories(InputStream::new(&leak(v)[..]), &a, &d, &want, text)
        }
        1 => {
            let v: Vec<u16> = cs.iter().map(|c| *c as u16).collect();
            factories(InputStream::new(&leak(v)[..]), &a, &d, &want, text)
        }
        _ => factories(InputStream::new(&leak(cs.clone())[..]), &a, &d, &want, text),
    }
}
#[no_mangle]
pub extern "C" fn h_units() {
    units(2, 3);
}
#[no_mangle]
pub extern "C" fn h_units3() {
    units(3, 2);
}
#[no_mangle]
pub extern "C" fn h_strings4() {
    strings(4, 4);
}
#[no_mangle]
pub extern "C" fn h_units4() {
    units(4, 2);
}
harnesses! {h_create, h_set_text, h_display, h_vocabulary, h_token_names, h_strings, h_strings3, h_units, h_units3, h_strings4, h_units4}
