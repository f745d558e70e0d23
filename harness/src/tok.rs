//! Token source over given (type, channel) pairs; token i has text "a", "b", ...
use antlr_rust::int_stream::IntStream;
use antlr_rust::token::*;
use antlr_rust::token_factory::*;
use antlr_rust::TokenSource;
use std::borrow::Cow;
use std::sync::atomic::AtomicIsize;

pub struct VecSource {
    pub toks: Vec<(isize, isize)>,
    pub next: usize,
    pub asked_past_eof: bool,
    pub text: fn(usize) -> &'static str,
}
antlr_rust::tid! { VecSource }
static TF: CommonTokenFactory = CommonTokenFactory;
pub fn text(i: usize) -> &'static str {
    &"abcdefghijklmnopqrstuvwxyz"[i..i + 1]
}
/// texts full of white space
pub fn text_ws(i: usize) -> &'static str {
    ["\n", "a\tb", " ", "\r\n", "x y"][i % 5]
}
impl VecSource {
    pub fn new(toks: Vec<(isize, isize)>) -> Self {
        VecSource { toks, next: 0, asked_past_eof: false, text }
    }
}
impl TokenSource<'static> for VecSource {
    type TF = CommonTokenFactory;
    fn next_token(&mut self) -> Box<CommonToken<'static>> {
        let i = self.next;
        self.next += 1;
        let (ty, ch, tx) = if i < self.toks.len() {
            (self.toks[i].0, self.toks[i].1, (self.text)(i))
        } else {
            (TOKEN_EOF, 0, "<EOF>")
        };
        if i > self.toks.len() {
            self.asked_past_eof = true;
        }
        Box::new(GenericToken {
            token_type: ty,
            channel: ch,
            start: i as isize,
            stop: i as isize,
            token_index: AtomicIsize::new(-1),
            line: 1,
            column: i as isize,
            text: Cow::Borrowed(tx),
            read_only: false,
        })
    }
    fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
        None
    }
    fn get_source_name(&self) -> String {
        "vec".to_string()
    }
    fn get_token_factory(&self) -> &'static CommonTokenFactory {
        &TF
    }
}
