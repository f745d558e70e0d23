//! Parser for the textual LLVM IR that rustc emits after fat LTO.
use crate::ir::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    W(&'a str),      // word
    L(&'a str),      // %local
    G(&'a str),      // @global
    N(&'a str),      // number
    S(&'a [u8]),     // "string" raw (between quotes)
    C(&'a [u8]),     // c"string" raw
    M,               // !metadata
    P(u8),           // punctuation
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn tokenize<'a>(s: &'a str, out: &mut Vec<Tok<'a>>) {
    let b = s.as_bytes();
    let mut i = 0;
    let n = b.len();
    while i < n {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => {
                i += 1;
            }
            b';' => {
                // comment up to the end of line
                while i < n && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let st;
                let en;
                if i + 1 < n && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < n && is_word(b[j]) {
                        j += 1;
                    }
                    en = j;
                    i = j;
                }
                out.push(if c == b'%' { Tok::L(&s[st..en]) } else { Tok::G(&s[st..en]) });
            }
            b'!' => {
                // metadata: everything after the first ", !" is ignored by callers
                let mut j = i + 1;
                while j < n && is_word(b[j]) {
                    j += 1;
                }
                out.push(Tok::M);
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::S(&b[i + 1..j]));
                i = j + 1;
            }
            b'c' if i + 1 < n && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::C(&b[i + 2..j]));
                i = j + 1;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < n && is_word(b[j]) || j < n && b[j] == b'+' {
                    j += 1;
                }
                out.push(Tok::N(&s[i..j]));
                i = j;
            }
            _ if is_word(c) => {
                let mut j = i + 1;
                while j < n && is_word(b[j]) {
                    j += 1;
                }
                out.push(Tok::W(&s[i..j]));
                i = j;
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
    }
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

struct P<'a, 'b> {
    t: &'b [Tok<'a>],
    i: usize,
}

impl<'a, 'b> P<'a, 'b> {
    fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok<'a> {
        let x = self.t[self.i].clone();
        self.i += 1;
        x
    }
    fn is_p(&self, c: u8) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x==c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if *x==w)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect_p(&mut self, c: u8) {
        if !self.eat_p(c) {
            panic!("expected {} got {:?} in {:?}", c as char, self.peek(), &self.t);
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    /// skip attribute words before a type or value
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let w = *w;
                    if is_type_word(w) || is_value_word(w) {
                        return;
                    }
                    self.i += 1;
                    if w == "align" {
                        if let Some(Tok::N(_)) = self.peek() {
                            self.i += 1;
                        }
                        if self.is_p(b'(') {
                            self.skip_parens();
                        }
                    } else if self.is_p(b'(') {
                        self.skip_parens();
                    }
                }
                Some(Tok::S(_)) => {
                    self.i += 1;
                    if self.eat_p(b'=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "opaque" | "x86_fp80" | "fp128")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr"
            | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "mul" | "asm" | "shl"
    )
}

pub struct Parser {
    pub m: Module,
}

struct FnCtx<'a> {
    regs: HashMap<&'a str, u32>,
    nregs: u32,
    labels: HashMap<&'a str, u32>,
    nblocks: u32,
}

impl<'a> FnCtx<'a> {
    fn reg(&mut self, n: &'a str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn label(&mut self, n: &'a str) -> u32 {
        if let Some(&r) = self.labels.get(n) {
            return r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.labels.insert(n, r);
        r
    }
}

fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

impl Parser {
    pub fn new() -> Self {
        Parser {
            m: Module {
                types: Types::new(),
                funcs: vec![],
                fmap: HashMap::new(),
                globals: vec![],
                gmap: HashMap::new(),
                aliases: vec![],
                consts: vec![],
            },
        }
    }

    fn ty(&mut self, p: &mut P) -> TyId {
        let mut t = match p.next() {
            Tok::W(w) => match w {
                "void" => self.m.types.get(Ty::Void),
                "ptr" => {
                    if p.is_w("addrspace") {
                        p.i += 1;
                        p.skip_parens();
                    }
                    self.m.types.get(Ty::Ptr)
                }
                "float" => self.m.types.get(Ty::Float(32)),
                "double" => self.m.types.get(Ty::Float(64)),
                "half" => self.m.types.get(Ty::Float(16)),
                "fp128" => self.m.types.get(Ty::Float(128)),
                "label" => self.m.types.get(Ty::Label),
                "metadata" | "token" => self.m.types.get(Ty::Meta),
                "opaque" => self.m.types.get(Ty::Func),
                _ if w.starts_with('i') => self.m.types.get(Ty::Int(w[1..].parse().unwrap())),
                _ => panic!("type word {} in {:?}", w, p.t),
            },
            Tok::L(n) => *self.m.types.named.get(n).unwrap_or_else(|| panic!("named type {}", n)),
            Tok::P(b'{') => {
                let mut f = vec![];
                if !p.eat_p(b'}') {
                    loop {
                        f.push(self.ty(p));
                        if p.eat_p(b'}') {
                            break;
                        }
                        p.expect_p(b',');
                    }
                }
                self.m.types.get(Ty::Struct(f, false))
            }
            Tok::P(b'[') => {
                let n: u64 = match p.next() {
                    Tok::N(n) => n.parse().unwrap(),
                    x => panic!("{:?}", x),
                };
                assert!(p.eat_w("x"));
                let e = self.ty(p);
                p.expect_p(b']');
                self.m.types.get(Ty::Array(n, e))
            }
            Tok::P(b'<') => {
                if p.eat_p(b'{') {
                    let mut f = vec![];
                    if !p.eat_p(b'}') {
                        loop {
                            f.push(self.ty(p));
                            if p.eat_p(b'}') {
                                break;
                            }
                            p.expect_p(b',');
                        }
                    }
                    p.expect_p(b'>');
                    self.m.types.get(Ty::Struct(f, true))
                } else {
                    let n: u64 = match p.next() {
                        Tok::N(n) => n.parse().unwrap(),
                        x => panic!("{:?}", x),
                    };
                    assert!(p.eat_w("x"));
                    let e = self.ty(p);
                    p.expect_p(b'>');
                    self.m.types.get(Ty::Vector(n, e))
                }
            }
            x => panic!("type tok {:?} in {:?}", x, p.t),
        };
        // function type
        if p.is_p(b'(') {
            p.skip_parens();
            t = self.m.types.get(Ty::Func);
        }
        t
    }

    /// parse return type of a call, which may be a function type `i64 (i64, ...)`
    fn call_ty(&mut self, p: &mut P) -> TyId {
        let save = p.i;
        let t = self.ty(p);
        if *self.m.types.ty(t) == Ty::Func {
            p.i = save;
            // re-parse just the return type: cut the token list at '('
            let mut q = P { t: p.t, i: save };
            let r = self.ty_nofn(&mut q);
            p.i = q.i;
            p.skip_parens();
            return r;
        }
        t
    }
    fn ty_nofn(&mut self, p: &mut P) -> TyId {
        // types used as return types in function-type calls are scalars here
        match p.next() {
            Tok::W("void") => self.m.types.get(Ty::Void),
            Tok::W("ptr") => self.m.types.get(Ty::Ptr),
            Tok::W(w) if w.starts_with('i') => self.m.types.get(Ty::Int(w[1..].parse().unwrap())),
            x => panic!("fn ret type {:?}", x),
        }
    }

    fn int_lit(&self, s: &str, w: u32) -> u128 {
        if let Some(h) = s.strip_prefix("0x") {
            return u128::from_str_radix(h, 16).unwrap_or(0) & mask(w);
        }
        if s.contains('.') || s.contains('e') {
            let f: f64 = s.parse().unwrap_or(0.0);
            return if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
        }
        if let Some(x) = s.strip_prefix('-') {
            let v: u128 = x.parse().unwrap();
            (v.wrapping_neg()) & mask(w)
        } else {
            let v: u128 = s.parse().unwrap_or_else(|_| panic!("int {}", s));
            v & mask(w)
        }
    }

    fn typed_const(&mut self, p: &mut P) -> (TyId, Const) {
        let t = self.ty(p);
        let c = self.constant(p, t);
        (t, c)
    }

    fn constant(&mut self, p: &mut P, t: TyId) -> Const {
        match p.next() {
            Tok::N(n) => {
                let w = self.m.types.bits(t);
                Const::Int(self.int_lit(n, w))
            }
            Tok::W("true") => Const::Int(1),
            Tok::W("false") => Const::Int(0),
            Tok::W("null") | Tok::W("none") => Const::Int(0),
            Tok::W("undef") | Tok::W("poison") => Const::Undef,
            Tok::W("zeroinitializer") => Const::Zero,
            Tok::C(s) => Const::Bytes(unescape(s)),
            Tok::G(g) => Const::Sym(g.to_string()),
            Tok::W("splat") => {
                p.expect_p(b'(');
                let c = self.typed_const(p);
                p.expect_p(b')');
                Const::Splat(Box::new(c))
            }
            Tok::P(b'{') | Tok::P(b'[') => self.const_list(p),
            Tok::P(b'<') => {
                if p.eat_p(b'{') {
                    let c = self.const_list(p);
                    p.expect_p(b'>');
                    c
                } else {
                    self.const_list(p)
                }
            }
            Tok::W("getelementptr") => {
                while let Some(Tok::W(w)) = p.peek() {
                    if is_type_word(w) {
                        break;
                    }
                    p.i += 1;
                    if p.is_p(b'(') && matches!(p.t.get(p.i + 1), Some(Tok::N(_))) {
                        p.skip_parens(); // inrange(..)
                    }
                }
                p.expect_p(b'(');
                let bt = self.ty(p);
                p.expect_p(b',');
                let (_, base) = self.typed_const(p);
                let mut off = 0i64;
                let mut cur = bt;
                let mut first = true;
                while p.eat_p(b',') {
                    let (it, ic) = self.typed_const(p);
                    let w = self.m.types.bits(it);
                    let iv = match ic {
                        Const::Int(v) => ((v << (128 - w)) as i128 >> (128 - w)) as i64,
                        x => panic!("gep const idx {:?}", x),
                    };
                    if first {
                        off += iv * self.m.types.size(cur) as i64;
                        first = false;
                    } else {
                        match self.m.types.ty(cur).clone() {
                            Ty::Struct(..) => {
                                let (o, ft) = self.m.types.field_off(cur, iv as usize);
                                off += o as i64;
                                cur = ft;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => {
                                off += iv * self.m.types.size(e) as i64;
                                cur = e;
                            }
                            x => panic!("gep const {:?}", x),
                        }
                    }
                }
                p.expect_p(b')');
                Const::Off(Box::new(base), off)
            }
            Tok::W(op @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc")) => {
                p.expect_p(b'(');
                let (_, c) = self.typed_const(p);
                assert!(p.eat_w("to"));
                let tt = self.ty(p);
                p.expect_p(b')');
                if op == "trunc" {
                    let w = self.m.types.bits(tt);
                    return Const::Bin(BinOp::And, w, Box::new(c), Box::new(Const::Int(mask(w))));
                }
                Const::PtrToInt(Box::new(c))
            }
            Tok::W(op @ ("add" | "sub" | "xor" | "mul" | "shl")) => {
                while let Some(Tok::W(_)) = p.peek() {
                    p.i += 1;
                }
                p.expect_p(b'(');
                let (t1, a) = self.typed_const(p);
                p.expect_p(b',');
                let (_, b) = self.typed_const(p);
                p.expect_p(b')');
                let o = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "xor" => BinOp::Xor,
                    "mul" => BinOp::Mul,
                    _ => BinOp::Shl,
                };
                let w = self.m.types.bits(t1);
                Const::Bin(o, w, Box::new(a), Box::new(b))
            }
            x => panic!("const tok {:?} at {} in {:?}", x, p.i, &p.t[p.i.saturating_sub(8)..(p.i + 4).min(p.t.len())]),
        }
    }

    fn const_list(&mut self, p: &mut P) -> Const {
        let mut v = vec![];
        if p.is_p(b'}') || p.is_p(b']') || p.is_p(b'>') {
            p.i += 1;
            return Const::Agg(v);
        }
        loop {
            v.push(self.typed_const(p));
            if p.is_p(b'}') || p.is_p(b']') || p.is_p(b'>') {
                p.i += 1;
                return Const::Agg(v);
            }
            p.expect_p(b',');
        }
    }

    fn op<'a>(&mut self, p: &mut P<'a, '_>, t: TyId, f: &mut FnCtx<'a>) -> Op {
        if let Some(Tok::L(n)) = p.peek() {
            let n = *n;
            p.i += 1;
            return Op::Reg(f.reg(n));
        }
        if *self.m.types.ty(t) == Ty::Meta {
            // metadata argument: skip it
            let mut d = 0;
            loop {
                match p.peek() {
                    Some(Tok::P(b'(')) => d += 1,
                    Some(Tok::P(b')')) => {
                        if d == 0 {
                            break;
                        }
                        d -= 1
                    }
                    Some(Tok::P(b',')) if d == 0 => break,
                    None => break,
                    _ => {}
                }
                p.i += 1;
            }
            return Op::Int(0);
        }
        let c = self.constant(p, t);
        self.mkop(t, c)
    }

    fn mkop(&mut self, t: TyId, c: Const) -> Op {
        let scalar = matches!(self.m.types.ty(t), Ty::Int(_) | Ty::Ptr);
        if scalar && self.m.types.bits(t) <= 64 {
            match c {
                Const::Int(v) => return Op::Int(v as u64),
                Const::Zero | Const::Undef => return Op::Int(0),
                _ => {}
            }
        }
        self.m.consts.push((t, c));
        Op::Const(self.m.consts.len() as u32 - 1)
    }

    fn typed_op<'a>(&mut self, p: &mut P<'a, '_>, f: &mut FnCtx<'a>) -> (TyId, Op) {
        let t = self.ty(p);
        let o = self.op(p, t, f);
        (t, o)
    }

    fn func_id(&mut self, name: &str) -> u32 {
        if let Some(&i) = self.m.fmap.get(name) {
            return i;
        }
        let i = self.m.funcs.len() as u32;
        self.m.funcs.push(Func { name: name.to_string(), defined: false, nparams: 0, nregs: 0, code: vec![], ret_bits: 0, used: false });
        self.m.fmap.insert(name.to_string(), i);
        i
    }

    pub fn parse(&mut self, text: &str) {
        // pass 1: named types
        for line in text.lines() {
            if line.starts_with('%') {
                let mut t = vec![];
                tokenize(line, &mut t);
                let mut p = P { t: &t, i: 0 };
                let n = match p.next() {
                    Tok::L(n) => n.to_string(),
                    _ => unreachable!(),
                };
                p.expect_p(b'=');
                p.eat_w("type");
                let ty = self.ty(&mut p);
                self.m.types.named.insert(n, ty);
            }
        }
        let b = text.as_bytes();
        let mut pos = 0;
        let n = b.len();
        while pos < n {
            let eol = memchr(b, pos, b'\n');
            let line = &text[pos..eol];
            let lb = line.as_bytes();
            if lb.is_empty() || lb[0] == b'!' || lb[0] == b';' || lb[0] == b'%' {
                pos = eol + 1;
                continue;
            }
            if lb[0] == b'@' {
                self.global(line);
                pos = eol + 1;
            } else if line.starts_with("declare") {
                self.declare(line);
                pos = eol + 1;
            } else if line.starts_with("define") {
                // the body ends at a line that is exactly "}"
                let mut e = eol + 1;
                loop {
                    let ee = memchr(b, e, b'\n');
                    if &text[e..ee] == "}" {
                        self.define(line, &text[eol + 1..e]);
                        pos = ee + 1;
                        break;
                    }
                    e = ee + 1;
                }
            } else {
                pos = eol + 1;
            }
        }
    }

    fn global(&mut self, line: &str) {
        let mut t = vec![];
        tokenize(line, &mut t);
        let mut p = P { t: &t, i: 0 };
        let name = match p.next() {
            Tok::G(n) => n.to_string(),
            x => panic!("{:?}", x),
        };
        p.expect_p(b'=');
        let mut external = false;
        let mut constant = false;
        loop {
            match p.next() {
                Tok::W("global") => break,
                Tok::W("constant") => {
                    constant = true;
                    break;
                }
                Tok::W("alias") => {
                    let _ = self.ty(&mut p);
                    p.expect_p(b',');
                    let (_, c) = self.typed_const(&mut p);
                    self.m.aliases.push((name, c));
                    return;
                }
                Tok::W("external") | Tok::W("extern_weak") => external = true,
                Tok::W(_) => {
                    if p.is_p(b'(') {
                        p.skip_parens();
                    }
                }
                x => panic!("global {:?} {}", x, line),
            }
        }
        let ty = self.ty(&mut p);
        let init = if external { None } else { Some(self.constant(&mut p, ty)) };
        let mut align = 0;
        while p.eat_p(b',') {
            if p.eat_w("align") {
                if let Tok::N(n) = p.next() {
                    align = n.parse().unwrap();
                }
            } else if p.peek().is_some() {
                p.i += 1;
                while p.i < p.t.len() && !p.is_p(b',') {
                    p.i += 1;
                }
            }
        }
        let align = if align == 0 { self.m.types.align(ty) } else { align };
        let id = self.m.globals.len() as u32;
        self.m.gmap.insert(name.clone(), id);
        self.m.globals.push(Global { name, ty, init, align, constant, addr: 0 });
    }

    fn fn_header<'a>(&mut self, p: &mut P<'a, '_>) -> (TyId, String) {
        // skip linkage/attrs until the type
        p.i += 1;
        let mut rt;
        loop {
            p.skip_attrs();
            match p.peek() {
                Some(Tok::W(_)) | Some(Tok::L(_)) | Some(Tok::P(_)) => {
                    rt = self.ty_ret(p);
                    break;
                }
                x => panic!("fn header {:?}", x),
            }
        }
        let name = match p.next() {
            Tok::G(n) => n.to_string(),
            x => panic!("fn name {:?} {:?}", x, p.t),
        };
        if *self.m.types.ty(rt) == Ty::Func {
            rt = self.m.types.get(Ty::Void);
        }
        (rt, name)
    }
    fn ty_ret(&mut self, p: &mut P) -> TyId {
        self.ty(p)
    }

    fn ret_bits(&self, t: TyId) -> u32 {
        match self.m.types.ty(t) {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) | Ty::Vector(..) => self.m.types.bits(t),
            _ => 0,
        }
    }

    fn declare(&mut self, line: &str) {
        let mut t = vec![];
        tokenize(line, &mut t);
        let mut p = P { t: &t, i: 0 };
        let (rt, name) = self.fn_header(&mut p);
        let id = self.func_id(&name);
        let rb = self.ret_bits(rt);
        self.m.funcs[id as usize].ret_bits = rb;
    }

    fn define(&mut self, header: &str, body: &str) {
        let mut t = vec![];
        tokenize(header, &mut t);
        let mut p = P { t: &t, i: 0 };
        let (rt, name) = self.fn_header(&mut p);
        let id = self.func_id(&name);
        let mut f = FnCtx { regs: HashMap::new(), nregs: 0, labels: HashMap::new(), nblocks: 0 };
        p.expect_p(b'(');
        let mut nparams = 0;
        let mut unnamed = 0u32;
        // leak small strings for implicit numbering
        if !p.eat_p(b')') {
            loop {
                if p.is_p(b'.') || p.is_w("...") {
                    // varargs
                    while !p.is_p(b')') {
                        p.i += 1;
                    }
                    p.i += 1;
                    break;
                }
                let _t = self.ty(&mut p);
                p.skip_attrs();
                match p.peek() {
                    Some(Tok::L(n)) => {
                        let n = *n;
                        p.i += 1;
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        f.reg(n);
                    }
                    _ => {
                        let s: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str());
                        unnamed += 1;
                        f.reg(s);
                    }
                }
                nparams += 1;
                if p.eat_p(b')') {
                    break;
                }
                p.expect_p(b',');
            }
        }
        let mut blocks: Vec<Option<(Vec<Ins>, Vec<(u32, Vec<(Op, u32)>)>)>> = vec![];
        let mut cur: Option<u32> = None;
        let mut insv: Vec<Ins> = vec![];
        let mut phis: Vec<(u32, Vec<(Op, u32)>)> = vec![];
        let mut lines = body.lines().peekable();
        // group physical lines into logical lines
        while let Some(l) = lines.next() {
            let lb = l.as_bytes();
            if lb.is_empty() || lb[0] == b';' {
                continue;
            }
            if l.trim_start().starts_with(';') || l.trim_start().starts_with('#') {
                continue; // comments and debug records
            }
            if lb[0] != b' ' {
                // label
                let name = if lb[0] == b'"' {
                    let e = memchr(lb, 1, b'"');
                    &l[1..e]
                } else {
                    let e = memchr(lb, 0, b':');
                    &l[..e]
                };
                if let Some(c) = cur {
                    put(&mut blocks, c, std::mem::take(&mut insv), std::mem::take(&mut phis));
                }
                cur = Some(f.label(name));
                continue;
            }
            if cur.is_none() {
                let s: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str());
                cur = Some(f.label(s));
            }
            let start = l.as_ptr() as usize - body.as_ptr() as usize;
            let mut end = start + l.len();
            let tr = l.trim_start();
            let opw = match tr.find(" = ") {
                Some(i) if tr.starts_with('%') => &tr[i + 3..],
                _ => tr,
            };
            if opw.starts_with("switch") {
                if !l.contains(']') {
                    for l2 in lines.by_ref() {
                        end = l2.as_ptr() as usize - body.as_ptr() as usize + l2.len();
                        if l2.trim_start().starts_with(']') {
                            break;
                        }
                    }
                }
            } else if opw.starts_with("invoke") {
                while let Some(l2) = lines.next() {
                    end = l2.as_ptr() as usize - body.as_ptr() as usize + l2.len();
                    if l2.trim_start().starts_with("to label") {
                        break;
                    }
                }
            } else if opw.starts_with("landingpad") {
                while let Some(l2) = lines.peek() {
                    let w = l2.trim_start();
                    if w.starts_with("cleanup") || w.starts_with("catch ") || w.starts_with("filter ") {
                        lines.next();
                    } else {
                        break;
                    }
                }
            }
            let logical = &body[start..end];
            let mut toks = vec![];
            tokenize(logical, &mut toks);
            let mut p = P { t: &toks, i: 0 };
            let ph = self.instr(&mut p, &mut f, &mut insv);
            if let Some(x) = ph {
                phis.push(x);
            }
        }
        if let Some(c) = cur {
            put(&mut blocks, c, insv, phis);
        }
        let nb = f.nblocks as usize;
        blocks.resize_with(nb, || None);
        // fill edges
        let phimap: Vec<Vec<(u32, Vec<(Op, u32)>)>> =
            blocks.iter().map(|b| b.as_ref().map(|x| x.1.clone()).unwrap_or_default()).collect();
        // order of blocks: emission order is by id of first mention; entry must be first
        let entry = 0usize;
        let mut starts = vec![0u32; nb];
        let mut code: Vec<Ins> = vec![];
        let mut order: Vec<usize> = (0..nb).collect();
        order.retain(|&x| x != entry);
        order.insert(0, entry);
        for &bi in &order {
            starts[bi] = code.len() as u32;
            if let Some((iv, _)) = blocks[bi].take() {
                for mut ins in iv {
                    {
                        let mut fix = |e: &mut Edge| {
                            for (dst, inc) in &phimap[e.target as usize] {
                                let (o, _) = inc.iter().find(|(_, l)| *l == bi as u32).unwrap_or_else(|| panic!("phi without incoming in {}", name));
                                match o {
                                    Op::Reg(r) if r == dst => {}
                                    _ => e.moves.push((*dst, *o)),
                                }
                            }
                        };
                        match &mut ins {
                            Ins::Br { e } => fix(e),
                            Ins::CondBr { t, f, .. } => {
                                fix(t);
                                fix(f);
                            }
                            Ins::Switch { def, cases, .. } => {
                                fix(def);
                                for c in cases {
                                    fix(&mut c.1);
                                }
                            }
                            Ins::Call { edge: Some(e), .. } => fix(e),
                            _ => {}
                        }
                    }
                    code.push(ins);
                }
            } else {
                code.push(Ins::Unreachable);
            }
        }
        for ins in &mut code {
            let fix = |e: &mut Edge| e.target = starts[e.target as usize];
            match ins {
                Ins::Br { e } => fix(e),
                Ins::CondBr { t, f, .. } => {
                    fix(t);
                    fix(f);
                }
                Ins::Switch { def, cases, .. } => {
                    fix(def);
                    for c in cases {
                        fix(&mut c.1);
                    }
                }
                Ins::Call { edge: Some(e), .. } => fix(e),
                _ => {}
            }
        }
        let rb = self.ret_bits(rt);
        let fun = &mut self.m.funcs[id as usize];
        fun.defined = true;
        fun.nparams = nparams;
        fun.nregs = f.nregs;
        fun.code = code;
        fun.ret_bits = rb;
    }

    fn vec_info(&self, t: TyId) -> Option<(u32, u32)> {
        match self.m.types.ty(t) {
            Ty::Vector(n, e) => Some((*n as u32, self.m.types.bits(*e))),
            _ => None,
        }
    }

    fn is_scalar(&self, t: TyId) -> bool {
        matches!(self.m.types.ty(t), Ty::Int(_) | Ty::Ptr | Ty::Float(_) | Ty::Vector(..))
    }

    fn edge<'a>(&mut self, p: &mut P<'a, '_>, f: &mut FnCtx<'a>) -> Edge {
        assert!(p.eat_w("label"));
        match p.next() {
            Tok::L(n) => Edge { target: f.label(n), moves: vec![] },
            x => panic!("edge {:?}", x),
        }
    }

    fn instr<'a>(&mut self, p: &mut P<'a, '_>, f: &mut FnCtx<'a>, out: &mut Vec<Ins>) -> Option<(u32, Vec<(Op, u32)>)> {
        let mut dst = u32::MAX;
        if let Some(Tok::L(n)) = p.peek() {
            let n = *n;
            p.i += 1;
            dst = f.reg(n);
            p.expect_p(b'=');
        }
        let w = match p.next() {
            Tok::W(w) => w,
            x => panic!("instr {:?} {:?}", x, p.t),
        };
        let bin = |s: &str| -> Option<BinOp> {
            Some(match s {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                _ => return None,
            })
        };
        if let Some(op) = bin(w) {
            while p.is_w("nuw") || p.is_w("nsw") || p.is_w("exact") || p.is_w("disjoint") {
                p.i += 1;
            }
            let (t, a) = self.typed_op(p, f);
            p.expect_p(b',');
            let b = self.op(p, t, f);
            out.push(match self.vec_info(t) {
                Some((n, w)) => Ins::VBin { op, n, w, dst, a, b },
                None => Ins::Bin { op, w: self.m.types.bits(t), dst, a, b },
            });
            return None;
        }
        match w {
            "tail" | "musttail" | "notail" => {
                p.i += 0;
                assert!(p.eat_w("call"));
                self.call(p, f, out, dst, false);
            }
            "call" => self.call(p, f, out, dst, false),
            "invoke" => self.call(p, f, out, dst, true),
            "br" => {
                if p.is_w("label") {
                    let e = self.edge(p, f);
                    out.push(Ins::Br { e: Box::new(e) });
                } else {
                    let (_, c) = self.typed_op(p, f);
                    p.expect_p(b',');
                    let t = self.edge(p, f);
                    p.expect_p(b',');
                    let fe = self.edge(p, f);
                    out.push(Ins::CondBr { c, t: Box::new(t), f: Box::new(fe) });
                }
            }
            "switch" => {
                let (t, v) = self.typed_op(p, f);
                let w = self.m.types.bits(t);
                p.expect_p(b',');
                let def = self.edge(p, f);
                p.expect_p(b'[');
                let mut cases = vec![];
                while !p.eat_p(b']') {
                    let (_, c) = self.typed_const(p);
                    p.expect_p(b',');
                    let e = self.edge(p, f);
                    match c {
                        Const::Int(v) => {
                            assert!(v >> 64 == 0, "switch case too wide");
                            cases.push((v as u64, e))
                        }
                        _ => panic!("switch case"),
                    }
                }
                out.push(Ins::Switch { v, w, def: Box::new(def), cases });
            }
            "ret" => {
                if p.is_w("void") {
                    out.push(Ins::Ret { v: None });
                } else {
                    let (_, v) = self.typed_op(p, f);
                    out.push(Ins::Ret { v: Some(v) });
                }
            }
            "unreachable" => out.push(Ins::Unreachable),
            "phi" => {
                while let Some(Tok::W(x)) = p.peek() {
                    if is_type_word(x) {
                        break;
                    }
                    p.i += 1;
                }
                let t = self.ty(p);
                let mut inc = vec![];
                loop {
                    p.expect_p(b'[');
                    let o = self.op(p, t, f);
                    p.expect_p(b',');
                    let l = match p.next() {
                        Tok::L(n) => f.label(n),
                        x => panic!("phi {:?}", x),
                    };
                    p.expect_p(b']');
                    inc.push((o, l));
                    if p.is_p(b',') && matches!(p.t.get(p.i + 1), Some(Tok::P(b'['))) {
                        p.i += 1;
                    } else {
                        break;
                    }
                }
                return Some((dst, inc));
            }
            "icmp" => {
                p.eat_w("samesign");
                let pred = match p.next() {
                    Tok::W(x) => match x {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!("pred"),
                    },
                    _ => panic!("pred"),
                };
                let (t, a) = self.typed_op(p, f);
                p.expect_p(b',');
                let b = self.op(p, t, f);
                out.push(match self.vec_info(t) {
                    Some((n, w)) => Ins::VIcmp { p: pred, n, w, dst, a, b },
                    None => Ins::Icmp { p: pred, w: self.m.types.bits(t), dst, a, b },
                });
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while p.is_w("nneg") || p.is_w("nuw") || p.is_w("nsw") {
                    p.i += 1;
                }
                let (t, a) = self.typed_op(p, f);
                assert!(p.eat_w("to"));
                let tt = self.ty(p);
                let op = match w {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    _ => CastOp::Bit,
                };
                let (from, to) = (self.m.types.bits(t), self.m.types.bits(tt));
                match self.vec_info(t) {
                    Some((n, fw)) if op != CastOp::Bit => {
                        let (_, tw) = self.vec_info(tt).unwrap();
                        out.push(Ins::VCast { op, n, from: fw, to: tw, dst, a });
                    }
                    _ => out.push(Ins::Cast { op, from, to, dst, a }),
                }
            }
            "select" => {
                while let Some(Tok::W(x)) = p.peek() {
                    if is_type_word(x) {
                        break;
                    }
                    p.i += 1;
                }
                let (ct, c) = self.typed_op(p, f);
                p.expect_p(b',');
                let (t, a) = self.typed_op(p, f);
                p.expect_p(b',');
                let (_, b) = self.typed_op(p, f);
                if self.vec_info(ct).is_some() {
                    let (n, w) = self.vec_info(t).unwrap();
                    out.push(Ins::VSelect { dst, c, a, b, n, w });
                } else {
                    out.push(Ins::Select { dst, c, a, b, ty: t });
                }
            }
            "load" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let t = self.ty(p);
                p.expect_p(b',');
                let (_, ptr) = self.typed_op(p, f);
                let bytes = self.m.types.store_size(t) as u32;
                let w = if self.is_scalar(t) { self.m.types.bits(t) } else { 0 };
                out.push(Ins::Load { dst, p: ptr, ty: t, bytes, w });
            }
            "store" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let (t, v) = self.typed_op(p, f);
                p.expect_p(b',');
                let (_, ptr) = self.typed_op(p, f);
                let bytes = self.m.types.store_size(t) as u32;
                let w = if self.is_scalar(t) { self.m.types.bits(t) } else { 0 };
                out.push(Ins::Store { v, p: ptr, ty: t, bytes, w });
            }
            "getelementptr" => {
                while let Some(Tok::W(x)) = p.peek() {
                    if is_type_word(x) {
                        break;
                    }
                    p.i += 1;
                }
                let bt = self.ty(p);
                p.expect_p(b',');
                let (_, base) = self.typed_op(p, f);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = bt;
                let mut first = true;
                while p.is_p(b',') && !matches!(p.t.get(p.i + 1), Some(Tok::M)) {
                    p.i += 1;
                    let (it, io) = self.typed_op(p, f);
                    let iw = self.m.types.bits(it);
                    let (scale, next);
                    if first {
                        scale = self.m.types.size(cur) as i64;
                        next = cur;
                        first = false;
                    } else {
                        match self.m.types.ty(cur).clone() {
                            Ty::Struct(..) => {
                                let k = match io {
                                    Op::Int(k) => k,
                                    _ => panic!("gep struct idx"),
                                };
                                let (o, ft) = self.m.types.field_off(cur, k as usize);
                                off += o as i64;
                                cur = ft;
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => {
                                scale = self.m.types.size(e) as i64;
                                next = e;
                            }
                            x => panic!("gep {:?}", x),
                        }
                    }
                    cur = next;
                    match io {
                        Op::Int(k) => {
                            let s = ((k as i64) << (64 - iw)) >> (64 - iw);
                            off = off.wrapping_add(s.wrapping_mul(scale));
                        }
                        _ => terms.push((io, iw, scale)),
                    }
                }
                out.push(Ins::Gep { dst, base, off, terms });
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = self.ty(p);
                let mut n = None;
                let mut align = self.m.types.align(t);
                while p.eat_p(b',') {
                    if p.eat_w("align") {
                        if let Tok::N(x) = p.next() {
                            align = x.parse().unwrap();
                        }
                    } else if matches!(p.peek(), Some(Tok::M)) {
                        break;
                    } else {
                        let (_, o) = self.typed_op(p, f);
                        n = Some(o);
                    }
                }
                out.push(Ins::Alloca { dst, size: self.m.types.size(t), align, n });
            }
            "extractvalue" => {
                let (_, a) = self.typed_op(p, f);
                let mut idx = vec![];
                while p.is_p(b',') && matches!(p.t.get(p.i + 1), Some(Tok::N(_))) {
                    p.i += 1;
                    if let Tok::N(n) = p.next() {
                        idx.push(n.parse().unwrap());
                    }
                }
                out.push(Ins::Extract { dst, a, idx });
            }
            "insertvalue" => {
                let (t, a) = self.typed_op(p, f);
                p.expect_p(b',');
                let (_, v) = self.typed_op(p, f);
                let mut idx = vec![];
                while p.is_p(b',') && matches!(p.t.get(p.i + 1), Some(Tok::N(_))) {
                    p.i += 1;
                    if let Tok::N(n) = p.next() {
                        idx.push(n.parse().unwrap());
                    }
                }
                out.push(Ins::Insert { dst, a, v, idx, ty: t });
            }
            "atomicrmw" => {
                p.eat_w("volatile");
                let op = match p.next() {
                    Tok::W(x) => match x {
                        "xchg" => RmwOp::Xchg,
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "nand" => RmwOp::Nand,
                        "or" => RmwOp::Or,
                        "xor" => RmwOp::Xor,
                        "max" => RmwOp::Max,
                        "min" => RmwOp::Min,
                        "umax" => RmwOp::UMax,
                        "umin" => RmwOp::UMin,
                        _ => panic!("rmw {}", x),
                    },
                    _ => panic!(),
                };
                let (_, ptr) = self.typed_op(p, f);
                p.expect_p(b',');
                let (t, v) = self.typed_op(p, f);
                out.push(Ins::Rmw { dst, op, p: ptr, v, w: self.m.types.bits(t) });
            }
            "cmpxchg" => {
                p.eat_w("weak");
                p.eat_w("volatile");
                let (_, ptr) = self.typed_op(p, f);
                p.expect_p(b',');
                let (t, c) = self.typed_op(p, f);
                p.expect_p(b',');
                let (_, n) = self.typed_op(p, f);
                out.push(Ins::CmpXchg { dst, p: ptr, c, n, w: self.m.types.bits(t) });
            }
            "fence" => out.push(Ins::Nop),
            "freeze" => {
                let (_, a) = self.typed_op(p, f);
                out.push(Ins::Move { dst, a });
            }
            "insertelement" => {
                let (t, a) = self.typed_op(p, f);
                p.expect_p(b',');
                let (_, v) = self.typed_op(p, f);
                p.expect_p(b',');
                let (_, i) = self.typed_op(p, f);
                let (n, w) = self.vec_info(t).unwrap();
                out.push(Ins::InsElem { dst, a, v, i, n, w });
            }
            "extractelement" => {
                let (t, a) = self.typed_op(p, f);
                p.expect_p(b',');
                let (_, i) = self.typed_op(p, f);
                let (n, w) = self.vec_info(t).unwrap();
                out.push(Ins::ExtElem { dst, a, i, n, w });
            }
            "shufflevector" => {
                let (t, a) = self.typed_op(p, f);
                p.expect_p(b',');
                let (_, b) = self.typed_op(p, f);
                p.expect_p(b',');
                let (mt, mc) = self.typed_const(p);
                let (n, w) = self.vec_info(t).unwrap();
                let (mn, _) = self.vec_info(mt).unwrap();
                let mask: Vec<i32> = match mc {
                    Const::Zero => vec![0; mn as usize],
                    Const::Undef => vec![-1; mn as usize],
                    Const::Splat(b) => match b.1 {
                        Const::Int(v) => vec![v as i32; mn as usize],
                        _ => vec![-1; mn as usize],
                    },
                    Const::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(v) => *v as i32,
                            _ => -1,
                        })
                        .collect(),
                    x => panic!("shuffle mask {:?}", x),
                };
                out.push(Ins::Shuffle { dst, a, b, n, w, mask });
            }
            "landingpad" => out.push(Ins::LandingPad),
            "resume" => out.push(Ins::Resume),
            _ => out.push(Ins::Unsupported(w.to_string())),
        }
        None
    }

    fn call<'a>(&mut self, p: &mut P<'a, '_>, f: &mut FnCtx<'a>, out: &mut Vec<Ins>, dst: u32, invoke: bool) {
        p.skip_attrs();
        let rt = self.call_ty(p);
        let w = self.ret_bits(rt);
        let mut name: Option<&str> = None;
        let mut callee;
        match p.next() {
            Tok::G(n) => {
                name = Some(n);
                callee = Callee::Direct(0);
            }
            Tok::L(n) => callee = Callee::Indirect(Op::Reg(f.reg(n))),
            Tok::W("asm") => {
                while !p.is_p(b'(') {
                    p.i += 1;
                }
                callee = Callee::Asm;
            }
            x => panic!("callee {:?} {:?}", x, p.t),
        }
        p.expect_p(b'(');
        let mut args = vec![];
        let mut tys = vec![];
        if !p.eat_p(b')') {
            loop {
                let t = self.ty(p);
                p.skip_attrs();
                let o = self.op(p, t, f);
                args.push(o);
                tys.push(t);
                if p.eat_p(b')') {
                    break;
                }
                p.expect_p(b',');
            }
        }
        if let Some(n) = name {
            callee = if let Some(s) = n.strip_prefix("llvm.") {
                let i = intrinsic(s);
                if i == Intr::Unsupported {
                    Callee::Direct(self.func_id(n))
                } else {
                    Callee::Intrinsic(i)
                }
            } else {
                Callee::Direct(self.func_id(n))
            };
        }
        let mut edge = None;
        if invoke {
            while !p.is_w("to") {
                p.i += 1;
            }
            p.i += 1;
            edge = Some(Box::new(self.edge(p, f)));
        }
        // the operand width matters for intrinsics such as ctpop, cmp, with.overflow
        let w = if let Callee::Intrinsic(_) = callee {
            match tys.first() {
                Some(t) if self.is_scalar(*t) => {
                    if let (Some((_, lw)), Callee::Intrinsic(Intr::VReduceOr | Intr::VReduceAnd | Intr::VReduceAdd)) = (self.vec_info(*t), &callee) {
                        // pass the lane width in the upper half
                        self.m.types.bits(*t) | (lw << 16)
                    } else if self.vec_info(*t).is_some() {
                        callee = Callee::Direct(self.func_id(name.unwrap()));
                        0
                    } else {
                        self.m.types.bits(*t)
                    }
                }
                _ => w,
            }
        } else {
            w
        };
        let w = if let Callee::Intrinsic(Intr::UCmp | Intr::SCmp) = callee {
            // encode result width in the upper half
            w | (self.m.types.bits(rt) << 16)
        } else {
            w
        };
        out.push(Ins::Call { dst, callee, args, w, edge });
    }
}

fn intrinsic(s: &str) -> Intr {
    let base = s;
    let st = |x: &str| base.starts_with(x);
    if st("memcpy") || st("memmove") {
        Intr::Memcpy
    } else if st("load.relative.i64") {
        Intr::LoadRelative
    } else if st("memset") {
        Intr::Memset
    } else if st("lifetime") || st("experimental.noalias") || st("assume") || st("dbg") || st("prefetch") || st("x86.sse2.pause") || st("donothing") || st("var.annotation") {
        Intr::Nop
    } else if st("trap") || st("ubsantrap") {
        Intr::Trap
    } else if st("abs.") {
        Intr::Abs
    } else if st("smax.") {
        Intr::SMax
    } else if st("smin.") {
        Intr::SMin
    } else if st("umax.") {
        Intr::UMax
    } else if st("umin.") {
        Intr::UMin
    } else if st("uadd.with") {
        Intr::UAddOv
    } else if st("usub.with") {
        Intr::USubOv
    } else if st("umul.with") {
        Intr::UMulOv
    } else if st("sadd.with") {
        Intr::SAddOv
    } else if st("ssub.with") {
        Intr::SSubOv
    } else if st("smul.with") {
        Intr::SMulOv
    } else if st("uadd.sat") {
        Intr::UAddSat
    } else if st("usub.sat") {
        Intr::USubSat
    } else if st("sadd.sat") {
        Intr::SAddSat
    } else if st("ssub.sat") {
        Intr::SSubSat
    } else if st("bswap") {
        Intr::Bswap
    } else if st("bitreverse") {
        Intr::Bitreverse
    } else if st("ctlz") {
        Intr::Ctlz
    } else if st("cttz") {
        Intr::Cttz
    } else if st("ctpop") {
        Intr::Ctpop
    } else if st("fshl") {
        Intr::Fshl
    } else if st("fshr") {
        Intr::Fshr
    } else if st("threadlocal.address") || st("expect") || st("launder") || st("strip.invariant") {
        Intr::Identity
    } else if st("is.constant") {
        Intr::IsConstant
    } else if st("ucmp") {
        Intr::UCmp
    } else if st("scmp") {
        Intr::SCmp
    } else if st("vector.reduce.or") {
        Intr::VReduceOr
    } else if st("vector.reduce.and") {
        Intr::VReduceAnd
    } else if st("vector.reduce.add") {
        Intr::VReduceAdd
    } else {
        Intr::Unsupported
    }
}

fn put(
    blocks: &mut Vec<Option<(Vec<Ins>, Vec<(u32, Vec<(Op, u32)>)>)>>,
    id: u32,
    ins: Vec<Ins>,
    phis: Vec<(u32, Vec<(Op, u32)>)>,
) {
    if blocks.len() <= id as usize {
        blocks.resize_with(id as usize + 1, || None);
    }
    blocks[id as usize] = Some((ins, phis));
}

fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}
