//! P03: token streams present the source's tokens in order, whatever the access pattern.
#![allow(warnings)]
use antlr_rust::int_stream::IntStream;
use antlr_rust::token::*;
use antlr_rust::token_stream::*;
use std::borrow::Borrow;
use vpharness::tok::*;
use vpharness::*;

type S = UnbufferedTokenStream<'static, VecSource>;

fn source(n: usize) -> (VecSource, Vec<isize>) {
    let mut v = vec![];
    for _ in 0..n {
        v.push((sym_u8() as isize + 1, (vp_sym(1)) as isize));
    }
    let mut ty: Vec<isize> = v.iter().map(|x| x.0).collect();
    ty.push(TOKEN_EOF);
    (VecSource::new(v), ty)
}
/// everything observable at position p; tokens before `low` may have been dropped
fn look(s: &mut S, ty: &[isize], p: usize, low: isize) {
    let n = ty.len() - 1;
    check(s.index() == p as isize, 1);
    // how far to look first is chosen, so that lookahead of every depth meets every buffer state
    let k = choose(n as u64 + 2) as isize + 1;
    for k in [k, 1] {
        let at = (p as isize + k - 1).min(n as isize) as usize;
        check(s.la(k) == ty[at], 2);
        match s.lt(k) {
            None => check(false, 3),
            Some(t) => {
                check(t.token_type == ty[at], 4);
                check(t.get_token_index() == at as isize, 5);
                check(t.start == at as isize, 6);
            }
        }
    }
    // the token just consumed is always available
    match s.lt(-1) {
        None => check(p == 0, 7),
        Some(t) => {
            check(p > 0, 8);
            check(t.get_token_index() == p as isize - 1, 9);
        }
    }
    let k = choose(n as u64 + 1) as isize + 1;
    let at = p as isize - k;
    if at >= low {
        match s.lt(-k) {
            None => check(at < 0, 10),
            Some(t) => check(t.get_token_index() == at, 11),
        }
    } else if at < 0 {
        check(s.lt(-k).is_none(), 12);
    }
    check(s.index() == p as isize, 13);
}
/// k operations: consume, mark, release, seek within the marked region
fn history(mut s: S, ty: &[isize], ops: usize, buffered: bool) {
    let n = ty.len() - 1;
    let mut p = 0usize;
    let mut low = 0isize; // lowest index certainly kept
    let mut marks: Vec<(isize, usize)> = vec![];
    for _ in 0..ops {
        match choose(4) {
            0 => {
                if p < n {
                    s.consume();
                    p += 1;
                    if marks.is_empty() && !buffered {
                        low = p as isize - 1;
                    }
                }
            }
            1 => {
                let m = s.mark();
                marks.push((m, p));
            }
            2 => {
                if let Some((m, _)) = marks.pop() {
                    s.release(m);
                    if marks.is_empty() && !buffered {
                        low = p as isize - 1;
                    }
                    cover(2);
                }
            }
            _ => {
                let from = if buffered { 0 } else { marks.first().map(|x| x.1).unwrap_or(n + 1) };
                let to = choose(n as u64 + 1) as usize;
                if to >= from {
                    s.seek(to as isize);
                    p = to;
                    cover(3);
                }
            }
        }
        check(s.index() == p as isize, 14);
        check(s.la(1) == ty[p], 15);
    }
    look(&mut s, ty, p, low);
    // from here on the rest of the tokens comes in order
    while p < n {
        s.consume();
        p += 1;
        check(s.la(1) == ty[p], 16);
        check(s.lt(-1).map(|t| t.get_token_index()) == Some(p as isize - 1), 17);
        out_i(s.la(1));
    }
    if buffered {
        let i = choose(n as u64 + 1) as usize;
        let j = choose(n as u64 + 1) as usize;
        if i <= j {
            let mut want = String::new();
            for x in i..=j {
                if x < n {
                    want += text(x);
                }
            }
            check(s.get_text_from_interval(i as isize, j as isize) == want, 18);
            let a = s.get(i as isize).clone();
            let b = s.get(j as isize).clone();
            check(s.get_text_from_tokens(&*a, &*b) == want, 19);
        }
        check(s.size() == n as isize + 1, 20);
        let mut want = String::new();
        for x in 0..n {
            want += text(x);
        }
        check(s.get_all_text() == want, 21);
    }
    cover(1);
}
#[no_mangle]
pub extern "C" fn h_buffered() {
    let (src, ty) = source(2);
    history(S::new_buffered(src), &ty, 3, true);
}
#[no_mangle]
pub extern "C" fn h_unbuffered() {
    let (src, ty) = source(2);
    history(S::new_unbuffered(src), &ty, 4, false);
}
#[no_mangle]
pub extern "C" fn h_buffered4() {
    let (src, ty) = source(3);
    history(S::new_buffered(src), &ty, 5, true);
}
#[no_mangle]
pub extern "C" fn h_unbuffered6() {
    let (src, ty) = source(3);
    history(S::new_unbuffered(src), &ty, 6, false);
}
#[no_mangle]
pub extern "C" fn h_iter() {
    let n = choose(4) as usize;
    let (src, ty) = source(n);
    if choose(2) == 0 {
        let mut s = S::new_buffered(src);
        let mut it = s.token_iter();
        for i in 0..=n {
            match it.next() {
                None => check(false, 31),
                Some(t) => check((t.token_type == ty[i]) & (t.get_token_index() == i as isize), 32),
            }
        }
        check(it.next().is_none(), 33);
    } else {
        let mut s = S::new_unbuffered(src);
        let mut it = s.iter();
        for i in 0..n {
            check(it.next() == Some(ty[i]), 34);
        }
        check(it.next() == None, 35);
        check(it.next() == None, 36);
    }
    cover(1);
}
harnesses!(h_buffered, h_unbuffered, h_buffered4, h_unbuffered6, h_iter);
