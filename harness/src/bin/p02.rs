//! P02: character streams present exactly the symbols of their input.
#![allow(warnings)]
use antlr_rust::char_stream::{CharStream, InputData};
use antlr_rust::int_stream::{IntStream, IterWrapper, EOF};
use antlr_rust::InputStream;
use std::borrow::Cow;
use vpharness::*;

/// visit position p (by consuming or by seeking), look around, move one on, come back
fn navigate<S: IntStream>(s: &mut S, sy: &[u32], ix: &[usize]) {
    let n = sy.len();
    check(s.index() == 0, 1);
    check(s.size() == ix[n] as isize, 2);
    let p = choose(n as u64 + 1) as usize;
    if choose(2) == 0 {
        for i in 0..p {
            check(s.la(1) == sy[i] as isize, 3);
            s.consume();
            check(s.index() == ix[i + 1] as isize, 4);
            check(s.la(-1) == sy[i] as isize, 5);
        }
    } else {
        s.seek(ix[p] as isize);
    }
    check(s.index() == ix[p] as isize, 6);
    for k in 1..=(n as isize + 2) {
        let f = p as isize + k - 1;
        let want = if f < n as isize { sy[f as usize] as isize } else { EOF };
        check(s.la(k) == want, 7);
        let b = p as isize - k;
        let want = if b >= 0 { sy[b as usize] as isize } else { EOF };
        check(s.la(-k) == want, 8);
    }
    check(s.index() == ix[p] as isize, 9);
    let m = s.mark();
    let q = choose((n - p) as u64 + 1) as usize;
    for i in p..p + q {
        out_i(s.la(1));
        s.consume();
        check(s.index() == ix[i + 1] as isize, 10);
    }
    s.seek(ix[p] as isize);
    s.release(m);
    check(s.index() == ix[p] as isize, 11);
    if p < n {
        check(s.la(1) == sy[p] as isize, 12);
        cover(1);
    } else {
        check(s.la(1) == EOF, 12);
        cover(2);
    }
}
/// a span of whole symbols i..j (possibly empty); stop may name any unit of the last symbol
fn span(ix: &[usize]) -> (usize, usize, isize, isize) {
    let n = ix.len() - 1;
    let i = choose(n as u64 + 1) as usize;
    let j = i + choose((n - i) as u64 + 1) as usize;
    let start = ix[i] as isize;
    let stop = if j == i {
        start - 1
    } else {
        let w = (ix[j] - ix[j - 1]) as u64;
        ix[j] as isize - 1 - choose(w) as isize
    };
    (i, j, start, stop)
}
fn iterate<S: IntStream>(s: &mut S, sy: &[u32]) {
    let mut it = IterWrapper(s);
    for c in sy {
        check(it.next() == Some(*c as isize), 31);
    }
    check(it.next() == None, 32);
    check(it.next() == None, 33);
    cover(1);
}

fn str_nav(n: usize) {
    let (cs, ix, t) = sym_text(n, 4);
    let mut s = InputStream::new(t);
    navigate(&mut s, &cs, &ix);
    s.reset();
    check(s.index() == 0, 13);
}
#[no_mangle]
pub extern "C" fn h_str() {
    str_nav(2)
}
#[no_mangle]
pub extern "C" fn h_str3() {
    str_nav(3)
}
#[no_mangle]
pub extern "C" fn h_str_owned() {
    let (cs, ix, t) = sym_text(2, 3);
    let mut s = InputStream::new_owned(t.to_string().into_boxed_str());
    navigate(&mut s, &cs, &ix);
}
#[no_mangle]
pub extern "C" fn h_str_text() {
    let (cs, ix, t) = sym_text(3, 3);
    let (i, j, a, b) = span(&ix);
    let s = InputStream::new(t);
    let g: &str = s.get_text(a, b);
    check(g.as_bytes() == &t.as_bytes()[ix[i]..ix[j]], 21);
    let g: String = s.get_text(a, b);
    check(g.as_bytes() == &t.as_bytes()[ix[i]..ix[j]], 22);
    let s = InputStream::new_owned(t.to_string().into_boxed_str());
    let g: String = s.get_text(a, b);
    check(g.as_bytes() == &t.as_bytes()[ix[i]..ix[j]], 23);
    out_str(&g);
    cover(1);
}
#[no_mangle]
pub extern "C" fn h_str_iter() {
    let (cs, ix, t) = sym_text(2, 4);
    iterate(&mut InputStream::new(t), &cs);
}

macro_rules! slices {
    ($nav:ident, $text:ident, $ty:ty, $bits:expr, $n:expr) => {
        #[no_mangle]
        pub extern "C" fn $nav() {
            let v: Vec<$ty> = (0..$n).map(|_| vp_sym($bits) as $ty).collect();
            let ix: Vec<usize> = (0..=$n).collect();
            let sy: Vec<u32> = v.iter().map(|x| *x as u32).collect();
            match choose(3) {
                0 => navigate(&mut InputStream::new(&v[..]), &sy, &ix),
                1 => navigate(&mut InputStream::new_owned(v.clone().into_boxed_slice()), &sy, &ix),
                _ => iterate(&mut InputStream::new(&v[..]), &sy),
            }
        }
        #[no_mangle]
        pub extern "C" fn $text() {
            let v: Vec<$ty> = (0..$n).map(|_| vp_sym($bits) as $ty).collect();
            let ix: Vec<usize> = (0..=$n).collect();
            let (i, j, a, b) = span(&ix);
            let s = InputStream::new(&v[..]);
            let g: &[$ty] = s.get_text(a, b);
            check(g == &v[i..j], 21);
            let g: Cow<'_, [$ty]> = s.get_text(a, b);
            check(&*g == &v[i..j], 22);
            let o = InputStream::new_owned(v.clone().into_boxed_slice());
            let g: Vec<$ty> = o.get_text(a, b);
            check(&g[..] == &v[i..j], 23);
            // display form: the character with that code, U+FFFD where there is none
            let k = choose($n) as usize;
            let x = v[k] as u32;
            let g: String = s.get_text(k as isize, k as isize);
            let h: Cow<'_, str> = s.get_text(k as isize, k as isize);
            let bad = (x > 0x10FFFF) | ((x >= 0xD800) & (x <= 0xDFFF));
            let want = if bad { 0xFFFD } else { x };
            let mut it = g.chars();
            check(it.next().map(|c| c as u32) == Some(want), 24);
            check(it.next() == None, 25);
            check(h.as_bytes() == g.as_bytes(), 26);
            cover(1);
        }
    };
}
slices!(h_u8, h_u8_text, u8, 8, 2);
slices!(h_u16, h_u16_text, u16, 16, 2);
slices!(h_u32, h_u32_text, u32, 32, 2);
slices!(h_u8_4, h_u8_text4, u8, 8, 4);
slices!(h_u32_4, h_u32_text4, u32, 32, 4);

/// text handed to a stream of code units comes back as the same text
#[no_mangle]
pub extern "C" fn h_from_text() {
    let (cs, ix, t) = sym_text(2, 2);
    let o: Vec<u32> = <[u32] as InputData>::from_text(t);
    check(o == cs, 41);
    check(o.to_display().as_bytes() == t.as_bytes(), 42);
    let o: Vec<u16> = <[u16] as InputData>::from_text(t);
    check(o.len() == 2, 43);
    check((o[0] as u32 == cs[0]) & (o[1] as u32 == cs[1]), 44);
    let o: String = <str as InputData>::from_text(t);
    check(o.as_bytes() == t.as_bytes(), 45);
    cover(1);
}
harnesses!(h_str, h_str3, h_str_owned, h_str_text, h_str_iter, h_u8, h_u8_text, h_u16, h_u16_text, h_u32, h_u32_text, h_u8_4, h_u8_text4, h_u32_4, h_u32_text4, h_from_text);
