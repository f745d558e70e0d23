//! P04: the channel-filtering token stream shows the parser exactly the tokens of its channel.
#![allow(warnings)]
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::int_stream::IntStream;
use antlr_rust::token::*;
use antlr_rust::token_stream::*;
use vpharness::tok::*;
use vpharness::*;

fn run(n: usize, ops: usize, chbits: u32) {
    let mut v = vec![];
    for _ in 0..n {
        v.push((sym_u8() as isize + 1, vp_sym(chbits) as isize));
    }
    let channel = choose(2) as isize;
    // indexes of the visible tokens; the end-of-file token is always visible
    let mut vis: Vec<usize> = vec![];
    for i in 0..n {
        if v[i].1 == channel {
            vis.push(i);
        }
    }
    vis.push(n);
    let ty = |q: usize| if vis[q] == n { TOKEN_EOF } else { v[vis[q]].0 };
    let last = vis.len() - 1;
    let src = VecSource::new(v.clone());
    let mut s = if channel == 0 && choose(2) == 0 { CommonTokenStream::new(src) } else { CommonTokenStream::with_channel(src, channel) };
    let mut q = 0;
    let mut saved: Vec<(usize, isize, isize)> = vec![];
    for _ in 0..ops {
        match choose(5) {
            0 => {
                if q < last {
                    s.consume();
                    q += 1;
                }
            }
            1 => {
                let m = s.mark();
                saved.push((q, s.index(), m));
            }
            2 => {
                if let Some((p, i, m)) = saved.pop() {
                    s.seek(i);
                    s.release(m);
                    q = p;
                    cover(2);
                }
            }
            3 => {
                // anywhere: the next visible token is what is seen
                let i = choose(n as u64 + 1) as usize;
                s.seek(i as isize);
                q = vis.iter().position(|v| *v >= i).unwrap();
                cover(4);
            }
            _ => {
                s.reset();
                saved.clear();
                q = 0;
            }
        }
        check(s.la(1) == ty(q), 1);
        check(s.index() == vis[q] as isize, 2);
    }
    check(s.la(1) == ty(q), 3);
    check(s.index() == vis[q] as isize, 4);
    let k = choose(n as u64 + 2) as usize + 1;
    let at = (q + k - 1).min(last);
    check(s.la(k as isize) == ty(at), 5);
    match s.lt(k as isize) {
        None => check(false, 6),
        Some(t) => {
            check(t.token_type == ty(at), 7);
            check(t.get_token_index() == vis[at] as isize, 8);
        }
    }
    let k = choose(n as u64 + 1) as usize + 1;
    match s.lt(-(k as isize)) {
        None => check(k > q, 9),
        Some(t) => {
            if k > q {
                check(false, 10);
            } else {
                check(t.get_token_index() == vis[q - k] as isize, 11);
                cover(3);
            }
        }
    }
    check(s.index() == vis[q] as isize, 12);
    while q < last {
        s.consume();
        q += 1;
        check(s.la(1) == ty(q), 13);
        check(s.lt(-1).map(|t| t.get_token_index()) == Some(vis[q - 1] as isize), 14);
        out_i(s.index());
    }
    // hidden tokens are skipped, not lost
    let mut want = String::new();
    for x in 0..n {
        want += text(x);
        check(s.get(x as isize).token_type == v[x].0, 15);
        check(s.get(x as isize).get_token_index() == x as isize, 16);
    }
    check(s.get_text_from_interval(0, n as isize) == want, 17);
    check(s.get_all_text() == want, 18);
    check(s.size() == n as isize + 1, 19);
    cover(1);
}
#[no_mangle]
pub extern "C" fn h_common() {
    run(3, 3, 1)
}
#[no_mangle]
pub extern "C" fn h_common5() {
    run(5, 2, 1)
}
#[no_mangle]
pub extern "C" fn h_common4() {
    run(4, 5, 2)
}
#[no_mangle]
pub extern "C" fn h_iter() {
    let n = 3;
    let mut v = vec![];
    for _ in 0..n {
        v.push((sym_u8() as isize + 1, vp_sym(2) as isize));
    }
    let mut s = CommonTokenStream::new(VecSource::new(v.clone()));
    let mut it = s.iter();
    for i in 0..n {
        if v[i].1 == 0 {
            check(it.next() == Some(v[i].0), 31);
        }
    }
    check(it.next() == None, 32);
    check(it.next() == None, 33);
    cover(1);
}
harnesses!(h_common, h_common5, h_common4, h_iter);
