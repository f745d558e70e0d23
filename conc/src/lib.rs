#![allow(warnings)]
//! Threads that take turns: which one goes on at each lock is chosen by the executor.
use std::hint::black_box;
use std::sync::{Condvar, Mutex};
use vpharness::*;

// ---- coroutines: intercepted by the executor; natively, threads passing a baton ------------------
static BATON: Mutex<u64> = Mutex::new(0);
static PASSED: Condvar = Condvar::new();
static SPAWNED: Mutex<u64> = Mutex::new(0);
fn wait(me: u64) {
    let mut b = BATON.lock().unwrap();
    while *b != me {
        b = PASSED.wait(b).unwrap();
    }
}
fn pass(to: u64) -> u64 {
    let me = std::mem::replace(&mut *BATON.lock().unwrap(), to);
    PASSED.notify_all();
    me
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_spawn(f: usize, arg: u64) -> u64 {
    let (f, arg) = (black_box(f), black_box(arg));
    let id = {
        let mut n = SPAWNED.lock().unwrap();
        *n += 1;
        *n
    };
    let f: extern "C" fn(u64) = unsafe { std::mem::transmute(f) };
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            wait(id);
            f(arg);
            pass(0);
        })
        .unwrap();
    black_box(id)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vp_switch(to: u64) {
    let me = pass(black_box(to));
    wait(black_box(me));
}

// ---- the scheduler -------------------------------------------------------------------------------
const MAX: usize = 4;
struct Sched {
    n: usize,
    cur: usize,
    done: [bool; MAX],
    blocked: [bool; MAX],
    /// how often a thread that could go on may still be interrupted
    budget: u64,
    /// lock operations passed
    points: u64,
}
static mut S: Sched = Sched { n: 0, cur: 0, done: [false; MAX], blocked: [false; MAX], budget: 0, points: 0 };
fn s() -> &'static mut Sched {
    unsafe { &mut *std::ptr::addr_of_mut!(S) }
}
fn go(to: usize) {
    s().cur = to;
    vp_switch(to as u64 + 1);
}
/// another thread that can go on, by choice
fn other() -> Option<usize> {
    let c: Vec<usize> = (0..s().n).filter(|t| *t != s().cur && !s().done[*t] && !s().blocked[*t]).collect();
    match c.len() {
        0 => None,
        1 => Some(c[0]),
        n => Some(c[choose(n as u64) as usize]),
    }
}
#[no_mangle]
pub extern "C" fn vp_point() {
    let s = s();
    if s.n == 0 {
        return;
    }
    s.points += 1;
    if s.budget == 0 || (0..s.n).all(|t| t == s.cur || s.done[t] || s.blocked[t]) {
        return;
    }
    if choose(2) == 1 {
        s.budget -= 1;
        let t = other().unwrap();
        go(t);
        cover(20);
    }
}
#[no_mangle]
pub extern "C" fn vp_block() {
    cover(21);
    let s = s();
    // waiting for a lock that nobody will release
    check(s.n > 0, 990);
    s.blocked[s.cur] = true;
    let t = other();
    check(t.is_some(), 991);
    go(t.unwrap());
}
#[no_mangle]
pub extern "C" fn vp_progress() {
    s().blocked = [false; MAX];
}
extern "C" fn thread(arg: u64) {
    let f = unsafe { &mut *(arg as usize as *mut Box<dyn FnMut()>) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
    if r.is_err() {
        std::process::exit(101);
    }
    s().done[s().cur] = true;
    vp_progress();
}
/// runs all of them, with at most `budget` interruptions
pub fn run(threads: Vec<Box<dyn FnMut() + '_>>, budget: u64) {
    let mut threads: Vec<Box<dyn FnMut()>> = unsafe { std::mem::transmute(threads) };
    let n = threads.len();
    let first = choose(n as u64) as usize;
    *s() = Sched { n, cur: 0, done: [false; MAX], blocked: [false; MAX], budget, points: 0 };
    for t in threads.iter_mut() {
        vp_spawn(thread as usize, t as *mut Box<dyn FnMut()> as usize as u64);
    }
    go(first);
    while !(0..n).all(|t| s().done[t]) {
        s().cur = MAX;
        let t = other();
        check(t.is_some(), 992);
        go(t.unwrap());
    }
    s().n = 0;
    cover(22);
}
