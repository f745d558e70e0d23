//! P18: semantic predicates choose among the alternatives they guard, and only there.
#![allow(warnings)]
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::*;

fn go(rules: &[G], max: i64, first: Option<usize>, n: usize) {
    let n = choose(n as u64 + 1) as usize;
    let g = gram(&rules, &[], max);
    let d = dfas(&g.atn);
    if let Some(n) = first {
        // predicates had other values when the same input was seen before
        let n = choose(n as u64 + 1) as usize;
        let t = sym_types(n, max);
        let vals: Vec<bool> = (0..2).map(|_| choose(2) == 1).collect();
        let mut p = P::new(&g, &d, stream(&t), Strat::new(), vals);
        p.log_decisions = false;
        p.rule(0, 0).unwrap();
    }
    let t = sym_types(n, max);
    // the value of each predicate may differ from place to place
    let vals: Vec<bool> = (0..2 * (n + 1)).map(|_| sym_bool()).collect();
    let mut p = P::new(&g, &d, stream(&t), Strat::new(), vals.clone());
    p.base.stride = n + 1;
    let own = owners(&g, 2);
    p.base.owners = own.clone();
    p.log_decisions = false;
    let r = p.rule(0, 0).unwrap();
    let ok = p.reports.borrow().is_empty();
    let mut l = Lang::new(&g, &fix_types(&t));
    l.preds = vals.clone();
    l.stride = n + 1;
    let want = RefParse::predicated(&l, 0);
    check(ok == want.is_some(), 1);
    if let Some(w) = want {
        check(tree(&*r) == w, 2);
        cover(2);
    }
    for e in p.reports.borrow().iter() {
        if e.kind == 3 {
            // a failed predicate is reported where it is false
            let at = e.token as usize;
            let says = |k: usize| e.msg == format!("rule r{} failed predicate: pred", own[k]);
            check((!vals[at] & says(0)) | (!vals[n + 1 + at] & says(1)), 3);
            cover(3);
        }
    }
    cover(1);
}
fn k(k: u64, first: Option<usize>, n: usize) {
    let (rules, max) = pg(k);
    go(&rules, max, first, n)
}
fn fam(n: usize, step: u64) {
    let (r, max) = pfamily(choose(SHAPES), choose(SHAPES / step) * step, choose(LEAVES), choose(4));
    go(&r, max, None, n)
}
macro_rules! grams_ {
    ($($f:ident $k:expr, $n:expr;)*) => { $(#[no_mangle] pub extern "C" fn $f() { k($k, None, $n); })* }
}
grams_! {
    h_p0 0, 5; h_p1 1, 6; h_p2 2, 6; h_p3 3, 6; h_p4 4, 5; h_p5 5, 6; h_p6 6, 6; h_p7 7, 7; h_p8 8, 5; h_p9 9, 5; h_p10 10, 5; h_p11 11, 5; h_p12 12, 5; h_p13 13, 5; h_p14 14, 5;
}
#[no_mangle]
pub extern "C" fn h_warm() {
    k(choose(PGS), Some(2), 3);
}
#[no_mangle]
pub extern "C" fn h_family() {
    fam(2, 2);
}
#[no_mangle]
pub extern "C" fn h_family3() {
    fam(3, 1);
}
#[no_mangle]
pub extern "C" fn h_warm4() {
    k(choose(PGS), Some(3), 4);
}
#[no_mangle]
pub extern "C" fn h_deep() {
    k(choose(PGS), None, 8);
}
harnesses! {h_p0, h_p1, h_p2, h_p3, h_p4, h_p5, h_p6, h_p7, h_p8, h_p9, h_p10, h_p11, h_p12, h_p13, h_p14, h_warm, h_family, h_family3, h_warm4, h_deep}
