//! P10: left-recursive rules give the tree demanded by operator precedence and associativity.
#![allow(warnings)]
use vpharness::gram::*;
use vpharness::lex::dfas;
use vpharness::par::*;
use vpharness::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Left(i64),
    Right(i64),
    Prefix(i64),
    Suffix(i64),
    /// e ? e : e, right associative
    Tern(i64, i64),
    /// e e
    Juxt,
    /// e [ e ]
    Index(i64, i64),
}
use Op::*;
/// what ANTLR makes of `e : e op e | ... | ID | '(' e ')'` (alternatives in order of precedence);
/// rule 1 is e, `tail` the alternatives that are not left-recursive
fn rules(ops: &[Op], tail: &[G]) -> Vec<G> {
    let n = (ops.len() + tail.len()) as i64;
    let (mut prim, mut sufx) = (vec![], vec![]);
    for (i, o) in ops.iter().enumerate() {
        let p = n - i as i64;
        match o {
            Left(t) => sufx.push(Seq(vec![Prec(p), tk(*t), RefP(1, p + 1)])),
            Right(t) => sufx.push(Seq(vec![Prec(p), tk(*t), RefP(1, p)])),
            Tern(t, u) => sufx.push(Seq(vec![Prec(p), tk(*t), RefP(1, 0), tk(*u), RefP(1, p)])),
            Index(t, u) => sufx.push(Seq(vec![Prec(p), tk(*t), RefP(1, 0), tk(*u)])),
            Juxt => sufx.push(Seq(vec![Prec(p), RefP(1, p + 1)])),
            Suffix(t) => sufx.push(Seq(vec![Prec(p), tk(*t)])),
            Prefix(t) => prim.push(Seq(vec![tk(*t), RefP(1, p)])),
        }
    }
    prim.extend(tail.iter().cloned());
    let prim = if prim.len() == 1 { prim.pop().unwrap() } else { Alt(prim) };
    let sufx = if sufx.len() == 1 { sufx.pop().unwrap() } else { Alt(sufx) };
    vec![Seq(vec![RefP(1, 0), tk(-1)]), Seq(vec![prim, star(sufx)])]
}
/// operator-precedence parse; ID = 1, '(' = 2, ')' = 3
struct Climb<'a> {
    t: &'a [isize],
    at: usize,
    ops: &'a [Op],
    n: i64,
    parens: bool,
}
impl<'a> Climb<'a> {
    fn la(&self) -> i64 {
        self.t.get(self.at).copied().unwrap_or(-1) as i64
    }
    fn tok(&mut self, t: i64, kids: &mut Vec<T>) -> Option<()> {
        if self.la() != t {
            return None;
        }
        kids.push(T::Tok(self.at as isize));
        self.at += 1;
        Some(())
    }
    fn e(&mut self, min: i64) -> Option<T> {
        let mut kids = vec![];
        let c = self.la();
        let ops = self.ops;
        if let Some(i) = ops.iter().position(|o| *o == Prefix(c)) {
            self.tok(c, &mut kids)?;
            kids.push(self.e(self.n - i as i64)?);
        } else if c == 2 && self.parens {
            self.tok(2, &mut kids)?;
            kids.push(self.e(0)?);
            self.tok(3, &mut kids)?;
        } else {
            self.tok(1, &mut kids)?;
        }
        let mut left = T::Rule(1, kids);
        'outer: loop {
            let c = self.la();
            for (i, o) in ops.iter().enumerate() {
                let p = self.n - i as i64;
                if p < min {
                    continue;
                }
                let mut kids = vec![left.clone()];
                match o {
                    Left(t) if *t == c => {
                        self.tok(c, &mut kids)?;
                        kids.push(self.e(p + 1)?);
                    }
                    Right(t) if *t == c => {
                        self.tok(c, &mut kids)?;
                        kids.push(self.e(p)?);
                    }
                    Suffix(t) if *t == c => {
                        self.tok(c, &mut kids)?;
                    }
                    Tern(t, u) if *t == c => {
                        self.tok(c, &mut kids)?;
                        kids.push(self.e(0)?);
                        self.tok(*u, &mut kids)?;
                        kids.push(self.e(p)?);
                    }
                    Index(t, u) if *t == c => {
                        self.tok(c, &mut kids)?;
                        kids.push(self.e(0)?);
                        self.tok(*u, &mut kids)?;
                    }
                    Juxt if c == 1 || (c == 2 && self.parens) || ops.contains(&Prefix(c)) => {
                        kids.push(self.e(p + 1)?);
                    }
                    _ => continue,
                }
                left = T::Rule(1, kids);
                continue 'outer;
            }
            return Some(left);
        }
    }
}
fn go(ops: &[Op], parens: bool, n: usize, max: i64, shared: bool) {
    let tail = if parens { vec![tk(1), Seq(vec![tk(2), RefP(1, 0), tk(3)])] } else { vec![tk(1)] };
    let g = gram(&rules(ops, &tail), &[1], max);
    let d = dfas(&g.atn);
    if shared {
        // the decision caches have seen another input
        let t = sym_types(2, max);
        let mut p = P::new(&g, &d, stream(&t), Strat::new(), vec![]);
        p.rule(0, 0);
    }
    let n = if shared { n } else { choose(n as u64) as usize + 1 };
    let t = sym_types(n, max);
    if !parens {
        // no other use of '(' and ')' in these grammars
        t.iter().for_each(|x| assume((*x != 2) & (*x != 3)));
    }
    let mut p = P::new(&g, &d, stream(&t), Bail::new(), vec![]);
    let r = p.rule(0, 0);
    if r.is_err() {
        check(!Lang::new(&g, &t).accepts(0), 1);
        cover(2);
        return;
    }
    let t = fix_types(&t);
    let mut c = Climb { t: &t, at: 0, ops, n: (ops.len() + tail.len()) as i64, parens };
    let w = c.e(0);
    check(w.is_some() && c.at == n, 3);
    check(tree(&*r.unwrap()) == T::Rule(0, vec![w.unwrap(), T::Tok(n as isize)]), 2);
    cover(1);
}
#[no_mangle]
pub extern "C" fn h_arith() {
    go(&[Right(4), Left(5), Left(6)], false, 9, 6, false);
}
#[no_mangle]
pub extern "C" fn h_parens() {
    go(&[Prefix(4), Left(5), Left(4)], true, 7, 5, false);
}
#[no_mangle]
pub extern "C" fn h_prefix_low() {
    go(&[Left(4), Prefix(5), Left(6)], false, 7, 6, false);
}
#[no_mangle]
pub extern "C" fn h_prefix_lowest() {
    go(&[Left(4), Left(5), Prefix(6)], false, 7, 6, false);
}
#[no_mangle]
pub extern "C" fn h_suffix() {
    go(&[Suffix(4), Prefix(4), Left(5), Suffix(6)], false, 7, 6, false);
}
#[no_mangle]
pub extern "C" fn h_ternary() {
    go(&[Left(4), Tern(5, 6)], false, 9, 6, false);
}
#[no_mangle]
pub extern "C" fn h_ternary_high() {
    go(&[Tern(5, 6), Right(4)], false, 9, 6, false);
}
#[no_mangle]
pub extern "C" fn h_index() {
    go(&[Index(4, 5), Juxt, Left(6)], false, 7, 6, false);
}
/// operator tables of three alternatives, each of any kind
#[no_mangle]
pub extern "C" fn h_tables() {
    let mk = |t: i64| match choose(4) {
        0 => Left(t),
        1 => Right(t),
        2 => Prefix(t),
        _ => Suffix(t),
    };
    let ops = [mk(4), mk(5), mk(6)];
    assume(!ops.iter().all(|o| matches!(o, Prefix(_))));
    go(&ops, false, 5, 6, false);
}
#[no_mangle]
pub extern "C" fn h_tables_shared() {
    let mk = |t: i64| match choose(4) {
        0 => Left(t),
        1 => Right(t),
        2 => Prefix(t),
        _ => Suffix(t),
    };
    let ops = [mk(4), mk(5)];
    assume(!ops.iter().all(|o| matches!(o, Prefix(_))));
    go(&ops, false, 5, 5, true);
}
#[no_mangle]
pub extern "C" fn h_tables7() {
    let mk = |t: i64| match choose(4) {
        0 => Left(t),
        1 => Right(t),
        2 => Prefix(t),
        _ => Suffix(t),
    };
    let ops = [mk(4), mk(5), mk(6)];
    assume(!ops.iter().all(|o| matches!(o, Prefix(_))));
    go(&ops, false, 7, 6, false);
}
harnesses! {h_arith, h_parens, h_prefix_low, h_prefix_lowest, h_suffix, h_ternary, h_ternary_high, h_index, h_tables, h_tables_shared, h_tables7}
