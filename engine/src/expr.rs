//! Hash-consed bit-vector terms with local simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum K {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    ZExt,
    SExt,
    Extract, // k = lo, w = width
    Concat,  // a = hi, b = lo
    Ite,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Key {
    pub op: K,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub key: Key,
    pub mask: u128,
    /// bounds on the value read as a signed integer
    pub lo: i128,
    pub hi: i128,
}

pub struct Pool {
    pub n: Vec<Node>,
    map: HashMap<Key, E>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    cur: u32,
    xmemo: HashMap<(E, u32, u32), E>,
}

pub fn m(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    ((v << (128 - w)) as i128) >> (128 - w)
}

pub fn fold(op: K, w: u32, a: u128, b: u128) -> u128 {
    // w: operand width
    match op {
        K::Add => a.wrapping_add(b) & m(w),
        K::Sub => a.wrapping_sub(b) & m(w),
        K::Mul => a.wrapping_mul(b) & m(w),
        K::UDiv => {
            if b == 0 {
                m(w)
            } else {
                a / b
            }
        }
        K::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        K::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m(w)
                } else {
                    1
                }
            } else {
                (x.wrapping_div(y) as u128) & m(w)
            }
        }
        K::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m(w)
            }
        }
        K::And => a & b,
        K::Or => a | b,
        K::Xor => a ^ b,
        K::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b as u32) & m(w)
            }
        }
        K::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b as u32
            }
        }
        K::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m(w)
        }
        K::Eq => (a == b) as u128,
        K::Ult => (a < b) as u128,
        K::Ule => (a <= b) as u128,
        K::Slt => (sx(a, w) < sx(b, w)) as u128,
        K::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool { n: vec![], map: HashMap::new(), stamp: vec![], memo: vec![], cur: 1, xmemo: HashMap::new() };
        // expression 0 is reserved so that 0 can mean "concrete byte"
        p.mk(Key { op: K::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        p
    }
    fn mk(&mut self, key: Key) -> E {
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let mask = match key.op {
            K::Const => 0,
            K::Var => 1u128 << (key.k as u32 % 128),
            K::ZExt | K::SExt | K::Extract => self.n[key.a as usize].mask,
            K::Ite => self.n[key.a as usize].mask | self.n[key.b as usize].mask | self.n[key.c as usize].mask,
            _ => self.n[key.a as usize].mask | self.n[key.b as usize].mask,
        };
        let e = self.n.len() as E;
        let (lo, hi) = self.range_of(&key);
        self.n.push(Node { key, mask, lo, hi });
        self.stamp.push(0);
        self.memo.push(0);
        self.map.insert(key, e);
        e
    }
    fn rng(&self, e: E) -> (i128, i128) {
        let n = &self.n[e as usize];
        (n.lo, n.hi)
    }
    fn range_of(&self, k: &Key) -> (i128, i128) {
        let w = k.w;
        if w > 100 {
            return (i128::MIN, i128::MAX);
        }
        let top = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let fit = |lo: i128, hi: i128| if lo >= top.0 && hi <= top.1 { (lo, hi) } else { top };
        if matches!(k.op, K::Eq | K::Ult | K::Ule | K::Slt | K::Sle) {
            return (-1, 0);
        }
        match k.op {
            K::Const => (sx(k.k, w), sx(k.k, w)),
            K::ZExt => {
                let (l, h) = self.rng(k.a);
                if l >= 0 {
                    (l, h)
                } else {
                    (0, (1i128 << self.w(k.a)) - 1)
                }
            }
            K::SExt => self.rng(k.a),
            K::Ite => {
                let (a, b) = (self.rng(k.b), self.rng(k.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            K::Add => {
                let (a, b) = (self.rng(k.a), self.rng(k.b));
                fit(a.0 + b.0, a.1 + b.1)
            }
            K::Sub => {
                let (a, b) = (self.rng(k.a), self.rng(k.b));
                fit(a.0 - b.1, a.1 - b.0)
            }
            K::Mul if w <= 62 || self.as_const(k.b).is_some() => {
                let (a, b) = (self.rng(k.a), self.rng(k.b));
                match (a.0.checked_mul(b.0), a.0.checked_mul(b.1), a.1.checked_mul(b.0), a.1.checked_mul(b.1)) {
                    (Some(p), Some(q), Some(r), Some(t)) => fit(p.min(q).min(r).min(t), p.max(q).max(r).max(t)),
                    _ => top,
                }
            }
            K::And => {
                let (a, b) = (self.rng(k.a), self.rng(k.b));
                if a.0 >= 0 && b.0 >= 0 {
                    (0, a.1.min(b.1))
                } else if a.0 >= 0 {
                    (0, a.1)
                } else if b.0 >= 0 {
                    (0, b.1)
                } else {
                    top
                }
            }
            K::Or | K::Xor => {
                let (a, b) = (self.rng(k.a), self.rng(k.b));
                if a.0 >= 0 && b.0 >= 0 {
                    let mx = a.1.max(b.1) as u128;
                    (0, ((1u128 << (128 - mx.leading_zeros())) - 1) as i128)
                } else {
                    top
                }
            }
            K::LShr => {
                let a = self.rng(k.a);
                if a.0 >= 0 {
                    (0, a.1)
                } else {
                    top
                }
            }
            K::UDiv | K::URem => {
                let a = self.rng(k.a);
                let c = self.as_const(k.b);
                match c {
                    Some(c) if c != 0 && (c as i128) <= top.1 => {
                        if k.op == K::URem {
                            (0, c as i128 - 1)
                        } else if a.0 >= 0 {
                            (0, a.1 / c as i128)
                        } else {
                            top
                        }
                    }
                    _ => top,
                }
            }
            K::Extract => {
                if k.k == 0 {
                    let a = self.rng(k.a);
                    fit(a.0, a.1)
                } else {
                    top
                }
            }
            K::Concat => {
                let a = self.rng(k.a);
                let lw = self.w(k.b);
                fit(a.0 << lw, (a.1 << lw) + (1i128 << lw) - 1)
            }
            _ => top,
        }
    }
    /// width below `w` at which a comparison of a and b has the same outcome
    fn narrower(&self, a: E, b: E, w: u32, signed: bool) -> Option<u32> {
        let (x, y) = (self.rng(a), self.rng(b));
        let lo = x.0.min(y.0);
        let hi = x.1.max(y.1);
        let n = if signed {
            let mut n = 1;
            while n < w && (lo < -(1i128 << (n - 1)) || hi > (1i128 << (n - 1)) - 1) {
                n += 1;
            }
            n
        } else {
            if lo < 0 {
                return None;
            }
            let mut n = 1;
            while n < w && hi > (1i128 << n) - 1 {
                n += 1;
            }
            n
        };
        if n < w {
            Some(n)
        } else {
            None
        }
    }
    pub fn key(&self, e: E) -> Key {
        self.n[e as usize].key
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].key.w
    }
    pub fn mask(&self, e: E) -> u128 {
        self.n[e as usize].mask
    }
    pub fn cst(&mut self, w: u32, v: u128) -> E {
        let k = Key { op: K::Const, w, a: 0, b: 0, c: 0, k: v & m(w) };
        self.mk(k)
    }
    pub fn var(&mut self, idx: u32, w: u32) -> E {
        self.mk(Key { op: K::Var, w, a: 0, b: 0, c: 0, k: idx as u128 })
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize].key;
        if n.op == K::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        let ones = self.cst(w, m(w));
        self.bin(K::Xor, e, ones)
    }
    pub fn tru(&mut self) -> E {
        self.cst(1, 1)
    }

    fn ite_const_leaves(&self, e: E) -> bool {
        let k = self.key(e);
        k.op == K::Ite && (self.key(k.b).op == K::Const || self.key(k.c).op == K::Const)
    }
    fn ite_both_const(&self, e: E) -> bool {
        let k = self.key(e);
        k.op == K::Ite && self.key(k.b).op == K::Const && self.key(k.c).op == K::Const
    }

    /// operations on equal-width operands; comparisons return width 1
    pub fn bin(&mut self, op: K, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let cmp = matches!(op, K::Eq | K::Ult | K::Ule | K::Slt | K::Sle);
        let rw = if cmp { 1 } else { w };
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, x, y);
            return self.cst(rw, v);
        }
        if cmp && w > 1 && w <= 100 {
            let (x, y) = (self.rng(a), self.rng(b));
            let nn = x.0 >= 0 && y.0 >= 0;
            match op {
                K::Eq if x.1 < y.0 || y.1 < x.0 => return self.cst(1, 0),
                K::Slt if x.1 < y.0 => return self.tru(),
                K::Slt if x.0 >= y.1 => return self.cst(1, 0),
                K::Sle if x.1 <= y.0 => return self.tru(),
                K::Sle if x.0 > y.1 => return self.cst(1, 0),
                K::Ult if nn && x.1 < y.0 => return self.tru(),
                K::Ult if nn && x.0 >= y.1 => return self.cst(1, 0),
                K::Ule if nn && x.1 <= y.0 => return self.tru(),
                K::Ule if nn && x.0 > y.1 => return self.cst(1, 0),
                K::Ult | K::Ule if x.0 >= 0 && y.1 < 0 => return self.tru(),
                K::Ult | K::Ule if x.1 < 0 && y.0 >= 0 => return self.cst(1, 0),
                _ => {}
            }
            let (nop, n) = match op {
                K::Eq => match (self.narrower(a, b, w, false), self.narrower(a, b, w, true)) {
                    (Some(x), Some(y)) => (op, Some(x.min(y))),
                    (Some(x), None) | (None, Some(x)) => (op, Some(x)),
                    _ => (op, None),
                },
                K::Ult | K::Ule => (op, self.narrower(a, b, w, false)),
                _ => match self.narrower(a, b, w, false) {
                    Some(n) => (if op == K::Slt { K::Ult } else { K::Ule }, Some(n)),
                    None => (op, self.narrower(a, b, w, true)),
                },
            };
            if let Some(n) = n {
                let x = self.extract(a, 0, n);
                let y = self.extract(b, 0, n);
                return self.bin(nop, x, y);
            }
        }
        // commutative: constant to the right
        if matches!(op, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq) && (ca.is_some() || (cb.is_none() && a > b)) {
            return self.bin_n(op, w, rw, b, a);
        }
        self.bin_n(op, w, rw, a, b)
    }

    fn bin_n(&mut self, op: K, w: u32, rw: u32, a: E, b: E) -> E {
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        let ka = self.key(a);
        match op {
            K::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(c2) = cb {
                    if ka.op == K::Add {
                        if let Some(c1) = self.as_const(ka.b) {
                            let s = self.cst(w, c1.wrapping_add(c2));
                            return self.bin(K::Add, ka.a, s);
                        }
                    }
                }
            }
            K::Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(c) = cb {
                    let s = self.cst(w, c.wrapping_neg());
                    return self.bin(K::Add, a, s);
                }
            }
            K::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let s = self.cst(w, c.trailing_zeros() as u128);
                        return self.bin(K::Shl, a, s);
                    }
                }
            }
            K::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let s = self.cst(w, c.trailing_zeros() as u128);
                        return self.bin(K::LShr, a, s);
                    }
                }
            }
            K::URem => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let s = self.cst(w, c - 1);
                        return self.bin(K::And, a, s);
                    }
                }
            }
            K::And => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == m(w) {
                        return a;
                    }
                    // low mask
                    if (c & (c + 1)) == 0 {
                        let k = c.count_ones();
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    if ka.op == K::ZExt {
                        let iw = self.w(ka.a);
                        let ic = self.cst(iw, c);
                        let x = self.bin(K::And, ka.a, ic);
                        return self.zext(x, w);
                    }
                    if ka.op == K::And {
                        if let Some(c1) = self.as_const(ka.b) {
                            let s = self.cst(w, c1 & c);
                            return self.bin(K::And, ka.a, s);
                        }
                    }
                }
                if w == 1 {
                    // x & !x
                    if self.is_not_of(a, b) {
                        return self.cst(1, 0);
                    }
                }
            }
            K::Or => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m(w) {
                        return b;
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.cst(1, 1);
                }
                // disjoint concat pieces: (zext x) | (y << k)
                if cb.is_none() {
                    if let Some(r) = self.or_concat(a, b, w) {
                        return r;
                    }
                    if let Some(r) = self.or_concat(b, a, w) {
                        return r;
                    }
                }
            }
            K::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if ka.op == K::Xor {
                        if let Some(c1) = self.as_const(ka.b) {
                            let s = self.cst(w, c1 ^ c);
                            return self.bin(K::Xor, ka.a, s);
                        }
                    }
                    if w == 1 {
                        // negated comparison
                        match ka.op {
                            K::Ult => return self.bin(K::Ule, ka.b, ka.a),
                            K::Ule => return self.bin(K::Ult, ka.b, ka.a),
                            K::Slt => return self.bin(K::Sle, ka.b, ka.a),
                            K::Sle => return self.bin(K::Slt, ka.b, ka.a),
                            _ => {}
                        }
                    }
                }
            }
            K::Shl => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let c = c as u32;
                    let hi = self.extract(a, 0, w - c);
                    let z = self.cst(c, 0);
                    return self.concat(hi, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            K::LShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let c = c as u32;
                    let hi = self.extract(a, c, w - c);
                    return self.zext(hi, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            K::AShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let c = c.min(w as u128 - 1) as u32;
                    let hi = self.extract(a, c, w - c);
                    return self.sext(hi, w);
                }
            }
            K::Eq => {
                if a == b {
                    return self.tru();
                }
                if let Some(c) = cb {
                    if w == 1 {
                        return if c == 1 { a } else { self.not(a) };
                    }
                    match ka.op {
                        K::ZExt => {
                            let iw = self.w(ka.a);
                            if c > m(iw) {
                                return self.cst(1, 0);
                            }
                            let k = self.cst(iw, c);
                            return self.bin(K::Eq, ka.a, k);
                        }
                        K::SExt => {
                            let iw = self.w(ka.a);
                            let low = c & m(iw);
                            if (sx(low, iw) as u128) & m(w) != c {
                                return self.cst(1, 0);
                            }
                            let k = self.cst(iw, low);
                            return self.bin(K::Eq, ka.a, k);
                        }
                        K::Concat => {
                            let lw = self.w(ka.b);
                            let hw = self.w(ka.a);
                            let kh = self.cst(hw, c >> lw);
                            let kl = self.cst(lw, c);
                            let x = self.bin(K::Eq, ka.a, kh);
                            if self.as_const(x) == Some(0) {
                                return x;
                            }
                            let y = self.bin(K::Eq, ka.b, kl);
                            return self.bin(K::And, x, y);
                        }
                        K::Add => {
                            if let Some(c1) = self.as_const(ka.b) {
                                let k = self.cst(w, c.wrapping_sub(c1));
                                return self.bin(K::Eq, ka.a, k);
                            }
                        }
                        K::Sub => {
                            if let Some(c1) = self.as_const(ka.a) {
                                let k = self.cst(w, c1.wrapping_sub(c));
                                return self.bin(K::Eq, ka.b, k);
                            }
                        }
                        K::Xor => {
                            if let Some(c1) = self.as_const(ka.b) {
                                let k = self.cst(w, c ^ c1);
                                return self.bin(K::Eq, ka.a, k);
                            }
                        }
                        K::Ite => {
                            if self.ite_const_leaves(a) {
                                let t = self.bin(K::Eq, ka.b, b);
                                let f = self.bin(K::Eq, ka.c, b);
                                return self.ite(ka.a, t, f);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let kb = self.key(b);
                    if (ka.op == K::ZExt && kb.op == K::ZExt || ka.op == K::SExt && kb.op == K::SExt) && self.w(ka.a) == self.w(kb.a) {
                        return self.bin(K::Eq, ka.a, kb.a);
                    }
                }
            }
            K::Ult | K::Ule => {
                if a == b {
                    return self.cst(1, (op == K::Ule) as u128);
                }
                if op == K::Ule {
                    // normalise constants to Ult
                    if let Some(c) = cb {
                        if c == m(w) {
                            return self.tru();
                        }
                        let k = self.cst(w, c + 1);
                        return self.bin(K::Ult, a, k);
                    }
                    if let Some(c) = ca {
                        if c == 0 {
                            return self.tru();
                        }
                    }
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return self.cst(1, 0);
                    }
                    if c == 1 {
                        let z = self.cst(w, 0);
                        return self.bin(K::Eq, a, z);
                    }
                    if ka.op == K::ZExt {
                        let iw = self.w(ka.a);
                        if c > m(iw) {
                            return self.tru();
                        }
                        let k = self.cst(iw, c);
                        return self.bin(K::Ult, ka.a, k);
                    }
                    if self.ite_const_leaves(a) {
                        let t = self.bin(op, ka.b, b);
                        let f = self.bin(op, ka.c, b);
                        return self.ite(ka.a, t, f);
                    }
                    if ka.op == K::Concat {
                        if let Some(hc) = self.as_const(ka.a) {
                            let lw = self.w(ka.b);
                            let ch = c >> lw;
                            if hc != ch {
                                return self.cst(1, (hc < ch) as u128);
                            }
                            let k = self.cst(lw, c);
                            return self.bin(K::Ult, ka.b, k);
                        }
                    }
                }
                if let Some(c) = ca {
                    let kb = self.key(b);
                    if op == K::Ult && c == m(w) {
                        return self.cst(1, 0);
                    }
                    if kb.op == K::ZExt {
                        let iw = self.w(kb.a);
                        if c > m(iw) {
                            return self.cst(1, 0);
                        }
                        let k = self.cst(iw, c);
                        return self.bin(op, k, kb.a);
                    }
                    if self.ite_const_leaves(b) {
                        let t = self.bin(op, a, kb.b);
                        let f = self.bin(op, a, kb.c);
                        return self.ite(kb.a, t, f);
                    }
                }
                let kb = self.key(b);
                if ka.op == K::ZExt && kb.op == K::ZExt && self.w(ka.a) == self.w(kb.a) {
                    return self.bin(op, ka.a, kb.a);
                }
            }
            K::Slt | K::Sle => {
                if a == b {
                    return self.cst(1, (op == K::Sle) as u128);
                }
                // both non-negative: unsigned comparison
                if self.nonneg(a) && self.nonneg(b) {
                    return self.bin(if op == K::Slt { K::Ult } else { K::Ule }, a, b);
                }
                if let Some(c) = cb {
                    let c = sx(c, w);
                    if self.nonneg(a) && c < 0 {
                        return self.cst(1, 0);
                    }
                    if ka.op == K::SExt {
                        let iw = self.w(ka.a);
                        let lo = -(1i128 << (iw - 1));
                        let hi = (1i128 << (iw - 1)) - 1;
                        if c > hi {
                            return self.tru();
                        }
                        if c < lo {
                            return self.cst(1, 0);
                        }
                        let k = self.cst(iw, c as u128);
                        return self.bin(op, ka.a, k);
                    }
                    if self.ite_const_leaves(a) {
                        let t = self.bin(op, ka.b, b);
                        let f = self.bin(op, ka.c, b);
                        return self.ite(ka.a, t, f);
                    }
                }
                if let Some(c) = ca {
                    let c = sx(c, w);
                    if self.nonneg(b) && c < 0 {
                        return self.tru();
                    }
                    let kb = self.key(b);
                    if kb.op == K::SExt {
                        let iw = self.w(kb.a);
                        let lo = -(1i128 << (iw - 1));
                        let hi = (1i128 << (iw - 1)) - 1;
                        if c > hi {
                            return self.cst(1, 0);
                        }
                        if c < lo {
                            return self.tru();
                        }
                        let k = self.cst(iw, c as u128);
                        return self.bin(op, k, kb.a);
                    }
                    if self.ite_const_leaves(b) {
                        let t = self.bin(op, a, kb.b);
                        let f = self.bin(op, a, kb.c);
                        return self.ite(kb.a, t, f);
                    }
                }
            }
            _ => {}
        }
        // arithmetic over an ite with constant leaves and a constant operand
        if !matches!(op, K::Eq | K::Ult | K::Ule | K::Slt | K::Sle) {
            if cb.is_some() && self.ite_both_const(a) {
                let t = self.bin(op, ka.b, b);
                let f = self.bin(op, ka.c, b);
                return self.ite(ka.a, t, f);
            }
        }
        self.mk(Key { op, w: rw, a, b, c: 0, k: 0 })
    }

    fn is_not_of(&self, a: E, b: E) -> bool {
        let (ka, kb) = (self.key(a), self.key(b));
        (ka.op == K::Xor && ka.a == b && self.as_const(ka.b) == Some(1))
            || (kb.op == K::Xor && kb.a == a && self.as_const(kb.b) == Some(1))
    }

    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        // a = concat(x, 0_k), b = zext(y) with |y| <= k
        let ka = self.key(a);
        let kb = self.key(b);
        if ka.op == K::Concat && self.as_const(ka.b) == Some(0) && kb.op == K::ZExt {
            let k = self.w(ka.b);
            let yw = self.w(kb.a);
            if yw <= k {
                let y = self.zext(kb.a, k);
                let r = self.concat(ka.a, y);
                debug_assert_eq!(self.w(r), w);
                return Some(r);
            }
        }
        // a = zext(concat(x,0_k))
        if ka.op == K::ZExt && kb.op == K::ZExt {
            let ki = self.key(ka.a);
            if ki.op == K::Concat && self.as_const(ki.b) == Some(0) {
                let iw = self.w(ka.a);
                let yw = self.w(kb.a);
                if yw <= self.w(ki.b) {
                    let y = self.zext(kb.a, iw);
                    let r = self.or_concat(ka.a, y, iw)?;
                    return Some(self.zext(r, w));
                }
            }
        }
        None
    }

    fn nonneg(&self, e: E) -> bool {
        let k = self.key(e);
        match k.op {
            K::Const => sx(k.k, k.w) >= 0,
            K::ZExt => true,
            _ => self.n[e as usize].lo >= 0,
        }
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let k = self.key(a);
        if k.w == w {
            return a;
        }
        debug_assert!(k.w < w);
        match k.op {
            K::Const => self.cst(w, k.k),
            K::ZExt => self.zext(k.a, w),
            K::Ite if self.ite_both_const(a) => {
                let t = self.zext(k.b, w);
                let f = self.zext(k.c, w);
                self.ite(k.a, t, f)
            }
            _ => self.mk(Key { op: K::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let k = self.key(a);
        if k.w == w {
            return a;
        }
        match k.op {
            K::Const => self.cst(w, sx(k.k, k.w) as u128),
            K::SExt => self.sext(k.a, w),
            K::ZExt => self.zext(k.a, w),
            K::Ite if self.ite_both_const(a) => {
                let t = self.sext(k.b, w);
                let f = self.sext(k.c, w);
                self.ite(k.a, t, f)
            }
            _ => self.mk(Key { op: K::SExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        if lo == 0 && w == self.w(a) {
            return a;
        }
        if let Some(&r) = self.xmemo.get(&(a, lo, w)) {
            return r;
        }
        let r = self.extract_n(a, lo, w);
        self.xmemo.insert((a, lo, w), r);
        r
    }
    fn extract_n(&mut self, a: E, lo: u32, w: u32) -> E {
        let k = self.key(a);
        debug_assert!(lo + w <= k.w, "extract {} {} of {}", lo, w, k.w);
        if lo == 0 && w == k.w {
            return a;
        }
        match k.op {
            K::Const => self.cst(w, k.k >> lo),
            K::ZExt => {
                let iw = self.w(k.a);
                if lo >= iw {
                    self.cst(w, 0)
                } else if lo + w <= iw {
                    self.extract(k.a, lo, w)
                } else {
                    let x = self.extract(k.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            K::SExt => {
                let iw = self.w(k.a);
                if lo + w <= iw {
                    self.extract(k.a, lo, w)
                } else if lo < iw {
                    let x = self.extract(k.a, lo, iw - lo);
                    self.sext(x, w)
                } else {
                    let x = self.extract(k.a, iw - 1, 1);
                    self.sext(x, w)
                }
            }
            K::Extract => self.extract(k.a, lo + k.k as u32, w),
            K::Concat => {
                let lw = self.w(k.b);
                if lo >= lw {
                    self.extract(k.a, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(k.b, lo, w)
                } else {
                    let l = self.extract(k.b, lo, lw - lo);
                    let h = self.extract(k.a, 0, lo + w - lw);
                    self.concat(h, l)
                }
            }
            K::Ite => {
                let t = self.extract(k.b, lo, w);
                let f = self.extract(k.c, lo, w);
                self.ite(k.a, t, f)
            }
            K::And | K::Or | K::Xor => {
                let x = self.extract(k.a, lo, w);
                let y = self.extract(k.b, lo, w);
                self.bin(k.op, x, y)
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let x = self.extract(k.a, 0, w);
                let y = self.extract(k.b, 0, w);
                self.bin(k.op, x, y)
            }
            _ => self.mk(Key { op: K::Extract, w, a, b: 0, c: 0, k: lo as u128 }),
        }
    }
    fn extract_raw(&mut self, a: E, lo: u32, w: u32) -> E {
        if lo == 0 && w == self.w(a) {
            return a;
        }
        self.mk(Key { op: K::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    /// a byte of a stored word, kept in a form from which the word can be put together again
    pub fn byte_of(&mut self, a: E, lo: u32) -> E {
        let k = self.key(a);
        match k.op {
            K::Add | K::Sub | K::Mul | K::And | K::Or | K::Xor => self.extract_raw(a, lo, 8),
            K::Ite if !self.ite_const_leaves(a) => self.extract_raw(a, lo, 8),
            _ => self.extract(a, lo, 8),
        }
    }
    /// push a raw extraction inwards
    pub fn norm(&mut self, a: E) -> E {
        let k = self.key(a);
        if k.op == K::Extract {
            self.extract(k.a, k.k as u32, k.w)
        } else {
            a
        }
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (kh, kl) = (self.key(hi), self.key(lo));
        let w = kh.w + kl.w;
        if let (K::Const, K::Const) = (kh.op, kl.op) {
            return self.cst(w, (kh.k << kl.w) | kl.k);
        }
        if kh.op == K::Const && kh.k == 0 {
            return self.zext(lo, w);
        }
        if kh.op == K::Extract && kl.op == K::Extract && kh.a == kl.a && kh.k == kl.k + kl.w as u128 {
            return self.extract_raw(kh.a, kl.k as u32, w);
        }
        // concat(extract(x, k.., ), x truncated) where lo is the full low part
        if kh.op == K::Extract && kh.a == lo && kh.k == kl.w as u128 {
            // cannot happen: widths differ
        }
        // right-nested: concat(concat(a,b),c)  -> try to merge b,c
        if kh.op == K::Concat {
            let kb = self.key(kh.b);
            if kb.op == K::Extract && kl.op == K::Extract && kb.a == kl.a && kb.k == kl.k + kl.w as u128 {
                let x = self.extract_raw(kb.a, kl.k as u32, kb.w + kl.w);
                return self.concat(kh.a, x);
            }
            if kb.op == K::Const && kl.op == K::Const {
                let x = self.cst(kb.w + kl.w, (kb.k << kl.w) | kl.k);
                return self.concat(kh.a, x);
            }
        }
        if kl.op == K::Concat {
            let ka = self.key(kl.a);
            if ka.op == K::Extract && kh.op == K::Extract && ka.a == kh.a && kh.k == ka.k + ka.w as u128 {
                let x = self.extract_raw(kh.a, ka.k as u32, kh.w + ka.w);
                return self.concat(x, kl.b);
            }
        }
        // zext pieces: concat(hi, zext) is left alone; both ites over the same condition with const leaves
        if self.ite_both_const(hi) && kl.op == K::Const || self.ite_both_const(lo) && kh.op == K::Const {
            let (c, t, f);
            if kh.op == K::Ite {
                c = kh.a;
                t = self.concat(kh.b, lo);
                f = self.concat(kh.c, lo);
            } else {
                c = kl.a;
                t = self.concat(hi, kl.b);
                f = self.concat(hi, kl.c);
            }
            return self.ite(c, t, f);
        }
        if kh.op == K::Ite && kl.op == K::Ite && kh.a == kl.a {
            let t = self.concat(kh.b, kl.b);
            let f = self.concat(kh.c, kl.c);
            return self.ite(kh.a, t, f);
        }
        self.mk(Key { op: K::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(v) = self.as_const(c) {
            return if v == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(f));
        let kc = self.key(c);
        if kc.op == K::Xor && self.as_const(kc.b) == Some(1) {
            return self.ite(kc.a, f, t);
        }
        if w == 1 {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(K::Or, c, f),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(K::And, n, f);
                }
                (None, Some(0)) => return self.bin(K::And, c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(K::Or, n, t);
                }
                _ => {}
            }
        }
        let kt = self.key(t);
        if kt.op == K::Ite && kt.a == c {
            return self.ite(c, kt.b, f);
        }
        let kf = self.key(f);
        if kf.op == K::Ite && kf.a == c {
            return self.ite(c, t, kf.c);
        }
        if kf.op == K::Ite && kf.b == t {
            let o = self.bin(K::Or, c, kf.a);
            return self.ite(o, t, kf.c);
        }
        self.mk(Key { op: K::Ite, w, a: c, b: t, c: f, k: 0 })
    }

    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        self.cur += 1;
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u128]) -> u128 {
        let k = self.n[e as usize].key;
        match k.op {
            K::Const => return k.k,
            K::Var => return model.get(k.k as usize).copied().unwrap_or(0) & m(k.w),
            _ => {}
        }
        if self.stamp[e as usize] == self.cur {
            return self.memo[e as usize];
        }
        let r = match k.op {
            K::ZExt => self.ev(k.a, model),
            K::SExt => {
                let iw = self.w(k.a);
                (sx(self.ev(k.a, model), iw) as u128) & m(k.w)
            }
            K::Extract => (self.ev(k.a, model) >> (k.k as u32)) & m(k.w),
            K::Concat => {
                let lw = self.w(k.b);
                (self.ev(k.a, model) << lw) | self.ev(k.b, model)
            }
            K::Ite => {
                if self.ev(k.a, model) == 1 {
                    self.ev(k.b, model)
                } else {
                    self.ev(k.c, model)
                }
            }
            op => {
                let w = self.w(k.a);
                let a = self.ev(k.a, model);
                let b = self.ev(k.b, model);
                fold(op, w, a, b)
            }
        };
        self.stamp[e as usize] = self.cur;
        self.memo[e as usize] = r;
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let k = self.key(e);
        if depth == 0 {
            return "..".into();
        }
        match k.op {
            K::Const => format!("{}:{}", k.k, k.w),
            K::Var => format!("v{}", k.k),
            K::ZExt => format!("zx{}({})", k.w, self.show(k.a, depth - 1)),
            K::SExt => format!("sx{}({})", k.w, self.show(k.a, depth - 1)),
            K::Extract => format!("{}[{}+{}]", self.show(k.a, depth - 1), k.k, k.w),
            K::Ite => format!("ite({},{},{})", self.show(k.a, depth - 1), self.show(k.b, depth - 1), self.show(k.c, depth - 1)),
            op => format!("{:?}({},{})", op, self.show(k.a, depth - 1), self.show(k.b, depth - 1)),
        }
    }
}
