//! Symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    W(u64, u64), // lo, hi
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bv {
    C(u128),
    S(E),
}

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub sp: u64,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    /// coroutines that are not running (frames, stack pointer); the place of the running one is empty
    pub parked: Vec<(Vec<Frame>, u64)>,
    pub current: usize,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Vec<u128>,
    pub vars: Vec<u32>,
    pub steps: u64,
    pub sp: u64,
    pub hp: u64,
    pub outs: Vec<Bv>,
    pub covers: Vec<u32>,
    pub depth: u32,
    pub obligations: u32,
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Assume,
    Panic(String),
    Assert(u32),
    Mem(String),
    Limit(String),
    Unsupported(String),
    Unknown,
}

/// room for each coroutine's stack
const STACK: u64 = 512 << 10;

type R<T> = Result<T, End>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum H {
    None,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Memcmp,
    Strlen,
    Write,
    Writev,
    Zero,
    One,
    Errno,
    Syscall,
    GetRandom,
    Panic,
    Abort,
    Exit,
    VSym,
    VAssume,
    VAssert,
    VCover,
    VOut,
    VConcrete,
    VStop,
    VIsSym,
    VSpawn,
    VSwitch,
    Unsupported,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_depth: usize,
    pub deadline: std::time::Instant,
}

pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u32, u128)>,
    pub outs: Vec<u128>,
}

pub struct Eng {
    pub m: Module,
    pub pool: Pool,
    pub solver: Solver,
    pub work: Vec<State>,
    pub cfg: Cfg,
    consts: Vec<Val>,
    handlers: Vec<H>,
    fbase: u64,
    errno: u64,
    pub touched: Vec<bool>,
    pub names: HashMap<String, String>,
    pub unsupported_calls: BTreeMap<String, u64>,
    dom_cache: HashMap<Vec<E>, Rc<Vec<u128>>>,
    pub steps: u64,
    pub forks: u64,
    pub obligations: u64,
    pub trace: bool,
    pub fork_sites: BTreeMap<String, u64>,
    pub profile: bool,
    pub fsteps: Vec<u64>,
}

impl From<MemErr> for End {
    fn from(e: MemErr) -> End {
        End::Mem(format!("invalid {} at {:#x}", if e.write { "write" } else { "read" }, e.addr))
    }
}

fn wv(b: Bv, w: u32) -> Val {
    match b {
        Bv::C(v) => {
            if w <= 64 {
                Val::I(v as u64)
            } else {
                Val::W(v as u64, (v >> 64) as u64)
            }
        }
        Bv::S(e) => Val::S(e),
    }
}
fn vb(v: &Val) -> Bv {
    match v {
        Val::I(x) => Bv::C(*x as u128),
        Val::W(a, b) => Bv::C(*a as u128 | (*b as u128) << 64),
        Val::S(e) => Bv::S(*e),
        Val::A(_) => panic!("aggregate used as scalar"),
    }
}

impl Eng {
    pub fn new(m: Module, names: HashMap<String, String>, cfg: Cfg) -> (Eng, Mem) {
        let mut mem = Mem::new();
        let nf = m.funcs.len();
        let fbase = GBASE;
        let mut top = GBASE + 16 * nf as u64 + 4096;
        let mut m = m;
        // lay out globals
        for g in &mut m.globals {
            let a = g.align.max(16);
            top = (top + a - 1) / a * a;
            g.addr = top;
            let sz = m.types.size(g.ty);
            top += sz.max(1) + 16;
        }
        let errno = (top + 63) / 64 * 64;
        let mut e = Eng {
            handlers: vec![],
            pool: Pool::new(),
            solver: Solver::new(60_000),
            work: vec![],
            cfg,
            consts: vec![],
            fbase,
            errno,
            touched: vec![false; nf],
            names,
            unsupported_calls: BTreeMap::new(),
            dom_cache: HashMap::new(),
            steps: 0,
            forks: 0,
            obligations: 0,
            trace: false,
            fork_sites: BTreeMap::new(),
            profile: false,
            fsteps: vec![0; nf],
            m,
        };
        mem.set_valid(errno, 64, true);
        for i in 0..e.m.globals.len() {
            let (addr, ty, init) = {
                let g = &e.m.globals[i];
                (g.addr, g.ty, g.init.clone())
            };
            let sz = e.m.types.size(ty);
            mem.set_valid(addr, sz.max(1), true);
            if let Some(c) = init {
                e.init_global(&mut mem, addr, ty, &c);
            }
        }
        let cs: Vec<(TyId, Const)> = e.m.consts.clone();
        for (t, c) in cs {
            let v = e.const_val(t, &c);
            e.consts.push(v);
        }
        for f in &e.m.funcs {
            e.handlers.push(handler(&f.name, f.defined));
        }
        (e, mem)
    }

    fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&g) = self.m.gmap.get(n) {
            return self.m.globals[g as usize].addr;
        }
        if let Some(&f) = self.m.fmap.get(n) {
            return self.fbase + 16 * f as u64;
        }
        for (a, c) in &self.m.aliases {
            if a == n {
                return self.const_int(c) as u64;
            }
        }
        panic!("unknown symbol {}", n)
    }
    fn const_int(&self, c: &Const) -> u128 {
        match c {
            Const::Int(v) => *v,
            Const::Undef | Const::Zero => 0,
            Const::Sym(s) => self.sym_addr(s) as u128,
            Const::Off(b, o) => (self.const_int(b) as u64).wrapping_add(*o as u64) as u128,
            Const::PtrToInt(b) => self.const_int(b),
            Const::Bin(op, w, a, b) => fold(k_of(*op), *w, self.const_int(a), self.const_int(b)) & m(*w),
            x => panic!("const_int {:?}", x),
        }
    }
    fn const_val(&self, t: TyId, c: &Const) -> Val {
        match self.m.types.ty(t).clone() {
            Ty::Int(w) => wv(Bv::C(self.const_int(c)), w),
            Ty::Ptr => Val::I(self.const_int(c) as u64),
            Ty::Float(w) => wv(Bv::C(self.const_int(c)), w),
            Ty::Vector(n, e) => {
                let ew = self.m.types.bits(e);
                let tot = n as u32 * ew;
                if tot > 128 {
                    return Val::I(0); // wider vectors are rejected when used
                }
                let mut v = 0u128;
                for i in 0..n {
                    let x = match c {
                        Const::Zero | Const::Undef => 0,
                        Const::Splat(b) => self.const_int(&b.1),
                        Const::Agg(l) => self.const_int(&l[i as usize].1),
                        Const::Bytes(b) => b[i as usize] as u128,
                        x => panic!("vector const {:?}", x),
                    };
                    v |= (x & m(ew)) << (i as u32 * ew);
                }
                wv(Bv::C(v), tot)
            }
            Ty::Struct(f, _) => {
                let vs = f
                    .iter()
                    .enumerate()
                    .map(|(i, ft)| match c {
                        Const::Agg(l) => self.const_val(*ft, &l[i].1),
                        Const::Zero => self.const_val(*ft, &Const::Zero),
                        _ => self.const_val(*ft, &Const::Undef),
                    })
                    .collect();
                Val::A(Rc::new(vs))
            }
            Ty::Array(n, et) => {
                let vs = (0..n as usize)
                    .map(|i| match c {
                        Const::Agg(l) => self.const_val(et, &l[i].1),
                        Const::Bytes(b) => Val::I(b[i] as u64),
                        Const::Zero => self.const_val(et, &Const::Zero),
                        _ => self.const_val(et, &Const::Undef),
                    })
                    .collect();
                Val::A(Rc::new(vs))
            }
            x => panic!("const_val {:?}", x),
        }
    }
    fn init_global(&self, mem: &mut Mem, addr: u64, ty: TyId, c: &Const) {
        match c {
            Const::Zero | Const::Undef => {}
            Const::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    mem.set_byte(addr + i as u64, *x, 0).unwrap();
                }
            }
            Const::Agg(l) => {
                if let Ty::Vector(..) = self.m.types.ty(ty) {
                    let v = self.const_val(ty, c);
                    if let Bv::C(x) = vb(&v) {
                        mem.write(addr, self.m.types.store_size(ty) as usize, x).unwrap();
                    }
                    return;
                }
                for (i, (t, x)) in l.iter().enumerate() {
                    let (o, _) = self.m.types.field_off(ty, i);
                    self.init_global(mem, addr + o, *t, x);
                }
            }
            _ => {
                let v = self.const_int(c);
                mem.write(addr, self.m.types.store_size(ty) as usize, v).unwrap();
            }
        }
    }

    pub fn initial(&mut self, mem: Mem, entry: &str) -> State {
        let f = *self.m.fmap.get(entry).unwrap_or_else(|| panic!("no entry function {}", entry));
        let nregs = self.m.funcs[f as usize].nregs as usize;
        State {
            frames: vec![Frame { func: f, pc: 0, regs: vec![Val::I(0); nregs], sp: SBASE + 4096 }],
            parked: vec![(vec![], 0)],
            current: 0,
            mem,
            pc: vec![],
            model: vec![],
            vars: vec![],
            steps: 0,
            sp: SBASE + 4096,
            hp: HBASE + 64,
            outs: vec![],
            covers: vec![],
            depth: 0,
            obligations: 0,
        }
    }

    pub fn pretty(&self, f: u32) -> String {
        let n = &self.m.funcs[f as usize].name;
        self.names.get(n).cloned().unwrap_or_else(|| n.clone())
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| self.pretty(f.func)).collect()
    }

    #[inline]
    fn get(&self, fr: &Frame, o: Op) -> Val {
        match o {
            Op::Reg(r) => fr.regs[r as usize].clone(),
            Op::Int(v) => Val::I(v),
            Op::Const(c) => self.consts[c as usize].clone(),
        }
    }
    fn e(&mut self, b: Bv, w: u32) -> E {
        match b {
            Bv::C(v) => self.pool.cst(w, v),
            Bv::S(e) => e,
        }
    }
    fn norm(&self, e: E) -> Bv {
        match self.pool.as_const(e) {
            Some(v) => Bv::C(v),
            None => Bv::S(e),
        }
    }
    fn bin(&mut self, op: K, w: u32, a: Bv, b: Bv) -> Bv {
        if let (Bv::C(x), Bv::C(y)) = (a, b) {
            return Bv::C(fold(op, w, x, y));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.pool.bin(op, x, y);
        self.norm(r)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: Bv, b: Bv) -> Bv {
        match p {
            Pred::Eq => self.bin(K::Eq, w, a, b),
            Pred::Ne => {
                let r = self.bin(K::Eq, w, a, b);
                self.bin(K::Xor, 1, r, Bv::C(1))
            }
            Pred::Ult => self.bin(K::Ult, w, a, b),
            Pred::Ule => self.bin(K::Ule, w, a, b),
            Pred::Ugt => self.bin(K::Ult, w, b, a),
            Pred::Uge => self.bin(K::Ule, w, b, a),
            Pred::Slt => self.bin(K::Slt, w, a, b),
            Pred::Sle => self.bin(K::Sle, w, a, b),
            Pred::Sgt => self.bin(K::Slt, w, b, a),
            Pred::Sge => self.bin(K::Sle, w, b, a),
        }
    }
    fn ext(&mut self, a: Bv, lo: u32, w: u32) -> Bv {
        match a {
            Bv::C(v) => Bv::C((v >> lo) & m(w)),
            Bv::S(e) => {
                let r = self.pool.extract(e, lo, w);
                self.norm(r)
            }
        }
    }
    fn cat(&mut self, hi: Bv, hw: u32, lo: Bv, lw: u32) -> Bv {
        if let (Bv::C(a), Bv::C(b)) = (hi, lo) {
            return Bv::C((a << lw) | b);
        }
        let a = self.e(hi, hw);
        let b = self.e(lo, lw);
        let r = self.pool.concat(a, b);
        self.norm(r)
    }
    fn zext(&mut self, a: Bv, w: u32) -> Bv {
        match a {
            Bv::C(v) => Bv::C(v),
            Bv::S(e) => {
                let r = self.pool.zext(e, w);
                self.norm(r)
            }
        }
    }
    fn sext(&mut self, a: Bv, from: u32, to: u32) -> Bv {
        match a {
            Bv::C(v) => Bv::C((sx(v, from) as u128) & m(to)),
            Bv::S(e) => {
                let r = self.pool.sext(e, to);
                self.norm(r)
            }
        }
    }
    fn ite(&mut self, c: Bv, w: u32, a: Bv, b: Bv) -> Bv {
        match c {
            Bv::C(1) => a,
            Bv::C(_) => b,
            Bv::S(ce) => {
                if a == b {
                    return a;
                }
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.pool.ite(ce, x, y);
                self.norm(r)
            }
        }
    }
    fn lanes(&mut self, a: Bv, n: u32, w: u32) -> Vec<Bv> {
        (0..n).map(|i| self.ext(a, i * w, w)).collect()
    }
    fn unlanes(&mut self, v: &[Bv], w: u32) -> Bv {
        let mut acc = v[0];
        let mut aw = w;
        for x in &v[1..] {
            acc = self.cat(*x, w, acc, aw);
            aw += w;
        }
        acc
    }

    // ---- solver glue -------------------------------------------------
    fn feasible(&mut self, st: &State, cond: E) -> R<Option<Vec<u128>>> {
        match self.solver.query(&mut self.pool, &st.pc, cond, &st.vars) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut mv = st.model.clone();
                for (i, v) in m {
                    mv[i as usize] = v;
                }
                Ok(Some(mv))
            }
            Res::Unknown => Err(End::Unknown),
        }
    }
    fn add_pc(&mut self, st: &mut State, c: E) {
        // split conjunctions
        let k = self.pool.key(c);
        if k.op == K::And && k.w == 1 {
            self.add_pc(st, k.a);
            self.add_pc(st, k.b);
            return;
        }
        if k.op == K::Const {
            return;
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    fn note_fork(&mut self, st: &State) {
        self.forks += 1;
        if self.profile {
            let n = st.frames.iter().rev().take(3).map(|f| self.pretty(f.func)).collect::<Vec<_>>().join(" < ");
            *self.fork_sites.entry(n).or_insert(0) += 1;
        }
    }
    /// Decide a condition: the current state continues with the value returned; a copy of the
    /// state that re-executes the current instruction is queued for the other value.
    fn decide(&mut self, st: &mut State, c: Bv) -> R<bool> {
        let ce = match c {
            Bv::C(v) => return Ok(v != 0),
            Bv::S(e) => e,
        };
        let v = self.pool.eval(ce, &st.model) == 1;
        let neg = if v { self.pool.not(ce) } else { ce };
        let pos = if v { ce } else { self.pool.not(ce) };
        if st.pc.contains(&pos) {
            return Ok(v);
        }
        if let Some(m2) = self.feasible(st, neg)? {
            let mut other = st.clone();
            self.add_pc(&mut other, neg);
            other.model = m2;
            other.depth += 1;
            self.note_fork(st);
            self.work.push(other);
            self.add_pc(st, pos);
            st.depth += 1;
        }
        Ok(v)
    }
    fn concretize(&mut self, st: &mut State, b: Bv, w: u32) -> R<u128> {
        let e = match b {
            Bv::C(v) => return Ok(v),
            Bv::S(e) => e,
        };
        let v = self.pool.eval(e, &st.model);
        let k = self.pool.cst(w, v);
        let eq = self.pool.bin(K::Eq, e, k);
        self.decide(st, Bv::S(eq)).map(|_| v)
    }

    // ---- memory ------------------------------------------------------
    fn load_bits(&mut self, st: &mut State, addr: u64, n: usize, w: u32) -> R<Bv> {
        let r = match st.mem.read(addr, n)? {
            Some(v) => Bv::C(v),
            None => {
                let e = st.mem.read_sym(&mut self.pool, addr, n)?;
                self.norm(e)
            }
        };
        Ok(if w < 8 * n as u32 { self.ext(r, 0, w) } else { r })
    }
    fn store_bits(&mut self, st: &mut State, addr: u64, n: usize, v: Bv, w: u32) -> R<()> {
        match v {
            Bv::C(x) => st.mem.write(addr, n, x)?,
            Bv::S(e) => {
                let e = if w < 8 * n as u32 { self.pool.zext(e, 8 * n as u32) } else { e };
                st.mem.write_sym(&mut self.pool, addr, n, e)?
            }
        }
        Ok(())
    }
    fn load_ty(&mut self, st: &mut State, addr: u64, ty: TyId) -> R<Val> {
        match self.m.types.ty(ty).clone() {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, t) = self.m.types.field_off(ty, i);
                    v.push(self.load_ty(st, addr + o, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Array(n, et) => {
                let s = self.m.types.size(et);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_ty(st, addr + i * s, et)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let w = self.m.types.bits(ty);
                let n = self.m.types.store_size(ty) as usize;
                let b = self.load_bits(st, addr, n, w)?;
                Ok(wv(b, w))
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, ty: TyId, v: &Val) -> R<()> {
        match self.m.types.ty(ty).clone() {
            Ty::Struct(f, _) => {
                if let Val::A(l) = v {
                    for i in 0..f.len() {
                        let (o, t) = self.m.types.field_off(ty, i);
                        self.store_ty(st, addr + o, t, &l[i])?;
                    }
                }
                Ok(())
            }
            Ty::Array(n, et) => {
                if let Val::A(l) = v {
                    let s = self.m.types.size(et);
                    for i in 0..n {
                        self.store_ty(st, addr + i * s, et, &l[i as usize])?;
                    }
                }
                Ok(())
            }
            _ => {
                let w = self.m.types.bits(ty);
                let n = self.m.types.store_size(ty) as usize;
                self.store_bits(st, addr, n, vb(v), w)
            }
        }
    }

    /// values of variable `x` allowed by the constraints that mention only `x` (an over-approximation)
    fn domain(&mut self, st: &State, x: u32, w: u32) -> Rc<Vec<u128>> {
        let bit = 1u128 << (x % 128);
        let mut key: Vec<E> = st.pc.iter().copied().filter(|&c| self.pool.mask(c) == bit).collect();
        key.sort_unstable();
        let v = self.pool.var(x, w);
        key.push(v);
        if let Some(d) = self.dom_cache.get(&key) {
            return d.clone();
        }
        let mut model = vec![0u128; x as usize + 1];
        let mut out = vec![];
        for val in 0..(1u128 << w) {
            model[x as usize] = val;
            if key[..key.len() - 1].iter().all(|&c| self.pool.eval(c, &model) == 1) {
                out.push(val);
            }
        }
        let d = Rc::new(out);
        self.dom_cache.insert(key, d.clone());
        d
    }

    /// candidate concrete addresses of a symbolic address, each with the condition selecting it
    fn candidates(&mut self, st: &mut State, ae: E) -> R<Option<Vec<(u64, E)>>> {
        let mask = self.pool.mask(ae);
        if mask.count_ones() == 1 && st.vars.len() <= 128 {
            let x = mask.trailing_zeros();
            let w = st.vars[x as usize];
            if w <= 8 {
                let dom = self.domain(st, x, w);
                let mut model = vec![0u128; x as usize + 1];
                let mut by: BTreeMap<u64, Vec<u128>> = BTreeMap::new();
                for &v in dom.iter() {
                    model[x as usize] = v;
                    let a = self.pool.eval(ae, &model) as u64;
                    by.entry(a).or_default().push(v);
                }
                let xe = self.pool.var(x, w);
                let mut out = vec![];
                for (a, vs) in by {
                    let c = self.set_cond(xe, w, &vs, &dom);
                    out.push((a, c));
                }
                return Ok(Some(out));
            }
        }
        // general case: enumerate with the solver
        let mut out: Vec<(u64, E)> = vec![];
        let mut tmp = st.clone_light();
        loop {
            if out.len() > 300 {
                return Ok(None);
            }
            let a = self.pool.eval(ae, &tmp.model) as u64;
            let k = self.pool.cst(64, a as u128);
            let eq = self.pool.bin(K::Eq, ae, k);
            out.push((a, eq));
            let ne = self.pool.not(eq);
            match self.feasible(&tmp, ne)? {
                None => break,
                Some(m) => {
                    self.add_pc(&mut tmp, ne);
                    tmp.model = m;
                }
            }
        }
        Ok(Some(out))
    }
    /// condition "x in vs", using runs over the domain
    fn set_cond(&mut self, x: E, w: u32, vs: &[u128], dom: &[u128]) -> E {
        // runs of consecutive domain members
        let mut acc = self.pool.cst(1, 0);
        let mut i = 0;
        let pos: HashMap<u128, usize> = dom.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        while i < vs.len() {
            let mut j = i;
            while j + 1 < vs.len() && pos[&vs[j + 1]] == pos[&vs[j]] + 1 {
                j += 1;
            }
            let lo = self.pool.cst(w, vs[i]);
            let hi = self.pool.cst(w, vs[j]);
            let c = if i == j {
                self.pool.bin(K::Eq, x, lo)
            } else {
                let a = self.pool.bin(K::Ule, lo, x);
                let b = self.pool.bin(K::Ule, x, hi);
                self.pool.bin(K::And, a, b)
            };
            acc = self.pool.bin(K::Or, acc, c);
            i = j + 1;
        }
        acc
    }

    fn sym_load(&mut self, st: &mut State, ae: E, n: usize, w: u32) -> R<Bv> {
        let cands = match self.candidates(st, ae)? {
            Some(c) => c,
            None => {
                let a = self.concretize(st, Bv::S(ae), 64)? as u64;
                return self.load_bits(st, a, n, w);
            }
        };
        // group by loaded value
        let mut groups: Vec<(Bv, E)> = vec![];
        let mut idx: HashMap<Bv, usize> = HashMap::new();
        for (a, c) in cands {
            if !st.mem.is_valid(a, n as u64) {
                // reachable?
                if let Some(mm) = self.feasible(st, c)? {
                    st.model = mm;
                    self.add_pc(st, c);
                    return Err(End::Mem(format!("invalid read at {:#x}", a)));
                }
                continue;
            }
            let v = self.load_bits(st, a, n, w)?;
            match idx.get(&v) {
                Some(&i) => {
                    let o = self.pool.bin(K::Or, groups[i].1, c);
                    groups[i].1 = o;
                }
                None => {
                    idx.insert(v, groups.len());
                    groups.push((v, c));
                }
            }
        }
        if groups.is_empty() {
            return Err(End::Unsupported("symbolic load without feasible address".into()));
        }
        if groups.len() == 1 {
            return Ok(groups[0].0);
        }
        // pointers: split the path instead of building an ite of pointers
        let ptrish = n == 8 && groups.iter().any(|(v, _)| matches!(v, Bv::C(x) if *x >= GBASE as u128 && (*x as u64) < u64::MAX/2 && st.mem.is_valid(*x as u64, 1)));
        if ptrish {
            for i in 0..groups.len() {
                let (v, c) = groups[i];
                if self.pool.eval(c, &st.model) == 1 {
                    self.decide(st, Bv::S(c))?;
                    return Ok(v);
                }
            }
        }
        let mut acc = groups[groups.len() - 1].0;
        for i in (0..groups.len() - 1).rev() {
            let (v, c) = groups[i];
            let cb = self.norm(c);
            acc = self.ite(cb, w, v, acc);
        }
        Ok(acc)
    }
    fn sym_store(&mut self, st: &mut State, ae: E, n: usize, v: Bv, w: u32) -> R<()> {
        let cands = match self.candidates(st, ae)? {
            Some(c) => c,
            None => {
                let a = self.concretize(st, Bv::S(ae), 64)? as u64;
                return self.store_bits(st, a, n, v, w);
            }
        };
        for &(a, c) in &cands {
            if !st.mem.is_valid(a, n as u64) {
                if let Some(mm) = self.feasible(st, c)? {
                    st.model = mm;
                    self.add_pc(st, c);
                    return Err(End::Mem(format!("invalid write at {:#x}", a)));
                }
            }
        }
        for (a, c) in cands {
            if !st.mem.is_valid(a, n as u64) {
                continue;
            }
            let old = self.load_bits(st, a, n, w)?;
            let cb = self.norm(c);
            let nv = self.ite(cb, w, v, old);
            self.store_bits(st, a, n, nv, w)?;
        }
        Ok(())
    }

    pub fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let mut a = st.hp + 16;
        a = (a + al - 1) / al * al;
        st.mem.ensure_range(a - 16, size + 16);
        st.mem.raw_write_u64(a - 8, size);
        st.mem.raw_write_u64(a - 16, 0x5ca1ab1e);
        st.mem.set_valid(a, size, true);
        st.hp = a + size.max(1);
        a
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        if st.mem.raw_read_u64(a - 16) != Some(0x5ca1ab1e) {
            return Err(End::Mem(format!("invalid free of {:#x}", a)));
        }
        let size = st.mem.raw_read_u64(a - 8).unwrap();
        st.mem.raw_write_u64(a - 16, 0xdead);
        st.mem.set_valid(a, size, false);
        st.mem.drop_dead_pages(a, size);
        Ok(())
    }

    // ---- main loop ---------------------------------------------------
    pub fn run(&mut self, st: &mut State) -> End {
        loop {
            if let Err(e) = self.step(st) {
                return e;
            }
            st.steps += 1;
            if st.steps > self.cfg.max_steps {
                return End::Limit(format!("step limit {} exceeded in {:?}", self.cfg.max_steps, self.stack(st)));
            }
        }
    }

    fn take(&mut self, st: &mut State, e: &Edge) {
        if !e.moves.is_empty() {
            let fr = st.frames.last_mut().unwrap();
            if e.moves.len() == 1 {
                let v = self.get(fr, e.moves[0].1);
                fr.regs[e.moves[0].0 as usize] = v;
            } else {
                let vals: Vec<Val> = e.moves.iter().map(|(_, o)| self.get(fr, *o)).collect();
                for ((d, _), v) in e.moves.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        st.frames.last_mut().unwrap().pc = e.target;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (func, pc) = {
            let fr = st.frames.last().unwrap();
            (fr.func as usize, fr.pc as usize)
        };
        self.steps += 1;
        // the code is never mutated while running: detach the borrow
        let ins: &Ins = unsafe { &*(&self.m.funcs[func].code[pc] as *const Ins) };
        macro_rules! fr {
            () => {
                st.frames.last_mut().unwrap()
            };
        }
        macro_rules! val {
            ($o:expr) => {
                self.get(st.frames.last().unwrap(), $o)
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let f = st.frames.last_mut().unwrap();
                f.regs[$d as usize] = v;
                f.pc += 1;
            }};
        }
        if self.profile {
            self.fsteps[func] += 1;
        }
        match ins {
            Ins::Bin { op, w, dst, a, b } => {
                let (x, y) = (val!(*a), val!(*b));
                if let (Val::I(x), Val::I(y)) = (&x, &y) {
                    if *w <= 64 {
                        let mk = if *w == 64 { !0u64 } else { (1u64 << w) - 1 };
                        let r = match op {
                            BinOp::Add => Some(x.wrapping_add(*y) & mk),
                            BinOp::Sub => Some(x.wrapping_sub(*y) & mk),
                            BinOp::Mul => Some(x.wrapping_mul(*y) & mk),
                            BinOp::And => Some(x & y),
                            BinOp::Or => Some(x | y),
                            BinOp::Xor => Some(x ^ y),
                            BinOp::Shl if *y < *w as u64 => Some((x << y) & mk),
                            BinOp::LShr if *y < *w as u64 => Some(x >> y),
                            _ => None,
                        };
                        if let Some(r) = r {
                            set!(*dst, Val::I(r));
                            return Ok(());
                        }
                    }
                }
                let r = self.bin(k_of(*op), *w, vb(&x), vb(&y));
                set!(*dst, wv(r, *w));
            }
            Ins::Icmp { p, w, dst, a, b } => {
                let (x, y) = (val!(*a), val!(*b));
                if let (Val::I(x), Val::I(y)) = (&x, &y) {
                    let (x, y) = (*x, *y);
                    let s = 64 - *w;
                    let r = match p {
                        Pred::Eq => x == y,
                        Pred::Ne => x != y,
                        Pred::Ult => x < y,
                        Pred::Ule => x <= y,
                        Pred::Ugt => x > y,
                        Pred::Uge => x >= y,
                        Pred::Slt => ((x << s) as i64) < ((y << s) as i64),
                        Pred::Sle => ((x << s) as i64) <= ((y << s) as i64),
                        Pred::Sgt => ((x << s) as i64) > ((y << s) as i64),
                        Pred::Sge => ((x << s) as i64) >= ((y << s) as i64),
                    };
                    set!(*dst, Val::I(r as u64));
                    return Ok(());
                }
                let r = self.icmp(*p, *w, vb(&x), vb(&y));
                set!(*dst, wv(r, 1));
            }
            Ins::CondBr { c, t, f } => {
                let c = vb(&val!(*c));
                let b = match c {
                    Bv::C(v) => v != 0,
                    _ => self.decide(st, c)?,
                };
                self.take(st, if b { t } else { f });
            }
            Ins::Br { e } => self.take(st, e),
            Ins::Load { dst, p, ty, bytes, w } => {
                match val!(*p) {
                    Val::I(a) => {
                        if *w == 0 {
                            let v = self.load_ty(st, a, *ty)?;
                            set!(*dst, v);
                        } else {
                            if *bytes > 16 {
                                return Err(End::Unsupported("wide vector load".into()));
                            }
                            if let Some(v) = st.mem.read(a, *bytes as usize)? {
                                let v = if *w < 8 * *bytes { v & m(*w) } else { v };
                                set!(*dst, wv(Bv::C(v), *w));
                            } else {
                                let b = self.load_bits(st, a, *bytes as usize, *w)?;
                                set!(*dst, wv(b, *w));
                            }
                        }
                    }
                    Val::S(e) => {
                        if *w == 0 {
                            let a = self.concretize(st, Bv::S(e), 64)? as u64;
                            let v = self.load_ty(st, a, *ty)?;
                            set!(*dst, v);
                        } else {
                            let b = self.sym_load(st, e, *bytes as usize, *w)?;
                            set!(*dst, wv(b, *w));
                        }
                    }
                    x => return Err(End::Unsupported(format!("load from {:?}", x))),
                }
            }
            Ins::Store { v, p, ty, bytes, w } => {
                let v = val!(*v);
                match val!(*p) {
                    Val::I(a) => {
                        if *w == 0 {
                            self.store_ty(st, a, *ty, &v)?;
                        } else {
                            if *bytes > 16 {
                                // only zero-initialisers of wide vectors are accepted
                                return Err(End::Unsupported("wide vector store".into()));
                            }
                            self.store_bits(st, a, *bytes as usize, vb(&v), *w)?;
                        }
                    }
                    Val::S(e) => {
                        if *w == 0 {
                            let a = self.concretize(st, Bv::S(e), 64)? as u64;
                            self.store_ty(st, a, *ty, &v)?;
                        } else {
                            self.sym_store(st, e, *bytes as usize, vb(&v), *w)?;
                        }
                    }
                    x => return Err(End::Unsupported(format!("store to {:?}", x))),
                }
                fr!().pc += 1;
            }
            Ins::Gep { dst, base, off, terms } => {
                let b = val!(*base);
                let mut acc = vb(&b);
                if let Bv::C(mut v) = acc {
                    // fast path
                    let mut ok = true;
                    let mut x = (v as u64).wrapping_add(*off as u64);
                    for (o, w, s) in terms {
                        match val!(*o) {
                            Val::I(i) => {
                                let sh = 64 - w;
                                let i = ((i << sh) as i64) >> sh;
                                x = x.wrapping_add(i.wrapping_mul(*s) as u64);
                            }
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        set!(*dst, Val::I(x));
                        return Ok(());
                    }
                    v = (v as u64).wrapping_add(*off as u64) as u128;
                    acc = Bv::C(v);
                } else {
                    acc = self.bin(K::Add, 64, acc, Bv::C(*off as u64 as u128));
                }
                for (o, w, s) in terms {
                    let i = vb(&val!(*o));
                    let i = self.sext(i, *w, 64);
                    let t = self.bin(K::Mul, 64, i, Bv::C(*s as u64 as u128));
                    acc = self.bin(K::Add, 64, t, acc);
                }
                set!(*dst, wv(acc, 64));
            }
            Ins::Cast { op, from, to, dst, a } => {
                let v = val!(*a);
                if let Val::I(x) = v {
                    if *to <= 64 {
                        let r = match op {
                            CastOp::SExt => {
                                let s = 64 - from;
                                let y = (((x << s) as i64) >> s) as u64;
                                if *to == 64 {
                                    y
                                } else {
                                    y & ((1u64 << to) - 1)
                                }
                            }
                            _ => {
                                if *to >= 64 {
                                    x
                                } else {
                                    x & ((1u64 << to) - 1)
                                }
                            }
                        };
                        set!(*dst, Val::I(r));
                        return Ok(());
                    }
                }
                let b = vb(&v);
                let r = match op {
                    CastOp::SExt => self.sext(b, *from, *to),
                    _ => {
                        if to < from {
                            self.ext(b, 0, *to)
                        } else {
                            self.zext(b, *to)
                        }
                    }
                };
                set!(*dst, wv(r, *to));
            }
            Ins::Select { dst, c, a, b, ty } => {
                let cv = vb(&val!(*c));
                match cv {
                    Bv::C(v) => {
                        let r = if v != 0 { val!(*a) } else { val!(*b) };
                        set!(*dst, r);
                    }
                    Bv::S(_) => {
                        let (x, y) = (val!(*a), val!(*b));
                        let fork = match self.m.types.ty(*ty) {
                            Ty::Int(_) | Ty::Vector(..) | Ty::Float(_) => false,
                            _ => true,
                        };
                        if fork {
                            let v = self.decide(st, cv)?;
                            set!(*dst, if v { x } else { y });
                        } else {
                            let w = self.m.types.bits(*ty);
                            let r = self.ite(cv, w, vb(&x), vb(&y));
                            set!(*dst, wv(r, w));
                        }
                    }
                }
            }
            Ins::Call { dst, callee, args, w, edge } => {
                return self.call(st, *dst, callee, args, *w, edge.as_deref());
            }
            Ins::Ret { v } => {
                let rv = match v {
                    Some(o) => Some(val!(*o)),
                    None => None,
                };
                let f = st.frames.pop().unwrap();
                st.sp = f.sp;
                if st.frames.is_empty() {
                    if st.current == 0 {
                        return Err(End::Done);
                    }
                    // a coroutine that has ended gives way to the first one
                    self.switch(st, 0)?;
                    return Ok(());
                }
                self.finish_call(st, rv);
            }
            Ins::Switch { v, w, def, cases } => {
                let x = vb(&val!(*v));
                match x {
                    Bv::C(k) => {
                        let k = k as u64;
                        let e = cases.iter().find(|c| c.0 == k).map(|c| &c.1).unwrap_or(def);
                        self.take(st, e);
                    }
                    Bv::S(e) => {
                        let k = self.pool.eval(e, &st.model) as u64;
                        let hit = cases.iter().find(|c| c.0 == k);
                        let (edge, cond): (&Edge, E) = match hit {
                            Some((_, ed)) => {
                                // all cases with the same target and moves
                                let mut acc = self.pool.cst(1, 0);
                                for (kv, e2) in cases {
                                    if e2.target == ed.target && same_moves(&e2.moves, &ed.moves) {
                                        let kc = self.pool.cst(*w, *kv as u128);
                                        let eq = self.pool.bin(K::Eq, e, kc);
                                        acc = self.pool.bin(K::Or, acc, eq);
                                    }
                                }
                                (ed, acc)
                            }
                            None => {
                                let mut acc = self.pool.cst(1, 1);
                                for (kv, _) in cases {
                                    let kc = self.pool.cst(*w, *kv as u128);
                                    let eq = self.pool.bin(K::Eq, e, kc);
                                    let ne = self.pool.not(eq);
                                    acc = self.pool.bin(K::And, acc, ne);
                                }
                                (def, acc)
                            }
                        };
                        let cb = self.norm(cond);
                        self.decide(st, cb)?;
                        self.take(st, edge);
                    }
                }
            }
            Ins::Extract { dst, a, idx } => {
                let mut v = val!(*a);
                for i in idx {
                    v = match &v {
                        Val::A(l) => l[*i as usize].clone(),
                        x => return Err(End::Unsupported(format!("extractvalue of {:?}", x))),
                    };
                }
                set!(*dst, v);
            }
            Ins::Insert { dst, a, v, idx, ty: _ } => {
                let agg = val!(*a);
                let nv = val!(*v);
                let r = insert(&agg, idx, nv);
                set!(*dst, r);
            }
            Ins::Alloca { dst, size, align, n } => {
                let cnt = match n {
                    Some(o) => {
                        let b = vb(&val!(*o));
                        self.concretize(st, b, 64)? as u64
                    }
                    None => 1,
                };
                let al = (*align).max(16);
                let a = (st.sp + al - 1) / al * al;
                st.sp = a + size * cnt;
                if st.sp > SBASE + if st.parked.len() > 1 { (st.current as u64 + 1) * STACK } else { 64 << 20 } {
                    return Err(End::Limit("stack overflow".into()));
                }
                st.mem.ensure_range(a, size * cnt);
                set!(*dst, Val::I(a));
            }
            Ins::Rmw { dst, op, p, v, w } => {
                let a = vb(&val!(*p));
                let a = self.concretize(st, a, 64)? as u64;
                let n = (*w as usize + 7) / 8;
                let old = self.load_bits(st, a, n, *w)?;
                let x = vb(&val!(*v));
                let nv = match op {
                    RmwOp::Xchg => x,
                    RmwOp::Add => self.bin(K::Add, *w, old, x),
                    RmwOp::Sub => self.bin(K::Sub, *w, old, x),
                    RmwOp::And => self.bin(K::And, *w, old, x),
                    RmwOp::Nand => {
                        let t = self.bin(K::And, *w, old, x);
                        self.bin(K::Xor, *w, t, Bv::C(m(*w)))
                    }
                    RmwOp::Or => self.bin(K::Or, *w, old, x),
                    RmwOp::Xor => self.bin(K::Xor, *w, old, x),
                    RmwOp::Max => {
                        let c = self.bin(K::Slt, *w, x, old);
                        self.ite(c, *w, old, x)
                    }
                    RmwOp::Min => {
                        let c = self.bin(K::Slt, *w, old, x);
                        self.ite(c, *w, old, x)
                    }
                    RmwOp::UMax => {
                        let c = self.bin(K::Ult, *w, x, old);
                        self.ite(c, *w, old, x)
                    }
                    RmwOp::UMin => {
                        let c = self.bin(K::Ult, *w, old, x);
                        self.ite(c, *w, old, x)
                    }
                };
                self.store_bits(st, a, n, nv, *w)?;
                set_opt(st, *dst, wv(old, *w));
            }
            Ins::CmpXchg { dst, p, c, n, w } => {
                let a = vb(&val!(*p));
                let a = self.concretize(st, a, 64)? as u64;
                let nb = (*w as usize + 7) / 8;
                let old = self.load_bits(st, a, nb, *w)?;
                let cv = vb(&val!(*c));
                let nv = vb(&val!(*n));
                let eq = self.bin(K::Eq, *w, old, cv);
                let ok = self.decide(st, eq)?;
                if ok {
                    self.store_bits(st, a, nb, nv, *w)?;
                }
                set!(*dst, Val::A(Rc::new(vec![wv(old, *w), Val::I(ok as u64)])));
            }
            Ins::Nop => fr!().pc += 1,
            Ins::Move { dst, a } => {
                let v = val!(*a);
                set!(*dst, v);
            }
            Ins::VBin { op, n, w, dst, a, b } => {
                chkv(*n, *w)?;
                let (x, y) = (vb(&val!(*a)), vb(&val!(*b)));
                let r = if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) {
                    self.bin(k_of(*op), n * w, x, y)
                } else {
                    let (xs, ys) = (self.lanes(x, *n, *w), self.lanes(y, *n, *w));
                    let rs: Vec<Bv> = xs.iter().zip(&ys).map(|(p, q)| self.bin(k_of(*op), *w, *p, *q)).collect();
                    self.unlanes(&rs, *w)
                };
                set!(*dst, wv(r, n * w));
            }
            Ins::VIcmp { p, n, w, dst, a, b } => {
                chkv(*n, *w)?;
                let (x, y) = (vb(&val!(*a)), vb(&val!(*b)));
                let (xs, ys) = (self.lanes(x, *n, *w), self.lanes(y, *n, *w));
                let rs: Vec<Bv> = xs.iter().zip(&ys).map(|(i, j)| self.icmp(*p, *w, *i, *j)).collect();
                let r = self.unlanes(&rs, 1);
                set!(*dst, wv(r, *n));
            }
            Ins::VCast { op, n, from, to, dst, a } => {
                chkv(*n, *from)?;
                chkv(*n, *to)?;
                let x = vb(&val!(*a));
                let xs = self.lanes(x, *n, *from);
                let mut rs = vec![];
                for x in xs {
                    rs.push(match op {
                        CastOp::SExt => self.sext(x, *from, *to),
                        CastOp::Trunc => self.ext(x, 0, *to),
                        _ => self.zext(x, *to),
                    });
                }
                let r = self.unlanes(&rs, *to);
                set!(*dst, wv(r, n * to));
            }
            Ins::VSelect { dst, c, a, b, n, w } => {
                chkv(*n, *w)?;
                let (c, x, y) = (vb(&val!(*c)), vb(&val!(*a)), vb(&val!(*b)));
                let (cs, xs, ys) = (self.lanes(c, *n, 1), self.lanes(x, *n, *w), self.lanes(y, *n, *w));
                let mut rs = vec![];
                for i in 0..*n as usize {
                    rs.push(self.ite(cs[i], *w, xs[i], ys[i]));
                }
                let r = self.unlanes(&rs, *w);
                set!(*dst, wv(r, n * w));
            }
            Ins::InsElem { dst, a, v, i, n, w } => {
                chkv(*n, *w)?;
                let (x, v) = (vb(&val!(*a)), vb(&val!(*v)));
                let i = vb(&val!(*i));
                let i = self.concretize(st, i, 64)? as usize;
                let mut l = self.lanes(x, *n, *w);
                l[i] = v;
                let r = self.unlanes(&l, *w);
                set!(*dst, wv(r, n * w));
            }
            Ins::ExtElem { dst, a, i, n, w } => {
                chkv(*n, *w)?;
                let x = vb(&val!(*a));
                let i = vb(&val!(*i));
                let i = self.concretize(st, i, 64)? as u32;
                let r = self.ext(x, i * w, *w);
                set!(*dst, wv(r, *w));
            }
            Ins::Shuffle { dst, a, b, n, w, mask } => {
                chkv(*n, *w)?;
                chkv(mask.len() as u32, *w)?;
                let (x, y) = (vb(&val!(*a)), vb(&val!(*b)));
                let mut l = self.lanes(x, *n, *w);
                l.extend(self.lanes(y, *n, *w));
                let rs: Vec<Bv> = mask.iter().map(|i| if *i < 0 { Bv::C(0) } else { l[*i as usize] }).collect();
                let r = self.unlanes(&rs, *w);
                set!(*dst, wv(r, mask.len() as u32 * w));
            }
            Ins::Unreachable => return Err(End::Unsupported(format!("unreachable reached in {:?}", self.stack(st)))),
            Ins::LandingPad | Ins::Resume => return Err(End::Unsupported("unwinding".into())),
            Ins::Unsupported(s) => return Err(End::Unsupported(format!("instruction {} in {:?}", s, self.stack(st)))),
        }
        Ok(())
    }

    /// the callee returned: complete the call instruction of the (now) top frame
    fn finish_call(&mut self, st: &mut State, rv: Option<Val>) {
        let (func, pc) = {
            let fr = st.frames.last().unwrap();
            (fr.func as usize, fr.pc as usize)
        };
        let ins: &Ins = unsafe { &*(&self.m.funcs[func].code[pc] as *const Ins) };
        if let Ins::Call { dst, edge, .. } = ins {
            if *dst != u32::MAX {
                if let Some(v) = rv {
                    st.frames.last_mut().unwrap().regs[*dst as usize] = v;
                }
            }
            match edge {
                Some(e) => self.take(st, e),
                None => st.frames.last_mut().unwrap().pc += 1,
            }
        } else {
            panic!("return to non-call");
        }
    }

    fn call(&mut self, st: &mut State, dst: u32, callee: &Callee, args: &[Op], w: u32, edge: Option<&Edge>) -> R<()> {
        let _ = edge;
        match callee {
            Callee::Intrinsic(i) => {
                let r = self.intrinsic(st, *i, args, w)?;
                let _ = dst;
                self.finish_call(st, r);
                Ok(())
            }
            Callee::Asm => {
                self.finish_call(st, Some(Val::I(0)));
                Ok(())
            }
            Callee::Direct(f) => self.call_fn(st, *f, args),
            Callee::Indirect(o) => {
                let v = vb(&self.get(st.frames.last().unwrap(), *o));
                let a = self.concretize(st, v, 64)? as u64;
                if a < self.fbase || (a - self.fbase) % 16 != 0 || (a - self.fbase) / 16 >= self.m.funcs.len() as u64 {
                    return Err(End::Mem(format!("call of non-function {:#x}", a)));
                }
                self.call_fn(st, ((a - self.fbase) / 16) as u32, args)
            }
        }
    }

    fn switch(&mut self, st: &mut State, to: usize) -> R<()> {
        if to == st.current {
            return Ok(());
        }
        if to >= st.parked.len() || st.parked[to].0.is_empty() {
            return Err(End::Panic(format!("switch to coroutine {}, which has ended", to)));
        }
        let (f, sp) = std::mem::take(&mut st.parked[to]);
        st.parked[st.current] = (std::mem::replace(&mut st.frames, f), st.sp);
        st.sp = sp;
        st.current = to;
        Ok(())
    }
    fn call_fn(&mut self, st: &mut State, f: u32, args: &[Op]) -> R<()> {
        let h = self.handlers[f as usize];
        if h != H::None {
            let a: Vec<Bv> = args
                .iter()
                .map(|o| match self.get(st.frames.last().unwrap(), *o) {
                    Val::A(_) => Bv::C(0),
                    v => vb(&v),
                })
                .collect();
            if h == H::VSpawn {
                let f = self.concretize(st, a[0], 64)? as u64;
                if f < self.fbase || (f - self.fbase) % 16 != 0 || (f - self.fbase) / 16 >= self.m.funcs.len() as u64 {
                    return Err(End::Mem(format!("call of non-function {:#x}", f)));
                }
                let f = ((f - self.fbase) / 16) as u32;
                let mut regs = vec![Val::I(0); self.m.funcs[f as usize].nregs as usize];
                regs[0] = wv(a[1], 64);
                self.touched[f as usize] = true;
                let id = st.parked.len();
                let sp = SBASE + id as u64 * STACK;
                st.parked.push((vec![Frame { func: f, pc: 0, regs, sp }], sp));
                self.finish_call(st, Some(Val::I(id as u64)));
                return Ok(());
            }
            if h == H::VSwitch {
                let to = self.concretize(st, a[0], 64)? as usize;
                self.finish_call(st, None);
                return self.switch(st, to);
            }
            let r = self.external(st, h, f, &a)?;
            self.finish_call(st, r);
            return Ok(());
        }
        let fun = &self.m.funcs[f as usize];
        let mut regs = vec![Val::I(0); fun.nregs as usize];
        {
            let fr = st.frames.last().unwrap();
            for (i, o) in args.iter().enumerate() {
                if i < fun.nparams as usize {
                    regs[i] = self.get(fr, *o);
                }
            }
        }
        self.touched[f as usize] = true;
        if st.frames.len() >= self.cfg.max_depth {
            return Err(End::Limit(format!("call depth {} exceeded", self.cfg.max_depth)));
        }
        st.frames.push(Frame { func: f, pc: 0, regs, sp: st.sp });
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, args: &[Op], w: u32) -> R<Option<Val>> {
        let a: Vec<Bv> = args
            .iter()
            .map(|o| match self.get(st.frames.last().unwrap(), *o) {
                Val::A(_) => Bv::C(0),
                v => vb(&v),
            })
            .collect();
        let rw = w >> 16;
        let w = w & 0xffff;
        let pair = |x: Bv, w: u32, y: Bv| Some(Val::A(Rc::new(vec![wv(x, w), wv(y, 1)])));
        Ok(match i {
            Intr::Nop => Some(Val::I(0)),
            Intr::Identity => Some(wv(a[0], w.max(1))),
            Intr::Trap => return Err(End::Panic(format!("trap in {:?}", self.stack(st)))),
            Intr::IsConstant => Some(Val::I(0)),
            Intr::Memcpy => {
                let n = self.concretize(st, a[2], 64)? as u64;
                if n > 0 {
                    let d = self.concretize(st, a[0], 64)? as u64;
                    let s = self.concretize(st, a[1], 64)? as u64;
                    st.mem.copy(d, s, n)?;
                }
                None
            }
            Intr::LoadRelative => {
                let base = self.concretize(st, a[0], 64)? as u64;
                let off = self.concretize(st, a[1], 64)? as u64;
                let v = self.load_bits(st, base.wrapping_add(off), 4, 32)?;
                let v = self.concretize(st, v, 32)? as u32;
                Some(Val::I(base.wrapping_add(v as i32 as i64 as u64)))
            }
            Intr::Memset => {
                let n = self.concretize(st, a[2], 64)? as u64;
                let d = self.concretize(st, a[0], 64)? as u64;
                let (cv, sv) = match a[1] {
                    Bv::C(v) => (v as u8, 0),
                    Bv::S(e) => (0, e),
                };
                for k in 0..n {
                    st.mem.set_byte(d + k, cv, sv)?;
                }
                None
            }
            Intr::Abs => {
                let neg = self.bin(K::Sub, w, Bv::C(0), a[0]);
                let c = self.bin(K::Slt, w, a[0], Bv::C(0));
                Some(wv(self.ite(c, w, neg, a[0]), w))
            }
            Intr::SMax | Intr::SMin | Intr::UMax | Intr::UMin => {
                let c = match i {
                    Intr::SMax => self.bin(K::Slt, w, a[1], a[0]),
                    Intr::SMin => self.bin(K::Slt, w, a[0], a[1]),
                    Intr::UMax => self.bin(K::Ult, w, a[1], a[0]),
                    _ => self.bin(K::Ult, w, a[0], a[1]),
                };
                Some(wv(self.ite(c, w, a[0], a[1]), w))
            }
            Intr::UAddOv => {
                let s = self.bin(K::Add, w, a[0], a[1]);
                let o = self.bin(K::Ult, w, s, a[0]);
                pair(s, w, o)
            }
            Intr::USubOv => {
                let s = self.bin(K::Sub, w, a[0], a[1]);
                let o = self.bin(K::Ult, w, a[0], a[1]);
                pair(s, w, o)
            }
            Intr::UMulOv | Intr::SMulOv => {
                if w > 64 {
                    return Err(End::Unsupported("wide mul overflow".into()));
                }
                let (x, y) = if i == Intr::UMulOv {
                    (self.zext(a[0], 2 * w), self.zext(a[1], 2 * w))
                } else {
                    (self.sext(a[0], w, 2 * w), self.sext(a[1], w, 2 * w))
                };
                let p = self.bin(K::Mul, 2 * w, x, y);
                let lo = self.ext(p, 0, w);
                let back = if i == Intr::UMulOv { self.zext(lo, 2 * w) } else { self.sext(lo, w, 2 * w) };
                let eq = self.bin(K::Eq, 2 * w, back, p);
                let o = self.bin(K::Xor, 1, eq, Bv::C(1));
                pair(lo, w, o)
            }
            Intr::SAddOv | Intr::SSubOv => {
                let (s, o) = self.signed_ov(i == Intr::SAddOv, w, a[0], a[1]);
                pair(s, w, o)
            }
            Intr::UAddSat => {
                let s = self.bin(K::Add, w, a[0], a[1]);
                let o = self.bin(K::Ult, w, s, a[0]);
                Some(wv(self.ite(o, w, Bv::C(m(w)), s), w))
            }
            Intr::USubSat => {
                let s = self.bin(K::Sub, w, a[0], a[1]);
                let o = self.bin(K::Ult, w, a[0], a[1]);
                Some(wv(self.ite(o, w, Bv::C(0), s), w))
            }
            Intr::SAddSat | Intr::SSubSat => {
                let (s, o) = self.signed_ov(i == Intr::SAddSat, w, a[0], a[1]);
                let neg = self.bin(K::Slt, w, a[0], Bv::C(0));
                let lim = self.ite(neg, w, Bv::C(1u128 << (w - 1)), Bv::C(m(w - 1)));
                Some(wv(self.ite(o, w, lim, s), w))
            }
            Intr::Bswap => {
                let l = self.lanes(a[0], w / 8, 8);
                let r: Vec<Bv> = l.into_iter().rev().collect();
                Some(wv(self.unlanes(&r, 8), w))
            }
            Intr::Bitreverse => {
                let l = self.lanes(a[0], w, 1);
                let r: Vec<Bv> = l.into_iter().rev().collect();
                Some(wv(self.unlanes(&r, 1), w))
            }
            Intr::Ctpop => {
                let l = self.lanes(a[0], w, 1);
                let mut acc = Bv::C(0);
                for x in l {
                    let z = self.zext(x, w);
                    acc = self.bin(K::Add, w, acc, z);
                }
                Some(wv(acc, w))
            }
            Intr::Ctlz | Intr::Cttz => {
                if let Bv::C(v) = a[0] {
                    let r = if i == Intr::Ctlz {
                        if v == 0 {
                            w
                        } else {
                            v.leading_zeros() - (128 - w)
                        }
                    } else if v == 0 {
                        w
                    } else {
                        v.trailing_zeros()
                    };
                    return Ok(Some(wv(Bv::C(r as u128), w)));
                }
                let l = self.lanes(a[0], w, 1);
                let mut acc = Bv::C(w as u128);
                // innermost decided last
                for k in 0..w {
                    let (bit, val) = if i == Intr::Ctlz { (l[k as usize], w - 1 - k) } else { (l[(w - 1 - k) as usize], w - 1 - k) };
                    acc = self.ite(bit, w, Bv::C(val as u128), acc);
                }
                Some(wv(acc, w))
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.bin(K::URem, w, a[2], Bv::C(w as u128));
                if w > 64 {
                    return Err(End::Unsupported("wide fsh".into()));
                }
                let cat = self.cat(a[0], w, a[1], w);
                let sz = self.zext(s, 2 * w);
                let r = if i == Intr::Fshl {
                    let t = self.bin(K::Shl, 2 * w, cat, sz);
                    self.ext(t, w, w)
                } else {
                    let t = self.bin(K::LShr, 2 * w, cat, sz);
                    self.ext(t, 0, w)
                };
                Some(wv(r, w))
            }
            Intr::UCmp | Intr::SCmp => {
                let lt = self.bin(if i == Intr::UCmp { K::Ult } else { K::Slt }, w, a[0], a[1]);
                let eq = self.bin(K::Eq, w, a[0], a[1]);
                let t = self.ite(eq, rw, Bv::C(0), Bv::C(1));
                let r = self.ite(lt, rw, Bv::C(m(rw)), t);
                Some(wv(r, rw))
            }
            Intr::VReduceOr | Intr::VReduceAnd | Intr::VReduceAdd => {
                let lw = rw;
                let n = w / lw;
                let l = self.lanes(a[0], n, lw);
                let op = match i {
                    Intr::VReduceOr => K::Or,
                    Intr::VReduceAnd => K::And,
                    _ => K::Add,
                };
                let mut acc = l[0];
                for x in &l[1..] {
                    acc = self.bin(op, lw, acc, *x);
                }
                Some(wv(acc, lw))
            }
            Intr::Unsupported => return Err(End::Unsupported("intrinsic".into())),
        })
    }

    fn signed_ov(&mut self, add: bool, w: u32, a: Bv, b: Bv) -> (Bv, Bv) {
        if w < 128 {
            let (x, y) = (self.sext(a, w, w + 1), self.sext(b, w, w + 1));
            let s = self.bin(if add { K::Add } else { K::Sub }, w + 1, x, y);
            let lo = self.ext(s, 0, w);
            // overflow decided on the operand signs (keeps terms small)
            let o = match (a, b) {
                (_, Bv::C(c)) => {
                    let c = sx(c, w);
                    let c = if add { c } else { -c };
                    if c >= 0 {
                        let lim = ((1i128 << (w - 1)) - 1) - c;
                        if c > (1i128 << (w - 1)) - 1 {
                            // a - MIN: overflows when a >= 0
                            self.icmp(Pred::Sge, w, a, Bv::C(0))
                        } else {
                            self.icmp(Pred::Sgt, w, a, Bv::C(lim as u128 & m(w)))
                        }
                    } else {
                        let lim = -(1i128 << (w - 1)) - c;
                        self.icmp(Pred::Slt, w, a, Bv::C(lim as u128 & m(w)))
                    }
                }
                _ => {
                    let back = self.sext(lo, w, w + 1);
                    let eq = self.bin(K::Eq, w + 1, back, s);
                    self.bin(K::Xor, 1, eq, Bv::C(1))
                }
            };
            (lo, o)
        } else {
            let s = self.bin(if add { K::Add } else { K::Sub }, w, a, b);
            (s, Bv::C(0))
        }
    }

    fn external(&mut self, st: &mut State, h: H, f: u32, a: &[Bv]) -> R<Option<Val>> {
        Ok(Some(match h {
            H::Malloc => {
                let n = self.concretize(st, a[0], 64)? as u64;
                if n > 1 << 30 {
                    return Err(End::Limit(format!("allocation of {} bytes", n)));
                }
                Val::I(self.alloc(st, n, 16))
            }
            H::Calloc => {
                let n = self.concretize(st, a[0], 64)? as u64;
                let k = self.concretize(st, a[1], 64)? as u64;
                if n.saturating_mul(k) > 1 << 30 {
                    return Err(End::Limit(format!("allocation of {}x{} bytes", n, k)));
                }
                Val::I(self.alloc(st, n * k, 16))
            }
            H::Realloc => {
                let p = self.concretize(st, a[0], 64)? as u64;
                let n = self.concretize(st, a[1], 64)? as u64;
                if n > 1 << 30 {
                    return Err(End::Limit(format!("allocation of {} bytes", n)));
                }
                let q = self.alloc(st, n, 16);
                if p != 0 {
                    if st.mem.raw_read_u64(p - 16) != Some(0x5ca1ab1e) {
                        return Err(End::Mem(format!("invalid realloc of {:#x}", p)));
                    }
                    let old = st.mem.raw_read_u64(p - 8).unwrap();
                    st.mem.copy(q, p, old.min(n))?;
                    self.free(st, p)?;
                }
                Val::I(q)
            }
            H::Free => {
                let p = self.concretize(st, a[0], 64)? as u64;
                self.free(st, p)?;
                return Ok(None);
            }
            H::Memalign => {
                let out = self.concretize(st, a[0], 64)? as u64;
                let al = self.concretize(st, a[1], 64)? as u64;
                let n = self.concretize(st, a[2], 64)? as u64;
                let p = self.alloc(st, n, al);
                st.mem.write(out, 8, p as u128)?;
                Val::I(0)
            }
            H::Bcmp | H::Memcmp => {
                let n = self.concretize(st, a[2], 64)? as u64;
                if n == 0 {
                    return Ok(Some(Val::I(0)));
                }
                let p = self.concretize(st, a[0], 64)? as u64;
                let q = self.concretize(st, a[1], 64)? as u64;
                let mut acc = Bv::C(0);
                if h == H::Bcmp {
                    let mut alleq = Bv::C(1);
                    for i in 0..n {
                        let x = self.load_bits(st, p + i, 1, 8)?;
                        let y = self.load_bits(st, q + i, 1, 8)?;
                        let e = self.bin(K::Eq, 8, x, y);
                        if e == Bv::C(0) {
                            return Ok(Some(Val::I(1)));
                        }
                        alleq = self.bin(K::And, 1, alleq, e);
                    }
                    acc = self.ite(alleq, 32, Bv::C(0), Bv::C(1));
                } else {
                    for i in (0..n).rev() {
                        let x = self.load_bits(st, p + i, 1, 8)?;
                        let y = self.load_bits(st, q + i, 1, 8)?;
                        let e = self.bin(K::Eq, 8, x, y);
                        let l = self.bin(K::Ult, 8, x, y);
                        let d = self.ite(l, 32, Bv::C(0xffff_ffff), Bv::C(1));
                        acc = self.ite(e, 32, acc, d);
                    }
                }
                wv(acc, 32)
            }
            H::Strlen => {
                let p = self.concretize(st, a[0], 64)? as u64;
                let mut n = 0;
                loop {
                    let x = self.load_bits(st, p + n, 1, 8)?;
                    if x == Bv::C(0) {
                        break;
                    }
                    n += 1;
                }
                Val::I(n)
            }
            H::Write => wv(a[2], 64),
            H::Writev => {
                let iov = self.concretize(st, a[1], 64)? as u64;
                let n = self.concretize(st, a[2], 32)? as u64;
                let mut tot = 0u64;
                for i in 0..n {
                    let l = self.load_bits(st, iov + 16 * i + 8, 8, 64)?;
                    tot += self.concretize(st, l, 64)? as u64;
                }
                Val::I(tot)
            }
            H::Zero => Val::I(0),
            H::One => Val::I(1),
            H::Errno => Val::I(self.errno),
            H::Syscall => match a[0] {
                Bv::C(318) => {
                    let p = self.concretize(st, a[1], 64)? as u64;
                    let n = self.concretize(st, a[2], 64)? as u64;
                    for i in 0..n {
                        st.mem.set_byte(p + i, 0x5a, 0)?;
                    }
                    Val::I(n)
                }
                Bv::C(186) => Val::I(1),
                _ => return Err(End::Unsupported(format!("syscall {:?}", a[0]))),
            },
            H::GetRandom => {
                let p = self.concretize(st, a[0], 64)? as u64;
                let n = self.concretize(st, a[1], 64)? as u64;
                for i in 0..n {
                    st.mem.set_byte(p + i, 0x5a, 0)?;
                }
                Val::I(n)
            }
            // the harness has said that this path has to end here
            H::Panic if st.covers.contains(&999) => return Err(End::Done),
            H::Panic => {
                let mut loc = None;
                for x in a.iter().rev() {
                    if let Bv::C(l) = x {
                        loc = self.location(st, *l as u64);
                        if loc.is_some() {
                            break;
                        }
                    }
                }
                return Err(End::Panic(loc.unwrap_or_else(|| "?".into())));
            }
            H::Abort => return Err(End::Panic("abort".into())),
            H::Exit => return Err(End::Done),
            H::VSym => {
                let w = self.concretize(st, a[0], 32)? as u32;
                let i = st.vars.len() as u32;
                st.vars.push(w);
                st.model.push(0);
                let v = self.pool.var(i, w);
                let z = self.pool.zext(v, 64);
                Val::S(z)
            }
            H::VAssume => {
                let c = self.bin(K::Eq, 32, a[0], Bv::C(0));
                let c = self.bin(K::Xor, 1, c, Bv::C(1));
                match c {
                    Bv::C(1) => {}
                    Bv::C(_) => return Err(End::Assume),
                    Bv::S(e) => {
                        if self.pool.eval(e, &st.model) != 1 {
                            match self.feasible(st, e)? {
                                None => return Err(End::Assume),
                                Some(mm) => st.model = mm,
                            }
                        }
                        self.add_pc(st, e);
                    }
                }
                return Ok(None);
            }
            H::VAssert => {
                self.obligations += 1;
                st.obligations += 1;
                let c = self.bin(K::Eq, 32, a[0], Bv::C(0));
                let id = self.concretize(st, a[1], 32)? as u32;
                match c {
                    Bv::C(0) => {}
                    Bv::C(_) => return Err(End::Assert(id)),
                    Bv::S(e) => {
                        // e: the assertion fails
                        if self.pool.eval(e, &st.model) == 1 {
                            self.add_pc(st, e);
                            return Err(End::Assert(id));
                        }
                        if let Some(mm) = self.feasible(st, e)? {
                            st.model = mm;
                            self.add_pc(st, e);
                            return Err(End::Assert(id));
                        }
                    }
                }
                return Ok(None);
            }
            H::VCover => {
                if let Bv::C(id) = a[0] {
                    let id = id as u32;
                    if !st.covers.contains(&id) {
                        st.covers.push(id);
                    }
                }
                return Ok(None);
            }
            H::VOut => {
                st.outs.push(a[0]);
                return Ok(None);
            }
            H::VConcrete => {
                let v = self.concretize(st, a[0], 64)?;
                Val::I(v as u64)
            }
            H::VIsSym => Val::I(1),
            H::VStop => return Err(End::Done),
            H::VSpawn | H::VSwitch => unreachable!(),
            H::Unsupported | H::None => {
                let n = self.m.funcs[f as usize].name.clone();
                *self.unsupported_calls.entry(n.clone()).or_insert(0) += 1;
                return Err(End::Unsupported(format!("external function {} in {:?}", n, self.stack(st))));
            }
        }))
    }

    fn location(&self, st: &State, l: u64) -> Option<String> {
        let rd = |a: u64, n: usize| st.mem.read(a, n).ok().flatten();
        let p = rd(l, 8)? as u64;
        let n = rd(l + 8, 8)? as u64;
        let line = rd(l + 16, 4)?;
        let col = rd(l + 20, 4)?;
        if n > 400 {
            return None;
        }
        let mut s = String::new();
        for i in 0..n {
            let c = rd(p + i, 1)? as u8;
            if c == 0 {
                break;
            }
            s.push(c as char);
        }
        Some(format!("{}:{}:{}", s, line, col))
    }

    pub fn eval_outs(&mut self, st: &State) -> Vec<u128> {
        st.outs
            .iter()
            .map(|o| match o {
                Bv::C(v) => *v,
                Bv::S(e) => self.pool.eval(*e, &st.model),
            })
            .collect()
    }
}

impl State {
    fn clone_light(&self) -> State {
        State {
            frames: vec![],
            parked: vec![],
            current: 0,
            mem: Mem::new(),
            pc: self.pc.clone(),
            model: self.model.clone(),
            vars: self.vars.clone(),
            steps: 0,
            sp: 0,
            hp: 0,
            outs: vec![],
            covers: vec![],
            depth: 0,
            obligations: 0,
        }
    }
}

fn chkv(n: u32, w: u32) -> R<()> {
    if n * w > 128 {
        Err(End::Unsupported(format!("vector <{} x i{}>", n, w)))
    } else {
        Ok(())
    }
}

fn set_opt(st: &mut State, dst: u32, v: Val) {
    let f = st.frames.last_mut().unwrap();
    if dst != u32::MAX {
        f.regs[dst as usize] = v;
    }
    f.pc += 1;
}

fn insert(a: &Val, idx: &[u32], v: Val) -> Val {
    if idx.is_empty() {
        return v;
    }
    match a {
        Val::A(l) => {
            let mut n = (**l).clone();
            n[idx[0] as usize] = insert(&l[idx[0] as usize], &idx[1..], v);
            Val::A(Rc::new(n))
        }
        _ => panic!("insertvalue"),
    }
}

fn same_moves(a: &[(u32, Op)], b: &[(u32, Op)]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.0 == y.0
                && match (x.1, y.1) {
                    (Op::Reg(p), Op::Reg(q)) => p == q,
                    (Op::Int(p), Op::Int(q)) => p == q,
                    (Op::Const(p), Op::Const(q)) => p == q,
                    _ => false,
                }
        })
}

pub fn k_of(o: BinOp) -> K {
    match o {
        BinOp::Add => K::Add,
        BinOp::Sub => K::Sub,
        BinOp::Mul => K::Mul,
        BinOp::UDiv => K::UDiv,
        BinOp::SDiv => K::SDiv,
        BinOp::URem => K::URem,
        BinOp::SRem => K::SRem,
        BinOp::Shl => K::Shl,
        BinOp::LShr => K::LShr,
        BinOp::AShr => K::AShr,
        BinOp::And => K::And,
        BinOp::Or => K::Or,
        BinOp::Xor => K::Xor,
    }
}

fn handler(n: &str, defined: bool) -> H {
    match n {
        "malloc" => return H::Malloc,
        "calloc" => return H::Calloc,
        "realloc" => return H::Realloc,
        "free" => return H::Free,
        "posix_memalign" => return H::Memalign,
        "bcmp" => return H::Bcmp,
        "memcmp" => return H::Memcmp,
        "strlen" => return H::Strlen,
        "write" => return H::Write,
        "writev" => return H::Writev,
        "__errno_location" => return H::Errno,
        "syscall" => return H::Syscall,
        "getrandom" => return H::GetRandom,
        "abort" => return H::Abort,
        "exit" | "_exit" => return H::Exit,
        "gettid" | "pthread_self" => return H::One,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete"
        | "sched_yield" | "clock_gettime" => return H::Zero,
        "vp_sym" => return H::VSym,
        "vp_assume" => return H::VAssume,
        "vp_assert" => return H::VAssert,
        "vp_cover" => return H::VCover,
        "vp_out" => return H::VOut,
        "vp_concrete" => return H::VConcrete,
        "vp_stop" => return H::VStop,
        "vp_symbolic" => return H::VIsSym,
        "vp_spawn" => return H::VSpawn,
        "vp_switch" => return H::VSwitch,
        _ => {}
    }
    if n.ends_with("4core9panicking9panic_fmt") || n.ends_with("4core9panicking18panic_nounwind_fmt") || n.contains("rust_begin_unwind") || n.ends_with("18panic_nounwind_fmt") || n.ends_with("9panicking15panic_with_hook") {
        return H::Panic;
    }
    if n.ends_with("handle_alloc_error") || n.ends_with("capacity_overflow") {
        return H::Panic;
    }
    if !defined {
        return H::Unsupported;
    }
    H::None
}

impl Eng {
    /// run at most n instructions; None when the slice is used up
    pub fn run_slice(&mut self, st: &mut State, n: u64) -> Option<End> {
        for _ in 0..n {
            if let Err(e) = self.step(st) {
                return Some(e);
            }
            st.steps += 1;
            if st.steps > self.cfg.max_steps {
                return Some(End::Limit(format!("step limit {} exceeded", self.cfg.max_steps)));
            }
        }
        None
    }
}
