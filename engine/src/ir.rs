//! In-memory form of the LLVM module that is interpreted.
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Struct(Vec<TyId>, bool),
    Array(u64, TyId),
    Vector(u64, TyId),
    Func,
    Label,
    Meta,
}

pub struct Types {
    pub tys: Vec<Ty>,
    pub map: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
}

impl Types {
    pub fn new() -> Self {
        Types { tys: vec![], map: HashMap::new(), named: HashMap::new() }
    }
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.tys[t as usize]
    }
    /// bit width of scalar or vector
    pub fn bits(&self, t: TyId) -> u32 {
        match self.ty(t) {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vector(n, e) => (*n as u32) * self.bits(*e),
            x => panic!("bits of {:?}", x),
        }
    }
    pub fn align(&self, t: TyId) -> u64 {
        match self.ty(t) {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|x| self.align(*x)).max().unwrap_or(1)
                }
            }
            Ty::Array(_, e) => self.align(*e),
            Ty::Vector(..) => self.store_size(t).next_power_of_two(),
            x => panic!("align of {:?}", x),
        }
    }
    pub fn store_size(&self, t: TyId) -> u64 {
        match self.ty(t) {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vector(n, e) => (n * self.bits(*e) as u64 + 7) / 8,
            _ => self.size(t),
        }
    }
    pub fn size(&self, t: TyId) -> u64 {
        match self.ty(t) {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) | Ty::Vector(..) => {
                let s = self.store_size(t);
                let a = self.align(t);
                (s + a - 1) / a * a
            }
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for x in f {
                    if !*packed {
                        let a = self.align(*x);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size(*x);
                }
                if !*packed {
                    let a = self.align(t);
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Array(n, e) => n * self.size(*e),
            Ty::Void | Ty::Func => 1,
            x => panic!("size of {:?}", x),
        }
    }
    pub fn field_off(&self, t: TyId, idx: usize) -> (u64, TyId) {
        match self.ty(t) {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (i, x) in f.iter().enumerate() {
                    if !*packed {
                        let a = self.align(*x);
                        o = (o + a - 1) / a * a;
                    }
                    if i == idx {
                        return (o, *x);
                    }
                    o += self.size(*x);
                }
                panic!("field idx")
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => (self.size(*e) * idx as u64, *e),
            x => panic!("field_off of {:?}", x),
        }
    }
}

/// Constant initialiser tree
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(TyId, Const)>),
    Splat(Box<(TyId, Const)>),
    Sym(String),              // address of a global or function
    Off(Box<Const>, i64),     // address + offset
    PtrToInt(Box<Const>),
    Bin(BinOp, u32, Box<Const>, Box<Const>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast, ptrtoint, inttoptr between same widths (or trunc/zext)
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Reg(u32),
    Int(u64),
    Const(u32), // index in Module.consts
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32, // pc after linking (block id before)
    pub moves: Vec<(u32, Op)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
    Intrinsic(Intr),
    Asm,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop,
    Memcpy,
    LoadRelative,
    Memset,
    Trap,
    Abs,
    SMax,
    SMin,
    UMax,
    UMin,
    UAddOv,
    USubOv,
    UMulOv,
    SAddOv,
    SSubOv,
    SMulOv,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Bswap,
    Bitreverse,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Identity, // threadlocal.address, expect
    IsConstant,
    UCmp,
    SCmp,
    VReduceOr,
    VReduceAnd,
    VReduceAdd,
    Unsupported,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u32, dst: u32, a: Op, b: Op },
    VBin { op: BinOp, n: u32, w: u32, dst: u32, a: Op, b: Op },
    Icmp { p: Pred, w: u32, dst: u32, a: Op, b: Op },
    VIcmp { p: Pred, n: u32, w: u32, dst: u32, a: Op, b: Op },
    Cast { op: CastOp, from: u32, to: u32, dst: u32, a: Op },
    VCast { op: CastOp, n: u32, from: u32, to: u32, dst: u32, a: Op },
    Select { dst: u32, c: Op, a: Op, b: Op, ty: TyId },
    VSelect { dst: u32, c: Op, a: Op, b: Op, n: u32, w: u32 },
    Load { dst: u32, p: Op, ty: TyId, bytes: u32, w: u32 }, // w = 0: aggregate
    Store { v: Op, p: Op, ty: TyId, bytes: u32, w: u32 },
    Gep { dst: u32, base: Op, off: i64, terms: Vec<(Op, u32, i64)> },
    Alloca { dst: u32, size: u64, align: u64, n: Option<Op> },
    Call { dst: u32, callee: Callee, args: Vec<Op>, w: u32, edge: Option<Box<Edge>> },
    Ret { v: Option<Op> },
    Br { e: Box<Edge> },
    CondBr { c: Op, t: Box<Edge>, f: Box<Edge> },
    Switch { v: Op, w: u32, def: Box<Edge>, cases: Vec<(u64, Edge)> },
    Unreachable,
    Extract { dst: u32, a: Op, idx: Vec<u32> },
    Insert { dst: u32, a: Op, v: Op, idx: Vec<u32>, ty: TyId },
    Rmw { dst: u32, op: RmwOp, p: Op, v: Op, w: u32 },
    CmpXchg { dst: u32, p: Op, c: Op, n: Op, w: u32 },
    Nop,
    Move { dst: u32, a: Op },
    InsElem { dst: u32, a: Op, v: Op, i: Op, n: u32, w: u32 },
    ExtElem { dst: u32, a: Op, i: Op, n: u32, w: u32 },
    Shuffle { dst: u32, a: Op, b: Op, n: u32, w: u32, mask: Vec<i32> },
    LandingPad,
    Resume,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub defined: bool,
    pub nparams: u32,
    pub nregs: u32,
    pub code: Vec<Ins>,
    pub ret_bits: u32,
    pub used: bool,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<Const>,
    pub align: u64,
    pub constant: bool,
    pub addr: u64,
}

pub struct Module {
    pub types: Types,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub aliases: Vec<(String, Const)>,
    pub consts: Vec<(TyId, Const)>,
}
