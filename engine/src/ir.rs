//! Internal representation of the LLVM IR subset that rustc / clang emit.
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Label,
    Meta,
    Func,
    Opaque,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => ((*n as u64) * t.bits() / 8).next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(n) => *n as u64,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vec(n, t) => (*n as u64) * t.bits(),
            _ => self.size() * 8,
        }
    }
    /// Store size in bytes.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            Ty::Vec(..) => (self.bits() + 7) / 8,
            _ => self.size(),
        }
    }
    /// Allocation size in bytes (with tail padding).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Vec(..) => {
                let b = (self.bits() + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.bits() / 8 * i as u64,
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn field_ty(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) => (**t).clone(),
            Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field_ty on {:?}", self),
        }
    }
}

/// A runtime value. Integers, pointers and float bit patterns of at most 64 bits are `I`.
#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    W(u128),
    S(u32),
    A(Rc<Vec<Val>>),
    P,
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    C(Val),
}

/// Shape of a scalar or vector operand: element width, element kind, lane count (0 = scalar).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct St {
    pub w: u32,
    pub fp: bool,
    pub n: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FPred {
    False,
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
    True,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
    Same, // ptrtoint/inttoptr/bitcast between equal-width scalars
    BitcastVec,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),  // index into module function table
    Named(u32),   // external: index into module external-name table
    Indirect(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: Bin, st: St, dst: u32, a: Op, b: Op },
    FNeg { st: St, dst: u32, a: Op },
    Icmp { p: Pred, st: St, dst: u32, a: Op, b: Op },
    Fcmp { p: FPred, st: St, dst: u32, a: Op, b: Op },
    Cast { c: Cast, from: St, to: St, dst: u32, a: Op },
    Select { st: Option<St>, cond_vec: bool, dst: u32, c: Op, a: Op, b: Op },
    Gep { dst: u32, base: Op, off: i64, idx: Vec<(Op, u32, u64)>, vec: bool },
    Load { dst: u32, ty: Ty, ptr: Op },
    Store { ty: Ty, val: Op, ptr: Op },
    Alloca { dst: u32, size: u64, align: u64, count: Option<(Op, u32)> },
    Call { dst: Option<u32>, callee: Callee, args: Vec<(Ty, Op)>, ret: Ty, normal: Option<u32> },
    Br { to: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { w: u32, v: Op, def: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<Op> },
    Unreachable,
    ExtractValue { dst: u32, a: Op, idx: Vec<u32>, ty: Ty },
    InsertValue { dst: u32, a: Op, v: Op, idx: Vec<u32>, ty: Ty },
    ExtractElem { dst: u32, a: Op, i: Op, n: u32 },
    InsertElem { dst: u32, a: Op, v: Op, i: Op, n: u32 },
    Shuffle { dst: u32, a: Op, b: Op, mask: Vec<i32>, n: u32 },
    Freeze { dst: u32, a: Op },
    AtomicRmw { op: u8, w: u32, dst: u32, ptr: Op, val: Op },
    CmpXchg { w: u32, dst: u32, ptr: Op, cmp: Op, new: Op },
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>, // dst, (pred block, value)
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nargs: u32,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}
