//! Slot-based form of the LLVM IR subset that rustc emits.
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Array(u64, Arc<Ty>),
    Vector(u64, Arc<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    /// (allocation size, alignment)
    pub fn size_align(&self) -> (u64, u64) {
        match self {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let bytes = (*w as u64 + 7) / 8;
                let a = bytes.next_power_of_two().min(16);
                ((bytes + a - 1) / a * a, a)
            }
            Ty::F32 => (4, 4),
            Ty::F64 | Ty::Ptr => (8, 8),
            Ty::Array(n, t) => {
                let (s, a) = t.size_align();
                (n * s, a)
            }
            Ty::Vector(n, t) => {
                let bits = n * t.bits() as u64;
                let s = (bits + 7) / 8;
                (s, s.next_power_of_two())
            }
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                let mut al = 1;
                for t in ts {
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((off + al - 1) / al * al, al)
            }
        }
    }
    pub fn size(&self) -> u64 {
        self.size_align().0
    }
    /// Bits of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr)
    }
    /// Bytes touched by a load or store of a scalar
    pub fn store_bytes(&self) -> u64 {
        (self.bits() as u64 + 7) / 8
    }
    pub fn field_offset(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                for (k, t) in ts.iter().enumerate() {
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    if k as u64 == i {
                        return (off, t.clone());
                    }
                    off += s;
                }
                panic!("field index");
            }
            _ => panic!("field of scalar"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(u64),
    /// constant wider than 64 bits
    W(u128, u32),
    Undef(u32),
    Agg(Arc<[Opnd]>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FBin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Same,
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop,
    MemCpy,
    MemMove,
    MemSet,
    Memcmp,
    SAddO,
    UAddO,
    SSubO,
    USubO,
    SMulO,
    UMulO,
    SAddSat,
    UAddSat,
    SSubSat,
    USubSat,
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitReverse,
    FShl,
    FShr,
    UCmp,
    SCmp,
    IsConstant,
    ThreadLocalAddr,
    Expect,
    Trap,
    FAbs,
    FSqrt,
    FToSiSat(u32),
    FMinNum,
    FMaxNum,
    FCopysign,
    FMulAdd,
    /// 0 floor 1 ceil 2 trunc 3 round 4 round to even
    FRound(u8),
    FPowi,
    Freeze,
    // runtime
    RustAlloc,
    RustAllocZeroed,
    RustDealloc,
    RustRealloc,
    BeginUnwind,
    ResumeUnwind,
    HandleAllocError,
    Abort,
    // harness
    SymParam,
    SymInt,
    SymBool,
    SymChoice,
    SymAssume,
    SymAssert,
    SymCover,
    SymConcretize,
    SymTry,
    SymLive,
    SymNote,
    SymIte,
    SymPanic,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Intr(Intr),
    Indirect(Opnd),
    Unknown(Arc<str>),
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: Vec<(u32, Opnd)>,
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<Opnd>,
    pub argw: Vec<u32>,
    /// (normal edge, unwind edge)
    pub invoke: Option<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub enum Instr {
    Bin { op: BinOp, w: u32, dst: u32, a: Opnd, b: Opnd },
    FBin { op: FBin, w: u32, dst: u32, a: Opnd, b: Opnd },
    FNeg { w: u32, dst: u32, a: Opnd },
    Icmp { p: Pred, w: u32, dst: u32, a: Opnd, b: Opnd },
    /// LLVM fcmp as 4 bits: un, lt, gt, eq
    Fcmp { mask: u8, w: u32, dst: u32, a: Opnd, b: Opnd },
    Cast { op: Cast, from: u32, to: u32, dst: u32, a: Opnd },
    Select { dst: u32, w: u32, c: Opnd, a: Opnd, b: Opnd },
    /// base + off + sum(idx * scale)
    Gep { dst: u32, base: Opnd, off: u64, idx: Vec<(Opnd, u32, u64)> },
    Load { dst: u32, ty: Ty, ptr: Opnd, align: u32 },
    Store { ty: Ty, val: Opnd, ptr: Opnd, align: u32 },
    Alloca { dst: u32, size: u64, align: u32 },
    Call(Box<CallI>),
    Extract { dst: u32, agg: Opnd, path: Vec<u32> },
    Insert { dst: u32, agg: Opnd, val: Opnd, path: Vec<u32> },
    Freeze { dst: u32, w: u32, a: Opnd },
    Rmw { dst: u32, op: &'static str, ty: Ty, ptr: Opnd, val: Opnd },
    CmpXchg { dst: u32, ty: Ty, ptr: Opnd, cmp: Opnd, new: Opnd },
    Landing { dst: u32, cleanup: bool, filter: bool, catch: bool },
    Resume { a: Opnd },
    Br { e: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<Opnd> },
    Unreachable,
    Unsupported(Arc<str>),
}

pub struct Func {
    pub id: u32,
    pub name: Arc<str>,
    pub pretty: Arc<str>,
    pub nparams: u32,
    pub nregs: u32,
    pub code: Vec<Instr>,
    pub edges: Vec<Edge>,
}
