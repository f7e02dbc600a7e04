//! Parser for the textual LLVM IR that rustc emits, and decoder into a compact instruction form.
//! Registers of aggregate or vector type are flattened into consecutive scalar slots.

use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Metadata,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Metadata => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.width() as u64 + 7) / 8,
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for f in fs {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += f.size();
                }
                if !packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Metadata => 1,
            Ty::Int(w) => {
                if *w <= 8 {
                    1
                } else if *w <= 16 {
                    2
                } else if *w <= 32 {
                    4
                } else if *w <= 64 {
                    8
                } else {
                    16
                }
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => panic!("width of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double)
    }
    /// Scalar leaves: (byte offset, width).
    pub fn leaves(&self, base: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Void | Ty::Label | Ty::Metadata => {}
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => out.push((base, self.width())),
            Ty::Array(n, t) => {
                for i in 0..*n {
                    t.leaves(base + i * t.size(), out);
                }
            }
            Ty::Vector(n, t) => {
                let s = (t.width() as u64 + 7) / 8;
                for i in 0..*n {
                    out.push((base + i * s, t.width()));
                }
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for f in fs {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    f.leaves(base + off, out);
                    off += f.size();
                }
            }
        }
    }
    pub fn nleaves(&self) -> u32 {
        match self {
            Ty::Void | Ty::Label | Ty::Metadata => 0,
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => 1,
            Ty::Array(n, t) => *n as u32 * t.nleaves(),
            Ty::Vector(n, _) => *n as u32,
            Ty::Struct(fs, _) => fs.iter().map(|f| f.nleaves()).sum(),
        }
    }
    fn field_offset(&self, idx: u64) -> (u64, &Ty) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (i, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        off = (off + a - 1) / a * a;
                    }
                    if i as u64 == idx {
                        return (off, f);
                    }
                    off += f.size();
                }
                panic!("field index")
            }
            _ => panic!("field_offset on {:?}", self),
        }
    }
    /// First leaf index and sub-type for an extractvalue/insertvalue index.
    fn leaf_index(&self, idx: u64) -> (u32, &Ty) {
        match self {
            Ty::Struct(fs, _) => {
                let mut n = 0;
                for f in &fs[..idx as usize] {
                    n += f.nleaves();
                }
                (n, &fs[idx as usize])
            }
            Ty::Array(_, t) => (idx as u32 * t.nleaves(), t),
            _ => panic!("leaf_index"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Slot(u32),
    C(u64),
    /// Wide constant (more than 64 bits), index into `Code::wide`.
    W(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Zext,
    Sext,
    Trunc,
}

#[derive(Debug)]
pub struct Edge {
    pub block: u32,
    pub moves: Box<[(u32, Op)]>,
}

#[derive(Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
    Intrinsic(Intr),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Assume,
    Trap,
    Abs(u32),
    Bswap(u32),
    Bitreverse(u32),
    Ctlz(u32),
    Cttz(u32),
    Ctpop(u32),
    Fshl(u32),
    Fshr(u32),
    UMax(u32),
    UMin(u32),
    SMax(u32),
    SMin(u32),
    UAddSat(u32),
    USubSat(u32),
    Ucmp(u32, u32),
    Scmp(u32, u32),
    Ovf(char, bool, u32), // '+','-','*'; signed
    IsConstant,
    Ident,
    Zero,
    Expect,
    Unknown(String),
}

#[derive(Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u32, dst: u32, a: Op, b: Op },
    Icmp { p: Pred, w: u32, dst: u32, a: Op, b: Op },
    Cast { k: CastK, from: u32, to: u32, dst: u32, a: Op },
    Load1 { dst: u32, w: u32, ptr: Op, align: u64 },
    LoadN { dst: u32, leaves: Box<[(u64, u32)]>, ptr: Op, align: u64 },
    Store1 { w: u32, val: Op, ptr: Op, align: u64 },
    StoreN { leaves: Box<[(u64, u32)]>, vals: Box<[Op]>, ptr: Op, align: u64 },
    Gep { dst: u32, base: Op, off: i64, idx: Box<[(Op, u32, u64)]> },
    Select { dst: u32, w: Box<[u32]>, cond: Op, a: Box<[Op]>, b: Box<[Op]> },
    Mov { moves: Box<[(u32, Op)]> },
    Alloca { dst: u32, size: u64, count: Option<Op>, align: u64 },
    Call { dst: u32, ndst: u32, wdst: Box<[u32]>, callee: Callee, args: Box<[Op]>, normal: Option<Edge>, unwind: Option<Edge> },
    Br(Edge),
    CondBr { cond: Op, t: Edge, f: Edge },
    Switch { w: u32, v: Op, cases: Box<[(u64, Edge)]>, def: Edge },
    Ret { vals: Box<[Op]> },
    Unreachable,
    Resume { vals: Box<[Op]> },
    LandingPad { dst: u32 },
    AtomicRmw { op: RmwOp, w: u32, dst: u32, ptr: Op, val: Op },
    CmpXchg { w: u32, dst: u32, ptr: Op, cmp: Op, new: Op },
    ConcatBits { dst: u32, w: u32, elems: Box<[Op]>, ew: u32 },
    SplitBits { dst: u32, src: Op, w: u32, n: u32, ew: u32 },
    Unsupported(String),
    Nop,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Bin(BinOp),
    UMax,
    UMin,
    Max,
    Min,
}

#[derive(Debug)]
pub struct Code {
    pub nslots: u32,
    pub params: Vec<(u32, u32)>, // slot, nleaves
    pub param_widths: Vec<u32>,
    pub blocks: Vec<Vec<Ins>>,
    pub wide: Vec<u128>,
}

pub struct Func {
    pub name: String,
    pub header: (usize, usize),
    pub body: Option<(usize, usize)>,
    pub code: OnceLock<Arc<Code>>,
    pub noreturn_hint: bool,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub data: Arc<[u8]>,
    pub constant: bool,
}

pub struct Module {
    pub text: String,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
}

pub const FN_BASE: u64 = 0x4000_0000;
/// Globals are objects 1..=n.
pub fn global_addr(i: u32) -> u64 {
    ((i as u64) + 1) << 32
}
pub fn func_addr(i: u32) -> u64 {
    (FN_BASE + i as u64) << 32
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a Module,
}

type R<T> = Result<T, String>;

/// A constant value: scalar leaves as bits.
#[derive(Clone, Debug)]
enum Operand {
    Local(String),
    Const(Vec<u128>),
}

impl<'a> P<'a> {
    fn new(s: &'a str, m: &'a Module) -> Self {
        P { s: s.as_bytes(), i: 0, m }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c as char, self.rest(60)))
        }
    }
    fn rest(&self, n: usize) -> String {
        String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..(self.i + n).min(self.s.len())]).into_owned()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$')) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let sv = self.i;
        let w = self.word();
        self.i = sv;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let sv = self.i;
        if self.word() == w {
            true
        } else {
            self.i = sv;
            false
        }
    }
    /// A name after a sigil (@ or %), the sigil already consumed.
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$')) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.expect(b'(')?;
        let mut d = 1;
        while d > 0 {
            if self.i >= self.s.len() {
                return Err("unbalanced".into());
            }
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
        Ok(())
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => return true,
            _ => {}
        }
        let w = self.peek_word();
        matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "opaque")
            || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop {
                        v.push(self.ty()?);
                        if self.eat(b'}') {
                            break;
                        }
                        self.expect(b',')?;
                    }
                }
                Ty::Struct(v, false)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    if let Ty::Struct(v, _) = t {
                        Ty::Struct(v, true)
                    } else {
                        unreachable!()
                    }
                } else {
                    let n: u64 = self.word().parse().map_err(|_| "vec len")?;
                    if !self.eat_word("x") {
                        return Err("vec".into());
                    }
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    Ty::Vector(n, Box::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().map_err(|_| "arr len")?;
                if !self.eat_word("x") {
                    return Err("arr".into());
                }
                let t = self.ty()?;
                self.expect(b']')?;
                Ty::Array(n, Box::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.types.get(&n).cloned().ok_or_else(|| format!("type %{}", n))?
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.peek_word() == "addrspace" {
                            self.word();
                            self.skip_parens()?;
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "label" => Ty::Label,
                    "metadata" => Ty::Metadata,
                    "half" => Ty::Int(16),
                    "fp128" => Ty::Int(128),
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                    _ => return Err(format!("type {:?} at {}", w, self.rest(40))),
                }
            }
        };
        Ok(t)
    }
    fn zero_const(t: &Ty) -> Vec<u128> {
        vec![0; t.nleaves() as usize]
    }
    fn typed_operand(&mut self) -> R<(Ty, Operand)> {
        let t = self.ty()?;
        // function type in indirect calls etc.
        let o = self.operand(&t)?;
        Ok((t, o))
    }
    fn typed_const(&mut self) -> R<(Ty, Vec<u128>)> {
        let (t, o) = self.typed_operand()?;
        match o {
            Operand::Const(c) => Ok((t, c)),
            _ => Err("const expected".into()),
        }
    }
    fn sym_addr(&self, n: &str) -> R<u64> {
        let mut n = n.to_string();
        while let Some(a) = self.m.aliases.get(&n) {
            n = a.clone();
        }
        if let Some(&i) = self.m.gidx.get(&n) {
            return Ok(global_addr(i));
        }
        if let Some(&i) = self.m.fidx.get(&n) {
            return Ok(func_addr(i));
        }
        Err(format!("unknown symbol @{}", n))
    }
    fn operand(&mut self, t: &Ty) -> R<Operand> {
        let c = self.peek();
        match c {
            b'%' => {
                self.i += 1;
                return Ok(Operand::Local(self.name()));
            }
            b'@' => {
                self.i += 1;
                let n = self.name();
                return Ok(Operand::Const(vec![self.sym_addr(&n)? as u128]));
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        if self.s[self.i + 1] == b'\\' {
                            v.push(b'\\' as u128);
                            self.i += 2;
                        } else {
                            v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())? as u128);
                            self.i += 3;
                        }
                    } else {
                        v.push(self.s[self.i] as u128);
                        self.i += 1;
                    }
                }
                self.i += 1;
                return Ok(Operand::Const(v));
            }
            b'[' | b'{' | b'<' => {
                let mut v = vec![];
                let close: &[u8] = match c {
                    b'[' => b"]",
                    b'{' => b"}",
                    _ => {
                        if self.s[self.i + 1] == b'{' {
                            self.i += 1;
                            b"}>"
                        } else {
                            b">"
                        }
                    }
                };
                self.i += 1;
                if !self.eat(close[0]) {
                    loop {
                        let (_, c) = self.typed_const()?;
                        v.extend(c);
                        if self.eat(close[0]) {
                            break;
                        }
                        self.expect(b',')?;
                    }
                }
                if close.len() == 2 {
                    self.expect(b'>')?;
                }
                return Ok(Operand::Const(v));
            }
            _ => {}
        }
        let w = self.word();
        let w0 = t;
        let cst = match w {
            "null" => vec![0],
            "undef" | "poison" | "zeroinitializer" => Self::zero_const(t),
            "none" => vec![],
            "true" => vec![1],
            "false" => vec![0],
            "splat" => {
                self.expect(b'(')?;
                let (_, c) = self.typed_const()?;
                self.expect(b')')?;
                vec![c[0]; t.nleaves() as usize]
            }
            "getelementptr" => {
                loop {
                    let pw = self.peek_word();
                    if matches!(pw, "inbounds" | "nuw" | "nusw" | "inrange") {
                        self.word();
                        if self.peek() == b'(' && pw == "inrange" {
                            self.skip_parens()?;
                        }
                    } else {
                        break;
                    }
                }
                self.expect(b'(')?;
                let et = self.ty()?;
                self.expect(b',')?;
                let (_, base) = self.typed_const()?;
                let mut idx = vec![];
                while self.eat(b',') {
                    let (it, c) = self.typed_const()?;
                    idx.push(sext(c[0], it.width()) as i64);
                }
                self.expect(b')')?;
                let mut off = 0i64;
                let mut cur = et.clone();
                for (k, ix) in idx.iter().enumerate() {
                    if k == 0 {
                        off += ix * cur.size() as i64;
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                let (o, f) = cur.field_offset(*ix as u64);
                                off += o as i64;
                                cur = f.clone();
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => {
                                off += ix * e.size() as i64;
                                cur = *e;
                            }
                            _ => return Err("gep const".into()),
                        }
                    }
                }
                vec![(base[0] as u64).wrapping_add(off as u64) as u128]
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                self.expect(b'(')?;
                let (ft, c) = self.typed_const()?;
                if !self.eat_word("to") {
                    return Err("constexpr to".into());
                }
                let tt = self.ty()?;
                self.expect(b')')?;
                let v = if w == "sext" { sext(c[0], ft.width()) as u128 } else { c[0] };
                vec![v & mask(tt.width())]
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                while matches!(self.peek_word(), "nuw" | "nsw") {
                    self.word();
                }
                self.expect(b'(')?;
                let (_, a) = self.typed_const()?;
                self.expect(b',')?;
                let (_, b) = self.typed_const()?;
                self.expect(b')')?;
                let (a, b) = (a[0], b[0]);
                let r = match w {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "or" => a | b,
                    _ => a << b,
                };
                vec![r & mask(t.width())]
            }
            _ => {
                let wd = match w0 {
                    Ty::Int(n) => *n,
                    Ty::Float => 32,
                    Ty::Double => 64,
                    _ => return Err(format!("operand {:?} of {:?} at {}", w, t, self.rest(40))),
                };
                if matches!(t, Ty::Float | Ty::Double) {
                    if let Some(h) = w.strip_prefix("0x") {
                        let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                        if matches!(t, Ty::Float) {
                            vec![(f64::from_bits(b) as f32).to_bits() as u128]
                        } else {
                            vec![b as u128]
                        }
                    } else {
                        let mut s = w.to_string();
                        if self.i < self.s.len() && self.s[self.i] == b'+' {
                            self.i += 1;
                            s.push('+');
                            s.push_str(self.word());
                        }
                        let d: f64 = s.parse().map_err(|_| format!("float {}", s))?;
                        if matches!(t, Ty::Float) {
                            vec![(d as f32).to_bits() as u128]
                        } else {
                            vec![d.to_bits() as u128]
                        }
                    }
                } else if let Some(n) = w.strip_prefix('-') {
                    let v: u128 = n.parse().map_err(|_| format!("int {}", w))?;
                    vec![v.wrapping_neg() & mask(wd)]
                } else {
                    let v: u128 = w.parse().map_err(|_| format!("operand {:?} at {}", w, self.rest(40)))?;
                    vec![v & mask(wd)]
                }
            }
        };
        Ok(Operand::Const(cst))
    }
    /// Skips attributes in front of a type (return attributes, calling conventions, linkage).
    fn skip_to_type(&mut self) -> R<()> {
        loop {
            if self.is_type_start() {
                return Ok(());
            }
            self.skip_attr()?;
        }
    }
    fn skip_attr(&mut self) -> R<()> {
        if self.peek() == b'"' {
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            self.i += 1;
            if self.eat(b'=') {
                return self.skip_attr();
            }
            return Ok(());
        }
        if self.peek() == b'#' {
            self.i += 1;
            self.word();
            return Ok(());
        }
        let w = self.word();
        if w.is_empty() {
            return Err(format!("attr at {:?}", self.rest(60)));
        }
        if w == "align" && self.peek() != b'(' {
            self.word();
        } else if self.peek() == b'(' {
            self.skip_parens()?;
        }
        Ok(())
    }
    fn is_operand_start(&mut self) -> bool {
        let c = self.peek();
        match c {
            b'%' | b'@' | b'-' | b'[' | b'{' | b'<' => return true,
            b'0'..=b'9' => return true,
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => return true,
            _ => {}
        }
        matches!(
            self.peek_word(),
            "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "none" | "ptrtoaddr"
                | "add" | "sub" | "mul" | "xor" | "trunc"
        )
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl Module {
    pub fn parse(text: String) -> R<Module> {
        let mut m = Module {
            text: String::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
        };
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut tlines: Vec<(String, String)> = vec![];
        let bytes = text.as_bytes();
        let mut i = 0;
        let mut gnames = vec![];
        while i < bytes.len() {
            let e = memchr(bytes, i, b'\n');
            let line = &text[i..e];
            if line.starts_with('@') {
                let (n, after) = lex_name(&line[1..]);
                let rest = &line[1 + after..];
                if let Some(p) = rest.find(" alias ") {
                    // only when it is an alias definition
                    let pre = &rest[..p];
                    if !pre.contains(" global ") && !pre.contains(" constant ") {
                        let at = rest.rfind('@').unwrap();
                        let (t, _) = lex_name(&rest[at + 1..]);
                        m.aliases.insert(n, t);
                        i = e + 1;
                        continue;
                    }
                }
                m.gidx.insert(n.clone(), gnames.len() as u32);
                gnames.push(n);
                glines.push((i, e));
            } else if line.starts_with("define") || line.starts_with("declare") {
                let at = line.find('@').unwrap();
                let (n, _) = lex_name(&line[at + 1..]);
                let idx = m.funcs.len() as u32;
                m.fidx.insert(n.clone(), idx);
                if line.starts_with("define") {
                    let bstart = e + 1;
                    let mut j = bstart;
                    loop {
                        let e2 = memchr(bytes, j, b'\n');
                        if &text[j..e2] == "}" {
                            break;
                        }
                        j = e2 + 1;
                        if j >= bytes.len() {
                            return Err("unterminated function".into());
                        }
                    }
                    m.funcs.push(Func { name: n, header: (i, e), body: Some((bstart, j)), code: OnceLock::new(), noreturn_hint: false });
                    i = j + 2;
                    continue;
                } else {
                    m.funcs.push(Func { name: n, header: (i, e), body: None, code: OnceLock::new(), noreturn_hint: false });
                }
            } else if line.starts_with('%') {
                let (n, after) = lex_name(&line[1..]);
                let rest = &line[1 + after..];
                if let Some(p) = rest.find("= type ") {
                    let ts = rest[p + 7..].to_string();
                    tlines.push((n, ts));
                }
            }
            i = e + 1;
        }
        // Named types may refer to later ones: resolve until nothing changes.
        while !tlines.is_empty() {
            let before = tlines.len();
            let mut left = vec![];
            let mut last = String::new();
            for (n, ts) in tlines {
                let t = if ts.starts_with("opaque") { Ok(Ty::Void) } else { P::new(&ts, &m).ty() };
                match t {
                    Ok(t) => {
                        m.types.insert(n, t);
                    }
                    Err(e) => {
                        last = e;
                        left.push((n, ts));
                    }
                }
            }
            tlines = left;
            if tlines.len() == before {
                return Err(last);
            }
        }
        // Globals: types first (sizes), then initialisers (which may refer to any symbol).
        let mut out = vec![];
        for (k, (s, e)) in glines.iter().enumerate() {
            let line = &text[*s..*e];
            let (_, after) = lex_name(&line[1..]);
            let rest = &line[1 + after..];
            let mut p = P::new(rest, &m);
            p.expect(b'=')?;
            let mut constant = false;
            let mut external = false;
            loop {
                let w = p.peek_word();
                match w {
                    "global" => {
                        p.word();
                        break;
                    }
                    "constant" => {
                        constant = true;
                        p.word();
                        break;
                    }
                    "external" | "extern_weak" => {
                        external = true;
                        p.word();
                    }
                    "" => return Err(format!("global line {}", &line[..line.len().min(200)])),
                    _ => p.skip_attr()?,
                }
            }
            let t = p.ty()?;
            let size = t.size();
            let mut data = vec![0u8; size as usize];
            if !external {
                if let Operand::Const(c) = p.operand(&t).map_err(|e| format!("{} in global {}", e, gnames[k]))? {
                    let mut lv = vec![];
                    t.leaves(0, &mut lv);
                    if lv.len() != c.len() {
                        return Err(format!("init of {}: {} leaves vs {}", gnames[k], lv.len(), c.len()));
                    }
                    for ((o, w), v) in lv.iter().zip(c) {
                        let n = (w + 7) / 8;
                        for b in 0..n as usize {
                            data[*o as usize + b] = (v >> (8 * b)) as u8;
                        }
                    }
                }
            }
            out.push(Global { name: gnames[k].clone(), size, data: data.into(), constant });
        }
        m.globals = out;
        m.text = text;
        Ok(m)
    }

    pub fn code(&self, f: u32) -> R<Arc<Code>> {
        let fu = &self.funcs[f as usize];
        if let Some(c) = fu.code.get() {
            return Ok(c.clone());
        }
        let c = Arc::new(self.decode(f).map_err(|e| format!("decode {}: {}", fu.name, e))?);
        let _ = fu.code.set(c.clone());
        Ok(c)
    }

    fn decode(&self, f: u32) -> R<Code> {
        let fu = &self.funcs[f as usize];
        let (bs, be) = fu.body.ok_or("no body")?;
        let header = &self.text[fu.header.0..fu.header.1];
        let mut d = Dec { m: self, slots: HashMap::new(), n: 0, wide: vec![], blocks: HashMap::new() };
        // params
        let mut p = P::new(header, self);
        let at = header.find('@').unwrap();
        p.i = at + 1;
        p.name();
        p.expect(b'(')?;
        let mut params = vec![];
        let mut pw = vec![];
        let mut pn = 0;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' {
                    return Err("vararg function".into());
                }
                let t = p.ty()?;
                while p.peek() != b'%' && p.peek() != b',' && p.peek() != b')' {
                    p.skip_attr()?;
                }
                let name = if p.eat(b'%') { p.name() } else { pn.to_string() };
                pn += 1;
                let nl = t.nleaves();
                let s = d.alloc(&name, &t);
                params.push((s, nl));
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                pw.extend(lv.iter().map(|x| x.1));
                if p.eat(b')') {
                    break;
                }
                p.expect(b',')?;
            }
        }
        // First scan: blocks, join multi-line instructions (switch, landingpad, invoke).
        let body = &self.text[bs..be];
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut first = true;
        let mut lines = body.lines().peekable();
        while let Some(raw) = lines.next() {
            let line = strip_comment(raw);
            let t = line.trim_end();
            if t.trim().is_empty() {
                continue;
            }
            if !t.starts_with(' ') && t.ends_with(':') {
                let nm = &t[..t.len() - 1];
                let nm = nm.trim_matches('"');
                blocks.push((nm.to_string(), vec![]));
                first = false;
                continue;
            }
            if first {
                blocks.push((pn.to_string(), vec![]));
                first = false;
            }
            let mut l = t.trim().to_string();
            if l.starts_with("#dbg_") {
                continue;
            }
            // continuations
            let is_switch = l.contains("switch ") && l.ends_with('[');
            if is_switch {
                for r in lines.by_ref() {
                    let r = strip_comment(r);
                    l.push(' ');
                    l.push_str(r.trim());
                    if r.trim_start().starts_with(']') {
                        break;
                    }
                }
            }
            while let Some(nx) = lines.peek() {
                let nt = nx.trim();
                if nx.starts_with("          ") && (nt.starts_with("to label") || nt.starts_with("cleanup") || nt.starts_with("catch ") || nt.starts_with("filter ")) {
                    l.push(' ');
                    l.push_str(strip_comment(nt));
                    lines.next();
                } else {
                    break;
                }
            }
            blocks.last_mut().unwrap().1.push(l);
        }
        for (k, (n, _)) in blocks.iter().enumerate() {
            d.blocks.insert(n.clone(), k as u32);
        }
        // Result types: pre-pass allocating slots for every instruction result, in order of need.
        let mut restys: HashMap<String, Ty> = HashMap::new();
        for (_, ls) in &blocks {
            for l in ls {
                if let Some(nm) = result_name(l) {
                    let t = self.result_type(l).map_err(|e| format!("{} in {:?}", e, l))?;
                    d.alloc(&nm, &t);
                    restys.insert(nm, t);
                }
            }
        }
        // Phis.
        let mut phis: HashMap<u32, Vec<(u32, u32, Vec<(String, Vec<Op>)>)>> = HashMap::new();
        for (k, (_, ls)) in blocks.iter().enumerate() {
            for l in ls {
                if let Some(q) = l.find(" = phi ") {
                    let nm = result_name(l).unwrap();
                    let mut p = P::new(&l[q + 7..], self);
                    while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                        p.word();
                    }
                    let t = p.ty()?;
                    let mut ins = vec![];
                    loop {
                        p.expect(b'[')?;
                        let o = p.operand(&t)?;
                        p.expect(b',')?;
                        p.expect(b'%')?;
                        let b = p.name();
                        p.expect(b']')?;
                        let ops = d.ops(&t, o)?;
                        ins.push((b, ops));
                        if !p.eat(b',') {
                            break;
                        }
                        if p.peek() == b'!' {
                            break;
                        }
                    }
                    let s = d.slots[&nm].0;
                    phis.entry(k as u32).or_default().push((s, t.nleaves(), ins));
                } else {
                    break;
                }
            }
        }
        let mut out = vec![];
        for (_, (bn, ls)) in blocks.iter().enumerate() {
            let mut v = vec![];
            for l in ls {
                if l.contains(" = phi ") && result_name(l).is_some() && l[l.find('=').unwrap()..].starts_with("= phi ") {
                    continue;
                }
                match d.ins(l, bn, &phis, &mut v) {
                    Ok(()) => {}
                    Err(e) => v.push(Ins::Unsupported(format!("{} in {:?}", e, &l[..l.len().min(200)]))),
                }
            }
            out.push(v);
        }
        Ok(Code { nslots: d.n, params, param_widths: pw, blocks: out, wide: d.wide })
    }

    fn result_type(&self, l: &str) -> R<Ty> {
        let eq = l.find(" = ").unwrap();
        let mut p = P::new(&l[eq + 3..], self);
        let mut w = p.word();
        if matches!(w, "tail" | "musttail" | "notail") {
            w = p.word();
        }
        match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                p.skip_to_type()?;
                p.ty()
            }
            "icmp" | "fcmp" => {
                p.skip_to_type()?;
                let t = p.ty()?;
                Ok(match t {
                    Ty::Vector(n, _) => Ty::Vector(n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                })
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" | "ptrtoaddr" => {
                let s = &l[eq + 3..];
                let q = s.rfind(" to ").ok_or("cast")?;
                P::new(&s[q + 4..], self).ty()
            }
            "load" => {
                p.skip_to_type()?;
                p.ty()
            }
            "getelementptr" | "alloca" => Ok(Ty::Ptr),
            "select" => {
                p.skip_to_type()?;
                let (_, _) = p.typed_operand()?;
                p.expect(b',')?;
                p.ty()
            }
            "phi" | "landingpad" | "freeze" => {
                p.skip_to_type()?;
                p.ty()
            }
            "call" | "invoke" => {
                p.skip_to_type()?;
                p.ty()
            }
            "extractvalue" => {
                let (mut t, _) = p.typed_operand()?;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    let ix: u64 = p.word().parse().map_err(|_| "ix")?;
                    let (_, s) = t.leaf_index(ix);
                    t = s.clone();
                }
                Ok(t)
            }
            "insertvalue" => Ok(p.ty()?),
            "insertelement" => Ok(p.ty()?),
            "extractelement" => match p.ty()? {
                Ty::Vector(_, e) => Ok(*e),
                _ => Err("extractelement".into()),
            },
            "shufflevector" => {
                let (t, _) = p.typed_operand()?;
                p.expect(b',')?;
                p.typed_operand()?;
                p.expect(b',')?;
                let mt = p.ty()?;
                match (t, mt) {
                    (Ty::Vector(_, e), Ty::Vector(n, _)) => Ok(Ty::Vector(n, e)),
                    _ => Err("shuffle".into()),
                }
            }
            "atomicrmw" => {
                while !p.is_type_start() {
                    p.word();
                }
                p.typed_operand()?;
                p.expect(b',')?;
                p.ty()
            }
            "cmpxchg" => {
                while !p.is_type_start() {
                    p.word();
                }
                p.typed_operand()?;
                p.expect(b',')?;
                let t = p.ty()?;
                Ok(Ty::Struct(vec![t, Ty::Int(1)], false))
            }
            _ => Err(format!("result type of {}", w)),
        }
    }
}

fn result_name(l: &str) -> Option<String> {
    if !l.starts_with('%') {
        return None;
    }
    let (n, a) = lex_name(&l[1..]);
    if l[1 + a..].starts_with(" = ") {
        Some(n)
    } else {
        None
    }
}

fn strip_comment(l: &str) -> &str {
    // comments start with ';' outside quotes
    let b = l.as_bytes();
    let mut q = false;
    for i in 0..b.len() {
        match b[i] {
            b'"' => q = !q,
            b';' if !q => return &l[..i],
            _ => {}
        }
    }
    l
}

fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}

fn lex_name(s: &str) -> (String, usize) {
    let b = s.as_bytes();
    if !b.is_empty() && b[0] == b'"' {
        let e = s[1..].find('"').unwrap() + 1;
        (s[1..e].to_string(), e + 1)
    } else {
        let mut i = 0;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'-' | b'$')) {
            i += 1;
        }
        (s[..i].to_string(), i)
    }
}

struct Dec<'a> {
    m: &'a Module,
    slots: HashMap<String, (u32, u32)>,
    n: u32,
    wide: Vec<u128>,
    blocks: HashMap<String, u32>,
}

type Phis = HashMap<u32, Vec<(u32, u32, Vec<(String, Vec<Op>)>)>>;

impl<'a> Dec<'a> {
    fn alloc(&mut self, n: &str, t: &Ty) -> u32 {
        let s = self.n;
        let k = t.nleaves();
        self.n += k;
        self.slots.insert(n.to_string(), (s, k));
        s
    }
    fn cst(&mut self, v: u128, w: u32) -> Op {
        if w <= 64 {
            Op::C(v as u64)
        } else {
            self.wide.push(v);
            Op::W(self.wide.len() as u32 - 1)
        }
    }
    fn ops(&mut self, t: &Ty, o: Operand) -> R<Vec<Op>> {
        match o {
            Operand::Local(n) => {
                let (s, k) = *self.slots.get(&n).ok_or_else(|| format!("local %{}", n))?;
                Ok((0..k).map(|i| Op::Slot(s + i)).collect())
            }
            Operand::Const(c) => {
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                if lv.len() != c.len() {
                    return Err(format!("const leaves {} {}", lv.len(), c.len()));
                }
                Ok(c.iter().zip(lv).map(|(v, (_, w))| self.cst(*v, w)).collect())
            }
        }
    }
    fn top(&mut self, p: &mut P) -> R<(Ty, Vec<Op>)> {
        let (t, o) = p.typed_operand()?;
        let v = self.ops(&t, o)?;
        Ok((t, v))
    }
    fn edge(&mut self, target: &str, from: &str, phis: &Phis) -> R<Edge> {
        let b = *self.blocks.get(target).ok_or_else(|| format!("block {}", target))?;
        let mut mv = vec![];
        if let Some(ps) = phis.get(&b) {
            for (s, n, ins) in ps {
                let (_, ops) = ins.iter().find(|(x, _)| x == from).ok_or_else(|| format!("phi pred {}", from))?;
                for i in 0..*n {
                    if Op::Slot(s + i) != ops[i as usize] {
                        mv.push((s + i, ops[i as usize]));
                    }
                }
            }
        }
        Ok(Edge { block: b, moves: mv.into() })
    }
    fn label(&mut self, p: &mut P, from: &str, phis: &Phis) -> R<Edge> {
        if !p.eat_word("label") {
            return Err("label".into());
        }
        p.expect(b'%')?;
        let n = p.name();
        self.edge(&n, from, phis)
    }
    fn ins(&mut self, l: &str, bn: &str, phis: &Phis, out: &mut Vec<Ins>) -> R<()> {
        let mut p;
        let mut dst = 0;
        if let Some(n) = result_name(l) {
            let eq = l.find(" = ").unwrap();
            p = P::new(&l[eq + 3..], self.m);
            dst = self.slots[&n].0;
        } else {
            p = P::new(l, self.m);
        }
        let mut w = p.word();
        if matches!(w, "tail" | "musttail" | "notail") {
            w = p.word();
        }
        match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                p.skip_to_type()?;
                let (t, a) = self.top(&mut p)?;
                p.expect(b',')?;
                let o = p.operand(&t)?;
                let b = self.ops(&t, o)?;
                let op = binop(w);
                let wd = match &t {
                    Ty::Vector(_, e) => e.width(),
                    t => t.width(),
                };
                for i in 0..a.len() {
                    out.push(Ins::Bin { op, w: wd, dst: dst + i as u32, a: a[i], b: b[i] });
                }
            }
            "icmp" => {
                while p.peek_word() == "samesign" {
                    p.word();
                }
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("icmp {}", x)),
                };
                let (t, a) = self.top(&mut p)?;
                p.expect(b',')?;
                let o = p.operand(&t)?;
                let b = self.ops(&t, o)?;
                let wd = match &t {
                    Ty::Vector(_, e) => e.width(),
                    t => t.width(),
                };
                for i in 0..a.len() {
                    out.push(Ins::Icmp { p: pr, w: wd, dst: dst + i as u32, a: a[i], b: b[i] });
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                while !p.is_type_start() {
                    p.word();
                }
                let (ft, a) = self.top(&mut p)?;
                if !p.eat_word("to") {
                    return Err("cast".into());
                }
                let tt = p.ty()?;
                if w == "bitcast" && (ft.nleaves() != tt.nleaves() || matches!(ft, Ty::Vector(..)) != matches!(tt, Ty::Vector(..))) {
                    match (&ft, &tt) {
                        (Ty::Vector(_, e), t) if t.is_scalar() => {
                            out.push(Ins::ConcatBits { dst, w: t.width(), elems: a.into(), ew: e.width() });
                        }
                        (t, Ty::Vector(n, e)) if t.is_scalar() => {
                            out.push(Ins::SplitBits { dst, src: a[0], w: t.width(), n: *n as u32, ew: e.width() });
                        }
                        _ => return Err("bitcast".into()),
                    }
                    return Ok(());
                }
                let sw = |t: &Ty| match t {
                    Ty::Vector(_, e) => e.width(),
                    t => t.width(),
                };
                let (f, t) = (sw(&ft), sw(&tt));
                let k = match w {
                    "zext" => CastK::Zext,
                    "sext" => CastK::Sext,
                    "trunc" => CastK::Trunc,
                    _ => {
                        if f > t {
                            CastK::Trunc
                        } else {
                            CastK::Zext
                        }
                    }
                };
                for i in 0..a.len() {
                    if f == t {
                        out.push(Ins::Mov { moves: Box::new([(dst + i as u32, a[i])]) });
                    } else {
                        out.push(Ins::Cast { k, from: f, to: t, dst: dst + i as u32, a: a[i] });
                    }
                }
            }
            "load" => {
                while matches!(p.peek_word(), "volatile" | "atomic") {
                    p.word();
                }
                let t = p.ty()?;
                p.expect(b',')?;
                let (_, ptr) = self.top(&mut p)?;
                let align = get_align(l, &t);
                if t.is_scalar() {
                    out.push(Ins::Load1 { dst, w: t.width(), ptr: ptr[0], align });
                } else {
                    let mut lv = vec![];
                    t.leaves(0, &mut lv);
                    if let Ty::Vector(_, e) = &t {
                        if e.width() % 8 != 0 {
                            return Err("load of sub-byte vector".into());
                        }
                    }
                    out.push(Ins::LoadN { dst, leaves: lv.into(), ptr: ptr[0], align });
                }
            }
            "store" => {
                while matches!(p.peek_word(), "volatile" | "atomic") {
                    p.word();
                }
                let (t, v) = self.top(&mut p)?;
                p.expect(b',')?;
                let (_, ptr) = self.top(&mut p)?;
                let align = get_align(l, &t);
                if t.is_scalar() {
                    out.push(Ins::Store1 { w: t.width(), val: v[0], ptr: ptr[0], align });
                } else {
                    let mut lv = vec![];
                    t.leaves(0, &mut lv);
                    out.push(Ins::StoreN { leaves: lv.into(), vals: v.into(), ptr: ptr[0], align });
                }
            }
            "getelementptr" => {
                while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw") {
                    p.word();
                }
                let et = p.ty()?;
                p.expect(b',')?;
                let (_, base) = self.top(&mut p)?;
                let mut off = 0i64;
                let mut idx: Vec<(Op, u32, u64)> = vec![];
                let mut cur = et;
                let mut k = 0;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    let (it, o) = p.typed_operand()?;
                    let o = self.ops(&it, o)?[0];
                    let scale;
                    if k == 0 {
                        scale = cur.size();
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                if let Op::C(c) = o {
                                    let (fo, ft) = cur.field_offset(c);
                                    off += fo as i64;
                                    cur = ft.clone();
                                    k += 1;
                                    continue;
                                }
                                return Err("gep struct index".into());
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => {
                                scale = e.size();
                                cur = *e;
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    match o {
                        Op::C(c) => off = off.wrapping_add((sext(c as u128, it.width()) as i64).wrapping_mul(scale as i64)),
                        o => idx.push((o, it.width(), scale)),
                    }
                    k += 1;
                }
                out.push(Ins::Gep { dst, base: base[0], off, idx: idx.into() });
            }
            "select" => {
                p.skip_to_type()?;
                let (ct, c) = self.top(&mut p)?;
                p.expect(b',')?;
                let (t, a) = self.top(&mut p)?;
                p.expect(b',')?;
                let (_, b) = self.top(&mut p)?;
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                if matches!(ct, Ty::Vector(..)) {
                    for i in 0..a.len() {
                        out.push(Ins::Select { dst: dst + i as u32, w: Box::new([lv[i].1]), cond: c[i], a: Box::new([a[i]]), b: Box::new([b[i]]) });
                    }
                } else {
                    let ws: Vec<u32> = lv.iter().map(|x| x.1).collect();
                    out.push(Ins::Select { dst, w: ws.into(), cond: c[0], a: a.into(), b: b.into() });
                }
            }
            "freeze" => {
                let (_, a) = self.top(&mut p)?;
                let mv: Vec<_> = a.iter().enumerate().map(|(i, o)| (dst + i as u32, *o)).collect();
                out.push(Ins::Mov { moves: mv.into() });
            }
            "extractvalue" => {
                let (t, a) = self.top(&mut p)?;
                let mut cur = t;
                let mut base = 0;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    let ix: u64 = p.word().parse().map_err(|_| "ix")?;
                    let (o, s) = cur.leaf_index(ix);
                    base += o;
                    let s = s.clone();
                    cur = s;
                }
                let n = cur.nleaves();
                let mv: Vec<_> = (0..n).map(|i| (dst + i, a[(base + i) as usize])).collect();
                out.push(Ins::Mov { moves: mv.into() });
            }
            "insertvalue" => {
                let (t, a) = self.top(&mut p)?;
                p.expect(b',')?;
                let (_, v) = self.top(&mut p)?;
                let mut cur = t;
                let mut base = 0;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    let ix: u64 = p.word().parse().map_err(|_| "ix")?;
                    let (o, s) = cur.leaf_index(ix);
                    base += o;
                    let s = s.clone();
                    cur = s;
                }
                let mut mv: Vec<_> = a.iter().enumerate().map(|(i, o)| (dst + i as u32, *o)).collect();
                for (i, o) in v.iter().enumerate() {
                    mv[base as usize + i].1 = *o;
                }
                out.push(Ins::Mov { moves: mv.into() });
            }
            "extractelement" => {
                let (_, a) = self.top(&mut p)?;
                p.expect(b',')?;
                let (_, i) = self.top(&mut p)?;
                match i[0] {
                    Op::C(c) => out.push(Ins::Mov { moves: Box::new([(dst, a[c as usize])]) }),
                    _ => return Err("extractelement var".into()),
                }
            }
            "insertelement" => {
                let (_, a) = self.top(&mut p)?;
                p.expect(b',')?;
                let (_, v) = self.top(&mut p)?;
                p.expect(b',')?;
                let (_, i) = self.top(&mut p)?;
                match i[0] {
                    Op::C(c) => {
                        let mut mv: Vec<_> = a.iter().enumerate().map(|(i, o)| (dst + i as u32, *o)).collect();
                        mv[c as usize].1 = v[0];
                        out.push(Ins::Mov { moves: mv.into() });
                    }
                    _ => return Err("insertelement var".into()),
                }
            }
            "shufflevector" => {
                let (_, a) = self.top(&mut p)?;
                p.expect(b',')?;
                let (_, b) = self.top(&mut p)?;
                p.expect(b',')?;
                let (_, m) = self.top(&mut p)?;
                let mut mv = vec![];
                for (i, x) in m.iter().enumerate() {
                    if let Op::C(c) = x {
                        let c = *c as usize;
                        let o = if c < a.len() { a[c] } else { *b.get(c - a.len()).unwrap_or(&Op::C(0)) };
                        mv.push((dst + i as u32, o));
                    }
                }
                out.push(Ins::Mov { moves: mv.into() });
            }
            "alloca" => {
                while matches!(p.peek_word(), "inalloca") {
                    p.word();
                }
                let t = p.ty()?;
                let mut count = None;
                let mut align = t.align();
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    if p.eat_word("align") {
                        align = p.word().parse().map_err(|_| "align")?;
                    } else {
                        let (_, o) = self.top(&mut p)?;
                        count = Some(o[0]);
                    }
                }
                out.push(Ins::Alloca { dst, size: t.size(), count, align });
            }
            "br" => {
                if p.peek_word() == "label" {
                    let e = self.label(&mut p, bn, phis)?;
                    out.push(Ins::Br(e));
                } else {
                    let (_, c) = self.top(&mut p)?;
                    p.expect(b',')?;
                    let t = self.label(&mut p, bn, phis)?;
                    p.expect(b',')?;
                    let f = self.label(&mut p, bn, phis)?;
                    out.push(Ins::CondBr { cond: c[0], t, f });
                }
            }
            "switch" => {
                let (t, v) = self.top(&mut p)?;
                p.expect(b',')?;
                let def = self.label(&mut p, bn, phis)?;
                p.expect(b'[')?;
                let mut cases = vec![];
                while !p.eat(b']') {
                    let (_, c) = p.typed_const()?;
                    p.expect(b',')?;
                    let e = self.label(&mut p, bn, phis)?;
                    cases.push((c[0] as u64, e));
                }
                out.push(Ins::Switch { w: t.width(), v: v[0], cases: cases.into(), def });
            }
            "ret" => {
                if p.peek_word() == "void" {
                    out.push(Ins::Ret { vals: Box::new([]) });
                } else {
                    let (_, v) = self.top(&mut p)?;
                    out.push(Ins::Ret { vals: v.into() });
                }
            }
            "unreachable" => out.push(Ins::Unreachable),
            "resume" => {
                let (_, v) = self.top(&mut p)?;
                out.push(Ins::Resume { vals: v.into() });
            }
            "landingpad" => out.push(Ins::LandingPad { dst }),
            "fence" => out.push(Ins::Nop),
            "atomicrmw" => {
                while matches!(p.peek_word(), "volatile") {
                    p.word();
                }
                let op = match p.word() {
                    "xchg" => RmwOp::Xchg,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    x @ ("add" | "sub" | "and" | "or" | "xor") => RmwOp::Bin(binop(x)),
                    x => return Err(format!("atomicrmw {}", x)),
                };
                let (_, ptr) = self.top(&mut p)?;
                p.expect(b',')?;
                let (t, v) = self.top(&mut p)?;
                out.push(Ins::AtomicRmw { op, w: t.width(), dst, ptr: ptr[0], val: v[0] });
            }
            "cmpxchg" => {
                while matches!(p.peek_word(), "volatile" | "weak") {
                    p.word();
                }
                let (_, ptr) = self.top(&mut p)?;
                p.expect(b',')?;
                let (t, c) = self.top(&mut p)?;
                p.expect(b',')?;
                let (_, n) = self.top(&mut p)?;
                out.push(Ins::CmpXchg { w: t.width(), dst, ptr: ptr[0], cmp: c[0], new: n[0] });
            }
            "call" | "invoke" => {
                p.skip_to_type()?;
                let rt = p.ty()?;
                if p.peek() == b'(' {
                    p.skip_parens()?;
                }
                let callee = match p.peek() {
                    b'@' => {
                        p.i += 1;
                        let n = p.name();
                        if let Some(rest) = n.strip_prefix("llvm.") {
                            Callee::Intrinsic(intrinsic(rest))
                        } else {
                            let mut n = n;
                            while let Some(a) = self.m.aliases.get(&n) {
                                n = a.clone();
                            }
                            Callee::Direct(*self.m.fidx.get(&n).ok_or_else(|| format!("callee {}", n))?)
                        }
                    }
                    b'%' => {
                        p.i += 1;
                        let n = p.name();
                        Callee::Indirect(Op::Slot(self.slots[&n].0))
                    }
                    _ => {
                        if p.peek_word() == "asm" {
                            // compiler barriers only: empty asm
                            if l.contains("asm sideeffect \"\"") {
                                out.push(Ins::Nop);
                                return Ok(());
                            }
                            return Err("inline asm".into());
                        }
                        let o = p.operand(&Ty::Ptr)?;
                        Callee::Indirect(self.ops(&Ty::Ptr, o)?[0])
                    }
                };
                p.expect(b'(')?;
                let mut args = vec![];
                if !p.eat(b')') {
                    loop {
                        let t = p.ty()?;
                        if t == Ty::Metadata {
                            // skip metadata operand
                            let mut d = 0;
                            while p.i < p.s.len() {
                                match p.s[p.i] {
                                    b'(' => d += 1,
                                    b')' if d == 0 => break,
                                    b')' => d -= 1,
                                    b',' if d == 0 => break,
                                    _ => {}
                                }
                                p.i += 1;
                            }
                        } else {
                            let st = p.i;
                            while !p.is_operand_start() {
                                p.skip_attr()?;
                            }
                            if std::str::from_utf8(&p.s[st..p.i]).unwrap().contains("byval(") {
                                return Err("byval".into());
                            }
                            let o = p.operand(&t)?;
                            args.extend(self.ops(&t, o)?);
                        }
                        if p.eat(b')') {
                            break;
                        }
                        p.expect(b',')?;
                    }
                }
                let mut normal = None;
                let mut unwind = None;
                if w == "invoke" {
                    let s = String::from_utf8_lossy(&p.s[p.i..]).into_owned();
                    let q = s.find("to label ").ok_or("invoke to")?;
                    let mut p2 = P::new(&s[q + 3..], self.m);
                    normal = Some(self.label(&mut p2, bn, phis)?);
                    if !p2.eat_word("unwind") {
                        return Err("unwind".into());
                    }
                    unwind = Some(self.label(&mut p2, bn, phis)?);
                }
                let mut lv = vec![];
                rt.leaves(0, &mut lv);
                let ws: Vec<u32> = lv.iter().map(|x| x.1).collect();
                out.push(Ins::Call { dst, ndst: rt.nleaves(), wdst: ws.into(), callee, args: args.into(), normal, unwind });
            }
            _ => return Err(format!("instruction {}", w)),
        }
        Ok(())
    }
}

fn get_align(l: &str, t: &Ty) -> u64 {
    if let Some(q) = l.rfind(", align ") {
        let s = &l[q + 8..];
        let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
        s[..e].parse().unwrap_or(1)
    } else {
        t.align()
    }
}

fn binop(w: &str) -> BinOp {
    match w {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        _ => BinOp::Xor,
    }
}

fn intrinsic(n: &str) -> Intr {
    let w = |s: &str| -> u32 { s.rsplit('.').next().and_then(|x| x.strip_prefix('i')).and_then(|x| x.parse().ok()).unwrap_or(0) };
    let st = |p: &str| n.starts_with(p);
    let scalar = n.rsplit('.').next().map_or(false, |x| x.starts_with('i'));
    if st("lifetime.") || st("experimental.noalias") || st("dbg.") || st("invariant.") || st("donothing") || st("x86.sse2.pause") || st("fake.use") || st("prefetch") {
        Intr::Nop
    } else if st("memcpy") || st("memmove") {
        Intr::Memcpy
    } else if st("memset") {
        Intr::Memset
    } else if st("assume") {
        Intr::Assume
    } else if st("trap") || st("ubsantrap") || st("debugtrap") {
        Intr::Trap
    } else if st("threadlocal.address") || st("ssa.copy") || st("launder.") || st("ptrmask-never") {
        Intr::Ident
    } else if st("is.constant") {
        Intr::IsConstant
    } else if st("expect") {
        Intr::Expect
    } else if !scalar {
        Intr::Unknown(n.to_string())
    } else if st("abs.") {
        Intr::Abs(w(n))
    } else if st("bswap.") {
        Intr::Bswap(w(n))
    } else if st("bitreverse.") {
        Intr::Bitreverse(w(n))
    } else if st("ctlz.") {
        Intr::Ctlz(w(n))
    } else if st("cttz.") {
        Intr::Cttz(w(n))
    } else if st("ctpop.") {
        Intr::Ctpop(w(n))
    } else if st("fshl.") {
        Intr::Fshl(w(n))
    } else if st("fshr.") {
        Intr::Fshr(w(n))
    } else if st("umax.") {
        Intr::UMax(w(n))
    } else if st("umin.") {
        Intr::UMin(w(n))
    } else if st("smax.") {
        Intr::SMax(w(n))
    } else if st("smin.") {
        Intr::SMin(w(n))
    } else if st("uadd.sat.") {
        Intr::UAddSat(w(n))
    } else if st("usub.sat.") {
        Intr::USubSat(w(n))
    } else if st("ucmp.") || st("scmp.") {
        let mut it = n.rsplit('.');
        let ow = it.next().and_then(|x| x.strip_prefix('i')).and_then(|x| x.parse().ok()).unwrap_or(0);
        let rw = it.next().and_then(|x| x.strip_prefix('i')).and_then(|x| x.parse().ok()).unwrap_or(0);
        if st("ucmp.") {
            Intr::Ucmp(rw, ow)
        } else {
            Intr::Scmp(rw, ow)
        }
    } else if st("uadd.with") {
        Intr::Ovf('+', false, w(n))
    } else if st("usub.with") {
        Intr::Ovf('-', false, w(n))
    } else if st("umul.with") {
        Intr::Ovf('*', false, w(n))
    } else if st("sadd.with") {
        Intr::Ovf('+', true, w(n))
    } else if st("ssub.with") {
        Intr::Ovf('-', true, w(n))
    } else if st("smul.with") {
        Intr::Ovf('*', true, w(n))
    } else {
        Intr::Unknown(n.to_string())
    }
}
