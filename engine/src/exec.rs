//! Symbolic interpreter: one path per run, steered by a decision prefix and a witness.

use crate::expr::{m64, Arena, Id, Node, V};
use crate::ll::*;
use crate::z3::{Sat, Solver};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone)]
pub struct Item {
    pub entry: usize,
    pub dec: Vec<u64>,
    pub wit: Vec<u64>,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Assume,
    Panic(String),
    Abort(String),
    Mem(String),
    Unsup(String),
    Unreachable(String),
    Failed,
    /// The harness says that aborting is right here.
    AbortExpected,
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub id: u32,
    pub kind: String,
    pub msg: String,
    pub values: Vec<u64>,
    pub notes: Vec<String>,
    pub trace: Vec<String>,
}

enum Buf {
    Own(Vec<u8>),
    Shared(Arc<[u8]>),
}
impl Buf {
    #[inline(always)]
    fn get(&self) -> &[u8] {
        match self {
            Buf::Own(v) => v,
            Buf::Shared(a) => a,
        }
    }
    #[inline(always)]
    fn get_mut(&mut self) -> &mut Vec<u8> {
        if let Buf::Shared(a) = self {
            *self = Buf::Own(a.to_vec());
        }
        match self {
            Buf::Own(v) => v,
            _ => unreachable!(),
        }
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Global,
    Stack,
    Heap,
}

struct Obj {
    size: u32,
    data: Buf,
    /// per byte: 0 concrete, 1 symbolic, 2 uninitialised; empty = all concrete
    st: Vec<u8>,
    sym: HashMap<u32, Id>,
    kind: Kind,
    ro: bool,
}

struct Frame {
    f: u32,
    code: Arc<Code>,
    base: usize,
    block: u32,
    pc: u32,
    allocas: Vec<u32>,
    catch: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Hook {
    None,
    Throw,
    Abort,
    SymU(u32),
    SymBool,
    SymChoice,
    SymFork,
    PthreadKey,
    Assume,
    Assert,
    Catch,
    Note,
    Reach,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Strlen,
    Memcpy,
    Memset,
    Memchr,
    RetZero,
    RetOne,
    Write,
    IsSym,
    AbortOk,
}

/// Which library and harness entry points are interpreted by the engine itself.
pub fn hook_for(name: &str, has_body: bool) -> Hook {
    match name {
        "sym_u8" => return Hook::SymU(8),
        "sym_u32" => return Hook::SymU(32),
        "sym_u64" => return Hook::SymU(64),
        "sym_bool" => return Hook::SymBool,
        "sym_choice" => return Hook::SymChoice,
        "sym_fork" => return Hook::SymFork,
        "sym_assume" => return Hook::Assume,
        "sym_assert" => return Hook::Assert,
        "sym_throw" => return Hook::Throw,
        "sym_catch" => return Hook::Catch,
        "sym_note" => return Hook::Note,
        "sym_reach" => return Hook::Reach,
        "sym_is_engine" => return Hook::RetOne,
        "sym_is_symbolic" => return Hook::IsSym,
        "sym_abort_ok" => return Hook::AbortOk,
        "malloc" => return Hook::Malloc,
        "calloc" => return Hook::Calloc,
        "realloc" => return Hook::Realloc,
        "free" => return Hook::Free,
        "posix_memalign" => return Hook::PosixMemalign,
        "memcmp" => return Hook::Memcmp,
        "bcmp" => return Hook::Bcmp,
        "strlen" => return Hook::Strlen,
        "memcpy" | "memmove" => return Hook::Memcpy,
        "memset" => return Hook::Memset,
        "memchr" => return Hook::Memchr,
        "abort" | "_exit" | "exit" | "rust_eh_personality" => return Hook::Abort,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_self" | "sched_yield" | "close" => return Hook::RetZero,
        "pthread_key_create" => return Hook::PthreadKey,
        "pthread_setspecific" | "pthread_getspecific" | "pthread_key_delete" => return Hook::RetZero,
        "write" => return Hook::Write,
        _ => {}
    }
    if name.contains("4core9panicking") {
        if name.contains("panic_in_cleanup") || name.contains("cannot_unwind") || name.contains("panic_nounwind") {
            return Hook::Abort;
        }
        return Hook::Throw;
    }
    if name.contains("3std9panicking11begin_panic") || name.contains("resume_unwind") || name.contains("rust_panic_without_hook") || name.contains("rust_panic_with_hook") {
        return Hook::Throw;
    }
    if name.contains("handle_alloc_error") || name.contains("5alloc7raw_vec12handle_error") || name.contains("raw_vec17capacity_overflow") {
        return Hook::Abort;
    }
    let _ = has_body;
    Hook::None
}

pub struct Ctx {
    pub m: Module,
    pub hooks: Vec<Hook>,
    pub max_steps: u64,
    pub debug: bool,
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub unary: u64,
    pub asserts: u64,
    pub asserts_symbolic: u64,
    pub reach: HashMap<u32, u64>,
    pub vars: usize,
    pub forks: u64,
    pub unknown: u64,
}

pub struct Exec<'a> {
    pub cx: &'a Ctx,
    pub ar: &'a mut Arena,
    pub so: &'a mut Solver,
    pub item: Item,
    pub forked: Vec<Item>,
    pub viol: Vec<Violation>,
    pub stats: Stats,
    pub funcs: &'a mut Vec<bool>,
    dpos: usize,
    prefix: usize,
    wit: Vec<u64>,
    vars: Vec<Id>,
    inputs: Vec<bool>,
    known: HashMap<Id, bool>,
    /// Per small variable: the values left by the conditions on it alone.
    dom: HashMap<u32, [u64; 4]>,
    objs: Vec<Option<Box<Obj>>>,
    frames: Vec<Frame>,
    regs: Vec<V>,
    notes: Vec<Vec<V>>,
    pool: Vec<(Vec<u8>, Vec<u8>)>,
    thrown: String,
    abort_ok: V,
}

enum Flow {
    Next,
    Jumped,
    Done(Vec<V>),
}

impl<'a> Exec<'a> {
    pub fn new(cx: &'a Ctx, ar: &'a mut Arena, so: &'a mut Solver, funcs: &'a mut Vec<bool>, item: Item) -> Self {
        ar.bump();
        so.reset();
        let prefix = item.dec.len();
        let wit = item.wit.clone();
        let mut objs = Vec::with_capacity(cx.m.globals.len() + 1024);
        for _ in 0..=cx.m.globals.len() {
            objs.push(None);
        }
        Exec {
            cx,
            ar,
            so,
            item,
            forked: vec![],
            viol: vec![],
            stats: Stats::default(),
            funcs,
            dpos: 0,
            prefix,
            wit,
            vars: vec![],
            inputs: vec![],
            known: HashMap::new(),
            dom: HashMap::new(),
            objs,
            frames: vec![],
            regs: vec![],
            notes: vec![],
            pool: vec![],
            thrown: String::new(),
            abort_ok: V::c(0),
        }
    }

    // ---------- symbolic decisions ----------

    fn new_var(&mut self, w: u32, input: bool) -> V {
        let i = self.vars.len() as u32;
        let e = self.ar.var(i, w);
        self.vars.push(e);
        self.inputs.push(input);
        V::e(e)
    }
    fn dom(&self, v: u32) -> [u64; 4] {
        self.dom.get(&v).copied().unwrap_or_else(|| {
            let w = self.ar.w[self.vars[v as usize] as usize];
            match w {
                8 => [u64::MAX; 4],
                7 => [u64::MAX, u64::MAX, 0, 0],
                6 => [u64::MAX, 0, 0, 0],
                w => [m64(1 << w), 0, 0, 0],
            }
        })
    }
    /// Decides a condition over one small variable from the values which the conditions on that variable alone leave.
    fn unary(&mut self, c: Id) -> Option<bool> {
        let (v, t) = self.ar.table(c)?;
        let d = self.dom(v);
        let (mut some, mut other) = (false, false);
        for i in 0..4 {
            some |= d[i] & t[i] != 0;
            other |= d[i] & !t[i] != 0;
        }
        match (some, other) {
            (true, false) => Some(true),
            (false, true) => Some(false),
            _ => None,
        }
    }
    fn learn(&mut self, c: Id, v: bool) {
        self.known.insert(c, v);
        if let Some((x, t)) = self.ar.table(c) {
            let mut d = self.dom(x);
            for i in 0..4 {
                d[i] &= if v { t[i] } else { !t[i] };
            }
            self.dom.insert(x, d);
        }
        match self.ar.nodes[c as usize] {
            Node::Bin(BinOp::Xor, x, k) if self.ar.konst(k) == Some(1) => self.learn(x, !v),
            Node::Bin(BinOp::And, x, y) if v => {
                self.learn(x, true);
                self.learn(y, true);
            }
            Node::Bin(BinOp::Or, x, y) if !v => {
                self.learn(x, false);
                self.learn(y, false);
            }
            Node::Cmp(Pred::Eq, x, k) if v && self.ar.w[x as usize] == 1 => {
                if let Some(k) = self.ar.konst(k) {
                    self.learn(x, k == 1);
                }
            }
            _ => {}
        }
    }
    fn lookup(&self, c: Id) -> Option<bool> {
        if let Some(&b) = self.known.get(&c) {
            return Some(b);
        }
        match self.ar.nodes[c as usize] {
            Node::Const(k, _) => Some(k == 1),
            Node::Bin(BinOp::Xor, x, k) if self.ar.konst(k) == Some(1) => self.lookup(x).map(|b| !b),
            Node::Bin(BinOp::And, x, y) => match (self.lookup(x), self.lookup(y)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Node::Bin(BinOp::Or, x, y) => match (self.lookup(x), self.lookup(y)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => None,
        }
    }
    fn hold(&mut self, c: Id, v: bool) {
        self.so.assert(self.ar, c, v);
        self.learn(c, v);
    }
    fn push_fork(&mut self, d: u64, wit: Vec<u64>) {
        let mut dec = self.item.dec.clone();
        dec.push(d);
        self.stats.forks += 1;
        self.forked.push(Item { entry: self.item.entry, dec, wit });
    }
    /// Is the other side of `c` feasible too? Follows the witness.
    fn branch(&mut self, c: Id) -> bool {
        if let Some(b) = self.lookup(c) {
            return b;
        }
        if let Some(b) = self.unary(c) {
            self.stats.unary += 1;
            return b;
        }
        if self.dpos < self.prefix {
            let b = self.item.dec[self.dpos] == 1;
            self.dpos += 1;
            self.hold(c, b);
            return b;
        }
        let b = self.ar.eval(c, &self.wit) == 1;
        if self.cx.debug {
            eprintln!("BR {} {}", self.ar.show(c, 6), self.trace().iter().take(3).cloned().collect::<Vec<_>>().join(" < "));
        }
        match self.so.check(self.ar, c, !b, &self.vars) {
            Sat::Sat(m) => self.push_fork(!b as u64, m),
            Sat::Unsat => {
                // implied: not a decision
                self.learn(c, b);
                self.item.dec.push(b as u64);
                self.dpos += 1;
                return b;
            }
            Sat::Unknown => self.stats.unknown += 1,
        }
        self.item.dec.push(b as u64);
        self.dpos += 1;
        self.hold(c, b);
        b
    }
    fn assume(&mut self, c: Id) -> R<()> {
        match self.lookup(c).or_else(|| self.unary(c)) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Assume),
            None => {}
        }
        if self.dpos >= self.prefix && self.ar.eval(c, &self.wit) != 1 {
            match self.so.check(self.ar, c, true, &self.vars) {
                Sat::Sat(m) => {
                    self.wit = m;
                    self.ar.bump();
                }
                Sat::Unsat => return Err(Stop::Assume),
                Sat::Unknown => {
                    self.stats.unknown += 1;
                    return Err(Stop::Unsup("solver: unknown".into()));
                }
            }
        }
        self.hold(c, true);
        Ok(())
    }
    fn check_assert(&mut self, c: V, id: u32) -> R<()> {
        let replay = self.dpos < self.prefix;
        if !replay {
            self.stats.asserts += 1;
        }
        if c.e == 0 {
            if c.c & 1 == 1 {
                return Ok(());
            }
            if !replay {
                let w = self.wit.clone();
                self.report("assert", id, String::new(), &w);
            }
            return Err(Stop::Failed);
        }
        if let Some(b) = self.lookup(c.e) {
            return self.check_assert(V::c(b as u64), id);
        }
        if replay {
            self.hold(c.e, true);
            return Ok(());
        }
        self.stats.asserts_symbolic += 1;
        match self.so.check(self.ar, c.e, false, &self.vars) {
            Sat::Sat(m) => {
                self.report("assert", id, String::new(), &m);
                // go on where it holds
                if self.ar.eval(c.e, &self.wit) != 1 {
                    match self.so.check(self.ar, c.e, true, &self.vars) {
                        Sat::Sat(m) => {
                            self.wit = m;
                            self.ar.bump();
                        }
                        _ => return Err(Stop::Failed),
                    }
                }
                self.hold(c.e, true);
            }
            Sat::Unsat => self.hold(c.e, true),
            Sat::Unknown => {
                self.stats.unknown += 1;
                return Err(Stop::Unsup("solver: unknown".into()));
            }
        }
        Ok(())
    }
    pub fn report(&mut self, kind: &str, id: u32, msg: String, wit: &[u64]) {
        self.ar.bump();
        let mut notes = vec![];
        for n in self.notes.clone() {
            let mut s = vec![];
            for v in n {
                let b = if v.e == 0 { v.c as u8 } else { self.ar.eval(v.e, wit) as u8 };
                s.push(b);
            }
            notes.push(String::from_utf8_lossy(&s).into_owned());
        }
        self.ar.bump();
        let values = (0..self.vars.len()).filter(|&i| self.inputs[i]).map(|i| wit.get(i).copied().unwrap_or(0) & m64(self.ar.w[self.vars[i] as usize])).collect();
        let trace = self.trace();
        self.viol.push(Violation { id, kind: kind.into(), msg, values, notes, trace });
    }
    fn trace(&self) -> Vec<String> {
        self.frames.iter().rev().take(12).map(|f| self.cx.m.funcs[f.f as usize].name.clone()).collect()
    }
    pub fn report_stop(&mut self, kind: &str, msg: String) {
        let w = self.wit.clone();
        self.report(kind, 0, msg, &w);
    }
    /// One value per path; all feasible values are explored.
    fn concretise(&mut self, v: V) -> R<u64> {
        if v.e == 0 {
            return Ok(v.c);
        }
        let w = self.ar.w[v.e as usize];
        if w > 64 {
            return Err(Stop::Unsup("concretise wide".into()));
        }
        if self.dpos < self.prefix {
            let x = self.item.dec[self.dpos];
            self.dpos += 1;
            let k = self.ar.cst(x as u128, w);
            let c = self.ar.cmp(Pred::Eq, v.e, k);
            if self.ar.konst(c).is_none() {
                self.hold(c, true);
            }
            return Ok(x);
        }
        let x = self.ar.eval(v.e, &self.wit) as u64;
        let k = self.ar.cst(x as u128, w);
        let here = self.ar.cmp(Pred::Eq, v.e, k);
        let mut excl = self.ar.not1(here);
        let mut n = 0;
        loop {
            match self.so.check(self.ar, excl, true, &self.vars) {
                Sat::Sat(m) => {
                    self.ar.bump();
                    let y = self.ar.eval(v.e, &m) as u64;
                    self.ar.bump();
                    self.push_fork(y, m);
                    let k = self.ar.cst(y as u128, w);
                    let c = self.ar.cmp(Pred::Eq, v.e, k);
                    let nc = self.ar.not1(c);
                    excl = self.ar.bin(BinOp::And, excl, nc);
                    n += 1;
                    if n > 300 {
                        return Err(Stop::Unsup("concretise: too many values".into()));
                    }
                }
                Sat::Unsat => break,
                Sat::Unknown => {
                    self.stats.unknown += 1;
                    break;
                }
            }
        }
        self.item.dec.push(x);
        self.dpos += 1;
        if self.ar.konst(here).is_none() {
            self.hold(here, true);
        }
        Ok(x)
    }

    // ---------- memory ----------

    fn alloc(&mut self, size: u64, kind: Kind, zero: bool) -> R<u64> {
        if size > 1 << 28 {
            return Err(Stop::Unsup(format!("allocation of {} bytes", size)));
        }
        let id = self.objs.len() as u64;
        let (mut d, mut s) = self.pool.pop().unwrap_or_default();
        d.clear();
        d.resize(size as usize, 0);
        s.clear();
        if !zero {
            s.resize(size as usize, 2);
        }
        self.objs.push(Some(Box::new(Obj { size: size as u32, data: Buf::Own(d), st: s, sym: HashMap::new(), kind, ro: false })));
        Ok(id << 32)
    }
    fn release(&mut self, id: u32) {
        if let Some(o) = self.objs[id as usize].take() {
            if self.pool.len() < 64 {
                if let Buf::Own(d) = o.data {
                    self.pool.push((d, o.st));
                }
            }
        }
    }
    fn free(&mut self, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = (p >> 32) as usize;
        match self.objs.get(id) {
            Some(Some(o)) if o.kind == Kind::Heap && p & 0xffff_ffff == 0 => {
                self.release(id as u32);
                Ok(())
            }
            Some(None) if id > self.cx.m.globals.len() => Err(Stop::Mem(format!("double free of {:#x}", p))),
            _ => Err(Stop::Mem(format!("invalid free of {:#x}", p))),
        }
    }
    #[inline(always)]
    fn obj(&mut self, addr: u64, n: u64, align: u64, write: bool) -> R<(&mut Obj, usize)> {
        let id = (addr >> 32) as usize;
        let off = addr & 0xffff_ffff;
        if id >= self.objs.len() || id == 0 {
            return Err(Stop::Mem(format!("access to invalid address {:#x} ({} bytes)", addr, n)));
        }
        if self.objs[id].is_none() {
            let ng = self.cx.m.globals.len();
            if id <= ng {
                let g = &self.cx.m.globals[id - 1];
                self.objs[id] = Some(Box::new(Obj { size: g.size as u32, data: Buf::Shared(g.data.clone()), st: vec![], sym: HashMap::new(), kind: Kind::Global, ro: g.constant }));
            } else {
                return Err(Stop::Mem(format!("use after free/scope of {:#x} ({} bytes)", addr, n)));
            }
        }
        let o = self.objs[id].as_mut().unwrap();
        if off + n > o.size as u64 {
            return Err(Stop::Mem(format!("out of bounds: offset {} + {} of object of {} bytes", off, n, o.size)));
        }
        if align > 1 && off & (align - 1) != 0 {
            return Err(Stop::Mem(format!("misaligned access at offset {} (align {})", off, align)));
        }
        if write && o.ro {
            return Err(Stop::Mem("write to constant".into()));
        }
        Ok((o, off as usize))
    }
    fn load(&mut self, ptr: V, w: u32, align: u64) -> R<V> {
        if ptr.e != 0 {
            return self.load_sym(ptr.e, w, align);
        }
        let n = ((w + 7) / 8) as usize;
        let (o, off) = self.obj(ptr.c, n as u64, align, false)?;
        if w <= 64 && (o.st.is_empty() || o.st[off..off + n].iter().all(|&b| b == 0)) {
            let d = &o.data.get()[off..off + n];
            let x = match n {
                1 => d[0] as u64,
                2 => u16::from_le_bytes([d[0], d[1]]) as u64,
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u64,
                8 => u64::from_le_bytes(d.try_into().unwrap()),
                _ => {
                    let mut x = 0u64;
                    for i in (0..n).rev() {
                        x = (x << 8) | d[i] as u64;
                    }
                    x
                }
            };
            return Ok(V::c(x & m64(w)));
        }
        // mixed
        let mut acc: Option<Id> = None;
        for i in 0..n {
            let b = self.byte(ptr.c + i as u64)?;
            let e = self.ar.ex(b, 8);
            acc = Some(match acc {
                None => e,
                Some(l) => self.ar.concat(e, l),
            });
        }
        let mut e = acc.unwrap();
        if self.ar.w[e as usize] > w {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.ar.val(e))
    }
    /// One byte; uninitialised memory reads as a fresh unconstrained variable.
    fn byte(&mut self, addr: u64) -> R<V> {
        let (o, off) = self.obj(addr, 1, 1, false)?;
        if o.st.is_empty() {
            return Ok(V::c(o.data.get()[off] as u64));
        }
        match o.st[off] {
            0 => Ok(V::c(o.data.get()[off] as u64)),
            1 => Ok(V::e(o.sym[&(off as u32)])),
            _ => {
                let v = self.new_var(8, false);
                let (o, off) = self.obj(addr, 1, 1, false)?;
                o.st[off] = 1;
                o.sym.insert(off as u32, v.e);
                Ok(v)
            }
        }
    }
    fn load_sym(&mut self, e: Id, w: u32, align: u64) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        for _ in 0..64 {
            // within the prefix the witness satisfies the whole path, so it is a valid guide
            let a = self.ar.eval(e, &self.wit) as u64;
            let size = {
                let (o, _) = self.obj(a, n, align, false)?;
                o.size as u64
            };
            if size > 8192 || w > 64 {
                let a = self.concretise(V::e(e))?;
                return self.load(V::c(a), w, align);
            }
            let base = a >> 32 << 32;
            let b = self.ar.cst(base as u128, 64);
            let off = self.ar.bin(BinOp::Sub, e, b);
            let lim = self.ar.cst((size - n) as u128, 64);
            let inr = self.ar.cmp(Pred::Ule, off, lim);
            if !self.branch(inr) {
                continue;
            }
            if align > 1 {
                let k = align.trailing_zeros();
                let lo = self.ar.extract(off, 0, k);
                let z = self.ar.cst(0, k);
                let ok = self.ar.cmp(Pred::Eq, lo, z);
                if !self.branch(ok) {
                    return Err(Stop::Mem("misaligned symbolic access".into()));
                }
            }
            let step = align.max(1);
            let mut vals: Vec<(u64, Id)> = vec![];
            let mut o = 0;
            while o + n <= size {
                let v = self.load(V::c(base + o), w, 1)?;
                let x = self.ar.ex(v, w);
                match vals.last_mut() {
                    Some(l) if l.1 == x => l.0 = o,
                    _ => vals.push((o, x)),
                }
                o += step;
            }
            let mut r = vals.last().unwrap().1;
            for (hi, x) in vals.iter().rev().skip(1) {
                let k = self.ar.cst(*hi as u128, 64);
                let c = self.ar.cmp(Pred::Ule, off, k);
                r = self.ar.ite(c, *x, r);
            }
            return Ok(self.ar.val(r));
        }
        Err(Stop::Unsup("symbolic load over too many objects".into()))
    }
    fn store(&mut self, ptr: V, v: V, w: u32, align: u64) -> R<()> {
        let p = self.concretise(ptr)?;
        let n = ((w + 7) / 8) as usize;
        if v.e == 0 {
            let (o, off) = self.obj(p, n as u64, align, true)?;
            let b = v.c.to_le_bytes();
            if w > 64 {
                return Err(Stop::Unsup("wide concrete store".into()));
            }
            o.data.get_mut()[off..off + n].copy_from_slice(&b[..n]);
            if !o.st.is_empty() {
                o.st[off..off + n].fill(0);
            }
            return Ok(());
        }
        let mut e = v.e;
        if (n as u32) * 8 != w {
            e = self.ar.zext(e, n as u32 * 8);
        }
        self.obj(p, n as u64, align, true)?;
        for i in 0..n {
            let x = self.ar.extract(e, 8 * i as u32, 8);
            self.put_byte(p + i as u64, self.ar.val(x))?;
        }
        Ok(())
    }
    fn put_byte(&mut self, p: u64, b: V) -> R<()> {
        let (o, off) = self.obj(p, 1, 1, true)?;
        if b.e == 0 {
            o.data.get_mut()[off] = b.c as u8;
            if !o.st.is_empty() {
                o.st[off] = 0;
            }
        } else {
            if o.st.is_empty() {
                o.st = vec![0; o.size as usize];
            }
            o.st[off] = 1;
            o.sym.insert(off as u32, b.e);
        }
        Ok(())
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.obj(s, n, 1, false)?;
        let nn = n as usize;
        let data: Vec<u8> = so.data.get()[soff..soff + nn].to_vec();
        let plain = so.st.is_empty() || so.st[soff..soff + nn].iter().all(|&b| b == 0);
        let st: Vec<u8> = if plain { vec![] } else { so.st[soff..soff + nn].to_vec() };
        let mut sy = vec![];
        if !plain {
            for (i, b) in st.iter().enumerate() {
                if *b == 1 {
                    sy.push((i, so.sym[&((soff + i) as u32)]));
                }
            }
        }
        let (o, doff) = self.obj(d, n, 1, true)?;
        o.data.get_mut()[doff..doff + nn].copy_from_slice(&data);
        if plain {
            if !o.st.is_empty() {
                o.st[doff..doff + nn].fill(0);
            }
        } else {
            if o.st.is_empty() {
                o.st = vec![0; o.size as usize];
            }
            o.st[doff..doff + nn].copy_from_slice(&st);
            for (i, e) in sy {
                o.sym.insert((doff + i) as u32, e);
            }
        }
        Ok(())
    }
    fn memset(&mut self, d: u64, v: V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if v.e != 0 {
            for i in 0..n {
                self.put_byte(d + i, v)?;
            }
            return Ok(());
        }
        let (o, off) = self.obj(d, n, 1, true)?;
        o.data.get_mut()[off..off + n as usize].fill(v.c as u8);
        if !o.st.is_empty() {
            o.st[off..off + n as usize].fill(0);
        }
        Ok(())
    }

    // ---------- values ----------

    #[inline(always)]
    fn get(&mut self, o: Op) -> V {
        match o {
            Op::Slot(s) => {
                let b = self.frames.last().unwrap().base;
                self.regs[b + s as usize]
            }
            Op::C(c) => V::c(c),
            Op::W(i) => {
                let k = self.frames.last().unwrap().code.wide[i as usize];
                let e = self.ar.cst(k, 128);
                V::e(e)
            }
        }
    }
    /// Like `get`, but of a given width (constants wider than 64 bits get that width).
    #[inline(always)]
    fn getw(&mut self, o: Op, w: u32) -> V {
        match o {
            Op::W(i) => {
                let k = self.frames.last().unwrap().code.wide[i as usize];
                let e = self.ar.cst(k, w);
                V::e(e)
            }
            Op::C(c) if w > 64 => {
                let e = self.ar.cst(c as u128, w);
                V::e(e)
            }
            _ => {
                let v = self.get(o);
                if w > 64 && v.e == 0 {
                    let e = self.ar.cst(v.c as u128, w);
                    return V::e(e);
                }
                v
            }
        }
    }
    #[inline(always)]
    fn set(&mut self, s: u32, v: V) {
        let b = self.frames.last().unwrap().base;
        self.regs[b + s as usize] = v;
    }
    fn bin(&mut self, op: BinOp, w: u32, a: V, b: V) -> R<V> {
        if a.e == 0 && b.e == 0 && w <= 64 {
            use BinOp::*;
            let (x, y) = (a.c, b.c);
            let r = match op {
                Add => x.wrapping_add(y),
                Sub => x.wrapping_sub(y),
                Mul => x.wrapping_mul(y),
                And => x & y,
                Or => x | y,
                Xor => x ^ y,
                Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                UDiv | URem | SDiv | SRem if y == 0 => return Err(Stop::Mem("division by zero".into())),
                UDiv => x / y,
                URem => x % y,
                _ => crate::expr::fold(op, x as u128, y as u128, w) as u64,
            };
            return Ok(V::c(r & m64(w)));
        }
        let x = self.ar.ex(a, w);
        let y = self.ar.ex(b, w);
        let r = self.ar.bin(op, x, y);
        Ok(self.ar.val(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        if a.e == 0 && b.e == 0 && w <= 64 {
            let (x, y) = (a.c, b.c);
            let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x) < sx(y),
                Pred::Sle => sx(x) <= sx(y),
                Pred::Sgt => sx(x) > sx(y),
                Pred::Sge => sx(x) >= sx(y),
            };
            return V::c(r as u64);
        }
        let x = self.ar.ex(a, w);
        let y = self.ar.ex(b, w);
        let e = self.ar.cmp(p, x, y);
        self.ar.val(e)
    }
    fn cast(&mut self, k: CastK, from: u32, to: u32, a: V) -> V {
        if a.e == 0 && from <= 64 && to <= 64 {
            return match k {
                CastK::Zext => a,
                CastK::Trunc => V::c(a.c & m64(to)),
                CastK::Sext => V::c(((((a.c << (64 - from)) as i64) >> (64 - from)) as u64) & m64(to)),
            };
        }
        let x = self.ar.ex(a, from);
        let e = match k {
            CastK::Zext => self.ar.zext(x, to),
            CastK::Sext => self.ar.sext(x, to),
            CastK::Trunc => self.ar.extract(x, 0, to),
        };
        self.ar.val(e)
    }
    fn ite(&mut self, c: V, w: u32, a: V, b: V) -> V {
        if c.e == 0 {
            return if c.c & 1 == 1 { a } else { b };
        }
        if let Some(k) = self.lookup(c.e) {
            return if k { a } else { b };
        }
        let x = self.ar.ex(a, w);
        let y = self.ar.ex(b, w);
        let e = self.ar.ite(c.e, x, y);
        self.ar.val(e)
    }

    // ---------- control ----------

    fn jump(&mut self, e: &Edge) {
        if !e.moves.is_empty() {
            if e.moves.len() == 1 {
                let v = self.get(e.moves[0].1);
                self.set(e.moves[0].0, v);
            } else {
                let mut tmp = [V::c(0); 16];
                if e.moves.len() <= 16 {
                    for (i, m) in e.moves.iter().enumerate() {
                        tmp[i] = self.get(m.1);
                    }
                    for (i, m) in e.moves.iter().enumerate() {
                        self.set(m.0, tmp[i]);
                    }
                } else {
                    let t: Vec<V> = e.moves.iter().map(|m| self.get(m.1)).collect();
                    for (i, m) in e.moves.iter().enumerate() {
                        self.set(m.0, t[i]);
                    }
                }
            }
        }
        let f = self.frames.last_mut().unwrap();
        f.block = e.block;
        f.pc = 0;
    }
    fn push_frame(&mut self, f: u32, args: &[V], catch: bool) -> R<()> {
        if self.frames.len() > 4000 {
            return Err(Stop::Abort(format!("stack overflow: {} calls deep: {}", self.frames.len(), self.trace().into_iter().take(12).collect::<Vec<_>>().join(" < "))));
        }
        let fu = &self.cx.m.funcs[f as usize];
        if fu.body.is_none() {
            return Err(Stop::Unsup(format!("external function {}", fu.name)));
        }
        let code = self.cx.m.code(f).map_err(Stop::Unsup)?;
        self.funcs[f as usize] = true;
        let base = match self.frames.last() {
            Some(p) => p.base + p.code.nslots as usize,
            None => 0,
        };
        let need = base + code.nslots as usize;
        if self.regs.len() < need {
            self.regs.resize(need, V::c(0));
        }
        let mut k = 0;
        for (s, n) in &code.params {
            for i in 0..*n {
                if k >= args.len() {
                    return Err(Stop::Unsup(format!("argument count for {}", fu.name)));
                }
                self.regs[base + (*s + i) as usize] = args[k];
                k += 1;
            }
        }
        self.frames.push(Frame { f, code, base, block: 0, pc: 0, allocas: vec![], catch });
        Ok(())
    }
    fn pop_frame(&mut self) -> Frame {
        let mut f = self.frames.pop().unwrap();
        for a in std::mem::take(&mut f.allocas) {
            self.release(a);
        }
        f
    }
    /// Completes the call instruction the top frame is at.
    fn finish_call(&mut self, vals: &[V]) -> R<()> {
        let f = self.frames.last().unwrap();
        let code = f.code.clone();
        let (b, pc) = (f.block as usize, f.pc as usize);
        match &code.blocks[b][pc] {
            Ins::Call { dst, ndst, wdst, normal, .. } => {
                for i in 0..*ndst {
                    let mut v = vals.get(i as usize).copied().unwrap_or(V::c(0));
                    if v.e == 0 {
                        v.c &= m64(wdst[i as usize]);
                    }
                    self.set(dst + i, v);
                }
                match normal {
                    Some(e) => self.jump(e),
                    None => self.frames.last_mut().unwrap().pc += 1,
                }
                Ok(())
            }
            _ => Err(Stop::Unsup("return to a non-call".into())),
        }
    }
    /// Unwinds from the instruction the top frame is at (which may itself be an invoke).
    fn throw(&mut self, why: &str) -> R<()> {
        if why != "resumed" {
            self.thrown = format!("{} at {}", why, self.trace().join(" < "));
        }
        loop {
            let Some(f) = self.frames.last() else {
                return Err(Stop::Panic(self.thrown.clone()));
            };
            let code = f.code.clone();
            let (b, pc) = (f.block as usize, f.pc as usize);
            if let Some(Ins::Call { unwind: Some(e), .. }) = code.blocks[b].get(pc) {
                self.jump(e);
                return Ok(());
            }
            let f = self.pop_frame();
            if f.catch {
                return self.finish_call(&[V::c(1)]);
            }
        }
    }

    pub fn run(&mut self, entry: u32) -> R<()> {
        let r = self.run_inner(entry);
        if let Err(Stop::Abort(_)) = &r {
            let c = self.abort_ok;
            let ok = if c.e == 0 { c.c & 1 == 1 } else { self.branch(c.e) };
            if ok {
                return Err(Stop::AbortExpected);
            }
        }
        r
    }
    /// Input values of this path's witness.
    pub fn inputs(&self) -> Vec<u64> {
        (0..self.vars.len()).filter(|&i| self.inputs[i]).map(|i| self.wit.get(i).copied().unwrap_or(0) & m64(self.ar.w[self.vars[i] as usize])).collect()
    }
    fn run_inner(&mut self, entry: u32) -> R<()> {
        self.push_frame(entry, &[], false)?;
        loop {
            let f = self.frames.last().unwrap();
            let code = f.code.clone();
            // inner loop: one frame until control leaves it
            loop {
                let f = self.frames.last().unwrap();
                let (b, pc) = (f.block as usize, f.pc as usize);
                let ins = &code.blocks[b][pc];
                self.stats.steps += 1;
                if self.stats.steps > self.cx.max_steps {
                    return Err(Stop::Abort(format!("no end after {} steps: {}", self.stats.steps, self.trace().into_iter().take(8).collect::<Vec<_>>().join(" < "))));
                }
                match self.step(ins)? {
                    Flow::Next => self.frames.last_mut().unwrap().pc += 1,
                    Flow::Jumped => {
                        if matches!(ins, Ins::Call { .. } | Ins::Resume { .. }) {
                            break;
                        }
                    }
                    Flow::Done(vals) => {
                        let f = self.pop_frame();
                        if self.frames.is_empty() {
                            return Ok(());
                        }
                        if f.catch {
                            self.finish_call(&[V::c(0)])?;
                        } else {
                            self.finish_call(&vals)?;
                        }
                        break;
                    }
                }
            }
        }
    }

    #[inline(always)]
    fn step(&mut self, ins: &Ins) -> R<Flow> {
        match ins {
            Ins::Bin { op, w, dst, a, b } => {
                let x = self.getw(*a, *w);
                let y = self.getw(*b, *w);
                let r = self.bin(*op, *w, x, y)?;
                self.set(*dst, r);
            }
            Ins::Icmp { p, w, dst, a, b } => {
                let x = self.getw(*a, *w);
                let y = self.getw(*b, *w);
                let r = self.icmp(*p, *w, x, y);
                self.set(*dst, r);
            }
            Ins::Cast { k, from, to, dst, a } => {
                let x = self.getw(*a, *from);
                let r = self.cast(*k, *from, *to, x);
                self.set(*dst, r);
            }
            Ins::Load1 { dst, w, ptr, align } => {
                let p = self.get(*ptr);
                let v = self.load(p, *w, *align)?;
                self.set(*dst, v);
            }
            Ins::LoadN { dst, leaves, ptr, align } => {
                let p = self.get(*ptr);
                let p = self.concretise(p)?;
                let _ = align;
                for (i, (o, w)) in leaves.iter().enumerate() {
                    let v = self.load(V::c(p.wrapping_add(*o)), *w, 1)?;
                    self.set(dst + i as u32, v);
                }
            }
            Ins::Store1 { w, val, ptr, align } => {
                let v = self.getw(*val, *w);
                let p = self.get(*ptr);
                self.store(p, v, *w, *align)?;
            }
            Ins::StoreN { leaves, vals, ptr, .. } => {
                let p = self.get(*ptr);
                let p = self.concretise(p)?;
                for ((o, w), v) in leaves.iter().zip(vals.iter()) {
                    let v = self.getw(*v, *w);
                    self.store(V::c(p.wrapping_add(*o)), v, *w, 1)?;
                }
            }
            Ins::Gep { dst, base, off, idx } => {
                let b = self.get(*base);
                let mut acc = self.bin(BinOp::Add, 64, b, V::c(*off as u64))?;
                for (o, w, s) in idx.iter() {
                    let i = self.getw(*o, *w);
                    let i = if *w < 64 { self.cast(CastK::Sext, *w, 64, i) } else { i };
                    let m = if *s == 1 { i } else { self.bin(BinOp::Mul, 64, i, V::c(*s))? };
                    acc = self.bin(BinOp::Add, 64, acc, m)?;
                }
                self.set(*dst, acc);
            }
            Ins::Select { dst, w, cond, a, b } => {
                let mut c = self.get(*cond);
                if c.e != 0 && w.contains(&64) {
                    // pointers and lengths: one path per case keeps addresses concrete
                    let differ = (0..w.len()).any(|i| {
                        let (x, y) = (self.getw(a[i], w[i]), self.getw(b[i], w[i]));
                        w[i] == 64 && (x.e != y.e || x.c != y.c)
                    });
                    if differ {
                        c = V::c(self.branch(c.e) as u64);
                    }
                }
                for i in 0..w.len() {
                    let x = self.getw(a[i], w[i]);
                    let y = self.getw(b[i], w[i]);
                    let r = self.ite(c, w[i], x, y);
                    self.set(dst + i as u32, r);
                }
            }
            Ins::Mov { moves } => {
                if moves.len() == 1 {
                    let v = self.get(moves[0].1);
                    self.set(moves[0].0, v);
                } else {
                    let t: Vec<V> = moves.iter().map(|m| self.get(m.1)).collect();
                    for (i, m) in moves.iter().enumerate() {
                        self.set(m.0, t[i]);
                    }
                }
            }
            Ins::Alloca { dst, size, count, .. } => {
                let mut n = *size;
                if let Some(c) = count {
                    let c = self.get(*c);
                    n *= self.concretise(c)?;
                }
                let a = self.alloc(n, Kind::Stack, false)?;
                self.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                self.set(*dst, V::c(a));
            }
            Ins::Call { callee, args, ndst, .. } => {
                return self.call(callee, args, *ndst);
            }
            Ins::Br(e) => {
                self.jump(e);
                return Ok(Flow::Jumped);
            }
            Ins::CondBr { cond, t, f } => {
                let c = self.get(*cond);
                let b = if c.e == 0 { c.c & 1 == 1 } else { self.branch(c.e) };
                self.jump(if b { t } else { f });
                return Ok(Flow::Jumped);
            }
            Ins::Switch { w, v, cases, def } => {
                let x = self.get(*v);
                if x.e == 0 {
                    for (k, e) in cases.iter() {
                        if *k == x.c {
                            self.jump(e);
                            return Ok(Flow::Jumped);
                        }
                    }
                    self.jump(def);
                    return Ok(Flow::Jumped);
                }
                let i = self.switch(x.e, *w, cases)?;
                self.jump(if i < cases.len() { &cases[i].1 } else { def });
                return Ok(Flow::Jumped);
            }
            Ins::Ret { vals } => {
                let v: Vec<V> = vals.iter().map(|o| self.get(*o)).collect();
                return Ok(Flow::Done(v));
            }
            Ins::Unreachable => return Err(Stop::Unreachable(self.trace().join(" < "))),
            Ins::Resume { .. } => {
                // continue unwinding in the caller
                let f = self.pop_frame();
                if f.catch {
                    self.finish_call(&[V::c(1)])?;
                    return Ok(Flow::Jumped);
                }
                self.throw("resumed")?;
                return Ok(Flow::Jumped);
            }
            Ins::LandingPad { dst } => {
                self.set(*dst, V::c(0x1000));
                self.set(*dst + 1, V::c(0));
            }
            Ins::AtomicRmw { op, w, dst, ptr, val } => {
                let p = self.get(*ptr);
                let p = V::c(self.concretise(p)?);
                let v = self.getw(*val, *w);
                let old = self.load(p, *w, 1)?;
                let new = match op {
                    RmwOp::Xchg => v,
                    RmwOp::Bin(b) => self.bin(*b, *w, old, v)?,
                    RmwOp::UMax | RmwOp::Max | RmwOp::UMin | RmwOp::Min => {
                        let pr = match op {
                            RmwOp::UMax => Pred::Ugt,
                            RmwOp::Max => Pred::Sgt,
                            RmwOp::UMin => Pred::Ult,
                            _ => Pred::Slt,
                        };
                        let c = self.icmp(pr, *w, old, v);
                        self.ite(c, *w, old, v)
                    }
                };
                self.store(p, new, *w, 1)?;
                self.set(*dst, old);
            }
            Ins::CmpXchg { w, dst, ptr, cmp, new } => {
                let p = self.get(*ptr);
                let p = V::c(self.concretise(p)?);
                let c = self.getw(*cmp, *w);
                let n = self.getw(*new, *w);
                let old = self.load(p, *w, 1)?;
                let eq = self.icmp(Pred::Eq, *w, old, c);
                let st = self.ite(eq, *w, n, old);
                self.store(p, st, *w, 1)?;
                self.set(*dst, old);
                self.set(*dst + 1, eq);
            }
            Ins::ConcatBits { dst, w, elems, ew } => {
                let _ = w;
                let mut acc: Option<Id> = None;
                for o in elems.iter() {
                    let v = self.getw(*o, *ew);
                    let e = self.ar.ex(v, *ew);
                    acc = Some(match acc {
                        None => e,
                        Some(l) => self.ar.concat(e, l),
                    });
                }
                let v = self.ar.val(acc.unwrap());
                self.set(*dst, v);
            }
            Ins::SplitBits { dst, src, w, n, ew } => {
                let v = self.getw(*src, *w);
                let e = self.ar.ex(v, *w);
                for i in 0..*n {
                    let x = self.ar.extract(e, i * ew, *ew);
                    let v = self.ar.val(x);
                    self.set(dst + i, v);
                }
            }
            Ins::Unsupported(s) => return Err(Stop::Unsup(format!("{} @ {}", s, self.trace().join(" < ")))),
            Ins::Nop => {}
        }
        Ok(Flow::Next)
    }

    fn switch(&mut self, e: Id, w: u32, cases: &[(u64, Edge)]) -> R<usize> {
        let mut conds = vec![];
        for (k, _) in cases {
            let kk = self.ar.cst(*k as u128, w);
            conds.push(self.ar.cmp(Pred::Eq, e, kk));
        }
        // default condition
        let mut d = self.ar.cst(1, 1);
        for &c in &conds {
            let n = self.ar.not1(c);
            d = self.ar.bin(BinOp::And, d, n);
        }
        conds.push(d);
        let mut open = vec![];
        for (i, &c) in conds.iter().enumerate() {
            match self.lookup(c) {
                Some(true) => return Ok(i),
                Some(false) => {}
                None => open.push(i),
            }
        }
        if self.dpos < self.prefix {
            let i = self.item.dec[self.dpos] as usize;
            self.dpos += 1;
            self.hold(conds[i], true);
            self.exclude(&conds, i);
            return Ok(i);
        }
        let mut here = conds.len() - 1;
        for &i in &open {
            if self.ar.eval(conds[i], &self.wit) == 1 {
                here = i;
                break;
            }
        }
        for &i in &open {
            if i == here {
                continue;
            }
            match self.so.check(self.ar, conds[i], true, &self.vars) {
                Sat::Sat(m) => self.push_fork(i as u64, m),
                Sat::Unsat => {}
                Sat::Unknown => self.stats.unknown += 1,
            }
        }
        self.item.dec.push(here as u64);
        self.dpos += 1;
        self.hold(conds[here], true);
        self.exclude(&conds, here);
        Ok(here)
    }
    fn exclude(&mut self, conds: &[Id], here: usize) {
        for (i, &c) in conds.iter().enumerate() {
            if i != here {
                self.known.insert(c, false);
            }
        }
    }

    fn call(&mut self, callee: &Callee, args: &[Op], ndst: u32) -> R<Flow> {
        let mut buf = [V::c(0); 24];
        let big: Vec<V>;
        let av: &[V] = if args.len() <= 24 {
            for (i, o) in args.iter().enumerate() {
                buf[i] = self.get(*o);
            }
            &buf[..args.len()]
        } else {
            big = args.iter().map(|o| self.get(*o)).collect();
            &big
        };
        let f = match callee {
            Callee::Intrinsic(i) => {
                let r = self.intrinsic(i, av)?;
                self.finish_call(&r[..(ndst as usize).min(r.len())])?;
                return Ok(Flow::Jumped);
            }
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
                let v = self.get(*o);
                let a = self.concretise(v)?;
                let id = a >> 32;
                if a & 0xffff_ffff != 0 || id < FN_BASE || id - FN_BASE >= self.cx.m.funcs.len() as u64 {
                    return Err(Stop::Mem(format!("call of a non-function {:#x}", a)));
                }
                (id - FN_BASE) as u32
            }
        };
        let h = self.cx.hooks[f as usize];
        if h == Hook::None {
            self.push_frame(f, av, false)?;
            return Ok(Flow::Jumped);
        }
        let av = av.to_vec();
        self.hook(h, f, &av)
    }

    fn ret(&mut self, v: V) -> R<Flow> {
        self.finish_call(&[v])?;
        Ok(Flow::Jumped)
    }

    fn hook(&mut self, h: Hook, f: u32, a: &[V]) -> R<Flow> {
        match h {
            Hook::None => unreachable!(),
            Hook::Throw => {
                let n = self.cx.m.funcs[f as usize].name.clone();
                self.throw(&n)?;
                Ok(Flow::Jumped)
            }
            Hook::AbortOk => {
                self.abort_ok = a[0];
                if a[0].e != 0 && self.ar.w[a[0].e as usize] != 1 {
                    let e = self.ar.extract(a[0].e, 0, 1);
                    self.abort_ok = self.ar.val(e);
                }
                self.ret(V::c(0))
            }
            Hook::Abort => Err(Stop::Abort(format!("{} < {}", self.cx.m.funcs[f as usize].name, self.trace().join(" < ")))),
            Hook::SymU(w) => {
                let v = self.new_var(w, true);
                self.ret(v)
            }
            Hook::SymBool => {
                let v = self.new_var(1, true);
                // returned as i1 (bool)
                self.ret(v)
            }
            Hook::SymChoice | Hook::SymFork => {
                let n = self.concretise(a[0])?;
                if n <= 1 {
                    // still an input, for replay
                    let v = self.new_var(32, true);
                    let z = self.ar.cst(0, 32);
                    let c = self.ar.cmp(Pred::Eq, v.e, z);
                    self.assume(c)?;
                    return self.ret(V::c(0));
                }
                let v = self.new_var(32, true);
                let k = self.ar.cst(n as u128, 32);
                let c = self.ar.cmp(Pred::Ult, v.e, k);
                self.assume(c)?;
                if matches!(h, Hook::SymFork) {
                    // one path per value, each found feasible by the solver
                    let x = self.concretise(v)?;
                    return self.ret(V::c(x));
                }
                self.ret(v)
            }
            Hook::Assume => {
                if a[0].e == 0 {
                    if a[0].c & 1 == 0 {
                        return Err(Stop::Assume);
                    }
                } else {
                    let c = if self.ar.w[a[0].e as usize] == 1 { a[0].e } else { self.ar.extract(a[0].e, 0, 1) };
                    if let Some(k) = self.ar.konst(c) {
                        if k == 0 {
                            return Err(Stop::Assume);
                        }
                    } else {
                        self.assume(c)?;
                    }
                }
                self.ret(V::c(0))
            }
            Hook::Assert => {
                let mut c = a[0];
                if c.e != 0 && self.ar.w[c.e as usize] != 1 {
                    let e = self.ar.extract(c.e, 0, 1);
                    c = self.ar.val(e);
                }
                let id = self.concretise(a[1])?;
                self.check_assert(c, id as u32)?;
                self.ret(V::c(0))
            }
            Hook::Catch => {
                let fp = self.concretise(a[0])?;
                let id = fp >> 32;
                if id < FN_BASE {
                    return Err(Stop::Mem("sym_catch: not a function".into()));
                }
                self.push_frame((id - FN_BASE) as u32, &a[1..], true)?;
                Ok(Flow::Jumped)
            }
            Hook::Note => {
                let p = self.concretise(a[0])?;
                let n = self.concretise(a[1])?;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.byte(p + i)?);
                }
                self.notes.push(v);
                self.ret(V::c(0))
            }
            Hook::Reach => {
                let id = self.concretise(a[0])?;
                if self.dpos >= self.prefix {
                    *self.stats.reach.entry(id as u32).or_default() += 1;
                }
                self.ret(V::c(0))
            }
            Hook::Malloc => {
                let n = self.concretise(a[0])?;
                let p = self.alloc(n, Kind::Heap, false)?;
                self.ret(V::c(p))
            }
            Hook::Calloc => {
                let n = self.concretise(a[0])? * self.concretise(a[1])?;
                let p = self.alloc(n, Kind::Heap, true)?;
                self.ret(V::c(p))
            }
            Hook::Realloc => {
                let p = self.concretise(a[0])?;
                let n = self.concretise(a[1])?;
                let q = self.alloc(n, Kind::Heap, false)?;
                if p != 0 {
                    let (o, _) = self.obj(p, 0, 1, false)?;
                    let k = (o.size as u64).min(n);
                    self.memcpy(q, p, k)?;
                    self.free(p)?;
                }
                self.ret(V::c(q))
            }
            Hook::Free => {
                let p = self.concretise(a[0])?;
                self.free(p)?;
                self.ret(V::c(0))
            }
            Hook::PosixMemalign => {
                let n = self.concretise(a[2])?;
                let p = self.alloc(n, Kind::Heap, false)?;
                self.store(a[0], V::c(p), 64, 1)?;
                self.ret(V::c(0))
            }
            Hook::PthreadKey => {
                self.store(a[0], V::c(1), 32, 1)?;
                self.ret(V::c(0))
            }
            Hook::Memcmp | Hook::Bcmp => {
                let p = self.concretise(a[0])?;
                let q = self.concretise(a[1])?;
                let n = self.concretise(a[2])?;
                let mut r: Option<Id> = None;
                let mut conc: u64 = 0;
                let mut bytes = vec![];
                for i in 0..n {
                    let x = self.byte(p + i)?;
                    let y = self.byte(q + i)?;
                    if x.e == 0 && y.e == 0 && x.c != y.c {
                        bytes.push((x, y));
                        break;
                    }
                    if x.e == y.e && x.c == y.c {
                        continue;
                    }
                    bytes.push((x, y));
                }
                for (x, y) in bytes.into_iter().rev() {
                    if x.e == 0 && y.e == 0 {
                        conc = if x.c < y.c { 0xffff_ffff } else { 1 };
                        r = None;
                        continue;
                    }
                    let (ex, ey) = (self.ar.ex(x, 8), self.ar.ex(y, 8));
                    let eq = self.ar.cmp(Pred::Eq, ex, ey);
                    let rest = match r {
                        Some(e) => e,
                        None => self.ar.cst(conc as u128, 32),
                    };
                    let diff = if h == Hook::Bcmp {
                        self.ar.cst(1, 32)
                    } else {
                        let lt = self.ar.cmp(Pred::Ult, ex, ey);
                        let m = self.ar.cst(0xffff_ffff, 32);
                        let o = self.ar.cst(1, 32);
                        self.ar.ite(lt, m, o)
                    };
                    r = Some(self.ar.ite(eq, rest, diff));
                }
                let v = match r {
                    None => V::c(conc),
                    Some(e) => self.ar.val(e),
                };
                self.ret(v)
            }
            Hook::Strlen => {
                let p = self.concretise(a[0])?;
                let mut n = 0;
                loop {
                    let b = self.byte(p + n)?;
                    if self.concretise(b)? == 0 {
                        break;
                    }
                    n += 1;
                }
                self.ret(V::c(n))
            }
            Hook::Memcpy => {
                let d = self.concretise(a[0])?;
                let s = self.concretise(a[1])?;
                let n = self.concretise(a[2])?;
                self.memcpy(d, s, n)?;
                self.ret(V::c(d))
            }
            Hook::Memset => {
                let d = self.concretise(a[0])?;
                let n = self.concretise(a[2])?;
                let v = self.cast_byte(a[1]);
                self.memset(d, v, n)?;
                self.ret(V::c(d))
            }
            Hook::Memchr => {
                let p = self.concretise(a[0])?;
                let c = self.concretise(a[1])? & 0xff;
                let n = self.concretise(a[2])?;
                for i in 0..n {
                    let b = self.byte(p + i)?;
                    let e = self.icmp(Pred::Eq, 8, b, V::c(c));
                    let t = if e.e == 0 { e.c == 1 } else { self.branch(e.e) };
                    if t {
                        return self.ret(V::c(p + i));
                    }
                }
                self.ret(V::c(0))
            }
            Hook::RetZero => self.ret(V::c(0)),
            Hook::RetOne => self.ret(V::c(1)),
            Hook::IsSym => self.ret(V::c((a[0].e != 0) as u64)),
            Hook::Write => self.ret(a[2]),
        }
    }
    fn cast_byte(&mut self, v: V) -> V {
        if v.e == 0 {
            V::c(v.c & 0xff)
        } else {
            let e = self.ar.extract(v.e, 0, 8);
            self.ar.val(e)
        }
    }

    fn intrinsic(&mut self, i: &Intr, a: &[V]) -> R<Vec<V>> {
        let r = match i {
            Intr::Nop => vec![V::c(0)],
            Intr::Zero => vec![V::c(0)],
            Intr::Memcpy => {
                let n = self.concretise(a[2])?;
                if n > 0 {
                    let d = self.concretise(a[0])?;
                    let s = self.concretise(a[1])?;
                    self.memcpy(d, s, n)?;
                }
                vec![]
            }
            Intr::Memset => {
                let n = self.concretise(a[2])?;
                let d = self.concretise(a[0])?;
                let v = self.cast_byte(a[1]);
                self.memset(d, v, n)?;
                vec![]
            }
            Intr::Assume => vec![],
            Intr::Trap => return Err(Stop::Abort(format!("trap < {}", self.trace().join(" < ")))),
            Intr::Ident | Intr::Expect => vec![a[0]],
            Intr::IsConstant => vec![V::c(0)],
            Intr::UMax(w) | Intr::UMin(w) | Intr::SMax(w) | Intr::SMin(w) => {
                let p = match i {
                    Intr::UMax(_) => Pred::Ugt,
                    Intr::UMin(_) => Pred::Ult,
                    Intr::SMax(_) => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, *w, a[0], a[1]);
                vec![self.ite(c, *w, a[0], a[1])]
            }
            Intr::UAddSat(w) => {
                let s = self.bin(BinOp::Add, *w, a[0], a[1])?;
                let o = self.icmp(Pred::Ult, *w, s, a[0]);
                vec![self.ite(o, *w, V::c(m64(*w)), s)]
            }
            Intr::USubSat(w) => {
                let s = self.bin(BinOp::Sub, *w, a[0], a[1])?;
                let o = self.icmp(Pred::Ult, *w, a[0], a[1]);
                vec![self.ite(o, *w, V::c(0), s)]
            }
            Intr::Ucmp(rw, w) | Intr::Scmp(rw, w) => {
                let lt = if matches!(i, Intr::Ucmp(..)) { Pred::Ult } else { Pred::Slt };
                let l = self.icmp(lt, *w, a[0], a[1]);
                let e = self.icmp(Pred::Eq, *w, a[0], a[1]);
                let x = self.ite(e, *rw, V::c(0), V::c(1));
                vec![self.ite(l, *rw, V::c(m64(*rw)), x)]
            }
            Intr::Ovf(op, signed, w) => {
                let (b, w) = (
                    match op {
                        '+' => BinOp::Add,
                        '-' => BinOp::Sub,
                        _ => BinOp::Mul,
                    },
                    *w,
                );
                let r = self.bin(b, w, a[0], a[1])?;
                // widen and compare
                let ww = if *op == '*' { 2 * w } else { w + 1 };
                if ww > 128 {
                    return Err(Stop::Unsup("wide overflow".into()));
                }
                let k = if *signed { CastK::Sext } else { CastK::Zext };
                if a[0].e == 0 && a[1].e == 0 {
                    let f = |x: u64| if *signed { sext(x as u128, w) } else { x as i128 };
                    let (x, y) = (f(a[0].c), f(a[1].c));
                    let full = match op {
                        '+' => x.wrapping_add(y),
                        '-' => x.wrapping_sub(y),
                        _ => {
                            if *signed {
                                x.wrapping_mul(y)
                            } else {
                                (x as u128).wrapping_mul(y as u128) as i128
                            }
                        }
                    };
                    let o = full != f(r.c);
                    return Ok(vec![r, V::c(o as u64)]);
                }
                let (x, y) = (self.ar.ex(a[0], w), self.ar.ex(a[1], w));
                let (x, y) = if *signed { (self.ar.sext(x, ww), self.ar.sext(y, ww)) } else { (self.ar.zext(x, ww), self.ar.zext(y, ww)) };
                let full = self.ar.bin(b, x, y);
                let re = self.ar.ex(r, w);
                let rr = match k {
                    CastK::Sext => self.ar.sext(re, ww),
                    _ => self.ar.zext(re, ww),
                };
                let eq = self.ar.cmp(Pred::Eq, full, rr);
                let ne = self.ar.not1(eq);
                vec![r, self.ar.val(ne)]
            }
            Intr::Abs(w) => {
                let n = self.bin(BinOp::Sub, *w, V::c(0), a[0])?;
                let c = self.icmp(Pred::Slt, *w, a[0], V::c(0));
                vec![self.ite(c, *w, n, a[0])]
            }
            Intr::Fshl(w) | Intr::Fshr(w) => {
                let left = matches!(i, Intr::Fshl(_));
                if a[2].e != 0 {
                    return Err(Stop::Unsup("funnel shift by a symbolic amount".into()));
                }
                let s = a[2].c % *w as u64;
                if s == 0 {
                    return Ok(vec![if left { a[0] } else { a[1] }]);
                }
                let (l, r) = if left { (s, *w as u64 - s) } else { (*w as u64 - s, s) };
                let x = self.bin(BinOp::Shl, *w, a[0], V::c(l))?;
                let y = self.bin(BinOp::LShr, *w, a[1], V::c(r))?;
                vec![self.bin(BinOp::Or, *w, x, y)?]
            }
            Intr::Bswap(w) => {
                let e = self.ar.ex(a[0], *w);
                let mut acc: Option<Id> = None;
                for b in 0..w / 8 {
                    let x = self.ar.extract(e, 8 * b, 8);
                    acc = Some(match acc {
                        None => x,
                        Some(h) => self.ar.concat(h, x),
                    });
                }
                vec![self.ar.val(acc.unwrap())]
            }
            Intr::Bitreverse(w) | Intr::Ctlz(w) | Intr::Cttz(w) | Intr::Ctpop(w) => {
                let v = if a[0].e == 0 {
                    a[0].c
                } else {
                    if *w > 64 {
                        return Err(Stop::Unsup("wide bit count".into()));
                    }
                    return self.bitcount(i, *w, a[0]);
                };
                let w = *w;
                let r = match i {
                    Intr::Ctlz(_) => {
                        if v == 0 {
                            w as u64
                        } else {
                            (v.leading_zeros() - (64 - w)) as u64
                        }
                    }
                    Intr::Cttz(_) => {
                        if v == 0 {
                            w as u64
                        } else {
                            v.trailing_zeros() as u64
                        }
                    }
                    Intr::Ctpop(_) => v.count_ones() as u64,
                    _ => v.reverse_bits() >> (64 - w),
                };
                vec![V::c(r)]
            }
            Intr::Unknown(s) => return Err(Stop::Unsup(format!("intrinsic llvm.{} < {}", s, self.trace().join(" < ")))),
        };
        Ok(r)
    }
    fn bitcount(&mut self, i: &Intr, w: u32, a: V) -> R<Vec<V>> {
        let e = a.e;
        let mut r = self.ar.cst(if matches!(i, Intr::Ctpop(_)) { 0 } else { w as u128 }, w);
        match i {
            Intr::Ctpop(_) => {
                for b in 0..w {
                    let x = self.ar.extract(e, b, 1);
                    let x = self.ar.zext(x, w);
                    r = self.ar.bin(BinOp::Add, r, x);
                }
            }
            Intr::Cttz(_) => {
                for b in (0..w).rev() {
                    let x = self.ar.extract(e, b, 1);
                    let k = self.ar.cst(b as u128, w);
                    r = self.ar.ite(x, k, r);
                }
            }
            Intr::Ctlz(_) => {
                for b in 0..w {
                    let x = self.ar.extract(e, b, 1);
                    let k = self.ar.cst((w - 1 - b) as u128, w);
                    r = self.ar.ite(x, k, r);
                }
            }
            _ => return Err(Stop::Unsup("bitreverse".into())),
        }
        Ok(vec![self.ar.val(r)])
    }
}
