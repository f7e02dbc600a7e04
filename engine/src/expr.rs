//! Hash-consed bit-vector expressions with light simplification, and an evaluator.

use crate::ll::{mask, sext, BinOp, Pred};
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Var(u32, u32),
    Const(u128, u32),
    Bin(BinOp, Id, Id),
    Cmp(Pred, Id, Id), // Eq, Ult, Ule, Slt, Sle only
    Ite(Id, Id, Id),
    Zext(Id, u32),
    Sext(Id, u32),
    Extract(Id, u32, u32), // lo, width
    Concat(Id, Id),        // hi, lo
}

/// Runtime value: concrete if `e == 0`.
#[derive(Clone, Copy, Debug)]
pub struct V {
    pub c: u64,
    pub e: Id,
}
impl V {
    #[inline(always)]
    pub fn c(c: u64) -> V {
        V { c, e: 0 }
    }
    #[inline(always)]
    pub fn e(e: Id) -> V {
        V { c: 0, e }
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub w: Vec<u32>,
    tab: HashMap<Node, Id>,
    memo: Vec<(u32, u128)>,
    ver: u32,
    /// 0: no variable; i + 1: only variable i, of at most 8 bits; MANY: anything else.
    sup: Vec<u32>,
    tables: HashMap<Id, [u64; 4]>,
}

const MANY: u32 = u32::MAX;

#[inline(always)]
pub fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: vec![Node::Const(0, 1)], w: vec![1], tab: HashMap::new(), memo: vec![(0, 0)], ver: 1, sup: vec![0], tables: HashMap::new() }
    }
    fn add(&mut self, n: Node, w: u32) -> Id {
        if let Some(&i) = self.tab.get(&n) {
            return i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.w.push(w);
        self.memo.push((0, 0));
        let u = |a: u32, b: u32| {
            if a == 0 || a == b {
                b
            } else if b == 0 {
                a
            } else {
                MANY
            }
        };
        let sp = |x: Id| self.sup[x as usize];
        let su = match n {
            Node::Var(i, w) => {
                if w <= 8 {
                    i + 1
                } else {
                    MANY
                }
            }
            Node::Const(..) => 0,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => u(sp(a), sp(b)),
            Node::Ite(a, b, c) => u(u(sp(a), sp(b)), sp(c)),
            Node::Zext(a, _) | Node::Sext(a, _) | Node::Extract(a, _, _) => sp(a),
        };
        self.sup.push(su);
        self.tab.insert(n, i);
        i
    }
    /// If the truth value `e` depends on one small variable only: that variable, and the values for which it is true.
    pub fn table(&mut self, e: Id) -> Option<(u32, [u64; 4])> {
        let s = self.sup[e as usize];
        if s == 0 || s == MANY {
            return None;
        }
        let v = s - 1;
        if let Some(t) = self.tables.get(&e) {
            return Some((v, *t));
        }
        let mut t = [0u64; 4];
        let mut wit = vec![0u64; v as usize + 1];
        for x in 0..256u64 {
            self.bump();
            wit[v as usize] = x;
            if self.eval(e, &wit) & 1 == 1 {
                t[(x / 64) as usize] |= 1 << (x % 64);
            }
        }
        self.bump();
        self.tables.insert(e, t);
        Some((v, t))
    }
    pub fn var(&mut self, idx: u32, w: u32) -> Id {
        self.add(Node::Var(idx, w), w)
    }
    pub fn cst(&mut self, v: u128, w: u32) -> Id {
        self.add(Node::Const(v & mask(w), w), w)
    }
    pub fn konst(&self, e: Id) -> Option<u128> {
        match self.nodes[e as usize] {
            Node::Const(c, _) => Some(c),
            _ => None,
        }
    }
    /// To an expression.
    pub fn ex(&mut self, v: V, w: u32) -> Id {
        if v.e != 0 {
            v.e
        } else {
            self.cst(v.c as u128, w)
        }
    }
    /// From an expression: concrete where constant and narrow.
    pub fn val(&self, e: Id) -> V {
        if self.w[e as usize] <= 64 {
            if let Node::Const(c, _) = self.nodes[e as usize] {
                return V::c(c as u64);
            }
        }
        V::e(e)
    }
    pub fn bin(&mut self, op: BinOp, a: Id, b: Id) -> Id {
        let w = self.w[a as usize];
        debug_assert_eq!(w, self.w[b as usize]);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            if !(y == 0 && matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem)) {
                let r = fold(op, x, y, w);
                return self.cst(r, w);
            }
        }
        use BinOp::*;
        let (mut a, mut b) = (a, b);
        if matches!(op, Add | Mul | And | Or | Xor) && self.konst(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        let kb = self.konst(b);
        match (op, kb) {
            (Add | Sub | Or | Xor | Shl | LShr | AShr, Some(0)) => return a,
            (Mul, Some(1)) | (UDiv, Some(1)) => return a,
            (Mul | And, Some(0)) => return self.cst(0, w),
            (And, Some(k)) if k == mask(w) => return a,
            (Or, Some(k)) if k == mask(w) => return b,
            (Sub, Some(k)) => {
                let nk = self.cst(k.wrapping_neg(), w);
                return self.bin(Add, a, nk);
            }
            (Add, Some(k)) => {
                if let Node::Bin(Add, x, y) = self.nodes[a as usize] {
                    if let Some(k2) = self.konst(y) {
                        let nk = self.cst(k.wrapping_add(k2), w);
                        return self.bin(Add, x, nk);
                    }
                }
            }
            (Xor, Some(k)) => {
                if let Node::Bin(Xor, x, y) = self.nodes[a as usize] {
                    if let Some(k2) = self.konst(y) {
                        let nk = self.cst(k ^ k2, w);
                        return self.bin(Xor, x, nk);
                    }
                }
            }
            (And, Some(k)) => {
                // mask of a zero-extension
                if let Node::Zext(x, _) = self.nodes[a as usize] {
                    let xw = self.w[x as usize];
                    if k & mask(xw) == mask(xw) {
                        return a;
                    }
                    let kk = self.cst(k, xw);
                    let r = self.bin(And, x, kk);
                    return self.zext(r, w);
                }
                if k.wrapping_add(1).is_power_of_two() {
                    let lw = k.trailing_ones();
                    let x = self.extract(a, 0, lw);
                    return self.zext(x, w);
                }
            }
            (Shl, Some(k)) if k < w as u128 => {
                let lo = self.cst(0, k as u32);
                let hi = self.extract(a, 0, w - k as u32);
                return self.concat(hi, lo);
            }
            (LShr, Some(k)) if k < w as u128 => {
                let hi = self.extract(a, k as u32, w - k as u32);
                return self.zext(hi, w);
            }
            _ => {}
        }
        if a == b {
            match op {
                Sub | Xor => return self.cst(0, w),
                And | Or => return a,
                _ => {}
            }
        }
        // or/add of disjoint concat pieces: zext(x) | (y << k)
        if matches!(op, Or | Add | Xor) && kb.is_none() {
            if let Some(r) = self.disjoint_or(a, b, w) {
                return r;
            }
            if let Some(r) = self.disjoint_or(b, a, w) {
                return r;
            }
        }
        self.add(Node::Bin(op, a, b), w)
    }
    /// a = Concat(hi, 0_k), b = Zext(x) with width(x) <= k.
    fn disjoint_or(&mut self, a: Id, b: Id, w: u32) -> Option<Id> {
        if let Node::Concat(hi, lo) = self.nodes[a as usize] {
            if self.konst(lo) == Some(0) {
                let k = self.w[lo as usize];
                if let Node::Zext(x, _) = self.nodes[b as usize] {
                    let xw = self.w[x as usize];
                    if xw <= k {
                        let l = self.zext(x, k);
                        let _ = w;
                        return Some(self.concat(hi, l));
                    }
                }
            }
        }
        None
    }
    pub fn not1(&mut self, a: Id) -> Id {
        let one = self.cst(1, 1);
        self.bin(BinOp::Xor, a, one)
    }
    pub fn cmp(&mut self, p: Pred, a: Id, b: Id) -> Id {
        use Pred::*;
        match p {
            Ne => {
                let e = self.cmp(Eq, a, b);
                return self.not1(e);
            }
            Ugt => return self.cmp(Ult, b, a),
            Uge => return self.cmp(Ule, b, a),
            Sgt => return self.cmp(Slt, b, a),
            Sge => return self.cmp(Sle, b, a),
            _ => {}
        }
        let w = self.w[a as usize];
        debug_assert_eq!(w, self.w[b as usize]);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            let r = match p {
                Eq => x == y,
                Ult => x < y,
                Ule => x <= y,
                Slt => sext(x, w) < sext(y, w),
                _ => sext(x, w) <= sext(y, w),
            };
            return self.cst(r as u128, 1);
        }
        if a == b {
            return self.cst(matches!(p, Eq | Ule | Sle) as u128, 1);
        }
        if p == Eq {
            let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
            if let Some(k) = self.konst(b) {
                if w == 1 {
                    return if k == 1 { a } else { self.not1(a) };
                }
                match self.nodes[a as usize] {
                    Node::Zext(x, _) => {
                        let xw = self.w[x as usize];
                        if k > mask(xw) {
                            return self.cst(0, 1);
                        }
                        let kk = self.cst(k, xw);
                        return self.cmp(Eq, x, kk);
                    }
                    Node::Concat(h, l) => {
                        let lw = self.w[l as usize];
                        let hw = self.w[h as usize];
                        let kh = self.cst(k >> lw, hw);
                        let kl = self.cst(k, lw);
                        let x = self.cmp(Eq, h, kh);
                        let y = self.cmp(Eq, l, kl);
                        return self.bin(BinOp::And, x, y);
                    }
                    Node::Ite(c, t, e) => {
                        if self.konst(t).is_some() && self.konst(e).is_some() {
                            let x = self.cmp(Eq, t, b);
                            let y = self.cmp(Eq, e, b);
                            return self.ite(c, x, y);
                        }
                    }
                    Node::Bin(BinOp::Add, x, y) => {
                        if let Some(k2) = self.konst(y) {
                            let kk = self.cst(k.wrapping_sub(k2), w);
                            return self.cmp(Eq, x, kk);
                        }
                    }
                    Node::Bin(BinOp::Xor, x, y) => {
                        if let Some(k2) = self.konst(y) {
                            let kk = self.cst(k ^ k2, w);
                            return self.cmp(Eq, x, kk);
                        }
                    }
                    Node::Bin(BinOp::Or, x, y) if k == 0 => {
                        let z = self.cst(0, w);
                        let p1 = self.cmp(Eq, x, z);
                        let p2 = self.cmp(Eq, y, z);
                        return self.bin(BinOp::And, p1, p2);
                    }
                    _ => {}
                }
                return self.add(Node::Cmp(Eq, a, b), 1);
            }
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            if let (Node::Zext(x, _), Node::Zext(y, _)) = (self.nodes[a as usize], self.nodes[b as usize]) {
                if self.w[x as usize] == self.w[y as usize] {
                    return self.cmp(Eq, x, y);
                }
            }
            return self.add(Node::Cmp(Eq, a, b), 1);
        }
        if p == Ult || p == Ule {
            // comparisons with a zero-extension
            if let (Node::Zext(x, _), Some(k)) = (self.nodes[a as usize], self.konst(b)) {
                let xw = self.w[x as usize];
                if k > mask(xw) {
                    return self.cst(1, 1);
                }
                let kk = self.cst(k, xw);
                return self.cmp(p, x, kk);
            }
            if let (Some(k), Node::Zext(y, _)) = (self.konst(a), self.nodes[b as usize]) {
                let yw = self.w[y as usize];
                if k > mask(yw) {
                    return self.cst(0, 1);
                }
                let kk = self.cst(k, yw);
                return self.cmp(p, kk, y);
            }
            if p == Ult && self.konst(b) == Some(0) {
                return self.cst(0, 1);
            }
            if p == Ule && self.konst(a) == Some(0) {
                return self.cst(1, 1);
            }
        }
        self.add(Node::Cmp(p, a, b), 1)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.konst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w[a as usize];
        if w == 1 {
            if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
                return if x == 1 && y == 0 { c } else { self.not1(c) };
            }
        }
        self.add(Node::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w[a as usize];
        if aw == w {
            return a;
        }
        debug_assert!(w > aw);
        match self.nodes[a as usize] {
            Node::Const(c, _) => self.cst(c, w),
            Node::Zext(x, _) => self.zext(x, w),
            _ => self.add(Node::Zext(a, w), w),
        }
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w[a as usize];
        if aw == w {
            return a;
        }
        match self.nodes[a as usize] {
            Node::Const(c, _) => self.cst(sext(c, aw) as u128, w),
            Node::Zext(x, _) => self.zext(x, w),
            Node::Sext(x, _) => self.sext(x, w),
            _ => self.add(Node::Sext(a, w), w),
        }
    }
    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let aw = self.w[a as usize];
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        match self.nodes[a as usize] {
            Node::Const(c, _) => self.cst(c >> lo, w),
            Node::Extract(x, l2, _) => self.extract(x, l2 + lo, w),
            Node::Concat(h, l) => {
                let lw = self.w[l as usize];
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let hp = self.extract(h, 0, lo + w - lw);
                    let lp = self.extract(l, lo, lw - lo);
                    self.concat(hp, lp)
                }
            }
            Node::Zext(x, _) => {
                let xw = self.w[x as usize];
                if lo >= xw {
                    self.cst(0, w)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let p = self.extract(x, lo, xw - lo);
                    self.zext(p, w)
                }
            }
            Node::Sext(x, _) if lo + w <= self.w[x as usize] => self.extract(x, lo, w),
            Node::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(op, p, q)
            }
            Node::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                self.bin(op, p, q)
            }
            Node::Ite(c, x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.ite(c, p, q)
            }
            _ => self.add(Node::Extract(a, lo, w), w),
        }
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (hw, lw) = (self.w[h as usize], self.w[l as usize]);
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.konst(h), self.konst(l)) {
            return self.cst((x << lw) | y, w);
        }
        if self.konst(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (Node::Extract(x, lo1, _), Node::Extract(y, lo2, _)) = (self.nodes[h as usize], self.nodes[l as usize]) {
            if x == y && lo1 == lo2 + lw {
                return self.extract(x, lo2, w);
            }
        }
        if let (Node::Extract(x, lo1, _), _) = (self.nodes[h as usize], 0) {
            if x == l && lo1 == lw {
                return self.extract(x, 0, w);
            }
            // low part is an un-extracted narrower whole: handled above
        }
        // zero upper piece of a zext source: concat(extract(zext..)) simplified already
        self.add(Node::Concat(h, l), w)
    }
    pub fn eval(&mut self, e: Id, wit: &[u64]) -> u128 {
        if self.memo[e as usize].0 == self.ver {
            return self.memo[e as usize].1;
        }
        let w = self.w[e as usize];
        let r = match self.nodes[e as usize] {
            Node::Var(i, _) => wit.get(i as usize).copied().unwrap_or(0) as u128,
            Node::Const(c, _) => c,
            Node::Bin(op, a, b) => {
                let x = self.eval(a, wit);
                let y = self.eval(b, wit);
                if y == 0 && matches!(op, BinOp::UDiv | BinOp::SDiv) {
                    mask(w)
                } else if y == 0 && matches!(op, BinOp::URem | BinOp::SRem) {
                    x
                } else {
                    fold(op, x, y, w)
                }
            }
            Node::Cmp(p, a, b) => {
                let x = self.eval(a, wit);
                let y = self.eval(b, wit);
                let aw = self.w[a as usize];
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Slt => sext(x, aw) < sext(y, aw),
                    _ => sext(x, aw) <= sext(y, aw),
                };
                r as u128
            }
            Node::Ite(c, a, b) => {
                if self.eval(c, wit) == 1 {
                    self.eval(a, wit)
                } else {
                    self.eval(b, wit)
                }
            }
            Node::Zext(a, _) => self.eval(a, wit),
            Node::Sext(a, _) => {
                let aw = self.w[a as usize];
                sext(self.eval(a, wit), aw) as u128
            }
            Node::Extract(a, lo, _) => self.eval(a, wit) >> lo,
            Node::Concat(h, l) => {
                let lw = self.w[l as usize];
                (self.eval(h, wit) << lw) | self.eval(l, wit)
            }
        } & mask(w);
        self.memo[e as usize] = (self.ver, r);
        r
    }
    pub fn show(&self, e: Id, d: u32) -> String {
        if d == 0 {
            return "..".into();
        }
        let f = |x: Id| self.show(x, d - 1);
        match self.nodes[e as usize] {
            Node::Var(i, w) => format!("v{}:{}", i, w),
            Node::Const(c, _) => format!("{:#x}", c),
            Node::Bin(o, a, b) => format!("({:?} {} {})", o, f(a), f(b)),
            Node::Cmp(p, a, b) => format!("({:?} {} {})", p, f(a), f(b)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", f(c), f(a), f(b)),
            Node::Zext(a, w) => format!("(z{} {})", w, f(a)),
            Node::Sext(a, w) => format!("(s{} {})", w, f(a)),
            Node::Extract(a, lo, w) => format!("{}[{}+{}]", f(a), lo, w),
            Node::Concat(a, b) => format!("{}.{}", f(a), f(b)),
        }
    }
    pub fn bump(&mut self) {
        self.ver += 1;
    }
}

pub fn fold(op: BinOp, x: u128, y: u128, w: u32) -> u128 {
    use BinOp::*;
    let r = match op {
        Add => x.wrapping_add(y),
        Sub => x.wrapping_sub(y),
        Mul => x.wrapping_mul(y),
        UDiv => x / y,
        URem => x % y,
        SDiv => sext(x, w).wrapping_div(sext(y, w)) as u128,
        SRem => sext(x, w).wrapping_rem(sext(y, w)) as u128,
        Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        AShr => (sext(x, w) >> y.min(w as u128 - 1)) as u128,
        And => x & y,
        Or => x | y,
        Xor => x ^ y,
    };
    r & mask(w)
}
