//! Hash-consed bit-vector expressions over symbolic input bytes.

use crate::ir::{mask, sext64};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Nil,
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    Zext,
    Sext,
    /// value of table `k` at the 8-bit expression `a`
    Tab,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u64,
}

pub type Id = u32;

fn mask128(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub support: Vec<u128>,
    map: HashMap<Node, Id, BuildFx>,
    tabs: HashMap<Id, Rc<[u64; 256]>, BuildFx>,
    pub tables: Vec<Rc<[u64; 256]>>,
    table_ids: HashMap<Vec<u64>, u32>,
    ev_epoch: Vec<u32>,
    ev_val: Vec<u128>,
    epoch: u32,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

impl Exprs {
    pub fn new() -> Self {
        let nil = Node { op: Op::Nil, w: 0, a: 0, b: 0, c: 0, k: 0 };
        Exprs {
            nodes: vec![nil],
            support: vec![0],
            map: HashMap::default(),
            tabs: HashMap::default(),
            tables: vec![],
            table_ids: HashMap::new(),
            ev_epoch: vec![0],
            ev_val: vec![0],
            epoch: 0,
        }
    }
    #[inline]
    pub fn n(&self, e: Id) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: Id) -> u32 {
        self.nodes[e as usize].w as u32
    }
    fn intern(&mut self, n: Node) -> Id {
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let mut s = match n.op {
            Op::Var => 1u128 << n.k,
            Op::Const => 0,
            _ => self.support[n.a as usize] | self.support[n.b as usize] | self.support[n.c as usize],
        };
        if n.op == Op::Const {
            s = 0;
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.support.push(s);
        self.ev_epoch.push(0);
        self.ev_val.push(0);
        self.map.insert(n, id);
        id
    }
    pub fn cst(&mut self, w: u32, k: u64) -> Id {
        self.intern(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn cst128(&mut self, w: u32, v: u128) -> Id {
        let v = v & mask128(w);
        let hi = (v >> 64) as u64;
        self.intern(Node { op: Op::Const, w: w as u8, a: hi as u32, b: (hi >> 32) as u32, c: 0, k: v as u64 })
    }
    pub fn cval(&self, e: Id) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k as u128 | ((n.a as u128 | ((n.b as u128) << 32)) << 64))
        } else {
            None
        }
    }
    pub fn var(&mut self, i: u32) -> Id {
        self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u64 })
    }
    pub fn single(&self, e: Id) -> Option<u32> {
        let s = self.support[e as usize];
        if s != 0 && s & (s - 1) == 0 {
            Some(s.trailing_zeros())
        } else {
            None
        }
    }

    fn apply(&self, n: &Node, a: u128, b: u128, c: u128) -> u128 {
        let w = n.w as u32;
        let wa = self.w(n.a);
        let m = mask128(w);
        match n.op {
            Op::Add => a.wrapping_add(b) & m,
            Op::Sub => a.wrapping_sub(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    (if x < 0 { 1 } else { m }) & m
                } else {
                    (x.wrapping_div(y) as u128) & m
                }
            }
            Op::SRem => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    a
                } else {
                    (x.wrapping_rem(y) as u128) & m
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = if b >= w as u128 { w - 1 } else { b as u32 };
                ((sext128(a, w) >> s) as u128) & m
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sext128(a, wa) < sext128(b, wa)) as u128,
            Op::Sle => (sext128(a, wa) <= sext128(b, wa)) as u128,
            Op::Ite => {
                if a & 1 == 1 {
                    b
                } else {
                    c
                }
            }
            Op::Concat => (a << self.w(n.b)) | b,
            Op::Extract => (a >> n.k) & m,
            Op::Zext => a,
            Op::Sext => (sext128(a, wa) as u128) & m,
            Op::Tab => self.tables[n.k as usize][a as usize] as u128,
            Op::Nil | Op::Const | Op::Var => unreachable!(),
        }
    }

    /// evaluation under a full assignment
    pub fn eval(&mut self, e: Id, model: &[u8]) -> u128 {
        self.epoch += 1;
        self.ev(e, model)
    }
    fn ev(&mut self, e: Id, model: &[u8]) -> u128 {
        let i = e as usize;
        if self.ev_epoch[i] == self.epoch {
            return self.ev_val[i];
        }
        let n = self.nodes[i];
        let v = match n.op {
            Op::Const => self.cval(e).unwrap(),
            Op::Var => model[n.k as usize] as u128,
            Op::Nil => 0,
            Op::Ite => {
                if self.ev(n.a, model) & 1 == 1 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            _ => {
                let a = self.ev(n.a, model);
                let b = if n.b != 0 { self.ev(n.b, model) } else { 0 };
                self.apply(&n, a, b, 0)
            }
        };
        self.ev_epoch[i] = self.epoch;
        self.ev_val[i] = v;
        v
    }

    /// A superset of the values of an expression if it is visibly small, like
    /// that of a choice between constants.
    pub fn few_values(&mut self, e: Id, cap: usize, budget: &mut u32) -> Option<Vec<u128>> {
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        if let Some(v) = self.cval(e) {
            return Some(vec![v]);
        }
        let n = self.nodes[e as usize];
        let mut out = vec![];
        match n.op {
            Op::Nil | Op::Var | Op::Tab => return None,
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => return Some(vec![0, 1]),
            Op::Ite => {
                out = self.few_values(n.b, cap, budget)?;
                out.extend(self.few_values(n.c, cap, budget)?);
            }
            _ => {
                let a = self.few_values(n.a, cap, budget)?;
                let b = if n.b != 0 { self.few_values(n.b, cap, budget)? } else { vec![0] };
                for x in &a {
                    for y in &b {
                        out.push(self.apply(&n, *x, *y, 0));
                    }
                }
            }
        }
        out.sort_unstable();
        out.dedup();
        (out.len() <= cap).then_some(out)
    }

    /// values of a single-byte expression (width <= 64) for all byte values
    pub fn tab(&mut self, e: Id) -> Rc<[u64; 256]> {
        if let Some(t) = self.tabs.get(&e) {
            return t.clone();
        }
        let n = self.n(e);
        let mut out = [0u64; 256];
        match n.op {
            Op::Const => out = [n.k; 256],
            Op::Var => {
                for (i, o) in out.iter_mut().enumerate() {
                    *o = i as u64
                }
            }
            _ if n.w <= 64 && self.w(n.a) <= 64 && (n.b == 0 || self.w(n.b) <= 64) => {
                let ta = self.tab(n.a);
                let tb = if n.b != 0 { Some(self.tab(n.b)) } else { None };
                let tc = if n.c != 0 { Some(self.tab(n.c)) } else { None };
                for i in 0..256 {
                    let b = tb.as_ref().map(|t| t[i]).unwrap_or(0);
                    let c = tc.as_ref().map(|t| t[i]).unwrap_or(0);
                    out[i] = self.apply(&n, ta[i] as u128, b as u128, c as u128) as u64;
                }
            }
            _ => {
                let v = self.support[e as usize].trailing_zeros();
                let mut m = vec![0u8; v.min(127) as usize + 1];
                for i in 0..256 {
                    if (v as usize) < m.len() {
                        m[v as usize] = i as u8;
                    }
                    out[i] = self.eval(e, &m) as u64;
                }
            }
        }
        let r = Rc::new(out);
        self.tabs.insert(e, r.clone());
        r
    }

    fn mk(&mut self, op: Op, w: u32, a: Id, b: Id, c: Id, k: u64) -> Id {
        let n = Node { op, w: w as u8, a, b, c, k };
        let ca = self.cval(a);
        if let Some(ca) = ca {
            let cb = if b == 0 { Some(0) } else { self.cval(b) };
            let cc = if c == 0 { Some(0) } else { self.cval(c) };
            if let (Some(cb), Some(cc)) = (cb, cc) {
                let v = self.apply(&n, ca, cb, cc);
                return self.cst128(w, v);
            }
        }
        self.intern(n)
    }

    fn is_const_ite(&self, e: Id) -> Option<(Id, Id, Id)> {
        let n = self.n(e);
        if n.op == Op::Ite && self.nodes[n.b as usize].op == Op::Const && self.nodes[n.c as usize].op == Op::Const {
            Some((n.a, n.b, n.c))
        } else {
            None
        }
    }

    pub fn not(&mut self, a: Id) -> Id {
        debug_assert!(self.w(a) == 1);
        let one = self.cst(1, 1);
        self.bin(Op::Xor, a, one)
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::Or, a, b)
    }

    fn is_not(&self, e: Id) -> Option<Id> {
        let n = self.n(e);
        if n.op == Op::Xor && n.w == 1 && self.cval(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }

    pub fn bin(&mut self, op: Op, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if ca.is_some() && cb.is_some() {
            return self.mk(op, w, a, b, 0, 0);
        }
        // distribute over constant ite
        if cb.is_some() {
            if let Some((c, x, y)) = self.is_const_ite(a) {
                let x = self.mk(op, w, x, b, 0, 0);
                let y = self.mk(op, w, y, b, 0, 0);
                return self.ite(c, x, y);
            }
        }
        if ca.is_some() {
            if let Some((c, x, y)) = self.is_const_ite(b) {
                let x = self.mk(op, w, a, x, 0, 0);
                let y = self.mk(op, w, a, y, 0, 0);
                return self.ite(c, x, y);
            }
        }
        let m = mask128(w);
        match op {
            Op::Add => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if let Some(k2) = self.cval(n.b) {
                            let s = self.cst128(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, n.a, s);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst128(w, 0);
                }
                if let Some(k) = cb {
                    let s = self.cst128(w, k.wrapping_neg() & m);
                    return self.bin(Op::Add, a, s);
                }
                // (x + c) - x
                let n = self.n(a);
                if n.op == Op::Add {
                    if n.a == b {
                        return n.b;
                    }
                    if n.b == b {
                        return n.a;
                    }
                }
            }
            Op::Mul => {
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.cst128(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.cst128(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.cst128(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    let n = self.n(a);
                    if n.op == Op::Concat {
                        let wl = self.w(n.b);
                        let kl = self.cst128(wl, k);
                        let kh = self.cst128(w - wl, k >> wl);
                        let l = self.bin(Op::And, n.b, kl);
                        let h = self.bin(Op::And, n.a, kh);
                        return self.concat(h, l);
                    }
                    if n.op == Op::Zext {
                        let wi = self.w(n.a);
                        let kl = self.cst128(wi, k);
                        let l = self.bin(Op::And, n.a, kl);
                        return self.zext(l, w);
                    }
                    if (k + 1).is_power_of_two() {
                        let kk = k.trailing_ones();
                        let l = self.extract(a, 0, kk);
                        return self.zext(l, w);
                    }
                    if n.op == Op::And {
                        if let Some(k2) = self.cval(n.b) {
                            let s = self.cst128(w, k & k2);
                            return self.bin(Op::And, n.a, s);
                        }
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.cst(1, 0);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 && (self.is_not(a) == Some(b) || self.is_not(b) == Some(a)) {
                    return self.cst(1, 1);
                }
                if w > 1 {
                    if let Some(r) = self.or_pieces(a, b) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst128(w, 0);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let n = self.n(a);
                    if n.op == Op::Xor {
                        if let Some(k2) = self.cval(n.b) {
                            let s = self.cst128(w, k ^ k2);
                            return self.bin(Op::Xor, n.a, s);
                        }
                    }
                    if w == 1 {
                        // not
                        match n.op {
                            Op::Ult => return self.cmp(Op::Ule, n.b, n.a),
                            Op::Ule => return self.cmp(Op::Ult, n.b, n.a),
                            Op::Slt => return self.cmp(Op::Sle, n.b, n.a),
                            Op::Sle => return self.cmp(Op::Slt, n.b, n.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst128(w, 0);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, 0, w - k);
                    let lo = self.cst128(k, 0);
                    return self.concat(hi, lo);
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst128(w, 0);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, k, w - k);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k as u32).min(w - 1);
                    let hi = self.extract(a, k, w - k);
                    return self.sext(hi, w);
                }
            }
            _ => {}
        }
        let r = self.mk(op, w, a, b, 0, 0);
        if w == 1 {
            self.fold_single(r)
        } else {
            r
        }
    }

    fn pieces(&self, e: Id, base: u32, out: &mut Vec<(u32, u32, Id)>) {
        let n = self.n(e);
        match n.op {
            Op::Concat => {
                self.pieces(n.b, base, out);
                self.pieces(n.a, base + self.w(n.b), out);
            }
            Op::Zext => {
                self.pieces(n.a, base, out);
                out.push((base + self.w(n.a), n.w as u32 - self.w(n.a), 0));
            }
            Op::Const if self.cval(e) == Some(0) => out.push((base, n.w as u32, 0)),
            _ => out.push((base, n.w as u32, e)),
        }
    }
    /// Or of two values whose non-zero pieces do not overlap becomes a concat.
    fn or_pieces(&mut self, a: Id, b: Id) -> Option<Id> {
        let w = self.w(a);
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, 0, &mut pa);
        self.pieces(b, 0, &mut pb);
        if !pa.iter().any(|x| x.2 == 0) || !pb.iter().any(|x| x.2 == 0) {
            return None;
        }
        let mut nz: Vec<(u32, u32, Id)> = pa.iter().chain(pb.iter()).filter(|x| x.2 != 0).cloned().collect();
        nz.sort();
        let mut pos = 0;
        for x in &nz {
            if x.0 < pos {
                return None;
            }
            pos = x.0 + x.1;
        }
        let mut cur: Option<Id> = None;
        let mut pos = 0;
        for x in &nz {
            if x.0 > pos {
                let z = self.cst128(x.0 - pos, 0);
                cur = Some(match cur {
                    None => z,
                    Some(c) => self.concat(z, c),
                });
            }
            cur = Some(match cur {
                None => x.2,
                Some(c) => self.concat(x.2, c),
            });
            pos = x.0 + x.1;
        }
        let r = cur?;
        Some(self.zext(r, w))
    }

    fn fold_single(&mut self, e: Id) -> Id {
        if self.w(e) == 1 && self.single(e).is_some() {
            let t = self.tab(e);
            if t.iter().all(|x| *x == t[0]) {
                return self.cst(1, t[0]);
            }
        }
        e
    }

    pub fn cmp(&mut self, op: Op, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if op == Op::Eq && (self.cval(a).is_some() || (self.cval(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if ca.is_some() && cb.is_some() {
            return self.mk(op, 1, a, b, 0, 0);
        }
        if a == b {
            return self.cst(1, matches!(op, Op::Eq | Op::Ule | Op::Sle) as u64);
        }
        if cb.is_some() {
            if let Some((c, x, y)) = self.is_const_ite(a) {
                let x = self.mk(op, 1, x, b, 0, 0);
                let y = self.mk(op, 1, y, b, 0, 0);
                return self.ite(c, x, y);
            }
        }
        if ca.is_some() {
            if let Some((c, x, y)) = self.is_const_ite(b) {
                let x = self.mk(op, 1, a, x, 0, 0);
                let y = self.mk(op, 1, a, y, 0, 0);
                return self.ite(c, x, y);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if op == Op::Eq {
            if let Some(k) = cb {
                if w == 1 {
                    return if k == 1 { a } else { self.not(a) };
                }
                match na.op {
                    Op::Zext => {
                        let wi = self.w(na.a);
                        if k > mask128(wi) {
                            return self.cst(1, 0);
                        }
                        let c = self.cst128(wi, k);
                        return self.cmp(Op::Eq, na.a, c);
                    }
                    Op::Sext => {
                        let wi = self.w(na.a);
                        let t = k & mask128(wi);
                        if (sext128(t, wi) as u128) & mask128(w) != k {
                            return self.cst(1, 0);
                        }
                        let c = self.cst128(wi, t);
                        return self.cmp(Op::Eq, na.a, c);
                    }
                    Op::Concat => {
                        let wl = self.w(na.b);
                        let cl = self.cst128(wl, k);
                        let ch = self.cst128(w - wl, k >> wl);
                        let x = self.cmp(Op::Eq, na.b, cl);
                        let y = self.cmp(Op::Eq, na.a, ch);
                        return self.and(x, y);
                    }
                    Op::Add => {
                        if let Some(k2) = self.cval(na.b) {
                            let c = self.cst128(w, k.wrapping_sub(k2));
                            return self.cmp(Op::Eq, na.a, c);
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = self.cval(na.b) {
                            let c = self.cst128(w, k ^ k2);
                            return self.cmp(Op::Eq, na.a, c);
                        }
                        if k == 0 {
                            return self.cmp(Op::Eq, na.a, na.b);
                        }
                    }
                    Op::Or if k == 0 => {
                        let x = self.cmp(Op::Eq, na.a, b);
                        let y = self.cmp(Op::Eq, na.b, b);
                        return self.and(x, y);
                    }
                    Op::Ite => {
                        // ite(c, const, y) == k
                        if let Some(k2) = self.cval(na.b) {
                            let y = self.cmp(Op::Eq, na.c, b);
                            return if k2 == k { self.or(na.a, y) } else {
                                let nc = self.not(na.a);
                                self.and(nc, y)
                            };
                        }
                        if let Some(k2) = self.cval(na.c) {
                            let x = self.cmp(Op::Eq, na.b, b);
                            return if k2 == k {
                                let nc = self.not(na.a);
                                self.or(nc, x)
                            } else {
                                self.and(na.a, x)
                            };
                        }
                    }
                    _ => {}
                }
            } else {
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let x = self.cmp(Op::Eq, na.b, nb.b);
                    let y = self.cmp(Op::Eq, na.a, nb.a);
                    return self.and(x, y);
                }
                if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                    return self.cmp(Op::Eq, na.a, nb.a);
                }
                if w == 1 {
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
            }
        }
        if op == Op::Ult || op == Op::Ule {
            if let Some(k) = cb {
                if op == Op::Ult && k == 0 {
                    return self.cst(1, 0);
                }
                if op == Op::Ule && k == mask128(w) {
                    return self.cst(1, 1);
                }
                if op == Op::Ult && k == 1 {
                    let z = self.cst128(w, 0);
                    return self.cmp(Op::Eq, a, z);
                }
                if na.op == Op::Zext {
                    let wi = self.w(na.a);
                    if k > mask128(wi) {
                        return self.cst(1, 1);
                    }
                    let c = self.cst128(wi, k);
                    return self.cmp(op, na.a, c);
                }
            }
            if let Some(k) = ca {
                if op == Op::Ule && k == 0 {
                    return self.cst(1, 1);
                }
                if op == Op::Ult && k == 0 {
                    let z = self.cst128(w, 0);
                    let e = self.cmp(Op::Eq, b, z);
                    return self.not(e);
                }
                if nb.op == Op::Zext {
                    let wi = self.w(nb.a);
                    if k > mask128(wi) {
                        return self.cst(1, 0);
                    }
                    let c = self.cst128(wi, k);
                    return self.cmp(op, c, nb.a);
                }
            }
            if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                return self.cmp(op, na.a, nb.a);
            }
        }
        if (op == Op::Slt || op == Op::Sle) && na.op == Op::Zext {
            // zero-extended values are non-negative
            if let Some(k) = cb {
                if sext128(k, w) < 0 {
                    return self.cst(1, 0);
                }
                return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
            }
        }
        if (op == Op::Slt || op == Op::Sle) && nb.op == Op::Zext {
            if let Some(k) = ca {
                if sext128(k, w) < 0 {
                    return self.cst(1, 1);
                }
                return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
            }
        }
        let r = self.mk(op, 1, a, b, 0, 0);
        self.fold_single(r)
    }

    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.cval(c) {
            return if k & 1 == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(x) = self.is_not(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            let (ca, cb) = (self.cval(a), self.cval(b));
            match (ca, cb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // zext on both sides moves out
        let r = self.mk(Op::Ite, w, c, a, b, 0);
        if w == 1 {
            self.fold_single(r)
        } else {
            r
        }
    }

    pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
        let (wh, wl) = (self.w(hi), self.w(lo));
        if self.cval(hi) == Some(0) {
            return self.zext(lo, wh + wl);
        }
        let (nh, nl) = (self.n(hi), self.n(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + wl as u64 {
            return self.extract(nh.a, nl.k as u32, wh + wl);
        }
        if nh.op == Op::Extract && nl.op == Op::Concat {
            // keep right-nested form: concat(h, concat(m, l)) with h, m adjacent
            let nm = self.n(nl.a);
            if nm.op == Op::Extract && nm.a == nh.a && nh.k == nm.k + nm.w as u64 {
                let x = self.extract(nh.a, nm.k as u32, wh + nm.w as u32);
                return self.concat(x, nl.b);
            }
        }
        // hi extract directly above the low part that is the full low value
        if nh.op == Op::Extract && nh.a != 0 && nh.k == wl as u64 {
            let low = self.extract(nh.a, 0, wl);
            if low == lo {
                return self.extract(nh.a, 0, wl + wh);
            }
        }
        if nl.op == Op::Const && nh.op == Op::Concat {
            let nhl = self.n(nh.b);
            if nhl.op == Op::Const {
                let l = self.mk(Op::Concat, self.w(nh.b) + wl, nh.b, lo, 0, 0);
                return self.concat(nh.a, l);
            }
        }
        self.mk(Op::Concat, wh + wl, hi, lo, 0, 0)
    }

    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa, "extract {}+{} of {}", lo, w, wa);
        if lo == 0 && w == wa {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.cst128(w, v >> lo);
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::Zext => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.cst128(w, 0);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let l = self.extract(n.a, lo, wi - lo);
                return self.zext(l, w);
            }
            Op::Sext => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        let r = self.mk(Op::Extract, w, a, 0, 0, lo as u64);
        if w == 1 {
            self.fold_single(r)
        } else {
            r
        }
    }

    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.cst128(w, v);
        }
        let n = self.n(a);
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        if let Some((c, x, y)) = self.is_const_ite(a) {
            let x = self.zext(x, w);
            let y = self.zext(y, w);
            return self.ite(c, x, y);
        }
        self.mk(Op::Zext, w, a, 0, 0, 0)
    }

    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if self.cval(a).is_some() {
            return self.mk(Op::Sext, w, a, 0, 0, 0);
        }
        let n = self.n(a);
        if n.op == Op::Zext && n.w as u32 > self.w(n.a) {
            return self.zext(n.a, w);
        }
        if n.op == Op::Sext {
            return self.sext(n.a, w);
        }
        if let Some((c, x, y)) = self.is_const_ite(a) {
            let x = self.sext(x, w);
            let y = self.sext(y, w);
            return self.ite(c, x, y);
        }
        self.mk(Op::Sext, w, a, 0, 0, 0)
    }

    /// 8-bit expression mapped through a table
    pub fn table(&mut self, a: Id, w: u32, t: &[u64; 256]) -> Id {
        if t.iter().all(|x| *x == t[0]) {
            return self.cst(w, t[0]);
        }
        let key = t.to_vec();
        let id = match self.table_ids.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(Rc::new(*t));
                self.table_ids.insert(key, i);
                i
            }
        };
        self.mk(Op::Tab, w, a, 0, 0, id as u64)
    }

    pub fn conj(&self, e: Id, out: &mut Vec<Id>) {
        let n = self.n(e);
        if n.op == Op::And && n.w == 1 {
            self.conj(n.a, out);
            self.conj(n.b, out);
        } else {
            out.push(e);
        }
    }
    /// splits a condition to conjuncts, pushing negation through disjunctions
    pub fn conjuncts(&mut self, e: Id, out: &mut Vec<Id>) {
        let n = self.n(e);
        if n.op == Op::And && n.w == 1 {
            self.conjuncts(n.a, out);
            self.conjuncts(n.b, out);
            return;
        }
        if let Some(x) = self.is_not(e) {
            let nx = self.n(x);
            if nx.op == Op::Or && nx.w == 1 {
                let a = self.not(nx.a);
                let b = self.not(nx.b);
                self.conjuncts(a, out);
                self.conjuncts(b, out);
                return;
            }
        }
        out.push(e);
    }

    pub fn show(&self, e: Id, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{}:{}", self.cval(e).unwrap(), n.w),
            Op::Var => format!("v{}", n.k),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::Zext | Op::Sext | Op::Tab => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!("ite({}, {}, {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
    #[allow(dead_code)]
    pub fn sx(v: u64, w: u32) -> i64 {
        sext64(v, w)
    }
}
