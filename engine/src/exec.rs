//! The symbolic executor.

use crate::expr::*;
use crate::ir::*;
use crate::par::Shared;
use crate::solver::{Dom, Res, Z3};
use crate::state::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub enum Stop {
    /// the path ended normally
    Done,
    /// the path is infeasible or assumed away
    Dead,
    Viol(String, String),
    /// the engine cannot decide; the run is inconclusive
    Fatal(String),
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    None,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Nothing,
    Ovf(Bin, bool),
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Bswap,
    Bitrev,
    Umax,
    Umin,
    Smax,
    Smin,
    UaddSat,
    UsubSat,
    Abs,
    Ucmp,
    Scmp,
    First,
    Zero,
    Red(Bin),
    RedUmax,
    RedUmin,
    FMisc(u8),
    Trap,
    SSat(Bin),
    Panic,
    SymBytes,
    SymAssume,
    SymFail,
    SymReach,
    SymEmit,
    SymParam,
    SymConcrete,
    SymHashPerm,
    SymPick,
    HashWrite,
    HashFinish,
    RandomKeys,
    IsFile,
    Libc(crate::libc::L),
}

pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, Vec<u8>)>,
}

pub struct Cfg {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub alloc_limit: u64,
    pub jobs: u32,
    pub seed: u64,
    pub max_viol: u32,
    pub samples: u32,
    pub deadline: std::time::Instant,
    pub outdir: String,
    pub trace: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub dead: u64,
    pub forks: u64,
    pub steps: u64,
    pub sym_branches: u64,
    pub quick_sat: u64,
    pub confirm_hits: u64,
    pub memo_hits: u64,
    pub max_path_steps: u64,
    pub asserts: u64,
}

pub struct Engine {
    pub m: &'static Module,
    pub ex: Exprs,
    pub z3: Z3,
    pub cfg: Cfg,
    pub st: Stats,
    pub builtin: Vec<B>,
    pub redirect: Vec<u32>,
    pub consts: Vec<Option<Obj>>,
    pub gslot: Vec<u32>,
    pub nmut: u32,
    pub hb: u32,
    pub pending: Vec<State>,
    pub memo: HashMap<Vec<u64>, Option<Vec<u8>>, BuildFx>,
    pub confirmed: HashSet<Vec<u64>, BuildFx>,
    pub used: Vec<bool>,
    pub sh: &'static Shared,
    pub sample_lines: Vec<String>,
    pub since_check: u64,
    pub rng: u64,
    pub replaced: HashSet<u32>,
}

const FULL: Dom = [!0; 4];

#[inline]
fn dhas(d: &Dom, i: usize) -> bool {
    d[i >> 6] >> (i & 63) & 1 == 1
}
fn dcount(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
fn dfirst(d: &Dom) -> Option<u8> {
    for i in 0..4 {
        if d[i] != 0 {
            return Some((i * 64) as u8 + d[i].trailing_zeros() as u8);
        }
    }
    None
}

impl Engine {
    // ---------- memory ----------
    #[inline]
    fn slot(&self, idx: u64) -> Option<usize> {
        // memory slot of a mutable object
        let i = idx as usize;
        if i >= self.hb as usize {
            Some(i - self.hb as usize + self.nmut as usize)
        } else {
            let s = self.gslot[i];
            if s == u32::MAX {
                None
            } else {
                Some(s as usize)
            }
        }
    }
    #[inline]
    pub fn obj<'a>(&'a self, st: &'a State, idx: u64) -> Option<&'a Obj> {
        match self.slot(idx) {
            Some(s) => match st.mem.get(s) {
                Some(Some(o)) => Some(o),
                _ => None,
            },
            None => self.consts[idx as usize].as_ref(),
        }
    }
    pub fn alloc(&mut self, st: &mut State, n: usize) -> u64 {
        let o = Some(Rc::new(Obj::new(n)));
        let s = match st.free.pop() {
            Some(s) => {
                st.mem[s as usize] = o;
                s
            }
            None => {
                st.mem.push(o);
                st.mem.len() as u32 - 1
            }
        };
        ((s as u64 - self.nmut as u64) + self.hb as u64) << 32
    }
    pub fn dealloc(&mut self, st: &mut State, addr: u64) -> R<()> {
        let idx = addr >> 32;
        if idx < self.hb as u64 || addr & 0xffff_ffff != 0 {
            return Err(Stop::Viol("memory".into(), format!("free of invalid address {:#x}", addr)));
        }
        let s = self.slot(idx).unwrap();
        if s >= st.mem.len() || st.mem[s].is_none() {
            return Err(Stop::Viol("memory".into(), format!("double free {:#x}", addr)));
        }
        st.mem[s] = None;
        st.free.push(s as u32);
        Ok(())
    }
    fn oob(&self, st: &State, addr: u64, n: u64) -> Stop {
        let sz = if (addr >> 32) < FN_BASE { self.obj(st, addr >> 32).map(|o| o.data.len()) } else { None };
        Stop::Viol("memory".into(), format!("access of {} bytes at {:#x} (object size {:?})", n, addr, sz))
    }
    /// range check and object lookup
    pub fn range<'a>(&'a self, st: &'a State, addr: u64, n: u64) -> R<(&'a Obj, usize)> {
        let idx = addr >> 32;
        let off = addr & 0xffff_ffff;
        if idx >= FN_BASE {
            return Err(self.oob(st, addr, n));
        }
        match self.obj(st, idx) {
            Some(o) if off + n <= o.data.len() as u64 => Ok((o, off as usize)),
            _ => Err(self.oob(st, addr, n)),
        }
    }
    pub fn range_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let idx = addr >> 32;
        let off = addr & 0xffff_ffff;
        if idx >= FN_BASE || idx == 0 {
            return Err(self.oob(st, addr, n));
        }
        let s = match self.slot(idx) {
            Some(s) => s,
            None => return Err(Stop::Viol("memory".into(), format!("write to constant {:#x}", addr))),
        };
        let ok = match st.mem.get(s) {
            Some(Some(o)) => off + n <= o.data.len() as u64,
            _ => false,
        };
        if !ok {
            return Err(self.oob(st, addr, n));
        }
        Ok((Rc::make_mut(st.mem[s].as_mut().unwrap()), off as usize))
    }

    pub fn byte(&mut self, st: &State, addr: u64) -> R<Val> {
        let (o, off) = self.range(st, addr, 1)?;
        if let Some(s) = &o.sym {
            let e = s[off];
            if e != 0 {
                return Ok(self.settle(st, e));
            }
        }
        Ok(Val::c(o.data[off] as u64))
    }
    /// replaces an expression by its value where one byte domain fixes it
    fn settle(&mut self, st: &State, e: Id) -> Val {
        if let Some(v) = self.ex.single(e) {
            let d = &st.dom[v as usize];
            if dcount(d) == 1 && self.ex.w(e) <= 64 {
                let t = self.ex.tab(e);
                return Val::c(t[dfirst(d).unwrap() as usize]);
            }
        }
        Val::s(e)
    }
    pub fn load(&mut self, st: &State, addr: u64, n: u32, w: u32) -> R<Val> {
        let (o, off) = self.range(st, addr, n as u64)?;
        let symbolic = match &o.sym {
            None => false,
            Some(s) => s[off..off + n as usize].iter().any(|e| *e != 0),
        };
        if !symbolic && w <= 64 {
            let mut b = [0u8; 8];
            b[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
            return Ok(Val::c(u64::from_le_bytes(b) & mask(w)));
        }
        if !symbolic {
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
            let v = u128::from_le_bytes(b);
            return Ok(Val::s(self.ex.cst128(w, v)));
        }
        let bytes: Vec<(u8, Id)> = (0..n as usize).map(|i| (o.data[off + i], o.sym.as_ref().unwrap()[off + i])).collect();
        let mut cur: Id = 0;
        let mut allc = true;
        let mut cv = 0u128;
        for (i, (b, e)) in bytes.iter().enumerate() {
            let v = if *e != 0 { self.settle(st, *e) } else { Val::c(*b as u64) };
            if v.e != 0 {
                allc = false;
            } else {
                cv |= (v.c as u128) << (8 * i);
            }
            let x = if v.e != 0 { v.e } else { self.ex.cst(8, v.c) };
            cur = if i == 0 { x } else { self.ex.concat(x, cur) };
        }
        if allc && w <= 64 {
            return Ok(Val::c(cv as u64 & mask(w)));
        }
        if w < n * 8 {
            cur = self.ex.extract(cur, 0, w);
        }
        Ok(self.norm(cur))
    }
    /// constant expressions of at most 64 bits become concrete values
    pub fn norm(&self, e: Id) -> Val {
        if self.ex.w(e) <= 64 {
            if let Some(v) = self.ex.cval(e) {
                return Val::c(v as u64);
            }
        }
        Val::s(e)
    }
    pub fn store(&mut self, st: &mut State, addr: u64, n: u32, w: u32, v: Val) -> R<()> {
        if v.e == 0 {
            let (o, off) = self.range_mut(st, addr, n as u64)?;
            let b = (v.c & mask(w)).to_le_bytes();
            o.data[off..off + n as usize].copy_from_slice(&b[..n as usize]);
            if let Some(s) = &mut o.sym {
                for i in 0..n as usize {
                    s[off + i] = 0;
                }
            }
            return Ok(());
        }
        let mut e = v.e;
        if w < n * 8 {
            e = self.ex.zext(e, n * 8);
        }
        let mut parts = [Val::c(0); 16];
        for i in 0..n {
            let p = self.ex.extract(e, i * 8, 8);
            parts[i as usize] = self.norm(p);
        }
        let (o, off) = self.range_mut(st, addr, n as u64)?;
        let len = o.data.len();
        for i in 0..n as usize {
            let p = parts[i];
            if p.e == 0 {
                o.data[off + i] = p.c as u8;
                if let Some(s) = &mut o.sym {
                    s[off + i] = 0;
                }
            } else {
                o.sym.get_or_insert_with(|| vec![0; len])[off + i] = p.e;
            }
        }
        Ok(())
    }
    pub fn store_byte(&mut self, st: &mut State, addr: u64, v: Val) -> R<()> {
        self.store(st, addr, 1, 8, v)
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.range(st, src, n)?;
        let data = o.data[off..off + n as usize].to_vec();
        let sym = o.sym.as_ref().and_then(|s| {
            let s = &s[off..off + n as usize];
            if s.iter().any(|e| *e != 0) {
                Some(s.to_vec())
            } else {
                None
            }
        });
        let (d, doff) = self.range_mut(st, dst, n)?;
        d.data[doff..doff + n as usize].copy_from_slice(&data);
        let len = d.data.len();
        match sym {
            Some(s) => d.sym.get_or_insert_with(|| vec![0; len])[doff..doff + n as usize].copy_from_slice(&s),
            None => {
                if let Some(s) = &mut d.sym {
                    s[doff..doff + n as usize].fill(0)
                }
            }
        }
        Ok(())
    }
    pub fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        self.range(st, addr, n)?;
        (0..n).map(|i| self.byte(st, addr + i)).collect()
    }

    // ---------- constraints ----------
    fn tri(&mut self, st: &State, e: Id) -> Option<bool> {
        let n = self.ex.n(e);
        if let Some(v) = self.ex.cval(e) {
            return Some(v & 1 == 1);
        }
        if let Some(v) = self.ex.single(e) {
            let d = st.dom[v as usize];
            let t = self.ex.tab(e);
            let mut has0 = false;
            let mut has1 = false;
            for i in 0..256 {
                if dhas(&d, i) {
                    if t[i] & 1 == 1 {
                        has1 = true
                    } else {
                        has0 = true
                    }
                }
            }
            return if has0 && has1 { None } else { Some(has1) };
        }
        if let Some(v) = st.resolved.get(&e) {
            return Some(*v & 1 == 1);
        }
        if n.w == 1 {
            match n.op {
                Op::And => match (self.tri(st, n.a), self.tri(st, n.b)) {
                    (Some(false), _) | (_, Some(false)) => return Some(false),
                    (Some(true), Some(true)) => return Some(true),
                    _ => {}
                },
                Op::Or => match (self.tri(st, n.a), self.tri(st, n.b)) {
                    (Some(true), _) | (_, Some(true)) => return Some(true),
                    (Some(false), Some(false)) => return Some(false),
                    _ => {}
                },
                Op::Xor => {
                    if let (Some(a), Some(b)) = (self.tri(st, n.a), self.tri(st, n.b)) {
                        return Some(a ^ b);
                    }
                }
                Op::Ite => match self.tri(st, n.a) {
                    Some(true) => return self.tri(st, n.b),
                    Some(false) => return self.tri(st, n.c),
                    None => {}
                },
                _ => {}
            }
        }
        None
    }

    /// The solver confirms that `e` cannot hold under the byte domains and the
    /// constraints of this path; verdicts are memoised.
    fn confirm_unsat(&mut self, st: &State, e: Id) -> R<()> {
        let mut conds = vec![e];
        let sup = self.ex.support[e as usize];
        let mut doms = vec![];
        let mut s = sup;
        let mut key: Vec<u64> = vec![e as u64];
        while s != 0 {
            let v = s.trailing_zeros();
            s &= s - 1;
            let d = st.dom[v as usize];
            doms.push((v, d));
            key.push(v as u64);
            key.extend_from_slice(&d);
        }
        if self.confirmed.contains(&key) {
            self.st.confirm_hits += 1;
            return Ok(());
        }
        match self.z3.check(&self.ex, &conds, &doms) {
            Res::Unsat => {
                self.confirmed.insert(key);
                return Ok(());
            }
            Res::Unknown => return Err(Stop::Fatal("solver gave no verdict".into())),
            Res::Sat(_) => {}
        }
        // the constraints of the path are needed as well
        let (rel, vars) = self.closure(st, sup);
        conds.extend(rel);
        let doms: Vec<(u32, Dom)> = vars.iter().map(|v| (*v, st.dom[*v as usize])).collect();
        match self.z3.check(&self.ex, &conds, &doms) {
            Res::Unsat => Ok(()),
            _ => Err(Stop::Fatal(format!("solver disagrees with domain reasoning on {}", self.ex.show(e, 6)))),
        }
    }

    /// constraints connected to the given variables, and all their variables
    fn closure(&self, st: &State, sup: u128) -> (Vec<Id>, Vec<u32>) {
        let mut s = sup;
        let mut used = vec![false; st.multi.len()];
        let mut rel = vec![];
        if s & st.multi_vars != 0 {
            loop {
                let mut changed = false;
                for (i, c) in st.multi.iter().enumerate() {
                    if !used[i] && self.ex.support[*c as usize] & s != 0 {
                        used[i] = true;
                        rel.push(*c);
                        s |= self.ex.support[*c as usize];
                        changed = true;
                    }
                }
                if !changed {
                    break;
                }
            }
        }
        let mut vars = vec![];
        let mut t = s;
        while t != 0 {
            vars.push(t.trailing_zeros());
            t &= t - 1;
        }
        (rel, vars)
    }

    /// Is there an input on this path for which `cond` holds? Gives a model.
    pub fn feasible(&mut self, st: &State, cond: Id) -> R<Option<Rc<Vec<u8>>>> {
        if let Some(c) = self.ex.cval(cond) {
            return Ok(if c & 1 == 1 { Some(st.model.clone()) } else { None });
        }
        if self.ex.eval(cond, &st.model) & 1 == 1 {
            return Ok(Some(st.model.clone()));
        }
        let mut cj = vec![];
        self.ex.conjuncts(cond, &mut cj);
        let mut nd: Vec<(u32, Dom)> = vec![];
        let mut multis = vec![];
        for c in &cj {
            match self.ex.single(*c) {
                Some(v) => {
                    let t = self.ex.tab(*c);
                    let k = match nd.iter().position(|x| x.0 == v) {
                        Some(k) => k,
                        None => {
                            nd.push((v, st.dom[v as usize]));
                            nd.len() - 1
                        }
                    };
                    let d = &mut nd[k].1;
                    for i in 0..256 {
                        if t[i] & 1 == 0 {
                            d[i >> 6] &= !(1 << (i & 63));
                        }
                    }
                    if *d == [0; 4] {
                        self.confirm_unsat(st, cond)?;
                        return Ok(None);
                    }
                }
                None => match self.ex.cval(*c) {
                    Some(0) => {
                        return Ok(None);
                    }
                    Some(_) => {}
                    None => multis.push(*c),
                },
            }
        }
        let sup = self.ex.support[cond as usize];
        let (rel, vars) = self.closure(st, sup);
        // candidate models without the solver
        for attempt in 0..3 {
            let mut m: Vec<u8> = (*st.model).clone();
            for (v, d) in &nd {
                let cur = m[*v as usize];
                if attempt == 0 && dhas(d, cur as usize) {
                    continue;
                }
                let cnt = dcount(d);
                let want = match attempt {
                    0 => 0,
                    1 => cnt - 1,
                    _ => cnt / 2,
                };
                let mut k = 0;
                for i in 0..256 {
                    if dhas(d, i) {
                        if k == want {
                            m[*v as usize] = i as u8;
                            break;
                        }
                        k += 1;
                    }
                }
            }
            let mut ok = true;
            for c in multis.iter().chain(rel.iter()) {
                if self.ex.eval(*c, &m) & 1 == 0 {
                    ok = false;
                    break;
                }
            }
            if ok {
                self.st.quick_sat += 1;
                return Ok(Some(Rc::new(m)));
            }
            if nd.is_empty() {
                break;
            }
        }
        let doms: Vec<(u32, Dom)> = vars
            .iter()
            .map(|v| match nd.iter().find(|x| x.0 == *v) {
                Some(x) => *x,
                None => (*v, st.dom[*v as usize]),
            })
            .collect();
        let mut conds: Vec<Id> = rel;
        conds.extend_from_slice(&multis);
        conds.sort();
        conds.dedup();
        let mut key: Vec<u64> = conds.iter().map(|x| *x as u64).collect();
        key.push(u64::MAX);
        for (v, d) in &doms {
            key.push(*v as u64);
            key.extend_from_slice(d);
        }
        let res = match self.memo.get(&key) {
            Some(r) => {
                self.st.memo_hits += 1;
                r.clone()
            }
            None => {
                let r = match self.z3.check(&self.ex, &conds, &doms) {
                    Res::Sat(v) => Some(v),
                    Res::Unsat => None,
                    Res::Unknown => return Err(Stop::Fatal("solver gave no verdict".into())),
                };
                self.memo.insert(key, r.clone());
                r
            }
        };
        match res {
            None => Ok(None),
            Some(vals) => {
                let mut m: Vec<u8> = (*st.model).clone();
                for ((v, _), x) in doms.iter().zip(vals.iter()) {
                    m[*v as usize] = *x;
                }
                if self.ex.eval(cond, &m) & 1 == 0 {
                    return Err(Stop::Fatal("solver model does not satisfy the condition".into()));
                }
                Ok(Some(Rc::new(m)))
            }
        }
    }

    pub fn constrain(&mut self, st: &mut State, cond: Id) {
        let mut cj = vec![];
        self.ex.conjuncts(cond, &mut cj);
        for c in cj {
            if self.ex.cval(c).is_some() {
                continue;
            }
            match self.ex.single(c) {
                Some(v) => {
                    let t = self.ex.tab(c);
                    let d = &mut Rc::make_mut(&mut st.dom)[v as usize];
                    for i in 0..256 {
                        if t[i] & 1 == 0 {
                            d[i >> 6] &= !(1 << (i & 63));
                        }
                    }
                }
                None => {
                    if !st.multi.contains(&c) {
                        Rc::make_mut(&mut st.multi).push(c);
                        st.multi_vars |= self.ex.support[c as usize];
                    }
                    let r = Rc::make_mut(&mut st.resolved);
                    r.insert(c, 1);
                    let n = self.ex.n(c);
                    if n.op == Op::Xor && n.w == 1 && self.ex.cval(n.b) == Some(1) {
                        r.insert(n.a, 0);
                    }
                }
            }
        }
    }

    /// known value of an expression on this path
    pub fn try_const(&mut self, st: &State, e: Id) -> R<Option<u64>> {
        if let Some(v) = self.ex.cval(e) {
            return Ok(Some(v as u64));
        }
        if let Some(v) = self.ex.single(e) {
            if self.ex.w(e) > 64 {
                return Ok(None);
            }
            let d = st.dom[v as usize];
            let t = self.ex.tab(e);
            let first = dfirst(&d).unwrap();
            let k = t[first as usize];
            if dcount(&d) == 1 {
                return Ok(Some(k));
            }
            for i in 0..256 {
                if dhas(&d, i) && t[i] != k {
                    return Ok(None);
                }
            }
            let w = self.ex.w(e);
            let kc = self.ex.cst(w, k);
            let eq = self.ex.cmp(Op::Eq, e, kc);
            let ne = self.ex.not(eq);
            if self.ex.cval(ne).is_none() {
                self.confirm_unsat(st, ne)?;
            }
            return Ok(Some(k));
        }
        if let Some(v) = st.resolved.get(&e) {
            return Ok(Some(*v));
        }
        let mut s = self.ex.support[e as usize];
        let mut all = true;
        while s != 0 {
            let v = s.trailing_zeros();
            s &= s - 1;
            if dcount(&st.dom[v as usize]) != 1 {
                all = false;
                break;
            }
        }
        if all {
            return Ok(Some(self.ex.eval(e, &st.model) as u64));
        }
        Ok(None)
    }

    /// Replaces the parts of an expression whose value is fixed on this path.
    fn subst(&mut self, st: &State, e: Id, done: &mut HashMap<Id, Id, BuildFx>) -> R<Id> {
        if self.ex.cval(e).is_some() {
            return Ok(e);
        }
        if let Some(r) = done.get(&e) {
            return Ok(*r);
        }
        let n = self.ex.n(e);
        let r = if self.ex.single(e).is_some() {
            match self.try_const(st, e)? {
                Some(v) => self.ex.cst(n.w as u32, v),
                None => e,
            }
        } else if let Some(v) = st.resolved.get(&e) {
            self.ex.cst(n.w as u32, *v)
        } else {
            let a = self.subst(st, n.a, done)?;
            let b = if n.b != 0 { self.subst(st, n.b, done)? } else { 0 };
            let c = if n.c != 0 { self.subst(st, n.c, done)? } else { 0 };
            if (a, b, c) == (n.a, n.b, n.c) {
                e
            } else {
                match n.op {
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => self.ex.cmp(n.op, a, b),
                    Op::Ite => self.ex.ite(a, b, c),
                    Op::Concat => self.ex.concat(a, b),
                    Op::Extract => self.ex.extract(a, n.k as u32, n.w as u32),
                    Op::Zext => self.ex.zext(a, n.w as u32),
                    Op::Sext => self.ex.sext(a, n.w as u32),
                    Op::Tab => {
                        let t = self.ex.tables[n.k as usize].clone();
                        self.ex.table(a, n.w as u32, &t)
                    }
                    _ => self.ex.bin(n.op, a, b),
                }
            }
        };
        done.insert(e, r);
        Ok(r)
    }

    /// The largest parts of an expression that depend on one byte only.
    fn atoms(&self, e: Id, out: &mut Vec<Id>, seen: &mut HashSet<Id>) {
        if self.ex.cval(e).is_some() || !seen.insert(e) {
            return;
        }
        if self.ex.single(e).is_some() {
            out.push(e);
            return;
        }
        let n = self.ex.n(e);
        for x in [n.a, n.b, n.c] {
            if x != 0 {
                self.atoms(x, out, seen);
            }
        }
    }

    /// The part with the fewest possible values, and their number.
    fn smallest_atom(&mut self, st: &State, e: Id) -> Option<(Id, usize)> {
        let mut v = vec![];
        self.atoms(e, &mut v, &mut HashSet::new());
        let mut best = None;
        for a in v {
            if self.ex.w(a) > 64 {
                continue;
            }
            let d = st.dom[self.ex.single(a).unwrap() as usize];
            let t = self.ex.tab(a);
            let mut vals: Vec<u64> = (0..256).filter(|i| dhas(&d, *i)).map(|i| t[i]).collect();
            vals.sort_unstable();
            vals.dedup();
            if vals.len() > 1 && best.map_or(true, |(_, n)| vals.len() < n) {
                best = Some((a, vals.len()));
            }
        }
        best
    }

    /// Decides a condition; forks when both outcomes are possible.
    pub fn decide(&mut self, st: &mut State, cond: Id) -> R<bool> {
        self.st.sym_branches += 1;
        if self.ex.single(cond).is_none() && self.ex.cval(cond).is_none() {
            if let Some(v) = st.resolved.get(&cond) {
                return Ok(*v & 1 == 1);
            }
            let c = self.subst(st, cond, &mut HashMap::default())?;
            if let Some(v) = self.ex.cval(c) {
                return Ok(v & 1 == 1);
            }
            if c != cond {
                let r = self.decide(st, c)?;
                Rc::make_mut(&mut st.resolved).insert(cond, r as u64);
                return Ok(r);
            }
        }
        if let Some(b) = self.tri(st, cond) {
            if self.ex.cval(cond).is_none() && st.resolved.get(&cond).is_none() {
                let other = if b { self.ex.not(cond) } else { cond };
                if self.ex.cval(other).is_none() {
                    self.confirm_unsat(st, other)?;
                }
            }
            return Ok(b);
        }
        let cur = self.ex.eval(cond, &st.model) & 1 == 1;
        let ncond = self.ex.not(cond);
        let (mine, other) = if cur { (cond, ncond) } else { (ncond, cond) };
        match self.feasible(st, other)? {
            Some(m) => {
                let mut o = st.clone();
                o.model = m;
                self.constrain(&mut o, other);
                Rc::make_mut(&mut o.resolved).insert(cond, !cur as u64);
                self.push(o);
                self.constrain(st, mine);
                Rc::make_mut(&mut st.resolved).insert(cond, cur as u64);
            }
            None => {
                if self.ex.single(cond).is_none() {
                    Rc::make_mut(&mut st.resolved).insert(cond, cur as u64);
                }
            }
        }
        Ok(cur)
    }

    pub fn push(&mut self, mut s: State) {
        self.st.forks += 1;
        s.forks += 1;
        self.pending.push(s);
        self.maybe_split();
    }

    /// Makes a value concrete, forking over all feasible values.
    pub fn conc(&mut self, st: &mut State, v: Val) -> R<u64> {
        if v.e == 0 {
            return Ok(v.c);
        }
        let e = v.e;
        let w = self.ex.w(e);
        if w > 64 {
            return Err(Stop::Fatal("concretisation of a wide value".into()));
        }
        if let Some(k) = self.try_const(st, e)? {
            return Ok(k);
        }
        let cur = self.ex.eval(e, &st.model) as u64;
        let k = self.ex.cst(w, cur);
        let eq = self.ex.cmp(Op::Eq, e, k);
        // one state for "differs from the current value" keeps enumerating
        let ne = self.ex.not(eq);
        if let Some(m) = self.feasible(st, ne)? {
            let mut o = st.clone();
            o.model = m;
            o.conc_chain = if st.conc_chain.0 == e { (e, st.conc_chain.1 + 1) } else { (e, 1) };
            if o.conc_chain.1 > 600 {
                return Err(Stop::Fatal(format!("more than 600 values of {}", self.ex.show(e, 5))));
            }
            self.constrain(&mut o, ne);
            self.push(o);
        }
        st.conc_chain = (0, 0);
        self.constrain(st, eq);
        if self.ex.single(e).is_none() {
            Rc::make_mut(&mut st.resolved).insert(e, cur);
        }
        Ok(cur)
    }

    // ---------- values ----------
    pub fn id(&mut self, v: Val, w: u32) -> Id {
        if v.e != 0 {
            v.e
        } else {
            self.ex.cst(w, v.c)
        }
    }
    #[inline]
    fn o(&mut self, st: &State, o: O) -> Val {
        match o {
            O::R(r) => unsafe { *st.regs.get_unchecked((st.base + r) as usize) },
            O::C(c) => Val::c(c),
            O::W(i) => {
                let (lo, hi, w) = self.m.wide[i as usize];
                Val::s(self.ex.cst128(w as u32, lo as u128 | ((hi as u128) << 64)))
            }
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        let i = (st.base + d) as usize;
        unsafe { *st.regs.get_unchecked_mut(i) = v }
    }
    fn fin(&mut self, st: &State, e: Id) -> Val {
        let v = self.norm(e);
        if v.e != 0 {
            return self.settle(st, v.e);
        }
        v
    }

    pub fn bin_val(&mut self, st: &State, op: Bin, w: u32, a: Val, b: Val) -> R<Val> {
        if a.e == 0 && b.e == 0 && w <= 64 {
            let m = mask(w);
            let (x, y) = (a.c, b.c);
            return Ok(Val::c(match op {
                Bin::Add => x.wrapping_add(y) & m,
                Bin::Sub => x.wrapping_sub(y) & m,
                Bin::Mul => x.wrapping_mul(y) & m,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => {
                    return Err(Stop::Viol("arith".into(), "division by zero".into()))
                }
                Bin::UDiv => x / y,
                Bin::URem => x % y,
                Bin::SDiv => (sext64(x, w).wrapping_div(sext64(y, w)) as u64) & m,
                Bin::SRem => (sext64(x, w).wrapping_rem(sext64(y, w)) as u64) & m,
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                Bin::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Bin::AShr => ((sext64(x, w) >> y.min(63)) as u64) & m,
            }));
        }
        let (ea, eb) = (self.id(a, w), self.id(b, w));
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
        };
        let r = self.ex.bin(o, ea, eb);
        Ok(self.fin(st, r))
    }

    pub fn cmp_val(&mut self, st: &State, p: Pred, w: u32, a: Val, b: Val) -> R<Val> {
        if a.e == 0 && b.e == 0 && w <= 64 {
            let (x, y) = (a.c, b.c);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext64(x, w) > sext64(y, w),
                Pred::Sge => sext64(x, w) >= sext64(y, w),
                Pred::Slt => sext64(x, w) < sext64(y, w),
                Pred::Sle => sext64(x, w) <= sext64(y, w),
            };
            return Ok(Val::c(r as u64));
        }
        let (ea, eb) = (self.id(a, w), self.id(b, w));
        let r = match p {
            Pred::Eq => self.ex.cmp(Op::Eq, ea, eb),
            Pred::Ne => {
                let x = self.ex.cmp(Op::Eq, ea, eb);
                self.ex.not(x)
            }
            Pred::Ugt => self.ex.cmp(Op::Ult, eb, ea),
            Pred::Uge => self.ex.cmp(Op::Ule, eb, ea),
            Pred::Ult => self.ex.cmp(Op::Ult, ea, eb),
            Pred::Ule => self.ex.cmp(Op::Ule, ea, eb),
            Pred::Sgt => self.ex.cmp(Op::Slt, eb, ea),
            Pred::Sge => self.ex.cmp(Op::Sle, eb, ea),
            Pred::Slt => self.ex.cmp(Op::Slt, ea, eb),
            Pred::Sle => self.ex.cmp(Op::Sle, ea, eb),
        };
        if self.ex.single(r).is_some() {
            if let Some(k) = self.try_const(st, r)? {
                return Ok(Val::c(k));
            }
        }
        Ok(self.norm(r))
    }

    fn zext_val(&mut self, st: &State, wf: u32, wt: u32, a: Val) -> Val {
        if a.e == 0 {
            if wt <= 64 {
                return Val::c(a.c & mask(wf));
            }
            return Val::s(self.ex.cst128(wt, (a.c & mask(wf)) as u128));
        }
        let r = self.ex.zext(a.e, wt);
        self.fin(st, r)
    }
    fn trunc_val(&mut self, st: &State, wt: u32, a: Val) -> Val {
        if a.e == 0 {
            return Val::c(a.c & mask(wt));
        }
        let r = self.ex.extract(a.e, 0, wt);
        self.fin(st, r)
    }

    /// load through an address that may be symbolic
    fn load_any(&mut self, st: &mut State, mut a: Val, n: u32, w: u32) -> R<Val> {
        if a.e == 0 {
            return self.load(st, a.c, n, w);
        }
        if let Some(k) = self.try_const(st, a.e)? {
            return self.load(st, k, n, w);
        }
        if self.ex.single(a.e).is_none() && self.ex.few_values(a.e, 4, &mut 200).is_some() {
            let k = self.conc(st, a)?;
            return self.load(st, k, n, w);
        }
        while self.ex.single(a.e).is_none() {
            // two-dimensional tables: split on one index
            let e = self.subst(st, a.e, &mut HashMap::default())?;
            if let Some(k) = self.ex.cval(e) {
                return self.load(st, k as u64, n, w);
            }
            if self.ex.single(e).is_some() {
                a = Val::s(e);
                break;
            }
            match self.smallest_atom(st, e) {
                Some((x, k)) if k <= 256 => {
                    self.conc(st, Val::s(x))?;
                }
                _ => break,
            }
        }
        if let Some(v) = self.ex.single(a.e) {
            let d = st.dom[v as usize];
            let t = self.ex.tab(a.e);
            let mut ok = true;
            let mut idx = None;
            for i in 0..256 {
                if dhas(&d, i) {
                    let x = t[i] >> 32;
                    if *idx.get_or_insert(x) != x {
                        ok = false;
                        break;
                    }
                }
            }
            if ok && w <= 64 && idx.unwrap() < FN_BASE {
                let mut tab = [0u64; 256];
                let mut fill = None;
                let mut loaded: Vec<(u64, Val)> = vec![];
                let mut conc = true;
                for i in 0..256 {
                    if dhas(&d, i) {
                        let x = match loaded.iter().find(|z| z.0 == t[i]) {
                            Some(z) => z.1,
                            None => {
                                let (o, off) = match self.range(st, t[i], n as u64) {
                                    Ok(x) => x,
                                    Err(_) => {
                                        // some value is out of range: split
                                        let k = self.conc(st, a)?;
                                        return self.load(st, k, n, w);
                                    }
                                };
                                let _ = (o, off);
                                let x = self.load(st, t[i], n, w)?;
                                loaded.push((t[i], x));
                                x
                            }
                        };
                        if x.e != 0 {
                            conc = false;
                        }
                        tab[i] = x.c;
                        fill.get_or_insert(x.c);
                    }
                }
                if conc {
                    let f = fill.unwrap();
                    let mut last = f;
                    for i in 0..256 {
                        if dhas(&d, i) {
                            last = tab[i];
                        } else {
                            tab[i] = last;
                        }
                    }
                    let x = self.ex.var(v);
                    let r = self.ex.table(x, w, &tab);
                    return Ok(self.norm(r));
                }
                if loaded.len() <= 32 {
                    let mut cur = self.id(loaded[0].1, w);
                    for (ad, x) in &loaded[1..] {
                        let k = self.ex.cst(64, *ad);
                        let c = self.ex.cmp(Op::Eq, a.e, k);
                        let x = self.id(*x, w);
                        cur = self.ex.ite(c, x, cur);
                    }
                    return Ok(self.fin(st, cur));
                }
            }
        }
        let k = self.conc(st, a)?;
        self.load(st, k, n, w)
    }

    // ---------- calls ----------
    fn enter(&mut self, st: &mut State, f: u32, args: &[Val], d: u32, cont: u32) -> R<()> {
        let m = self.m;
        let fun = &m.funcs[f as usize];
        if !self.used[f as usize] {
            self.used[f as usize] = true;
        }
        if st.frames.len() > 2000 {
            return Err(Stop::Viol("stack".into(), "call depth exceeds 2000".into()));
        }
        // save the caller
        if let Some(fr) = st.frames.last_mut() {
            fr.pc = st.pc;
        }
        let base = st.regs.len() as u32;
        st.regs.resize((base + fun.nslots) as usize, Val::c(0));
        for (i, a) in args.iter().enumerate().take(fun.nargs as usize) {
            st.regs[base as usize + i] = *a;
        }
        let obj = if fun.frame > 0 {
            let a = self.alloc(st, fun.frame as usize);
            (a >> 32) as u32
        } else {
            u32::MAX
        };
        st.frames.push(Frame { func: f, pc: 0, base, obj, d, cont, dynobjs: vec![] });
        st.func = f;
        st.pc = 0;
        st.base = base;
        Ok(())
    }

    fn follow(&mut self, st: &mut State, edge: u32) {
        let m = self.m;
        let e = &m.funcs[st.func as usize].edges[edge as usize];
        if e.serial {
            for (d, o) in e.copies.iter() {
                let v = self.o(st, *o);
                self.set(st, *d, v);
            }
        } else {
            let vals: Vec<Val> = e.copies.iter().map(|(_, o)| self.o(st, *o)).collect();
            for ((d, _), v) in e.copies.iter().zip(vals) {
                self.set(st, *d, v);
            }
        }
        st.pc = e.pc;
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        let mut v: Vec<String> = st.frames.iter().rev().map(|f| self.m.funcs[f.func as usize].pretty.clone()).collect();
        v.truncate(40);
        v
    }

    pub fn start(&mut self, f: u32) -> State {
        let mut mem: Vec<Option<Rc<Obj>>> = vec![];
        for (i, g) in self.m.globals.iter().enumerate() {
            if self.gslot[i + 1] != u32::MAX {
                debug_assert_eq!(mem.len() as u32, self.gslot[i + 1]);
                mem.push(Some(Rc::new(Obj { data: g.data.clone(), sym: None })));
            }
        }
        let mut st = State {
            frames: vec![],
            regs: vec![],
            func: f,
            pc: 0,
            base: 0,
            mem,
            free: vec![],
            dom: Rc::new(vec![]),
            multi: Rc::new(vec![]),
            multi_vars: 0,
            model: Rc::new(vec![]),
            resolved: Rc::new(HashMap::default()),
            names: Rc::new(vec![]),
            emit: Rc::new(vec![]),
            reach: 0,
            vfs: Rc::new(Vfs::default()),
            errno_obj: 0,
            hash_keys: Rc::new(vec![]),
            hash_perm: 0,
            pick: None,
            conc_chain: (0, 0),
            steps: 0,
            forks: 0,
        };
        st.errno_obj = self.alloc(&mut st, 8);
        let _ = self.enter(&mut st, f, &[], 0, u32::MAX);
        st
    }

    pub fn new_var(&mut self, st: &mut State, init: u8) -> R<Id> {
        let i = st.dom.len() as u32;
        if i >= 128 {
            return Err(Stop::Fatal("more than 128 symbolic bytes".into()));
        }
        Rc::make_mut(&mut st.dom).push(FULL);
        Rc::make_mut(&mut st.model).push(init);
        Ok(self.ex.var(i))
    }

    pub fn name_vars(&mut self, st: &mut State, name: String, start: u32, n: u32) {
        Rc::make_mut(&mut st.names).push((name, start, n));
    }

    pub fn inputs(&self, st: &State) -> Vec<(String, Vec<u8>)> {
        st.names
            .iter()
            .map(|(n, s, l)| (n.clone(), st.model[*s as usize..(*s + *l) as usize].to_vec()))
            .collect()
    }

    pub fn run(&mut self, mut st: State) {
        let start_steps = st.steps;
        let r = self.exec(&mut st);
        self.st.steps += st.steps - start_steps;
        self.st.max_path_steps = self.st.max_path_steps.max(st.steps);
        match r {
            Ok(()) | Err(Stop::Done) => {
                self.st.paths += 1;
                self.sh.reach.fetch_or(st.reach, std::sync::atomic::Ordering::Relaxed);
                self.sample(&st);
            }
            Err(Stop::Dead) => self.st.dead += 1,
            Err(Stop::Viol(k, m)) => {
                let v = Viol { kind: k, msg: m, stack: self.stack(&st), inputs: self.inputs(&st) };
                self.report(v);
            }
            Err(Stop::Fatal(m)) => {
                let s = self.stack(&st).join(" < ");
                let v = Viol { kind: "engine".into(), msg: format!("{} in {}", m, s), stack: vec![], inputs: self.inputs(&st) };
                self.fatal(v);
            }
        }
    }

    fn sample(&mut self, st: &State) {
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = (self.rng >> 33) as u32;
        let k = self.sample_lines.len() as u32;
        let keep = k < self.cfg.samples || (r as u64 * self.st.paths >> 31) < self.cfg.samples as u64;
        if !keep {
            return;
        }
        // exact inputs and emitted observations under the path's model
        let mut em = String::new();
        for v in st.emit.iter() {
            let b = if v.e == 0 { v.c as u8 } else { self.ex.eval(v.e, &st.model) as u8 };
            em.push_str(&format!("{:02x}", b));
        }
        let mut line = String::from("{\"inputs\":{");
        for (i, (n, b)) in self.inputs(st).iter().enumerate() {
            if i > 0 {
                line.push(',');
            }
            line.push_str(&format!("\"{}\":\"{}\"", n, hex(b)));
        }
        line.push_str(&format!("}},\"emit\":\"{}\"}}", em));
        if k < self.cfg.samples {
            self.sample_lines.push(line);
        } else {
            let i = (r % k) as usize;
            self.sample_lines[i] = line;
        }
    }

    fn exec(&mut self, st: &mut State) -> R<()> {
        let m = self.m;
        let max = self.cfg.max_steps;
        'outer: loop {
            let fun: &'static Func = &m.funcs[st.func as usize];
            let code: &'static [I] = &fun.code;
            loop {
                st.steps += 1;
                if st.steps & 0xffff == 0 {
                    if st.steps > max {
                        return Err(Stop::Viol("hang".into(), format!("more than {} instructions on one path", max)));
                    }
                    self.poll();
                }
                let ins = unsafe { code.get_unchecked(st.pc as usize) };
                match ins {
                    I::Bin(op, w, d, a, b) => {
                        let (x, y) = (self.o(st, *a), self.o(st, *b));
                        let v = self.bin_val(st, *op, *w as u32, x, y)?;
                        self.set(st, *d, v);
                    }
                    I::Cmp(p, w, d, a, b) => {
                        let (x, y) = (self.o(st, *a), self.o(st, *b));
                        let v = self.cmp_val(st, *p, *w as u32, x, y)?;
                        self.set(st, *d, v);
                    }
                    I::Mov(d, a) => {
                        let v = self.o(st, *a);
                        self.set(st, *d, v);
                    }
                    I::Load(d, n, w, p, off) => {
                        let a = self.o(st, *p);
                        let v = if a.e == 0 {
                            self.load(st, a.c.wrapping_add(*off), *n as u32, *w as u32)?
                        } else {
                            let a = self.bin_val(st, Bin::Add, 64, a, Val::c(*off))?;
                            self.load_any(st, a, *n as u32, *w as u32)?
                        };
                        self.set(st, *d, v);
                    }
                    I::Store(n, w, v, p, off) => {
                        let a = self.o(st, *p);
                        let v = self.o(st, *v);
                        let a = self.conc(st, a)?;
                        self.store(st, a.wrapping_add(*off), *n as u32, *w as u32, v)?;
                    }
                    I::GepC(d, b, off) => {
                        let a = self.o(st, *b);
                        let v = if a.e == 0 {
                            Val::c(a.c.wrapping_add(*off))
                        } else {
                            self.bin_val(st, Bin::Add, 64, a, Val::c(*off))?
                        };
                        self.set(st, *d, v);
                    }
                    I::Gep1(d, b, i, scale, off) => {
                        let a = self.o(st, *b);
                        let x = self.o(st, *i);
                        let v = if a.e == 0 && x.e == 0 {
                            Val::c(a.c.wrapping_add(x.c.wrapping_mul(*scale)).wrapping_add(*off))
                        } else {
                            let t = self.bin_val(st, Bin::Mul, 64, x, Val::c(*scale))?;
                            let t = self.bin_val(st, Bin::Add, 64, a, t)?;
                            self.bin_val(st, Bin::Add, 64, t, Val::c(*off))?
                        };
                        self.set(st, *d, v);
                    }
                    I::Gep(d, b, off, terms) => {
                        let mut a = self.o(st, *b);
                        a = self.bin_val(st, Bin::Add, 64, a, Val::c(*off))?;
                        for (o, w, scale) in terms.iter() {
                            let mut x = self.o(st, *o);
                            if *w < 64 {
                                x = if x.e == 0 {
                                    Val::c(sext64(x.c, *w as u32) as u64)
                                } else {
                                    let e = self.ex.sext(x.e, 64);
                                    self.fin(st, e)
                                };
                            }
                            let t = self.bin_val(st, Bin::Mul, 64, x, Val::c(*scale))?;
                            a = self.bin_val(st, Bin::Add, 64, a, t)?;
                        }
                        self.set(st, *d, a);
                    }
                    I::Br(e) => {
                        self.follow(st, *e);
                        continue;
                    }
                    I::CondBr(c, a, b) => {
                        let v = self.o(st, *c);
                        let t = if v.e == 0 { v.c & 1 == 1 } else { self.decide(st, v.e)? };
                        self.follow(st, if t { *a } else { *b });
                        continue;
                    }
                    I::Switch(s) => {
                        let v = self.o(st, s.v);
                        if v.e == 0 {
                            let e = match s.cases.binary_search_by_key(&v.c, |x| x.0) {
                                Ok(i) => s.cases[i].1,
                                Err(_) => s.default,
                            };
                            self.follow(st, e);
                        } else {
                            let e = self.switch(st, v.e, s)?;
                            self.follow(st, e);
                        }
                        continue;
                    }
                    I::Zext(wf, wt, d, a) => {
                        let x = self.o(st, *a);
                        let v = self.zext_val(st, *wf as u32, *wt as u32, x);
                        self.set(st, *d, v);
                    }
                    I::Sext(wf, wt, d, a) => {
                        let x = self.o(st, *a);
                        let v = if x.e == 0 && *wt <= 64 {
                            Val::c((sext64(x.c, *wf as u32) as u64) & mask(*wt as u32))
                        } else {
                            let i = self.id(x, *wf as u32);
                            let e = self.ex.sext(i, *wt as u32);
                            if *wt > 64 {
                                Val::s(e)
                            } else {
                                self.fin(st, e)
                            }
                        };
                        self.set(st, *d, v);
                    }
                    I::Trunc(_, wt, d, a) => {
                        let x = self.o(st, *a);
                        let v = self.trunc_val(st, *wt as u32, x);
                        self.set(st, *d, v);
                    }
                    I::Select(w, isptr, d, c, a, b) => {
                        let cv = self.o(st, *c);
                        let (x, y) = (self.o(st, *a), self.o(st, *b));
                        let v = if cv.e == 0 {
                            if cv.c & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        } else if x == y {
                            x
                        } else if let Some(t) = self.tri(st, cv.e) {
                            let other = if t { self.ex.not(cv.e) } else { cv.e };
                            if self.ex.cval(other).is_none() && st.resolved.get(&cv.e).is_none() {
                                self.confirm_unsat(st, other)?;
                            }
                            if t {
                                x
                            } else {
                                y
                            }
                        } else if *isptr {
                            if self.decide(st, cv.e)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            let (ex, ey) = (self.id(x, *w as u32), self.id(y, *w as u32));
                            let e = self.ex.ite(cv.e, ex, ey);
                            self.fin(st, e)
                        };
                        self.set(st, *d, v);
                    }
                    I::Alloca(d, off) => {
                        let o = st.frames.last().unwrap().obj;
                        let v = Val::c(((o as u64) << 32) + *off as u64);
                        self.set(st, *d, v);
                    }
                    I::DynAlloca(d, n, sz) => {
                        let n = self.o(st, *n);
                        let n = self.conc(st, n)?;
                        let a = self.alloc(st, (n * sz) as usize);
                        st.frames.last_mut().unwrap().dynobjs.push((a >> 32) as u32);
                        self.set(st, *d, Val::c(a));
                    }
                    I::Call(c) => {
                        let f = match &c.callee {
                            Callee::Func(f) => *f,
                            Callee::Ind(o) => {
                                let v = self.o(st, *o);
                                let a = self.conc(st, v)?;
                                let i = a >> 32;
                                if i < FN_BASE || (i - FN_BASE) as usize >= m.funcs.len() {
                                    return Err(Stop::Viol("memory".into(), format!("call of address {:#x}", a)));
                                }
                                (i - FN_BASE) as u32
                            }
                            Callee::Asm => {
                                for k in 0..c.nret {
                                    self.set(st, c.d + k, Val::c(0));
                                }
                                if c.cont != u32::MAX {
                                    self.follow(st, c.cont);
                                    continue;
                                }
                                st.pc += 1;
                                continue;
                            }
                        };
                        let b = self.builtin[f as usize];
                        if b != B::None {
                            let args: Vec<Val> = c.args.iter().map(|o| self.o(st, *o)).collect();
                            self.call_builtin(st, f, b, &args, c)?;
                            if c.cont != u32::MAX {
                                self.follow(st, c.cont);
                                continue;
                            }
                            st.pc += 1;
                            continue;
                        }
                        let f = self.redirect[f as usize];
                        if !m.funcs[f as usize].defined {
                            return Err(Stop::Fatal(format!("call of unknown external {}", m.funcs[f as usize].pretty)));
                        }
                        let mut buf = [Val::c(0); 16];
                        if c.args.len() <= 16 {
                            for (i, o) in c.args.iter().enumerate() {
                                buf[i] = self.o(st, *o);
                            }
                            let n = c.args.len();
                            self.enter(st, f, &buf[..n], c.d, c.cont)?;
                        } else {
                            let args: Vec<Val> = c.args.iter().map(|o| self.o(st, *o)).collect();
                            self.enter(st, f, &args, c.d, c.cont)?;
                        }
                        continue 'outer;
                    }
                    I::Ret(vals) => {
                        let mut buf = [Val::c(0); 8];
                        let n = vals.len();
                        let mut big = vec![];
                        if n <= 8 {
                            for (i, o) in vals.iter().enumerate() {
                                buf[i] = self.o(st, *o);
                            }
                        } else {
                            big = vals.iter().map(|o| self.o(st, *o)).collect();
                        }
                        let fr = st.frames.pop().unwrap();
                        if fr.obj != u32::MAX {
                            let s = fr.obj - self.hb + self.nmut;
                            st.mem[s as usize] = None;
                            st.free.push(s);
                        }
                        for o in fr.dynobjs {
                            let s = o - self.hb + self.nmut;
                            st.mem[s as usize] = None;
                            st.free.push(s);
                        }
                        st.regs.truncate(fr.base as usize);
                        match st.frames.last() {
                            None => return Err(Stop::Done),
                            Some(c) => {
                                st.func = c.func;
                                st.pc = c.pc;
                                st.base = c.base;
                            }
                        }
                        for i in 0..n {
                            let v = if n <= 8 { buf[i] } else { big[i] };
                            self.set(st, fr.d + i as u32, v);
                        }
                        if fr.cont != u32::MAX {
                            self.follow(st, fr.cont);
                        } else {
                            st.pc += 1;
                        }
                        continue 'outer;
                    }
                    I::Unreachable => {
                        return Err(Stop::Viol("unreachable".into(), "unreachable instruction executed".into()));
                    }
                    I::Unsupported(t) => return Err(Stop::Fatal(format!("unsupported IR: {}", t))),
                    I::Trap(t) => return Err(Stop::Viol("trap".into(), t.to_string())),
                    I::Nop => {}
                    I::Movs(v) => {
                        let vals: Vec<Val> = v.iter().map(|(_, o)| self.o(st, *o)).collect();
                        for ((d, _), x) in v.iter().zip(vals) {
                            self.set(st, *d, x);
                        }
                    }
                    I::Pack(d, lanes, lw) => {
                        let vals: Vec<Val> = lanes.iter().map(|o| self.o(st, *o)).collect();
                        let lw = *lw as u32;
                        let total = lw * vals.len() as u32;
                        let v = if total <= 64 && vals.iter().all(|v| v.e == 0) {
                            let mut r = 0u64;
                            for (i, v) in vals.iter().enumerate() {
                                r |= (v.c & mask(lw)) << (i as u32 * lw);
                            }
                            Val::c(r)
                        } else {
                            let mut cur = self.id(vals[0], lw);
                            for v in &vals[1..] {
                                let x = self.id(*v, lw);
                                cur = self.ex.concat(x, cur);
                            }
                            self.norm(cur)
                        };
                        self.set(st, *d, v);
                    }
                    I::Unpack(d, n, lw, a) => {
                        let v = self.o(st, *a);
                        let lw = *lw as u32;
                        for k in 0..*n {
                            let x = if v.e == 0 {
                                Val::c((v.c >> (k * lw)) & mask(lw))
                            } else {
                                let e = self.ex.extract(v.e, k * lw, lw);
                                self.norm(e)
                            };
                            self.set(st, *d + k, x);
                        }
                    }
                    I::ExtElt(d, lanes, i) => {
                        let i = self.o(st, *i);
                        let i = self.conc(st, i)?;
                        let v = self.o(st, lanes[i as usize]);
                        self.set(st, *d, v);
                    }
                    I::InsElt(d, lanes, v, i) => {
                        let i = self.o(st, *i);
                        let i = self.conc(st, i)?;
                        let nv = self.o(st, *v);
                        let vals: Vec<Val> = lanes.iter().map(|o| self.o(st, *o)).collect();
                        for (k, x) in vals.iter().enumerate() {
                            self.set(st, *d + k as u32, if k as u64 == i { nv } else { *x });
                        }
                    }
                    I::AtomicRmw(op, w, d, p, v) => {
                        let a = self.o(st, *p);
                        let v = self.o(st, *v);
                        let a = self.conc(st, a)?;
                        let n = *w as u32 / 8;
                        let old = self.load(st, a, n, *w as u32)?;
                        let new = match op {
                            Rmw::Xchg => v,
                            Rmw::Add => self.bin_val(st, Bin::Add, *w as u32, old, v)?,
                            Rmw::Sub => self.bin_val(st, Bin::Sub, *w as u32, old, v)?,
                            Rmw::And => self.bin_val(st, Bin::And, *w as u32, old, v)?,
                            Rmw::Or => self.bin_val(st, Bin::Or, *w as u32, old, v)?,
                            Rmw::Xor => self.bin_val(st, Bin::Xor, *w as u32, old, v)?,
                            Rmw::UMax => Val::c(old.c.max(v.c)),
                            Rmw::UMin => Val::c(old.c.min(v.c)),
                        };
                        self.store(st, a, n, *w as u32, new)?;
                        self.set(st, *d, old);
                    }
                    I::CmpXchg(w, d, p, c, nv) => {
                        let a = self.o(st, *p);
                        let (c, nv) = (self.o(st, *c), self.o(st, *nv));
                        let a = self.conc(st, a)?;
                        let n = *w as u32 / 8;
                        let old = self.load(st, a, n, *w as u32)?;
                        let oc = self.conc(st, old)?;
                        let cc = self.conc(st, c)?;
                        if oc == cc {
                            self.store(st, a, n, *w as u32, nv)?;
                        }
                        self.set(st, *d, Val::c(oc));
                        self.set(st, *d + 1, Val::c((oc == cc) as u64));
                    }
                    I::FBin(op, w, d, a, b) => {
                        let (x, y) = (self.o(st, *a), self.o(st, *b));
                        let x = self.conc(st, x)?;
                        let y = self.conc(st, y)?;
                        let r = if *w == 64 {
                            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                            (match op {
                                FOp::Add => x + y,
                                FOp::Sub => x - y,
                                FOp::Mul => x * y,
                                FOp::Div => x / y,
                                FOp::Rem => x % y,
                            })
                            .to_bits()
                        } else {
                            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op {
                                FOp::Add => x + y,
                                FOp::Sub => x - y,
                                FOp::Mul => x * y,
                                FOp::Div => x / y,
                                FOp::Rem => x % y,
                            })
                            .to_bits() as u64
                        };
                        self.set(st, *d, Val::c(r));
                    }
                    I::FNeg(w, d, a) => {
                        let x = self.o(st, *a);
                        let x = self.conc(st, x)?;
                        self.set(st, *d, Val::c(x ^ (1 << (*w - 1))));
                    }
                    I::FCmp(code, w, d, a, b) => {
                        let (x, y) = (self.o(st, *a), self.o(st, *b));
                        let x = self.conc(st, x)?;
                        let y = self.conc(st, y)?;
                        let (x, y) = if *w == 64 {
                            (f64::from_bits(x), f64::from_bits(y))
                        } else {
                            (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                        };
                        let bit = if x.is_nan() || y.is_nan() {
                            1
                        } else if x == y {
                            2
                        } else if x > y {
                            4
                        } else {
                            8
                        };
                        self.set(st, *d, Val::c((code & bit != 0) as u64));
                    }
                    I::FCast(k, wf, wt, d, a) => {
                        let x = self.o(st, *a);
                        let x = self.conc(st, x)?;
                        let tof = |x: u64| if *wf == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                        let fromf = |v: f64| if *wt == 64 { v.to_bits() } else { (v as f32).to_bits() as u64 };
                        let r = match k {
                            FCast::UiToFp => {
                                if *wt == 32 {
                                    (x as f32).to_bits() as u64
                                } else {
                                    (x as f64).to_bits()
                                }
                            }
                            FCast::SiToFp => {
                                let i = sext64(x, *wf as u32);
                                if *wt == 32 {
                                    (i as f32).to_bits() as u64
                                } else {
                                    (i as f64).to_bits()
                                }
                            }
                            FCast::FpToUi => (tof(x) as u64) & mask(*wt as u32),
                            FCast::FpToSi => (tof(x) as i64 as u64) & mask(*wt as u32),
                            FCast::FpExt | FCast::FpTrunc => fromf(tof(x)),
                        };
                        self.set(st, *d, Val::c(r));
                    }
                }
                st.pc += 1;
            }
        }
    }

    fn switch(&mut self, st: &mut State, e: Id, s: &SwitchD) -> R<u32> {
        if let Some(k) = self.try_const(st, e)? {
            return Ok(match s.cases.binary_search_by_key(&k, |x| x.0) {
                Ok(i) => s.cases[i].1,
                Err(_) => s.default,
            });
        }
        self.st.sym_branches += 1;
        let w = self.ex.w(e);
        // one condition per distinct edge
        let mut groups: Vec<(u32, Id)> = vec![];
        let mut anycase = self.ex.cst(1, 0);
        for (k, edge) in &s.cases {
            let kc = self.ex.cst(w, *k);
            let c = self.ex.cmp(Op::Eq, e, kc);
            anycase = self.ex.or(anycase, c);
            if *edge == s.default {
                continue;
            }
            match groups.iter_mut().find(|g| g.0 == *edge) {
                Some(g) => g.1 = self.ex.or(g.1, c),
                None => groups.push((*edge, c)),
            }
        }
        let mut dflt = self.ex.not(anycase);
        for (k, edge) in &s.cases {
            if *edge == s.default {
                let kc = self.ex.cst(w, *k);
                let c = self.ex.cmp(Op::Eq, e, kc);
                dflt = self.ex.or(dflt, c);
            }
        }
        groups.push((s.default, dflt));
        let cur = groups.iter().position(|g| self.ex.eval(g.1, &st.model) & 1 == 1).unwrap();
        for i in 0..groups.len() {
            if i == cur {
                continue;
            }
            let (edge, c) = groups[i];
            if let Some(m) = self.feasible(st, c)? {
                let mut o = st.clone();
                o.model = m;
                self.constrain(&mut o, c);
                self.follow(&mut o, edge);
                self.push(o);
            }
        }
        let (edge, c) = groups[cur];
        self.constrain(st, c);
        Ok(edge)
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
