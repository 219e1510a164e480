//! Functions the executor implements itself: LLVM intrinsics, the allocator,
//! memory comparison, panics, hashing and the interface of the harnesses.

use crate::exec::*;
use crate::expr::Op;
use crate::ir::*;
use crate::state::*;
use std::rc::Rc;

/// Standard library functions replaced by simple loops of the harness crate
/// with the same signature and result.
const MODELS: &[(&str, &str)] = &[
    ("core::slice::memchr::memchr", "m_memchr"),
    ("core::slice::memchr::memchr_aligned", "m_memchr"),
    ("core::slice::memchr::memchr_naive", "m_memchr"),
    ("core::slice::memchr::memrchr", "m_memrchr"),
    ("core::str::count::do_count_chars", "m_count_chars"),
    ("core::str::count::count_chars", "m_count_chars"),
];

impl Engine {
    pub fn classify(&mut self) {
        let m = self.m;
        for (i, f) in m.funcs.iter().enumerate() {
            let b = classify(f);
            self.builtin[i] = b;
            for (from, to) in MODELS {
                if f.pretty == *from {
                    if let Some(t) = m.fmap.get(*to) {
                        self.redirect[i] = *t;
                    }
                }
            }
        }
    }

    fn set1(&self, st: &mut State, c: &CallD, v: Val) {
        let i = (st.base + c.d) as usize;
        st.regs[i] = v;
    }
    fn setk(&self, st: &mut State, c: &CallD, k: u32, v: Val) {
        let i = (st.base + c.d + k) as usize;
        st.regs[i] = v;
    }

    pub fn location(&mut self, st: &State, a: Option<&Val>) -> String {
        (|| {
            let a = a?;
            if a.e != 0 {
                return None;
            }
            let p = self.load(st, a.c, 8, 64).ok()?;
            let n = self.load(st, a.c + 8, 8, 64).ok()?;
            let l = self.load(st, a.c + 16, 4, 32).ok()?;
            if p.e != 0 || n.e != 0 || l.e != 0 || n.c > 300 {
                return None;
            }
            let b = self.read_bytes(st, p.c, n.c).ok()?;
            let s: Vec<u8> = b.iter().map(|v| v.c as u8).collect();
            Some(format!("{}:{}", String::from_utf8_lossy(&s), l.c))
        })()
        .unwrap_or_else(|| "?".into())
    }

    pub fn text(&mut self, st: &State, p: Val, n: Val) -> Option<String> {
        if p.e != 0 || n.e != 0 || n.c > 2000 {
            return None;
        }
        let b = self.read_bytes(st, p.c, n.c).ok()?;
        let s: Vec<u8> = b.iter().map(|v| if v.e == 0 { v.c as u8 } else { self.ex.eval(v.e, &st.model) as u8 }).collect();
        String::from_utf8(s).ok()
    }

    /// A choice among `n` options, recorded as a named symbolic byte.
    pub fn pick(&mut self, st: &mut State, name: &str, n: u64) -> R<u64> {
        if n <= 1 {
            return Ok(0);
        }
        let e = match st.pick {
            Some(e) => e,
            None => {
                let k = st.names.iter().filter(|x| x.0.starts_with(name)).count();
                let e = self.new_var(st, 0)?;
                let i = st.dom.len() as u32 - 1;
                self.name_vars(st, format!("{}{}", name, k), i, 1);
                let kc = self.ex.cst(8, n);
                let c = self.ex.cmp(Op::Ult, e, kc);
                self.constrain(st, c);
                st.pick = Some(e);
                e
            }
        };
        let v = self.conc(st, Val::s(e))?;
        st.pick = None;
        Ok(v)
    }

    pub fn call_builtin(&mut self, st: &mut State, f: u32, b: B, a: &[Val], c: &CallD) -> R<()> {
        let nl = c.nret as usize;
        match b {
            B::None => unreachable!(),
            B::Nothing => {
                for k in 0..c.nret {
                    self.setk(st, c, k, Val::c(0));
                }
            }
            B::First => self.set1(st, c, a[0]),
            B::Zero => self.set1(st, c, Val::c(0)),
            B::Memcpy => {
                let n = self.conc(st, a[2])?;
                if n > 0 {
                    let d = self.conc(st, a[0])?;
                    let s = self.conc(st, a[1])?;
                    self.copy(st, d, s, n)?;
                }
                if c.nret > 0 {
                    self.set1(st, c, a[0]);
                }
            }
            B::Memset => {
                let n = self.conc(st, a[2])?;
                let d = self.conc(st, a[0])?;
                let v = self.conc_trunc8(st, a[1])?;
                if n > 0 {
                    let (o, off) = self.range_mut(st, d, n)?;
                    o.data[off..off + n as usize].fill(v as u8);
                    if let Some(s) = &mut o.sym {
                        s[off..off + n as usize].fill(0);
                    }
                }
                if c.nret > 0 {
                    self.set1(st, c, a[0]);
                }
            }
            B::Bcmp | B::Memcmp => {
                let n = self.conc(st, a[2])?;
                if n == 0 {
                    self.set1(st, c, Val::c(0));
                    return Ok(());
                }
                let p = self.conc(st, a[0])?;
                let q = self.conc(st, a[1])?;
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                let w = 32;
                if b == B::Bcmp {
                    let mut eq = self.ex.cst(1, 1);
                    for i in 0..n as usize {
                        if x[i].e == 0 && y[i].e == 0 {
                            if x[i].c != y[i].c {
                                self.set1(st, c, Val::c(1));
                                return Ok(());
                            }
                            continue;
                        }
                        let v = self.cmp_val(st, Pred::Eq, 8, x[i], y[i])?;
                        if v.e == 0 && v.c == 0 {
                            self.set1(st, c, Val::c(1));
                            return Ok(());
                        }
                        let v = self.id(v, 1);
                        eq = self.ex.and(eq, v);
                    }
                    let ne = self.ex.not(eq);
                    let r = self.ex.zext(ne, w);
                    let v = self.norm(r);
                    self.set1(st, c, v);
                } else {
                    let mut cur = self.ex.cst(w, 0);
                    for i in (0..n as usize).rev() {
                        if x[i].e == 0 && y[i].e == 0 {
                            if x[i].c != y[i].c {
                                let k = if x[i].c < y[i].c { mask(32) } else { 1 };
                                cur = self.ex.cst(w, k);
                            }
                            continue;
                        }
                        let ev = self.cmp_val(st, Pred::Eq, 8, x[i], y[i])?;
                        let lv = self.cmp_val(st, Pred::Ult, 8, x[i], y[i])?;
                        let (ev, lv) = (self.id(ev, 1), self.id(lv, 1));
                        let (m1, p1) = (self.ex.cst(w, mask(32)), self.ex.cst(w, 1));
                        let d = self.ex.ite(lv, m1, p1);
                        cur = self.ex.ite(ev, cur, d);
                    }
                    let v = self.norm(cur);
                    self.set1(st, c, v);
                }
            }
            B::Strlen => {
                let p = self.conc(st, a[0])?;
                let mut n = 0;
                loop {
                    let v = self.byte(st, p + n)?;
                    let z = self.cmp_val(st, Pred::Eq, 8, v, Val::c(0))?;
                    let z = if z.e == 0 { z.c == 1 } else { self.decide(st, z.e)? };
                    if z {
                        break;
                    }
                    n += 1;
                }
                self.set1(st, c, Val::c(n));
            }
            B::Alloc | B::AllocZ => {
                let n = self.alloc_size(st, a[0])?;
                let p = self.alloc(st, n as usize);
                self.set1(st, c, Val::c(p));
            }
            B::Dealloc => {
                let p = self.conc(st, a[0])?;
                self.dealloc(st, p)?;
            }
            B::Realloc => {
                let p = self.conc(st, a[0])?;
                let old = self.conc(st, a[1])?;
                let n = self.alloc_size(st, a[3])?;
                let q = self.alloc(st, n as usize);
                self.copy(st, q, p, old.min(n))?;
                self.dealloc(st, p)?;
                self.set1(st, c, Val::c(q));
            }
            B::Ovf(op, signed) => {
                let lanes = nl / 2;
                let w = c.rw[0] as u32;
                for k in 0..lanes {
                    let (x, y) = (a[k], a[lanes + k]);
                    let r = self.bin_val(st, op, w, x, y)?;
                    let o = self.overflow(st, op, signed, w, x, y, r)?;
                    self.setk(st, c, k as u32, r);
                    self.setk(st, c, (lanes + k) as u32, o);
                }
            }
            B::Ctlz | B::Cttz | B::Ctpop | B::Bswap | B::Bitrev | B::Abs => {
                let w = c.rw[0] as u32;
                for k in 0..nl {
                    let v = self.unary(st, b, w, a[k])?;
                    self.setk(st, c, k as u32, v);
                }
            }
            B::Fshl | B::Fshr => {
                let w = c.rw[0] as u32;
                for k in 0..nl {
                    let (x, y, s) = (a[k], a[nl + k], a[2 * nl + k]);
                    let s = self.conc(st, s)? % w as u64;
                    // shift left by s of x:y
                    let s = if b == B::Fshl { s } else { (w as u64 - s) % w as u64 };
                    let v = if s == 0 {
                        if b == B::Fshl {
                            x
                        } else {
                            y
                        }
                    } else {
                        let hi = self.bin_val(st, Bin::Shl, w, x, Val::c(s))?;
                        let lo = self.bin_val(st, Bin::LShr, w, y, Val::c(w as u64 - s))?;
                        self.bin_val(st, Bin::Or, w, hi, lo)?
                    };
                    self.setk(st, c, k as u32, v);
                }
            }
            B::Umax | B::Umin | B::Smax | B::Smin => {
                let w = c.rw[0] as u32;
                let p = match b {
                    B::Umax => Pred::Ugt,
                    B::Umin => Pred::Ult,
                    B::Smax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                for k in 0..nl {
                    let (x, y) = (a[k], a[nl + k]);
                    let t = self.cmp_val(st, p, w, x, y)?;
                    let v = self.choose(st, t, x, y, w);
                    self.setk(st, c, k as u32, v);
                }
            }
            B::UaddSat | B::UsubSat => {
                let w = c.rw[0] as u32;
                for k in 0..nl {
                    let (x, y) = (a[k], a[nl + k]);
                    let v = if b == B::UsubSat {
                        let t = self.cmp_val(st, Pred::Ult, w, x, y)?;
                        let r = self.bin_val(st, Bin::Sub, w, x, y)?;
                        self.choose(st, t, Val::c(0), r, w)
                    } else {
                        let r = self.bin_val(st, Bin::Add, w, x, y)?;
                        let t = self.cmp_val(st, Pred::Ult, w, r, x)?;
                        self.choose(st, t, Val::c(mask(w)), r, w)
                    };
                    self.setk(st, c, k as u32, v);
                }
            }
            B::SSat(op) => {
                let w = c.rw[0] as u32;
                for k in 0..nl {
                    let (x, y) = (a[k], a[nl + k]);
                    let r = self.bin_val(st, op, w, x, y)?;
                    let o = self.overflow(st, op, true, w, x, y, r)?;
                    let neg = self.cmp_val(st, Pred::Slt, w, x, Val::c(0))?;
                    let lim = self.choose(st, neg, Val::c(1u64 << (w - 1)), Val::c(mask(w - 1)), w);
                    let v = self.choose(st, o, lim, r, w);
                    self.setk(st, c, k as u32, v);
                }
            }
            B::Ucmp | B::Scmp => {
                let wr = c.rw[0] as u32;
                let w = c.aw[0] as u32;
                for k in 0..nl {
                    let (x, y) = (a[k], a[nl + k]);
                    let p = if b == B::Ucmp { Pred::Ult } else { Pred::Slt };
                    let lt = self.cmp_val(st, p, w, x, y)?;
                    let eq = self.cmp_val(st, Pred::Eq, w, x, y)?;
                    let r = self.choose(st, lt, Val::c(mask(wr)), Val::c(1), wr);
                    let r = self.choose(st, eq, Val::c(0), r, wr);
                    self.setk(st, c, k as u32, r);
                }
            }
            B::Red(op) => {
                let w = c.rw[0] as u32;
                let mut r = a[0];
                for x in &a[1..] {
                    r = self.bin_val(st, op, w, r, *x)?;
                }
                self.set1(st, c, r);
            }
            B::RedUmax | B::RedUmin => {
                let w = c.rw[0] as u32;
                let mut r = a[0];
                for x in &a[1..] {
                    let t = self.cmp_val(st, if b == B::RedUmax { Pred::Ugt } else { Pred::Ult }, w, r, *x)?;
                    r = self.choose(st, t, r, *x, w);
                }
                self.set1(st, c, r);
            }
            B::FMisc(k) => {
                let w = c.rw[0];
                let x = self.conc(st, a[0])?;
                let v = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let ws = c.aw[0];
                let tof = |x: u64| if ws == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let r = match k {
                    0 => v.floor(),
                    1 => v.ceil(),
                    2 => v.trunc(),
                    3 => v.round(),
                    4 => v.abs(),
                    5 | 6 => {
                        // saturating float to int
                        let t = tof(x);
                        let n = if k == 5 {
                            let m = mask(w as u32);
                            (t as u64).min(m)
                        } else {
                            let lim = mask(w as u32 - 1) as i64;
                            ((t as i64).clamp(-lim - 1, lim) as u64) & mask(w as u32)
                        };
                        self.set1(st, c, Val::c(n));
                        return Ok(());
                    }
                    _ => v.round_ties_even(),
                };
                self.set1(st, c, Val::c(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 }));
            }
            B::Trap => return Err(Stop::Viol("abort".into(), self.m.funcs[f as usize].pretty.clone())),
            // giving up after an error of the file system is no violation
            B::Panic if st.vfs.failed => return Err(Stop::Dead),
            B::Panic => {
                let name = self.m.funcs[f as usize].pretty.clone();
                let loc = self.location(st, a.last());
                let mut msg = name.clone();
                if a.len() >= 2 && !name.contains("bounds_check") {
                    if let Some(t) = self.text(st, a[0], a[1]) {
                        msg = format!("{}: {}", name, t);
                    }
                }
                return Err(Stop::Viol("panic".into(), format!("{} at {}", msg, loc)));
            }
            B::SymBytes => {
                let p = self.conc(st, a[0])?;
                let n = self.conc(st, a[1])?;
                let name = self.text(st, a[2], a[3]).unwrap_or_else(|| "?".into());
                let start = st.dom.len() as u32;
                for i in 0..n {
                    let e = self.new_var(st, 0)?;
                    self.store_byte(st, p + i, Val::s(e))?;
                }
                self.name_vars(st, name, start, n as u32);
            }
            B::SymAssume => {
                let v = a[0];
                if v.e == 0 {
                    if v.c & 1 == 0 {
                        return Err(Stop::Dead);
                    }
                } else {
                    match self.feasible(st, v.e)? {
                        None => return Err(Stop::Dead),
                        Some(m) => {
                            st.model = m;
                            self.constrain(st, v.e);
                        }
                    }
                }
            }
            B::SymFail => {
                let t = if a.len() >= 2 { self.text(st, a[0], a[1]) } else { None };
                return Err(Stop::Viol("assert".into(), t.unwrap_or_default()));
            }
            B::SymReach => {
                let k = self.conc(st, a[0])?;
                st.reach |= 1 << k;
            }
            B::SymEmit => {
                let p = self.conc(st, a[0])?;
                let n = self.conc(st, a[1])?;
                let v = self.read_bytes(st, p, n)?;
                Rc::make_mut(&mut st.emit).extend(v);
            }
            B::SymParam => {
                let k = self.conc(st, a[0])? as usize;
                match self.cfg.params.get(k) {
                    Some(v) => self.set1(st, c, Val::c(*v)),
                    None => return Err(Stop::Fatal(format!("parameter {} not given", k))),
                }
            }
            B::SymConcrete => {
                let v = self.conc(st, a[0])?;
                self.set1(st, c, Val::c(v));
            }
            B::SymPick => {
                let n = self.conc(st, a[0])?;
                let v = self.pick(st, "pick", n)?;
                self.set1(st, c, Val::c(v));
            }
            B::SymHashPerm => {
                st.hash_perm = self.conc(st, a[0])? as u32;
                Rc::make_mut(&mut st.hash_keys).clear();
            }
            B::HashWrite => {
                let s = self.conc(st, a[0])?;
                let mix = |h: u64, x: u64| (h.rotate_left(7) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
                let add = if a.len() == 2 {
                    self.conc(st, a[1])?
                } else {
                    let n = self.conc(st, a[2])?;
                    let mut r = n;
                    if st.hash_perm > 0 && n > 0 {
                        let p = self.conc(st, a[1])?;
                        // a fresh hasher starts with the keys of its map
                        let of = self.load(st, s, 8, 64)?;
                        let of = self.conc(st, of)?;
                        let mut key = of.to_le_bytes().to_vec();
                        for i in 0..n {
                            let v = self.byte(st, p + i)?;
                            key.push(self.conc(st, v)? as u8);
                        }
                        let known = st.hash_keys.iter().find(|x| x.0 == key).map(|x| x.1);
                        let h = match known {
                            Some(h) => h as u64,
                            None => {
                                let n = st.hash_perm as u64;
                                let v = self.pick(st, "hash", n)?;
                                Rc::make_mut(&mut st.hash_keys).push((key, v as u8));
                                v
                            }
                        };
                        // this bucket number comes out of `finish` unmixed
                        r = 0xA500_0000_0000_0000 | h;
                        self.store(st, s, 8, 64, Val::c(r))?;
                        return Ok(());
                    }
                    r
                };
                let old = self.load(st, s, 8, 64)?;
                if old.e == 0 && old.c >> 56 == 0xA5 && st.hash_perm > 0 {
                    return Ok(());
                }
                let v = mix(self.conc(st, old)?, add) & 0x00ff_ffff_ffff_ffff;
                self.store(st, s, 8, 64, Val::c(v))?;
            }
            B::HashFinish => {
                let s = self.conc(st, a[0])?;
                let v = self.load(st, s, 8, 64)?;
                let v = self.conc(st, v)?;
                let r = if v >> 56 == 0xA5 {
                    v & 0xff
                } else {
                    let x = v.wrapping_mul(0xff51afd7ed558ccd);
                    x ^ (x >> 31)
                };
                self.set1(st, c, Val::c(r));
            }
            B::RandomKeys => {
                self.setk(st, c, 0, Val::c(1));
                self.setk(st, c, 1, Val::c(2));
            }
            B::IsFile => {
                let n = self.conc(st, a[1])?;
                let p = if n > 0 { self.conc(st, a[0])? } else { 0 };
                let name = self.read_bytes(st, p, n)?;
                let r = self.vfs_find(st, &name)?;
                self.set1(st, c, Val::c(r.is_some() as u64));
            }
            B::Libc(l) => self.call_libc(st, l, a, c)?,
        }
        Ok(())
    }

    fn conc_trunc8(&mut self, st: &mut State, v: Val) -> R<u64> {
        Ok(self.conc(st, v)? & 0xff)
    }

    fn alloc_size(&mut self, st: &mut State, v: Val) -> R<u64> {
        let lim = self.cfg.alloc_limit;
        if v.e != 0 {
            let t = self.cmp_val(st, Pred::Ugt, 64, v, Val::c(lim))?;
            let big = if t.e == 0 { t.c == 1 } else { self.decide(st, t.e)? };
            if big {
                let n = self.ex.eval(v.e, &st.model);
                return Err(Stop::Viol("alloc".into(), format!("allocation of {} bytes", n)));
            }
        }
        let n = self.conc(st, v)?;
        if n > lim {
            return Err(Stop::Viol("alloc".into(), format!("allocation of {} bytes", n)));
        }
        Ok(n)
    }

    pub fn choose(&mut self, st: &State, t: Val, x: Val, y: Val, w: u32) -> Val {
        if t.e == 0 {
            return if t.c & 1 == 1 { x } else { y };
        }
        let _ = st;
        let (a, b) = (self.id(x, w), self.id(y, w));
        let e = self.ex.ite(t.e, a, b);
        self.norm(e)
    }

    fn overflow(&mut self, st: &State, op: Bin, signed: bool, w: u32, x: Val, y: Val, r: Val) -> R<Val> {
        if x.e == 0 && y.e == 0 && w <= 64 {
            let o = if signed {
                let (a, b) = (sext64(x.c, w) as i128, sext64(y.c, w) as i128);
                let t = match op {
                    Bin::Add => a + b,
                    Bin::Sub => a - b,
                    _ => a * b,
                };
                t != sext64(r.c, w) as i128
            } else {
                let (a, b) = (x.c as u128, y.c as u128);
                match op {
                    Bin::Add => a + b > mask(w) as u128,
                    Bin::Sub => a < b,
                    _ => a * b > mask(w) as u128,
                }
            };
            return Ok(Val::c(o as u64));
        }
        if !signed {
            match op {
                Bin::Add => return self.cmp_val(st, Pred::Ult, w, r, x),
                Bin::Sub => return self.cmp_val(st, Pred::Ult, w, x, y),
                _ => {}
            }
        }
        if w > 64 {
            return Err(Stop::Fatal("wide overflow check".into()));
        }
        let (a, b) = (self.id(x, w), self.id(y, w));
        let w2 = 2 * w;
        let (a2, b2) = if signed { (self.ex.sext(a, w2), self.ex.sext(b, w2)) } else { (self.ex.zext(a, w2), self.ex.zext(b, w2)) };
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            _ => Op::Mul,
        };
        let full = self.ex.bin(o, a2, b2);
        let r1 = self.id(r, w);
        let r2 = if signed { self.ex.sext(r1, w2) } else { self.ex.zext(r1, w2) };
        let eq = self.ex.cmp(Op::Eq, full, r2);
        let ne = self.ex.not(eq);
        Ok(self.norm(ne))
    }

    fn unary(&mut self, st: &mut State, b: B, w: u32, x: Val) -> R<Val> {
        if x.e == 0 && w <= 64 {
            let v = x.c;
            return Ok(Val::c(match b {
                B::Ctlz => {
                    if v == 0 {
                        w as u64
                    } else {
                        v.leading_zeros() as u64 - (64 - w as u64)
                    }
                }
                B::Cttz => {
                    if v == 0 {
                        w as u64
                    } else {
                        v.trailing_zeros() as u64
                    }
                }
                B::Ctpop => v.count_ones() as u64,
                B::Bswap => v.swap_bytes() >> (64 - w),
                B::Bitrev => v.reverse_bits() >> (64 - w),
                _ => (sext64(v, w).wrapping_abs() as u64) & mask(w),
            }));
        }
        let e = self.id(x, w);
        let r = match b {
            B::Bswap => {
                let n = w / 8;
                let mut cur = self.ex.extract(e, w - 8, 8);
                for i in 1..n {
                    let p = self.ex.extract(e, w - 8 * (i + 1), 8);
                    cur = self.ex.concat(p, cur);
                }
                cur
            }
            B::Bitrev => {
                let mut cur = self.ex.extract(e, w - 1, 1);
                for i in 1..w {
                    let p = self.ex.extract(e, w - 1 - i, 1);
                    cur = self.ex.concat(p, cur);
                }
                cur
            }
            B::Ctpop => {
                let mut cur = self.ex.cst(w, 0);
                for i in 0..w {
                    let p = self.ex.extract(e, i, 1);
                    let p = self.ex.zext(p, w);
                    cur = self.ex.bin(Op::Add, cur, p);
                }
                cur
            }
            B::Ctlz | B::Cttz => {
                let mut cur = self.ex.cst(w, w as u64);
                for k in 0..w {
                    // lowest priority first
                    let i = if b == B::Ctlz { k } else { w - 1 - k };
                    let p = self.ex.extract(e, i, 1);
                    let val = if b == B::Ctlz { w - 1 - i } else { i };
                    let vc = self.ex.cst(w, val as u64);
                    cur = self.ex.ite(p, vc, cur);
                }
                cur
            }
            _ => {
                let z = self.ex.cst(w, 0);
                let neg = self.ex.cmp(Op::Slt, e, z);
                let m = self.ex.bin(Op::Sub, z, e);
                self.ex.ite(neg, m, e)
            }
        };
        let _ = st;
        Ok(self.norm(r))
    }
}

pub fn classify(f: &Func) -> B {
    let n = f.name.as_str();
    let p = f.pretty.as_str();
    if let Some(r) = n.strip_prefix("llvm.") {
        let pre = |s: &str| r.starts_with(s);
        return if pre("memcpy.") || pre("memmove.") {
            B::Memcpy
        } else if pre("memset.") {
            B::Memset
        } else if pre("uadd.with") {
            B::Ovf(Bin::Add, false)
        } else if pre("usub.with") {
            B::Ovf(Bin::Sub, false)
        } else if pre("umul.with") {
            B::Ovf(Bin::Mul, false)
        } else if pre("sadd.with") {
            B::Ovf(Bin::Add, true)
        } else if pre("ssub.with") {
            B::Ovf(Bin::Sub, true)
        } else if pre("smul.with") {
            B::Ovf(Bin::Mul, true)
        } else if pre("ctlz.") {
            B::Ctlz
        } else if pre("cttz.") {
            B::Cttz
        } else if pre("ctpop.") {
            B::Ctpop
        } else if pre("fshl.") {
            B::Fshl
        } else if pre("fshr.") {
            B::Fshr
        } else if pre("bswap.") {
            B::Bswap
        } else if pre("bitreverse.") {
            B::Bitrev
        } else if pre("umax.") {
            B::Umax
        } else if pre("umin.") {
            B::Umin
        } else if pre("smax.") {
            B::Smax
        } else if pre("smin.") {
            B::Smin
        } else if pre("uadd.sat") {
            B::UaddSat
        } else if pre("usub.sat") {
            B::UsubSat
        } else if pre("sadd.sat") {
            B::SSat(Bin::Add)
        } else if pre("ssub.sat") {
            B::SSat(Bin::Sub)
        } else if pre("abs.") {
            B::Abs
        } else if pre("ucmp.") {
            B::Ucmp
        } else if pre("scmp.") {
            B::Scmp
        } else if pre("expect.") || pre("threadlocal.address") || pre("launder") || pre("strip.invariant") || pre("ptrmask") {
            B::First
        } else if pre("is.constant") {
            B::Zero
        } else if pre("vector.reduce.add") {
            B::Red(Bin::Add)
        } else if pre("vector.reduce.or") {
            B::Red(Bin::Or)
        } else if pre("vector.reduce.and") {
            B::Red(Bin::And)
        } else if pre("vector.reduce.mul") {
            B::Red(Bin::Mul)
        } else if pre("vector.reduce.xor") {
            B::Red(Bin::Xor)
        } else if pre("vector.reduce.umax") {
            B::RedUmax
        } else if pre("vector.reduce.umin") {
            B::RedUmin
        } else if pre("floor.") {
            B::FMisc(0)
        } else if pre("ceil.") {
            B::FMisc(1)
        } else if pre("trunc.") {
            B::FMisc(2)
        } else if pre("round.") {
            B::FMisc(3)
        } else if pre("fabs.") {
            B::FMisc(4)
        } else if pre("fptoui.sat") {
            B::FMisc(5)
        } else if pre("fptosi.sat") {
            B::FMisc(6)
        } else if pre("roundeven.") || pre("rint.") || pre("nearbyint.") {
            B::FMisc(7)
        } else if pre("trap") || pre("ubsantrap") || pre("debugtrap") {
            B::Trap
        } else if pre("x86.sse2.pause") || pre("lifetime") || pre("assume") {
            B::Nothing
        } else {
            B::None
        };
    }
    match n {
        "memcpy" | "memmove" => return B::Memcpy,
        "memset" => return B::Memset,
        "memcmp" => return B::Memcmp,
        "bcmp" => return B::Bcmp,
        "strlen" => return B::Strlen,
        "__sym_bytes" => return B::SymBytes,
        "__sym_assume" => return B::SymAssume,
        "__sym_fail" => return B::SymFail,
        "__sym_reach" => return B::SymReach,
        "__sym_emit" => return B::SymEmit,
        "__sym_param" => return B::SymParam,
        "__sym_concrete" => return B::SymConcrete,
        "__sym_pick" => return B::SymPick,
        "__sym_hash_perm" => return B::SymHashPerm,
        _ => {}
    }
    if let Some(l) = crate::libc::classify(n) {
        return B::Libc(l);
    }
    if p.starts_with("__rustc::") || n.contains("7___rustc") {
        if p.ends_with("__rust_alloc") {
            return B::Alloc;
        }
        if p.ends_with("__rust_alloc_zeroed") {
            return B::AllocZ;
        }
        if p.ends_with("__rust_dealloc") {
            return B::Dealloc;
        }
        if p.ends_with("__rust_realloc") {
            return B::Realloc;
        }
        if p.contains("__rust_no_alloc_shim_is_unstable") {
            return B::Nothing;
        }
        if p.contains("__rust_alloc_error_handler") || p.contains("rust_begin_unwind") || p.contains("__rust_start_panic") || p.contains("rust_panic") {
            return B::Panic;
        }
    }
    const PANICS: &[&str] = &[
        "core::panicking::",
        "std::panicking::begin_panic",
        "std::panicking::panic_with_hook",
        "std::panicking::rust_panic",
        "core::slice::index::slice_",
        "core::str::slice_error_fail",
        "core::option::expect_failed",
        "core::option::unwrap_failed",
        "core::result::unwrap_failed",
        "core::cell::panic_already",
        "alloc::alloc::handle_alloc_error",
        "alloc::raw_vec::handle_error",
        "alloc::raw_vec::capacity_overflow",
        "std::process::abort",
        "std::alloc::rust_oom",
    ];
    for q in PANICS {
        if p.starts_with(q) {
            if *q == "core::slice::index::slice_" && !p.contains("fail") {
                continue;
            }
            return B::Panic;
        }
    }
    if p.ends_with("::assert_failed") || p.ends_with("::len_mismatch_fail") {
        return B::Panic;
    }
    if p.contains("DefaultHasher as core::hash::Hasher>::write") {
        return B::HashWrite;
    }
    if p.contains("DefaultHasher as core::hash::Hasher>::finish") {
        return B::HashFinish;
    }
    if p.ends_with("hashmap_random_keys") {
        return B::RandomKeys;
    }
    if p == "<std::path::Path>::is_file" || p == "<std::path::Path>::exists" {
        return B::IsFile;
    }
    B::None
}
