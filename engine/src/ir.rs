//! Parser and decoder for the subset of textual LLVM IR that rustc produces.
//!
//! Every SSA value is flattened to scalar slots (aggregates and vectors take
//! one slot per element), so the executor only deals with scalars.

use crate::lex::{unescape_bytes, Lexer, Tok};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    St(Rc<Vec<Ty>>, bool),
    Vect(u64, Rc<Ty>),
    Meta,
    Label,
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::St(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vect(..) => {
                let s = self.size();
                s.next_power_of_two().max(1)
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(ts, packed) => {
                let mut off = 0u64;
                let mut al = 1;
                for t in ts.iter() {
                    let a = if *packed { 1 } else { t.align() };
                    al = al.max(a);
                    off = (off + a - 1) / a * a + t.size();
                }
                (off + al - 1) / al * al
            }
            Ty::Vect(n, t) => match **t {
                Ty::I(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::St(ts, packed) => {
                let mut off = 0u64;
                for (k, t) in ts.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    off = (off + a - 1) / a * a;
                    if k == i {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field out of range")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vect(_, t) => i as u64 * t.size(),
            _ => panic!("field of scalar"),
        }
    }
    fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::St(ts, _) => ts[i].clone(),
            Ty::Arr(_, t) | Ty::Vect(_, t) => (**t).clone(),
            _ => panic!("elem of scalar"),
        }
    }
    /// scalar leaves as (width in bits, byte offset, is pointer)
    pub fn leaves(&self, base: u64, out: &mut Vec<(u32, u64, bool)>) {
        match self {
            Ty::I(w) => out.push((*w, base, false)),
            Ty::Ptr => out.push((64, base, true)),
            Ty::F64 => out.push((64, base, false)),
            Ty::F32 => out.push((32, base, false)),
            Ty::Arr(n, t) | Ty::Vect(n, t) => {
                for i in 0..*n {
                    t.leaves(base + i * t.size(), out);
                }
            }
            Ty::St(ts, _) => {
                for i in 0..ts.len() {
                    ts[i].leaves(base + self.field_offset(i), out);
                }
            }
            _ => {}
        }
    }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::I(_) | Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Arr(n, t) | Ty::Vect(n, t) => *n as u32 * t.nslots(),
            Ty::St(ts, _) => ts.iter().map(|t| t.nslots()).sum(),
            _ => 0,
        }
    }
    fn slot_of_field(&self, i: usize) -> u32 {
        match self {
            Ty::St(ts, _) => ts[..i].iter().map(|t| t.nslots()).sum(),
            Ty::Arr(_, t) | Ty::Vect(_, t) => i as u32 * t.nslots(),
            _ => 0,
        }
    }
    fn is_vec(&self) -> bool {
        matches!(self, Ty::Vect(..))
    }
    fn scalar_width(&self) -> u32 {
        match self {
            Ty::I(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vect(_, t) => t.scalar_width(),
            _ => 0,
        }
    }
    fn is_ptr(&self) -> bool {
        match self {
            Ty::Ptr => true,
            Ty::Vect(_, t) => t.is_ptr(),
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum O {
    R(u32),
    C(u64),
    /// constant wider than 64 bits: index into Module::wide
    W(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FCast {
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    UMax,
    UMin,
}

#[derive(Debug)]
pub struct Edge {
    pub pc: u32,
    pub copies: Box<[(u32, O)]>,
    pub serial: bool,
}

#[derive(Debug)]
pub struct SwitchD {
    pub v: O,
    pub w: u8,
    pub cases: Vec<(u64, u32)>,
    pub default: u32,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Func(u32),
    Ind(O),
    Asm,
}

#[derive(Debug)]
pub struct CallD {
    pub callee: Callee,
    pub args: Box<[O]>,
    pub d: u32,
    pub nret: u32,
    /// widths of arguments (flattened) and of the result leaves
    pub aw: Box<[u8]>,
    pub rw: Box<[u8]>,
    /// edge to follow after the call returns (invoke), or u32::MAX
    pub cont: u32,
}

#[derive(Debug)]
pub enum I {
    Bin(Bin, u8, u32, O, O),
    Cmp(Pred, u8, u32, O, O),
    FBin(FOp, u8, u32, O, O),
    FCmp(u8, u8, u32, O, O),
    FCast(FCast, u8, u8, u32, O),
    FNeg(u8, u32, O),
    Zext(u8, u8, u32, O),
    Sext(u8, u8, u32, O),
    Trunc(u8, u8, u32, O),
    Mov(u32, O),
    /// several parallel moves
    Movs(Box<[(u32, O)]>),
    Pack(u32, Box<[O]>, u8),
    Unpack(u32, u32, u8, O),
    Select(u8, bool, u32, O, O, O),
    Load(u32, u8, u8, O, u64),
    Store(u8, u8, O, O, u64),
    Gep(u32, O, u64, Box<[(O, u8, u64)]>),
    Gep1(u32, O, O, u64, u64),
    GepC(u32, O, u64),
    Alloca(u32, u32),
    DynAlloca(u32, O, u64),
    ExtElt(u32, Box<[O]>, O),
    InsElt(u32, Box<[O]>, O, O),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Box<SwitchD>),
    Ret(Box<[O]>),
    Unreachable,
    Call(Box<CallD>),
    AtomicRmw(Rmw, u8, u32, O, O),
    CmpXchg(u8, u32, O, O, O),
    Trap(&'static str),
    Unsupported(Box<str>),
    Nop,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub defined: bool,
    pub nslots: u32,
    pub nargs: u32,
    pub frame: u32,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pos: usize,
}

pub struct Global {
    pub name: String,
    pub constant: bool,
    pub external: bool,
    pub data: Vec<u8>,
    ty: Ty,
    pos: usize,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub fmap: HashMap<String, u32>,
    pub gmap: HashMap<String, u32>,
    pub wide: Vec<(u64, u64, u32)>,
    types: HashMap<String, Ty>,
}

pub const FN_BASE: u64 = 0x7000_0000;
/// globals take object indexes 1..=globals.len()
pub fn global_addr(i: u32) -> u64 {
    ((i as u64) + 1) << 32
}
pub fn func_addr(i: u32) -> u64 {
    (FN_BASE + i as u64) << 32
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

struct P<'a> {
    lx: Lexer<'a>,
    src: &'a str,
}

impl<'a> P<'a> {
    fn next(&mut self) -> Tok<'a> {
        self.lx.next()
    }
    fn peek(&mut self) -> Tok<'a> {
        self.lx.peek()
    }
    fn eat(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            self.fail(&format!("expected {:?}, got {:?}", c as char, t));
        }
    }
    fn try_eat(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn try_word(&mut self, w: &str) -> bool {
        if self.peek() == Tok::Word(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn fail(&self, m: &str) -> ! {
        let p = self.lx.pos.min(self.src.len());
        let s = self.src[..p].rfind('\n').map(|x| x + 1).unwrap_or(0);
        let e = self.src[p..].find('\n').map(|x| x + p).unwrap_or(self.src.len());
        std::panic::panic_any(format!("{} in: {}", m, self.src[s..e].trim()))
    }
    fn skip_line(&mut self) {
        let b = self.src.as_bytes();
        while self.lx.pos < b.len() && b[self.lx.pos] != b'\n' {
            self.lx.pos += 1;
        }
    }
    /// after an opening bracket has been consumed, skip to its match
    fn skip_balanced(&mut self) {
        let mut depth = 1;
        while depth > 0 {
            match self.next() {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => depth += 1,
                Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') | Tok::P(b'>') => depth -= 1,
                Tok::Eof => self.fail("unbalanced"),
                _ => {}
            }
        }
    }
}

fn int_ty(w: &str) -> Option<u32> {
    let b = w.as_bytes();
    if b.len() >= 2 && b[0] == b'i' && b[1..].iter().all(|c| c.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

fn is_ty_word(w: &str) -> bool {
    matches!(
        w,
        "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128" | "x86_fp80" | "bfloat"
    ) || int_ty(w).is_some()
}

impl Module {
    fn parse_ty(&self, p: &mut P) -> Ty {
        let t = p.next();
        let ty = match t {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => Ty::Other,
                _ => match int_ty(w) {
                    Some(n) => Ty::I(n),
                    None => p.fail(&format!("type {}", w)),
                },
            },
            Tok::P(b'[') => {
                let n: u64 = match p.next() {
                    Tok::Num(s) => s.parse().unwrap(),
                    _ => p.fail("array len"),
                };
                p.next(); // x
                let e = self.parse_ty(p);
                p.eat(b']');
                Ty::Arr(n, Rc::new(e))
            }
            Tok::P(b'<') => {
                if p.peek() == Tok::P(b'{') {
                    p.next();
                    let mut v = vec![];
                    if !p.try_eat(b'}') {
                        loop {
                            v.push(self.parse_ty(p));
                            if !p.try_eat(b',') {
                                break;
                            }
                        }
                        p.eat(b'}');
                    }
                    p.eat(b'>');
                    Ty::St(Rc::new(v), true)
                } else {
                    let n: u64 = match p.next() {
                        Tok::Num(s) => s.parse().unwrap(),
                        _ => p.fail("vector len"),
                    };
                    p.next(); // x
                    let e = self.parse_ty(p);
                    p.eat(b'>');
                    Ty::Vect(n, Rc::new(e))
                }
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                if !p.try_eat(b'}') {
                    loop {
                        v.push(self.parse_ty(p));
                        if !p.try_eat(b',') {
                            break;
                        }
                    }
                    p.eat(b'}');
                }
                Ty::St(Rc::new(v), false)
            }
            Tok::Local(n) => match self.types.get(n) {
                Some(t) => t.clone(),
                None => p.fail("named type"),
            },
            _ => p.fail(&format!("type token {:?}", t)),
        };
        ty
    }

    /// Skips attribute words before a value or type.
    fn skip_attrs(&self, p: &mut P, stop_at_type: bool) {
        loop {
            match p.peek() {
                Tok::Word(w) => {
                    if stop_at_type && is_ty_word(w) {
                        return;
                    }
                    if matches!(
                        w,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr"
                            | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "add" | "sub" | "mul" | "xor"
                            | "splat" | "asm" | "blockaddress" | "addrspacecast" | "dso_local_equivalent" | "no_cfi"
                    ) {
                        return;
                    }
                    p.next();
                    if w == "align" || w == "cc" {
                        if let Tok::Num(_) = p.peek() {
                            p.next();
                        }
                    }
                    if p.peek() == Tok::P(b'(') {
                        p.next();
                        p.skip_balanced();
                    } else if w == "dead_on_return" && p.peek() == Tok::P(b'[') {
                        p.next();
                        p.skip_balanced();
                    }
                }
                Tok::Attr(_) | Tok::Str(_) => {
                    p.next();
                    if p.peek() == Tok::P(b'=') {
                        p.next();
                        p.next();
                    }
                }
                _ => return,
            }
        }
    }

    fn global_ref(&self, p: &P, n: &str) -> u64 {
        if let Some(g) = self.gmap.get(n) {
            global_addr(*g)
        } else if let Some(f) = self.fmap.get(n) {
            func_addr(*f)
        } else {
            p.fail(&format!("unknown global {}", n))
        }
    }

    fn parse_num(&mut self, p: &P, ty: &Ty, s: &str) -> O {
        match ty {
            Ty::I(w) if *w > 64 => {
                let neg = s.starts_with('-');
                let v: u128 = s.trim_start_matches('-').parse().unwrap();
                let v = if neg { v.wrapping_neg() } else { v };
                let v = if *w < 128 { v & ((1u128 << w) - 1) } else { v };
                self.wide.push((v as u64, (v >> 64) as u64, *w));
                O::W(self.wide.len() as u32 - 1)
            }
            Ty::I(w) => {
                let v: u64 = if s.starts_with('-') {
                    s.parse::<i64>().unwrap() as u64
                } else {
                    s.parse::<u64>().unwrap()
                };
                O::C(v & mask(*w))
            }
            Ty::F64 | Ty::F32 => {
                // the bits of the number in its own width
                if let Some(h) = s.strip_prefix("f0x") {
                    return O::C(u64::from_str_radix(h, 16).unwrap());
                }
                let d = if let Some(h) = s.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                } else {
                    s.parse::<f64>().unwrap()
                };
                if *ty == Ty::F64 {
                    O::C(d.to_bits())
                } else {
                    O::C((d as f32).to_bits() as u64)
                }
            }
            _ => p.fail("number of non-int type"),
        }
    }

    /// Parses a constant of type `ty` to flattened slots.
    fn parse_const(&mut self, p: &mut P, ty: &Ty, out: &mut Vec<O>) {
        let t = p.next();
        match t {
            Tok::Num(s) => {
                let o = self.parse_num(p, ty, s);
                out.push(o)
            }
            Tok::Word("true") => out.push(O::C(1)),
            Tok::Word("false") => out.push(O::C(0)),
            Tok::Word("null") => out.push(O::C(0)),
            Tok::Word("none") => {}
            Tok::Word("undef") | Tok::Word("poison") | Tok::Word("zeroinitializer") => {
                let mut l = vec![];
                ty.leaves(0, &mut l);
                for (w, _, _) in l {
                    if w > 64 {
                        self.wide.push((0, 0, w));
                        out.push(O::W(self.wide.len() as u32 - 1));
                    } else {
                        out.push(O::C(0))
                    }
                }
            }
            Tok::Word("splat") => {
                p.eat(b'(');
                let et = self.parse_ty(p);
                let mut v = vec![];
                self.parse_const(p, &et, &mut v);
                p.eat(b')');
                if let Ty::Vect(n, _) = ty {
                    for _ in 0..*n {
                        out.extend_from_slice(&v);
                    }
                } else {
                    p.fail("splat");
                }
            }
            Tok::Global(n) => {
                let a = self.global_ref(p, n);
                out.push(O::C(a));
            }
            Tok::CStr(s) => {
                for b in unescape_bytes(s) {
                    out.push(O::C(b as u64));
                }
            }
            Tok::P(b'{') | Tok::P(b'[') => {
                let close = if t == Tok::P(b'{') { b'}' } else { b']' };
                if !p.try_eat(close) {
                    loop {
                        let et = self.parse_ty(p);
                        self.parse_const(p, &et, out);
                        if !p.try_eat(b',') {
                            break;
                        }
                    }
                    p.eat(close);
                }
            }
            Tok::P(b'<') => {
                let packed = p.try_eat(b'{');
                if packed && p.try_eat(b'}') {
                    p.eat(b'>');
                    return;
                }
                loop {
                    let et = self.parse_ty(p);
                    self.parse_const(p, &et, out);
                    if !p.try_eat(b',') {
                        break;
                    }
                }
                if packed {
                    p.eat(b'}');
                }
                p.eat(b'>');
            }
            Tok::Word("getelementptr") => {
                while let Tok::Word(w) = p.peek() {
                    if is_ty_word(w) {
                        break;
                    }
                    p.next();
                    if p.peek() == Tok::P(b'(') && w == "inrange" {
                        p.next();
                        p.skip_balanced();
                    }
                }
                p.eat(b'(');
                let bt = self.parse_ty(p);
                p.eat(b',');
                let pt = self.parse_ty(p);
                let mut b = vec![];
                self.parse_const(p, &pt, &mut b);
                let mut addr = match b[0] {
                    O::C(a) => a,
                    _ => p.fail("gep base"),
                };
                let mut cur = bt;
                let mut first = true;
                while p.try_eat(b',') {
                    let it = self.parse_ty(p);
                    let mut v = vec![];
                    self.parse_const(p, &it, &mut v);
                    let k = match v[0] {
                        O::C(c) => sext64(c, it.scalar_width()),
                        _ => p.fail("gep idx"),
                    };
                    if first {
                        addr = addr.wrapping_add((k as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        addr = match &cur {
                            Ty::St(..) => addr + cur.field_offset(k as usize),
                            _ => addr.wrapping_add((k as u64).wrapping_mul(cur.elem(0).size())),
                        };
                        cur = cur.elem(k.max(0) as usize);
                    }
                }
                p.eat(b')');
                out.push(O::C(addr));
            }
            Tok::Word("inttoptr") | Tok::Word("ptrtoint") | Tok::Word("ptrtoaddr") | Tok::Word("bitcast") | Tok::Word("trunc") => {
                p.eat(b'(');
                let st = self.parse_ty(p);
                let mut v = vec![];
                self.parse_const(p, &st, &mut v);
                p.next(); // to
                let tt = self.parse_ty(p);
                p.eat(b')');
                match v[0] {
                    O::C(c) => out.push(O::C(c & mask(tt.scalar_width()))),
                    _ => p.fail("const cast"),
                }
            }
            Tok::Word(op @ ("add" | "sub" | "mul" | "xor")) => {
                while let Tok::Word(_) = p.peek() {
                    p.next();
                }
                p.eat(b'(');
                let t1 = self.parse_ty(p);
                let mut a = vec![];
                self.parse_const(p, &t1, &mut a);
                p.eat(b',');
                let t2 = self.parse_ty(p);
                let mut b = vec![];
                self.parse_const(p, &t2, &mut b);
                p.eat(b')');
                match (a[0], b[0]) {
                    (O::C(a), O::C(b)) => {
                        let r = match op {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        out.push(O::C(r & mask(t1.scalar_width())))
                    }
                    _ => p.fail("const arith"),
                }
            }
            _ => p.fail(&format!("constant {:?}", t)),
        }
    }

    pub fn parse(src: &str) -> Module {
        let mut m = Module {
            funcs: vec![],
            globals: vec![],
            fmap: HashMap::new(),
            gmap: HashMap::new(),
            wide: vec![],
            types: HashMap::new(),
        };
        // pass 1: symbols
        let mut p = P { lx: Lexer::new(src), src };
        loop {
            let start = p.lx.pos;
            match p.next() {
                Tok::Eof => break,
                Tok::Global(name) => {
                    p.eat(b'=');
                    let mut external = false;
                    let mut constant = false;
                    let mut alias = false;
                    loop {
                        match p.next() {
                            Tok::Word("global") => break,
                            Tok::Word("constant") => {
                                constant = true;
                                break;
                            }
                            Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                            Tok::Word("alias") => {
                                alias = true;
                                break;
                            }
                            Tok::Word(_) => {
                                if p.peek() == Tok::P(b'(') {
                                    p.next();
                                    p.skip_balanced();
                                }
                            }
                            t => p.fail(&format!("global {:?}", t)),
                        }
                    }
                    if alias {
                        p.fail("alias not supported");
                    }
                    let ty = m.parse_ty(&mut p);
                    m.gmap.insert(name.to_string(), m.globals.len() as u32);
                    m.globals.push(Global {
                        name: name.to_string(),
                        constant,
                        external,
                        data: vec![],
                        ty,
                        pos: p.lx.pos,
                    });
                    p.skip_line();
                }
                Tok::Word(w) if w == "define" || w == "declare" => {
                    let is_def = w == "define";
                    // find the function name: first global token
                    let name = loop {
                        match p.next() {
                            Tok::Global(n) => break n,
                            Tok::Eof => p.fail("define"),
                            _ => {}
                        }
                    };
                    m.fmap.insert(name.to_string(), m.funcs.len() as u32);
                    m.funcs.push(Func {
                        name: name.to_string(),
                        pretty: crate::demangle::demangle(name),
                        defined: is_def,
                        nslots: 0,
                        nargs: 0,
                        frame: 0,
                        code: vec![],
                        edges: vec![],
                        pos: p.lx.pos,
                    });
                    if is_def {
                        let e = src[p.lx.pos..].find("\n}").expect("function end");
                        p.lx.pos += e + 2;
                    } else {
                        p.skip_line();
                    }
                }
                Tok::Local(name) => {
                    p.eat(b'=');
                    p.next();
                    if p.peek() == Tok::Word("opaque") {
                        p.skip_line();
                    } else {
                        let t = m.parse_ty(&mut p);
                        m.types.insert(name.to_string(), t);
                    }
                }
                _ => p.skip_line(),
            }
        }
        // pass 2: initializers
        for gi in 0..m.globals.len() {
            if m.globals[gi].external {
                let n = m.globals[gi].ty.size() as usize;
                m.globals[gi].data = vec![0; n.max(8)];
                continue;
            }
            p.lx.pos = m.globals[gi].pos;
            let ty = m.globals[gi].ty.clone();
            let mut vals = vec![];
            m.parse_const(&mut p, &ty, &mut vals);
            let mut leaves = vec![];
            ty.leaves(0, &mut leaves);
            assert_eq!(leaves.len(), vals.len(), "initializer of {}", m.globals[gi].name);
            let mut data = vec![0u8; ty.size() as usize];
            for ((w, off, _), v) in leaves.iter().zip(vals.iter()) {
                let n = (*w as usize + 7) / 8;
                let bytes: [u8; 16] = match v {
                    O::C(c) => (*c as u128).to_le_bytes(),
                    O::W(i) => {
                        let (lo, hi, _) = m.wide[*i as usize];
                        ((lo as u128) | ((hi as u128) << 64)).to_le_bytes()
                    }
                    O::R(_) => unreachable!(),
                };
                data[*off as usize..*off as usize + n].copy_from_slice(&bytes[..n]);
            }
            m.globals[gi].data = data;
        }
        // pass 3: bodies
        for fi in 0..m.funcs.len() {
            if m.funcs[fi].defined {
                p.lx.pos = m.funcs[fi].pos;
                let whole = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| FnParser::run(&mut m, &mut p, fi, true)));
                // only a problem when the function is called
                if let Err(e) = whole {
                    let t = match e.downcast_ref::<String>() {
                        Some(t) => t.clone(),
                        None => "unknown construct".to_string(),
                    };
                    p.lx.pos = m.funcs[fi].pos;
                    FnParser::run(&mut m, &mut p, fi, false);
                    m.funcs[fi].code = vec![I::Unsupported(t.into_boxed_str())];
                }
            }
        }
        m
    }
}

struct Phi {
    slot: u32,
    ty: Ty,
    inc: Vec<(Vec<O>, String)>,
}

struct FnParser<'m> {
    m: &'m mut Module,
    regs: HashMap<String, (u32, u32)>,
    nslots: u32,
    code: Vec<I>,
    frame: u64,
    blocks: HashMap<String, u32>,
    phis: HashMap<String, Vec<Phi>>,
    /// edges as (from, to)
    edges: Vec<(String, String)>,
    cur: String,
}

impl<'m> FnParser<'m> {
    fn run(m: &'m mut Module, p: &mut P, fi: usize, body: bool) {
        let mut f = FnParser {
            m,
            regs: HashMap::new(),
            nslots: 0,
            code: vec![],
            frame: 0,
            blocks: HashMap::new(),
            phis: HashMap::new(),
            edges: vec![],
            cur: String::new(),
        };
        // parameters
        p.eat(b'(');
        let mut unnamed = 0u32;
        if !p.try_eat(b')') {
            loop {
                if p.peek() == Tok::Word("...") {
                    p.next();
                    break;
                }
                let ty = f.m.parse_ty(p);
                f.m.skip_attrs(p, false);
                if let Tok::Local(n) = p.next() {
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    f.reg(n, ty.nslots());
                } else {
                    p.fail("parameter name");
                }
                if !p.try_eat(b',') {
                    break;
                }
            }
            p.eat(b')');
        }
        let nargs = f.nslots;
        // skip to '{'
        let b = p.src.as_bytes();
        while b[p.lx.pos] != b'\n' {
            p.lx.pos += 1;
        }
        f.cur = unnamed.to_string();
        if let Tok::Label(_) = p.peek() {
        } else {
            f.blocks.insert(f.cur.clone(), 0);
        }
        while body {
            match p.next() {
                Tok::Label(n) => {
                    f.cur = n.to_string();
                    f.blocks.insert(n.to_string(), f.code.len() as u32);
                }
                Tok::P(b'}') => break,
                Tok::Local(n) => {
                    p.eat(b'=');
                    f.inst(p, Some(n));
                }
                Tok::Word(w) => f.inst_word(p, None, w),
                t => p.fail(&format!("instruction {:?}", t)),
            }
        }
        // resolve edges
        let mut edges = vec![];
        for (from, to) in &f.edges {
            let pc = match f.blocks.get(to) {
                Some(x) => *x,
                None => p.fail(&format!("label {}", to)),
            };
            let mut copies = vec![];
            if let Some(ph) = f.phis.get(to) {
                for phi in ph {
                    let n = phi.ty.nslots();
                    let v = match phi.inc.iter().find(|(_, l)| l == from) {
                        Some(x) => x,
                        None => p.fail(&format!("phi in {} has no value from {}", to, from)),
                    };
                    for k in 0..n {
                        let o = v.0[k as usize];
                        if o != O::R(phi.slot + k) {
                            copies.push((phi.slot + k, o));
                        }
                    }
                }
            }
            let mut serial = true;
            for i in 0..copies.len() {
                for j in 0..i {
                    if copies[i].1 == O::R(copies[j].0) {
                        serial = false;
                    }
                }
            }
            edges.push(Edge { pc, copies: copies.into_boxed_slice(), serial });
        }
        let (code, nslots, frame) = (f.code, f.nslots, f.frame);
        let fun = &mut m.funcs[fi];
        fun.code = code;
        fun.edges = edges;
        fun.nslots = nslots;
        fun.nargs = nargs;
        fun.frame = frame as u32;
    }

    fn reg(&mut self, n: &str, ns: u32) -> u32 {
        if let Some((s, k)) = self.regs.get(n) {
            debug_assert!(*k == ns);
            return *s;
        }
        let s = self.nslots;
        self.nslots += ns;
        self.regs.insert(n.to_string(), (s, ns));
        s
    }

    fn edge(&mut self, to: &str) -> u32 {
        self.edges.push((self.cur.clone(), to.to_string()));
        self.edges.len() as u32 - 1
    }

    fn value(&mut self, p: &mut P, ty: &Ty) -> Vec<O> {
        self.m.skip_attrs(p, false);
        if let Tok::Local(n) = p.peek() {
            p.next();
            let ns = ty.nslots();
            let s = self.reg(n, ns);
            return (0..ns).map(|k| O::R(s + k)).collect();
        }
        let mut out = vec![];
        self.m.parse_const(p, ty, &mut out);
        out
    }

    fn tyval(&mut self, p: &mut P) -> (Ty, Vec<O>) {
        let ty = self.m.parse_ty(p);
        let v = self.value(p, &ty);
        (ty, v)
    }

    fn label(&mut self, p: &mut P) -> String {
        if !p.try_word("label") {
            p.fail("label");
        }
        match p.next() {
            Tok::Local(n) => n.to_string(),
            _ => p.fail("label name"),
        }
    }

    fn inst(&mut self, p: &mut P, dst: Option<&str>) {
        match p.next() {
            Tok::Word(w) => self.inst_word(p, dst, w),
            t => p.fail(&format!("opcode {:?}", t)),
        }
    }

    fn inst_word(&mut self, p: &mut P, dst: Option<&str>, op: &str) {
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.skip_flags(p);
                let ty = self.m.parse_ty(p);
                let a = self.value(p, &ty);
                p.eat(b',');
                let b = self.value(p, &ty);
                let d = self.reg(dst.unwrap(), ty.nslots());
                let w = ty.scalar_width() as u8;
                let o = match op {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    _ => Bin::AShr,
                };
                for k in 0..a.len() {
                    self.code.push(I::Bin(o, w, d + k as u32, a[k], b[k]));
                }
                p.skip_line();
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_flags(p);
                let ty = self.m.parse_ty(p);
                let a = self.value(p, &ty);
                p.eat(b',');
                let b = self.value(p, &ty);
                let d = self.reg(dst.unwrap(), ty.nslots());
                let o = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                for k in 0..a.len() {
                    self.code.push(I::FBin(o, ty.scalar_width() as u8, d + k as u32, a[k], b[k]));
                }
                p.skip_line();
            }
            "fneg" => {
                self.skip_flags(p);
                let (ty, a) = self.tyval(p);
                let d = self.reg(dst.unwrap(), ty.nslots());
                for k in 0..a.len() {
                    self.code.push(I::FNeg(ty.scalar_width() as u8, d + k as u32, a[k]));
                }
                p.skip_line();
            }
            "icmp" => {
                p.try_word("samesign");
                let pr = match p.next() {
                    Tok::Word(w) => w,
                    _ => p.fail("pred"),
                };
                let ty = self.m.parse_ty(p);
                let a = self.value(p, &ty);
                p.eat(b',');
                let b = self.value(p, &ty);
                let d = self.reg(dst.unwrap(), ty.nslots());
                let pr = match pr {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => p.fail("pred"),
                };
                for k in 0..a.len() {
                    self.code.push(I::Cmp(pr, ty.scalar_width() as u8, d + k as u32, a[k], b[k]));
                }
                p.skip_line();
            }
            "fcmp" => {
                self.skip_fmf(p);
                let pr = match p.next() {
                    Tok::Word(w) => w,
                    _ => p.fail("pred"),
                };
                let ty = self.m.parse_ty(p);
                let a = self.value(p, &ty);
                p.eat(b',');
                let b = self.value(p, &ty);
                let d = self.reg(dst.unwrap(), ty.nslots());
                // bit 0: true if unordered, bits 1..: eq, gt, lt
                let code: u8 = match pr {
                    "false" => 0,
                    "oeq" => 2,
                    "ogt" => 4,
                    "oge" => 6,
                    "olt" => 8,
                    "ole" => 10,
                    "one" => 12,
                    "ord" => 14,
                    "uno" => 1,
                    "ueq" => 3,
                    "ugt" => 5,
                    "uge" => 7,
                    "ult" => 9,
                    "ule" => 11,
                    "une" => 13,
                    _ => 15,
                };
                for k in 0..a.len() {
                    self.code.push(I::FCmp(code, ty.scalar_width() as u8, d + k as u32, a[k], b[k]));
                }
                p.skip_line();
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "freeze" | "uitofp" | "sitofp" | "fptoui"
            | "fptosi" | "fpext" | "fptrunc" => {
                self.skip_flags(p);
                let (st, a) = self.tyval(p);
                let tt = if op == "freeze" {
                    st.clone()
                } else {
                    p.next();
                    self.m.parse_ty(p)
                };
                let d = self.reg(dst.unwrap(), tt.nslots());
                let (ws, wt) = (st.scalar_width() as u8, tt.scalar_width() as u8);
                for k in 0..a.len() {
                    let dk = d + k as u32;
                    let i = match op {
                        "zext" => I::Zext(ws, wt, dk, a[k]),
                        "sext" => I::Sext(ws, wt, dk, a[k]),
                        "trunc" => I::Trunc(ws, wt, dk, a[k]),
                        "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                            if wt < ws {
                                I::Trunc(ws, wt, dk, a[k])
                            } else if wt > ws {
                                I::Zext(ws, wt, dk, a[k])
                            } else {
                                I::Mov(dk, a[k])
                            }
                        }
                        "freeze" => I::Mov(dk, a[k]),
                        "uitofp" => I::FCast(FCast::UiToFp, ws, wt, dk, a[k]),
                        "sitofp" => I::FCast(FCast::SiToFp, ws, wt, dk, a[k]),
                        "fptoui" => I::FCast(FCast::FpToUi, ws, wt, dk, a[k]),
                        "fptosi" => I::FCast(FCast::FpToSi, ws, wt, dk, a[k]),
                        "fpext" => I::FCast(FCast::FpExt, ws, wt, dk, a[k]),
                        "fptrunc" => I::FCast(FCast::FpTrunc, ws, wt, dk, a[k]),
                        _ => {
                            // bitcast
                            if !st.is_vec() && !tt.is_vec() {
                                I::Mov(dk, a[k])
                            } else if st.is_vec() && !tt.is_vec() {
                                if k > 0 {
                                    break;
                                }
                                I::Pack(d, a.clone().into_boxed_slice(), ws)
                            } else if !st.is_vec() {
                                I::Unpack(d, tt.nslots(), wt, a[0])
                            } else if ws == wt {
                                I::Mov(dk, a[k])
                            } else {
                                // vector to vector of other lanes, through bytes
                                if k > 0 {
                                    break;
                                }
                                let tmp = self.nslots;
                                self.nslots += 1;
                                self.code.push(I::Pack(tmp, a.clone().into_boxed_slice(), ws));
                                I::Unpack(d, tt.nslots(), wt, O::R(tmp))
                            }
                        }
                    };
                    self.code.push(i);
                }
                p.skip_line();
            }
            "select" => {
                self.skip_fmf(p);
                let (ct, c) = self.tyval(p);
                p.eat(b',');
                let (ty, a) = self.tyval(p);
                p.eat(b',');
                let (_, b) = self.tyval(p);
                let d = self.reg(dst.unwrap(), ty.nslots());
                let mut l = vec![];
                ty.leaves(0, &mut l);
                for k in 0..a.len() {
                    let ck = if ct.is_vec() { c[k] } else { c[0] };
                    self.code.push(I::Select(l[k].0 as u8, l[k].2, d + k as u32, ck, a[k], b[k]));
                }
                p.skip_line();
            }
            "extractvalue" => {
                let (ty, a) = self.tyval(p);
                let mut cur = ty;
                let mut s = 0u32;
                while p.try_eat(b',') {
                    match p.next() {
                        Tok::Num(n) => {
                            let i: usize = n.parse().unwrap();
                            s += cur.slot_of_field(i);
                            cur = cur.elem(i);
                        }
                        _ => break,
                    }
                }
                let n = cur.nslots();
                let d = self.reg(dst.unwrap(), n);
                for k in 0..n {
                    self.code.push(I::Mov(d + k, a[(s + k) as usize]));
                }
                p.skip_line();
            }
            "insertvalue" => {
                let (ty, a) = self.tyval(p);
                p.eat(b',');
                let (_, v) = self.tyval(p);
                let mut cur = ty.clone();
                let mut s = 0u32;
                while p.try_eat(b',') {
                    match p.next() {
                        Tok::Num(n) => {
                            let i: usize = n.parse().unwrap();
                            s += cur.slot_of_field(i);
                            cur = cur.elem(i);
                        }
                        _ => break,
                    }
                }
                let d = self.reg(dst.unwrap(), ty.nslots());
                for k in 0..ty.nslots() {
                    let o = if k >= s && k < s + cur.nslots() { v[(k - s) as usize] } else { a[k as usize] };
                    self.code.push(I::Mov(d + k, o));
                }
                p.skip_line();
            }
            "extractelement" => {
                let (ty, a) = self.tyval(p);
                p.eat(b',');
                let (_, i) = self.tyval(p);
                let _ = ty;
                let d = self.reg(dst.unwrap(), 1);
                match i[0] {
                    O::C(c) => self.code.push(I::Mov(d, a[c as usize])),
                    o => self.code.push(I::ExtElt(d, a.into_boxed_slice(), o)),
                }
                p.skip_line();
            }
            "insertelement" => {
                let (ty, a) = self.tyval(p);
                p.eat(b',');
                let (_, v) = self.tyval(p);
                p.eat(b',');
                let (_, i) = self.tyval(p);
                let d = self.reg(dst.unwrap(), ty.nslots());
                match i[0] {
                    O::C(c) => {
                        for k in 0..a.len() {
                            let o = if k as u64 == c { v[0] } else { a[k] };
                            self.code.push(I::Mov(d + k as u32, o));
                        }
                    }
                    o => self.code.push(I::InsElt(d, a.into_boxed_slice(), v[0], o)),
                }
                p.skip_line();
            }
            "shufflevector" => {
                let (ty, a) = self.tyval(p);
                p.eat(b',');
                let (_, b) = self.tyval(p);
                p.eat(b',');
                let (mt, mv) = self.tyval(p);
                let _ = ty;
                let d = self.reg(dst.unwrap(), mt.nslots());
                let mut mvs = vec![];
                for k in 0..mv.len() {
                    let o = match mv[k] {
                        O::C(c) => {
                            let c = c as usize;
                            if c < a.len() {
                                a[c]
                            } else if c - a.len() < b.len() {
                                b[c - a.len()]
                            } else {
                                O::C(0)
                            }
                        }
                        _ => p.fail("shuffle mask"),
                    };
                    mvs.push((d + k as u32, o));
                }
                self.code.push(I::Movs(mvs.into_boxed_slice()));
                p.skip_line();
            }
            "alloca" => {
                p.try_word("inalloca");
                let ty = self.m.parse_ty(p);
                let mut count = O::C(1);
                let mut al = ty.align();
                while p.peek() == Tok::P(b',') {
                    p.next();
                    if p.try_word("align") {
                        if let Tok::Num(n) = p.next() {
                            al = n.parse().unwrap();
                        }
                    } else if let Tok::Meta(_) = p.peek() {
                        break;
                    } else {
                        let (_, v) = self.tyval(p);
                        count = v[0];
                    }
                }
                let d = self.reg(dst.unwrap(), 1);
                match count {
                    O::C(n) => {
                        let al = al.max(1);
                        self.frame = (self.frame + al - 1) / al * al;
                        self.code.push(I::Alloca(d, self.frame as u32));
                        self.frame += (ty.size() * n).max(1);
                    }
                    o => self.code.push(I::DynAlloca(d, o, ty.size())),
                }
                p.skip_line();
            }
            "load" => {
                while matches!(p.peek(), Tok::Word("atomic") | Tok::Word("volatile")) {
                    p.next();
                }
                let ty = self.m.parse_ty(p);
                p.eat(b',');
                let (_, a) = self.tyval(p);
                let d = self.reg(dst.unwrap(), ty.nslots());
                let mut l = vec![];
                ty.leaves(0, &mut l);
                if let Ty::Vect(n, e) = &ty {
                    if e.scalar_width() % 8 != 0 {
                        let total = (*n as u32 * e.scalar_width()) as u32;
                        let tmp = self.nslots;
                        self.nslots += 1;
                        self.code.push(I::Load(tmp, ((total + 7) / 8) as u8, total as u8, a[0], 0));
                        self.code.push(I::Unpack(d, *n as u32, e.scalar_width() as u8, O::R(tmp)));
                        p.skip_line();
                        return;
                    }
                }
                for (k, (w, off, _)) in l.iter().enumerate() {
                    self.code.push(I::Load(d + k as u32, ((*w + 7) / 8) as u8, *w as u8, a[0], *off));
                }
                p.skip_line();
            }
            "store" => {
                while matches!(p.peek(), Tok::Word("atomic") | Tok::Word("volatile")) {
                    p.next();
                }
                let (ty, v) = self.tyval(p);
                p.eat(b',');
                let (_, a) = self.tyval(p);
                let mut l = vec![];
                ty.leaves(0, &mut l);
                if let Ty::Vect(n, e) = &ty {
                    if e.scalar_width() % 8 != 0 {
                        let total = *n as u32 * e.scalar_width();
                        let tmp = self.nslots;
                        self.nslots += 1;
                        self.code.push(I::Pack(tmp, v.into_boxed_slice(), e.scalar_width() as u8));
                        self.code.push(I::Store(((total + 7) / 8) as u8, total as u8, O::R(tmp), a[0], 0));
                        p.skip_line();
                        return;
                    }
                }
                for (k, (w, off, _)) in l.iter().enumerate() {
                    self.code.push(I::Store(((*w + 7) / 8) as u8, *w as u8, v[k], a[0], *off));
                }
                p.skip_line();
            }
            "getelementptr" => {
                self.skip_flags(p);
                let bt = self.m.parse_ty(p);
                p.eat(b',');
                let (pt, b) = self.tyval(p);
                if pt.is_vec() {
                    p.fail("vector gep");
                }
                let d = self.reg(dst.unwrap(), 1);
                let mut off = 0u64;
                let mut terms: Vec<(O, u8, u64)> = vec![];
                let mut cur = bt;
                let mut first = true;
                while p.try_eat(b',') {
                    if let Tok::Meta(_) = p.peek() {
                        break;
                    }
                    let (it, iv) = self.tyval(p);
                    let w = it.scalar_width();
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match &cur {
                            Ty::St(..) => {
                                if let O::C(c) = iv[0] {
                                    off = off.wrapping_add(cur.field_offset(c as usize));
                                    cur = cur.elem(c as usize);
                                    continue;
                                }
                                p.fail("struct index");
                            }
                            _ => {
                                cur = cur.elem(0);
                                scale = cur.size();
                            }
                        }
                    }
                    match iv[0] {
                        O::C(c) => off = off.wrapping_add((sext64(c, w) as u64).wrapping_mul(scale)),
                        o => terms.push((o, w as u8, scale)),
                    }
                }
                if terms.is_empty() {
                    self.code.push(I::GepC(d, b[0], off));
                } else if terms.len() == 1 && terms[0].1 == 64 {
                    self.code.push(I::Gep1(d, b[0], terms[0].0, terms[0].2, off));
                } else {
                    self.code.push(I::Gep(d, b[0], off, terms.into_boxed_slice()));
                }
                p.skip_line();
            }
            "br" => {
                if let Tok::Word("label") = p.peek() {
                    let l = self.label(p);
                    let e = self.edge(&l);
                    self.code.push(I::Br(e));
                } else {
                    let (_, c) = self.tyval(p);
                    p.eat(b',');
                    let a = self.label(p);
                    p.eat(b',');
                    let b = self.label(p);
                    let ea = self.edge(&a);
                    let eb = self.edge(&b);
                    self.code.push(I::CondBr(c[0], ea, eb));
                }
                p.skip_line();
            }
            "switch" => {
                let (ty, v) = self.tyval(p);
                p.eat(b',');
                let dl = self.label(p);
                let default = self.edge(&dl);
                p.eat(b'[');
                let mut cases = vec![];
                let mut memo: HashMap<String, u32> = HashMap::new();
                memo.insert(dl, default);
                while !p.try_eat(b']') {
                    let (_, c) = self.tyval(p);
                    p.eat(b',');
                    let l = self.label(p);
                    let e = match memo.get(&l) {
                        Some(e) => *e,
                        None => {
                            let e = self.edge(&l);
                            memo.insert(l, e);
                            e
                        }
                    };
                    if let O::C(c) = c[0] {
                        cases.push((c, e));
                    } else {
                        p.fail("wide switch");
                    }
                }
                cases.sort();
                self.code.push(I::Switch(Box::new(SwitchD { v: v[0], w: ty.scalar_width() as u8, cases, default })));
                p.skip_line();
            }
            "ret" => {
                if p.try_word("void") {
                    self.code.push(I::Ret(Box::new([])));
                } else {
                    let (_, v) = self.tyval(p);
                    self.code.push(I::Ret(v.into_boxed_slice()));
                }
                p.skip_line();
            }
            "unreachable" => {
                self.code.push(I::Unreachable);
                p.skip_line();
            }
            "phi" => {
                self.skip_fmf(p);
                let ty = self.m.parse_ty(p);
                let d = self.reg(dst.unwrap(), ty.nslots());
                let mut inc = vec![];
                loop {
                    p.eat(b'[');
                    let v = self.value(p, &ty);
                    p.eat(b',');
                    let l = match p.next() {
                        Tok::Local(n) => n.to_string(),
                        _ => p.fail("phi label"),
                    };
                    p.eat(b']');
                    inc.push((v, l));
                    if !p.try_eat(b',') {
                        break;
                    }
                    if let Tok::Meta(_) = p.peek() {
                        break;
                    }
                }
                let cur = self.cur.clone();
                self.phis.entry(cur).or_default().push(Phi { slot: d, ty, inc });
                p.skip_line();
            }
            "tail" | "musttail" | "notail" => {
                p.next();
                self.call(p, dst, false);
            }
            "call" => self.call(p, dst, false),
            "invoke" => self.call(p, dst, true),
            "fence" => p.skip_line(),
            "landingpad" => {
                let ty = self.m.parse_ty(p);
                self.reg(dst.unwrap(), ty.nslots());
                self.code.push(I::Trap("landing pad executed"));
                p.skip_line();
                loop {
                    match p.peek() {
                        Tok::Word("cleanup") | Tok::Word("catch") | Tok::Word("filter") => {
                            p.next();
                            p.skip_line();
                        }
                        _ => break,
                    }
                }
            }
            "resume" => {
                self.code.push(I::Trap("resume executed"));
                p.skip_line();
            }
            "atomicrmw" => {
                p.try_word("volatile");
                let o = match p.next() {
                    Tok::Word(w) => w,
                    _ => p.fail("rmw"),
                };
                let (_, a) = self.tyval(p);
                p.eat(b',');
                let (ty, v) = self.tyval(p);
                let d = match dst {
                    Some(n) => self.reg(n, 1),
                    None => {
                        self.nslots += 1;
                        self.nslots - 1
                    }
                };
                let r = match o {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    _ => p.fail("rmw op"),
                };
                self.code.push(I::AtomicRmw(r, ty.scalar_width() as u8, d, a[0], v[0]));
                p.skip_line();
            }
            "cmpxchg" => {
                while matches!(p.peek(), Tok::Word("weak") | Tok::Word("volatile")) {
                    p.next();
                }
                let (_, a) = self.tyval(p);
                p.eat(b',');
                let (ty, c) = self.tyval(p);
                p.eat(b',');
                let (_, n) = self.tyval(p);
                let d = match dst {
                    Some(x) => self.reg(x, 2),
                    None => {
                        self.nslots += 2;
                        self.nslots - 2
                    }
                };
                self.code.push(I::CmpXchg(ty.scalar_width() as u8, d, a[0], c[0], n[0]));
                p.skip_line();
            }
            _ => p.fail(&format!("unsupported instruction {}", op)),
        }
    }

    fn skip_flags(&mut self, p: &mut P) {
        while let Tok::Word(w) = p.peek() {
            if matches!(
                w,
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz"
                    | "arcp" | "contract" | "afn" | "reassoc"
            ) {
                p.next();
            } else if w == "inrange" {
                p.next();
                if p.try_eat(b'(') {
                    p.skip_balanced();
                }
            } else {
                break;
            }
        }
    }
    fn skip_fmf(&mut self, p: &mut P) {
        self.skip_flags(p)
    }

    fn call(&mut self, p: &mut P, dst: Option<&str>, invoke: bool) {
        self.skip_fmf(p);
        self.m.skip_attrs(p, true);
        let rt = self.m.parse_ty(p);
        if p.peek() == Tok::P(b'(') {
            p.next();
            p.skip_balanced();
        }
        let callee;
        match p.peek() {
            Tok::Global(n) => {
                p.next();
                match self.m.fmap.get(n) {
                    Some(f) => callee = Some(Callee::Func(*f)),
                    None => {
                        let a = self.m.global_ref(p, n);
                        callee = Some(Callee::Ind(O::C(a)))
                    }
                }
            }
            Tok::Local(n) => {
                p.next();
                callee = Some(Callee::Ind(O::R(self.reg(n, 1))));
            }
            Tok::Word("asm") => {
                // asm [sideeffect] [alignstack] [inteldialect] "..", ".."
                p.next();
                while let Tok::Word(_) = p.peek() {
                    p.next();
                }
                p.next();
                p.eat(b',');
                p.next();
                callee = Some(Callee::Asm);
            }
            Tok::Word("null") | Tok::Word("undef") | Tok::Word("poison") => {
                p.next();
                callee = None;
            }
            _ => {
                let mut v = vec![];
                self.m.parse_const(p, &Ty::Ptr, &mut v);
                callee = Some(Callee::Ind(v[0]));
            }
        }
        p.eat(b'(');
        let mut args = vec![];
        let mut aw = vec![];
        if !p.try_eat(b')') {
            loop {
                let ty = self.m.parse_ty(p);
                if ty == Ty::Meta {
                    // metadata argument: skip to ',' or ')'
                    loop {
                        match p.peek() {
                            Tok::P(b',') | Tok::P(b')') => break,
                            Tok::P(b'(') | Tok::P(b'{') | Tok::P(b'[') => {
                                p.next();
                                p.skip_balanced();
                            }
                            _ => {
                                p.next();
                            }
                        }
                    }
                } else {
                    let v = self.value(p, &ty);
                    let mut l = vec![];
                    ty.leaves(0, &mut l);
                    for (w, _, _) in l {
                        aw.push(w as u8);
                    }
                    args.extend(v);
                }
                if !p.try_eat(b',') {
                    break;
                }
            }
            p.eat(b')');
        }
        let nret = rt.nslots();
        let d = match dst {
            Some(n) => self.reg(n, nret),
            None => {
                let s = self.nslots;
                self.nslots += nret;
                s
            }
        };
        let mut l = vec![];
        rt.leaves(0, &mut l);
        let rw: Vec<u8> = l.iter().map(|x| x.0 as u8).collect();
        let mut cont = u32::MAX;
        if invoke {
            // attributes and operand bundles up to "to"
            loop {
                match p.next() {
                    Tok::Word("to") => break,
                    Tok::P(b'[') | Tok::P(b'(') => p.skip_balanced(),
                    Tok::Eof => p.fail("invoke"),
                    _ => {}
                }
            }
            let l = self.label(p);
            cont = self.edge(&l);
        }
        match callee {
            None => self.code.push(I::Trap("call of null")),
            Some(c) => {
                // intrinsics without effect are dropped here
                if let Callee::Func(f) = &c {
                    let n = &self.m.funcs[*f as usize].name;
                    if n.starts_with("llvm.lifetime.")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg.")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.prefetch")
                        || n.starts_with("llvm.donothing")
                    {
                        if cont != u32::MAX {
                            self.code.push(I::Br(cont));
                        }
                        p.skip_line();
                        return;
                    }
                }
                self.code.push(I::Call(Box::new(CallD {
                    callee: c,
                    args: args.into_boxed_slice(),
                    d,
                    nret,
                    aw: aw.into_boxed_slice(),
                    rw: rw.into_boxed_slice(),
                    cont,
                })));
            }
        }
        p.skip_line();
    }
}
