//! Execution state of one path.

use crate::expr::{BuildFx, Id};
use crate::solver::Dom;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Val {
    pub c: u64,
    /// expression id, 0 for a concrete value
    pub e: Id,
}

impl Val {
    #[inline]
    pub fn c(c: u64) -> Val {
        Val { c, e: 0 }
    }
    #[inline]
    pub fn s(e: Id) -> Val {
        Val { c: 0, e }
    }
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<Id>>,
}

impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub pc: u32,
    pub base: u32,
    /// memory slot of the frame object (u32::MAX: none)
    pub obj: u32,
    pub d: u32,
    pub cont: u32,
    pub dynobjs: Vec<u32>,
}

/// One open file of the simulated file system.
#[derive(Clone)]
pub struct OpenFile {
    pub file: usize,
    pub pos: Val,
    pub append: bool,
    pub open: bool,
}

#[derive(Clone, Default)]
pub struct Vfs {
    /// path, content (one value per byte), exists
    pub files: Vec<(Vec<u8>, Vec<Val>, bool)>,
    pub fds: Vec<OpenFile>,
    /// remaining I/O faults that may still be injected
    pub short: u32,
    pub eintr: u32,
    pub ios: u32,
    pub hard: u32,
    /// whether a call failed for good
    pub failed: bool,
    pub log: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub func: u32,
    pub pc: u32,
    pub base: u32,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub dom: Rc<Vec<Dom>>,
    pub multi: Rc<Vec<Id>>,
    pub multi_vars: u128,
    pub model: Rc<Vec<u8>>,
    pub resolved: Rc<HashMap<Id, u64, BuildFx>>,
    pub names: Rc<Vec<(String, u32, u32)>>,
    pub emit: Rc<Vec<Val>>,
    pub reach: u64,
    pub vfs: Rc<Vfs>,
    pub errno_obj: u64,
    pub hash_keys: Rc<Vec<(Vec<u8>, u8)>>,
    pub hash_perm: u32,
    pub pick: Option<Id>,
    pub conc_chain: (Id, u32),
    pub steps: u64,
    pub forks: u32,
}
