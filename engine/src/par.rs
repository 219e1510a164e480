//! Work splitting over processes: a worker hands the oldest half of its
//! pending states to a forked child whenever a processor is idle.

use crate::exec::*;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::*};

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

#[repr(C)]
pub struct Shared {
    pub active: AtomicI64,
    pub workers: AtomicU64,
    pub stop: AtomicU32,
    pub incomplete: AtomicU32,
    pub nviol: AtomicU32,
    pub nfatal: AtomicU32,
    pub reach: AtomicU64,
    pub c: [AtomicU64; 24],
    pub used: [AtomicU8; 16384],
}

pub const NAMES: [&str; 17] = [
    "paths", "dead", "forks", "instructions", "symbolic_branches", "quick_sat", "confirm_hits", "memo_hits", "queries", "sat", "unsat",
    "unknown", "solver_ns", "max_query_ns", "max_path_instructions", "expressions", "max_pending",
];

pub fn shared() -> &'static Shared {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        &*(p as *const Shared)
    }
}

pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]);
    }
}

pub static mut IS_ROOT: bool = true;
static mut LAST_SPLIT: Option<std::time::Instant> = None;
static mut WRITTEN: bool = false;

impl Engine {
    pub fn halted(&self) -> bool {
        self.sh.stop.load(Relaxed) != 0
    }

    pub fn poll(&mut self) {
        if std::time::Instant::now() > self.cfg.deadline {
            self.sh.incomplete.fetch_or(1, Relaxed);
            self.sh.stop.store(1, Relaxed);
        }
        if self.halted() {
            self.flush();
            self.leave();
        }
    }

    fn leave(&mut self) -> ! {
        unsafe {
            self.sh.active.fetch_sub(1, Relaxed);
            if IS_ROOT {
                self.finish_root();
            }
            _exit(0)
        }
    }

    pub fn maybe_split(&mut self) {
        if self.pending.is_empty() || self.cfg.jobs <= 1 {
            return;
        }
        if self.sh.active.load(Relaxed) >= self.cfg.jobs as i64 {
            return;
        }
        unsafe {
            #[allow(static_mut_refs)]
            if let Some(t) = LAST_SPLIT {
                if t.elapsed().as_millis() < 5 {
                    return;
                }
            }
            if self.sh.active.fetch_add(1, Relaxed) >= self.cfg.jobs as i64 {
                self.sh.active.fetch_sub(1, Relaxed);
                return;
            }
            LAST_SPLIT = Some(std::time::Instant::now());
            let half = (self.pending.len() + 1) / 2;
            let pid = fork();
            if pid < 0 {
                self.sh.active.fetch_sub(1, Relaxed);
                return;
            }
            if pid == 0 {
                IS_ROOT = false;
                WRITTEN = false;
                self.sh.workers.fetch_add(1, Relaxed);
                self.pending.truncate(half);
                self.st = Stats::default();
                self.sample_lines.clear();
                self.z3.queries = 0;
                self.z3.sat = 0;
                self.z3.unsat = 0;
                self.z3.unknown = 0;
                self.z3.nanos = 0;
                self.rng ^= std::process::id() as u64;
                self.work();
                self.flush();
                self.leave();
            } else {
                self.pending.drain(..half);
            }
        }
    }

    pub fn work(&mut self) {
        while let Some(s) = self.pending.pop() {
            if self.halted() {
                return;
            }
            self.sh.c[16].fetch_max(self.pending.len() as u64 + 1, Relaxed);
            self.run(s);
            self.poll();
        }
    }

    pub fn flush(&mut self) {
        unsafe {
            if WRITTEN {
                return;
            }
            WRITTEN = true;
        }
        let s = &self.st;
        let v = [
            s.paths,
            s.dead,
            s.forks,
            s.steps,
            s.sym_branches,
            s.quick_sat,
            s.confirm_hits,
            s.memo_hits,
            self.z3.queries,
            self.z3.sat,
            self.z3.unsat,
            self.z3.unknown,
            self.z3.nanos,
        ];
        for (i, x) in v.iter().enumerate() {
            self.sh.c[i].fetch_add(*x, Relaxed);
        }
        self.sh.c[13].fetch_max(self.z3.max_ns, Relaxed);
        self.sh.c[14].fetch_max(s.max_path_steps, Relaxed);
        self.sh.c[15].fetch_max(self.ex.nodes.len() as u64, Relaxed);
        for (i, u) in self.used.iter().enumerate() {
            if *u && i < self.sh.used.len() {
                self.sh.used[i].store(1, Relaxed);
            }
        }
        if !self.sample_lines.is_empty() {
            let p = format!("{}/samples.{}", self.cfg.outdir, std::process::id());
            let _ = std::fs::write(p, self.sample_lines.join("\n") + "\n");
        }
    }

    pub fn report(&mut self, v: Viol) {
        let k = self.sh.nviol.fetch_add(1, Relaxed);
        if k + 1 >= self.cfg.max_viol {
            self.sh.stop.store(1, Relaxed);
        }
        if k < 200 {
            self.write_viol("viol", k, &v);
        }
    }
    pub fn fatal(&mut self, v: Viol) {
        let k = self.sh.nfatal.fetch_add(1, Relaxed);
        self.sh.incomplete.fetch_or(2, Relaxed);
        self.sh.stop.store(1, Relaxed);
        self.write_viol("fatal", k, &v);
    }
    fn write_viol(&self, pre: &str, k: u32, v: &Viol) {
        let mut s = format!("{{\"kind\":{},\"msg\":{},\"stack\":[", js(&v.kind), js(&v.msg));
        s.push_str(&v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        s.push_str("],\"inputs\":{");
        s.push_str(&v.inputs.iter().map(|(n, b)| format!("{}:\"{}\"", js(n), hex(b))).collect::<Vec<_>>().join(","));
        s.push_str("}}\n");
        let _ = std::fs::write(format!("{}/{}.{}.json", self.cfg.outdir, pre, k), s);
    }

    pub fn finish_root(&mut self) -> ! {
        unsafe {
            loop {
                let mut s = 0i32;
                let p = waitpid(-1, &mut s, 0);
                if p < 0 {
                    break;
                }
                if s != 0 {
                    self.sh.incomplete.fetch_or(4, Relaxed);
                    self.sh.stop.store(1, Relaxed);
                }
            }
        }
        let mut out = String::from("{");
        for (i, n) in NAMES.iter().enumerate() {
            out.push_str(&format!("\"{}\":{},", n, self.sh.c[i].load(Relaxed)));
        }
        let used: Vec<String> = self
            .m
            .funcs
            .iter()
            .enumerate()
            .filter(|(i, _)| *i < self.sh.used.len() && self.sh.used[*i].load(Relaxed) != 0)
            .map(|(_, f)| js(&f.pretty))
            .collect();
        out.push_str(&format!(
            "\"incomplete\":{},\"violations\":{},\"fatal\":{},\"reach\":{},\"workers\":{},\"z3\":{},\"functions\":[{}]}}\n",
            self.sh.incomplete.load(Relaxed),
            self.sh.nviol.load(Relaxed),
            self.sh.nfatal.load(Relaxed),
            self.sh.reach.load(Relaxed),
            self.sh.workers.load(Relaxed) + 1,
            js(&crate::solver::version()),
            used.join(",")
        ));
        let _ = std::fs::write(format!("{}/result.json", self.cfg.outdir), out);
        std::process::exit(0)
    }
}

pub fn subreaper() {
    unsafe {
        prctl(36, 1, 0, 0, 0);
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
