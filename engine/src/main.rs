//! Symbolic execution of LLVM IR.
//!
//! usage: irsym IR NAMES HARNESS OUTDIR [key=value ...]
//! keys: p0..p9 (harness parameters), jobs, seed, deadline (seconds),
//! max_steps, max_viol, alloc_limit, samples

mod builtins;
mod demangle;
mod exec;
mod expr;
mod ir;
mod lex;
mod libc;
mod par;
mod solver;
mod state;

use std::collections::{HashMap, HashSet};
use std::time::{Duration, Instant};

/// Each generation of forked workers starts deeper in the stack.
fn main() {
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(run).expect("thread");
    let _ = t.join();
    std::process::exit(2);
}

fn run() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: irsym IR NAMES HARNESS OUTDIR [key=value ...]");
        std::process::exit(2);
    }
    let mut kv: HashMap<String, u64> = HashMap::new();
    for s in &a[5..] {
        let (k, v) = s.split_once('=').expect("key=value");
        kv.insert(k.to_string(), v.parse().expect("number"));
    }
    let get = |k: &str, d: u64| kv.get(k).copied().unwrap_or(d);
    demangle::init(&a[2]);
    let src = std::fs::read_to_string(&a[1]).expect("IR file");
    // panics are caught per function while parsing and end the process later
    std::panic::set_hook(Box::new(|_| {}));
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::parse(&src)));
    std::panic::set_hook(Box::new(|i| {
        eprintln!("{}", i);
        std::process::abort();
    }));
    drop(src);
    let f = match m.fmap.get(&a[3]) {
        Some(f) => *f,
        None => {
            eprintln!("no harness {}", a[3]);
            std::process::exit(2);
        }
    };
    let g = m.globals.len();
    let mut gslot = vec![u32::MAX; g + 1];
    let mut consts = vec![None];
    let mut nmut = 0;
    for (i, x) in m.globals.iter().enumerate() {
        if x.constant {
            consts.push(Some(state::Obj { data: x.data.clone(), sym: None }));
        } else {
            gslot[i + 1] = nmut;
            nmut += 1;
            consts.push(None);
        }
    }
    let params = (0..10).map(|i| get(&format!("p{}", i), 0)).collect();
    let nf = m.funcs.len();
    let mut e = exec::Engine {
        m,
        ex: expr::Exprs::new(),
        z3: solver::Z3::new(),
        cfg: exec::Cfg {
            params,
            max_steps: get("max_steps", 30_000_000),
            alloc_limit: get("alloc_limit", 1 << 20),
            jobs: get("jobs", 1) as u32,
            seed: get("seed", 1),
            max_viol: get("max_viol", 1) as u32,
            samples: get("samples", 4) as u32,
            deadline: Instant::now() + Duration::from_secs(get("deadline", 600)),
            outdir: a[4].clone(),
            trace: get("trace", 0) != 0,
        },
        st: exec::Stats::default(),
        builtin: vec![exec::B::None; nf],
        redirect: (0..nf as u32).collect(),
        consts,
        gslot,
        nmut,
        hb: g as u32 + 1,
        pending: vec![],
        memo: HashMap::default(),
        confirmed: HashSet::default(),
        used: vec![false; nf],
        sh: par::shared(),
        sample_lines: vec![],
        since_check: 0,
        rng: get("seed", 1) ^ 0x9E3779B97F4A7C15,
        replaced: HashSet::new(),
    };
    par::limit_memory(get("mem_gb", 8) << 30);
    par::subreaper();
    e.classify();
    let st = e.start(f);
    e.sh.active.store(1, std::sync::atomic::Ordering::Relaxed);
    e.pending.push(st);
    e.work();
    e.flush();
    e.sh.active.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
    e.finish_root();
}
