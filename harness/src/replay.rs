//! Runs harnesses natively on concrete inputs.
//!
//! vreplay FILE: each line of FILE is "harness<TAB>p0,p1,...<TAB>name=hex
//! name=hex ...". One line is printed per run:
//! "OK hex-of-output", or "FAIL message" and the program ends (status 10
//! failed assertion, 11 panic, 12 allocation over the limit, 20 the inputs do
//! not satisfy the assumptions).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};

static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

struct Limited;

unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.load(Ordering::Relaxed) {
            LIMIT.store(usize::MAX, Ordering::Relaxed);
            println!("FAIL allocation of {} bytes", l.size());
            std::process::exit(12);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Limited = Limited;

struct OpenFile {
    file: usize,
    pos: usize,
    append: bool,
    open: bool,
}

#[derive(Default)]
struct World {
    inputs: HashMap<String, Vec<u8>>,
    params: Vec<u64>,
    emit: Vec<u8>,
    picks: usize,
    ios: usize,
    files: Vec<(Vec<u8>, Vec<u8>, bool)>,
    fds: Vec<OpenFile>,
    faults: (u32, u32, u32),
    failed: bool,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}

fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(&mut w.borrow_mut()))
}

fn stop(status: i32, msg: &str) -> ! {
    println!("FAIL {}", msg);
    std::process::exit(status)
}

unsafe fn slice<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}

fn choice(w: &mut World, name: String) -> u64 {
    w.inputs.get(&name).and_then(|v| v.first()).copied().unwrap_or(0) as u64
}

#[no_mangle]
extern "C" fn __sym_bytes(p: *mut u8, n: usize, name: *const u8, len: usize) {
    let name = unsafe { String::from_utf8_lossy(slice(name, len)).into_owned() };
    let v = world(|w| w.inputs.get(&name).cloned());
    let v = v.unwrap_or_default();
    for i in 0..n {
        unsafe { *p.add(i) = v.get(i).copied().unwrap_or(0) };
    }
}
#[no_mangle]
extern "C" fn __sym_assume(c: bool) {
    if !c {
        stop(20, "assumption");
    }
}
#[no_mangle]
extern "C" fn __sym_fail(msg: *const u8, len: usize) -> ! {
    let m = unsafe { String::from_utf8_lossy(slice(msg, len)).into_owned() };
    stop(10, &m)
}
#[no_mangle]
extern "C" fn __sym_reach(_: u32) {}
#[no_mangle]
extern "C" fn __sym_emit(p: *const u8, n: usize) {
    let v = unsafe { slice(p, n) };
    world(|w| w.emit.extend_from_slice(v));
}
#[no_mangle]
extern "C" fn __sym_param(i: u32) -> u64 {
    world(|w| w.params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
extern "C" fn __sym_pick(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    world(|w| {
        let k = w.picks;
        w.picks += 1;
        choice(w, format!("pick{}", k))
    })
}
#[no_mangle]
extern "C" fn __sym_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn __sym_hash_perm(_: u32) {}
#[no_mangle]
extern "C" fn __sym_file(name: *const u8, nlen: usize, data: *const u8, len: usize, exists: bool) {
    let (n, d) = unsafe { (slice(name, nlen).to_vec(), slice(data, len).to_vec()) };
    world(|w| w.files.push((n, d, exists)));
}
#[no_mangle]
extern "C" fn __sym_file_read(name: *const u8, nlen: usize, buf: *mut u8, cap: usize) -> i64 {
    let n = unsafe { slice(name, nlen) };
    world(|w| match w.files.iter().find(|f| f.2 && f.0 == n) {
        None => -1,
        Some(f) => {
            for (i, b) in f.1.iter().take(cap).enumerate() {
                unsafe { *buf.add(i) = *b };
            }
            f.1.len() as i64
        }
    })
}
#[no_mangle]
extern "C" fn __sym_io_faults(short: u32, eintr: u32, hard: u32) {
    world(|w| w.faults = (short, eintr, hard));
}

#[no_mangle]
extern "C" fn __sym_io_failed() -> bool {
    world(|w| w.failed)
}

// ---- file system calls of the standard library ----

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
    fn strlen(p: *const u8) -> usize;
}

const BASE: i32 = 5000;

fn errno(e: i32) -> i64 {
    unsafe { *__errno_location() = e };
    -1
}

fn simulated(path: *const u8) -> Option<Vec<u8>> {
    let s = unsafe { slice(path, strlen(path)) };
    if s.starts_with(b"/vfs/") {
        Some(s.to_vec())
    } else {
        None
    }
}

#[no_mangle]
extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let name = match simulated(path) {
        Some(n) => n,
        None => return unsafe { syscall(257, -100i64, path, flags as i64, mode as i64) as i32 },
    };
    world(|w| {
        if let Err(e) = transfer(w, 0, 13) {
            return errno(e) as i32;
        }
        let found = w.files.iter().position(|f| f.2 && f.0 == name);
        let i = match found {
            Some(_) if flags & 0o300 == 0o300 => return errno(17) as i32,
            Some(i) => i,
            None if flags & 0o100 != 0 => {
                w.files.push((name, vec![], true));
                w.files.len() - 1
            }
            None => return errno(2) as i32,
        };
        if flags & 0o1000 != 0 {
            w.files[i].1.clear();
        }
        w.fds.push(OpenFile { file: i, pos: 0, append: flags & 0o2000 != 0, open: true });
        BASE + w.fds.len() as i32 - 1
    })
}
#[no_mangle]
extern "C" fn rename(from: *const u8, to: *const u8) -> i32 {
    let (a, b) = match (simulated(from), simulated(to)) {
        (Some(a), Some(b)) => (a, b),
        _ => return unsafe { syscall(82, from, to) as i32 },
    };
    world(|w| {
        if let Err(e) = transfer(w, 0, 13) {
            return errno(e) as i32;
        }
        let i = match w.files.iter().position(|f| f.2 && f.0 == a) {
            None => return errno(2) as i32,
            Some(i) => i,
        };
        if let Some(o) = w.files.iter().position(|f| f.2 && f.0 == b) {
            if o != i {
                w.files[o].2 = false;
            }
        }
        w.files[i].0 = b;
        0
    })
}
#[no_mangle]
extern "C" fn unlink(path: *const u8) -> i32 {
    let name = match simulated(path) {
        Some(n) => n,
        None => return unsafe { syscall(87, path) as i32 },
    };
    world(|w| match w.files.iter_mut().find(|f| f.2 && f.0 == name) {
        None => errno(2) as i32,
        Some(f) => {
            f.2 = false;
            0
        }
    })
}
#[no_mangle]
extern "C" fn close(fd: i32) -> i32 {
    if fd < BASE {
        return unsafe { syscall(3, fd as i64) as i32 };
    }
    world(|w| w.fds[(fd - BASE) as usize].open = false);
    0
}
fn transfer(w: &mut World, want: usize, hard: i32) -> Result<usize, i32> {
    let mut opts: Vec<Result<usize, i32>> = vec![Ok(want)];
    if w.faults.1 > 0 {
        opts.push(Err(4));
    }
    if w.faults.2 > 0 {
        opts.push(Err(hard));
    }
    if w.faults.0 > 0 {
        for n in 1..want.min(9) {
            opts.push(Ok(n));
        }
        if want > 9 {
            opts.push(Ok(want - 1));
        }
    }
    let k = if opts.len() <= 1 || w.ios >= 90 {
        0
    } else {
        let k = w.ios;
        w.ios += 1;
        choice(w, format!("io{}", k)) as usize
    };
    let r = opts.get(k).copied().unwrap_or(Ok(want));
    match r {
        Err(4) => w.faults.1 -= 1,
        Err(_) => {
            w.faults.2 -= 1;
            w.failed = true;
        }
        Ok(n) if n < want => w.faults.0 -= 1,
        _ => {}
    }
    r
}
fn vread(fd: i32, segs: &[(*mut u8, usize)]) -> i64 {
    world(|w| {
        let k = (fd - BASE) as usize;
        if !w.fds[k].open {
            return errno(9);
        }
        let total: usize = segs.iter().map(|s| s.1).sum();
        let (f, pos) = (w.fds[k].file, w.fds[k].pos);
        let want = total.min(w.files[f].1.len().saturating_sub(pos));
        match transfer(w, want, 5) {
            Err(e) => errno(e),
            Ok(n) => {
                let mut j = 0;
                for (p, len) in segs {
                    for i in 0..*len {
                        if j < n {
                            unsafe { *p.add(i) = w.files[f].1[pos + j] };
                            j += 1;
                        }
                    }
                }
                w.fds[k].pos += n;
                n as i64
            }
        }
    })
}
fn vwrite(fd: i32, segs: &[(*const u8, usize)]) -> i64 {
    world(|w| {
        let k = (fd - BASE) as usize;
        if !w.fds[k].open {
            return errno(9);
        }
        let mut data = vec![];
        for (p, n) in segs {
            data.extend_from_slice(unsafe { slice(*p, *n) });
        }
        match transfer(w, data.len(), 28) {
            Err(e) => errno(e),
            Ok(n) => {
                data.truncate(n);
                let f = w.fds[k].file;
                if w.fds[k].append {
                    w.fds[k].pos = w.files[f].1.len();
                }
                let pos = w.fds[k].pos;
                let c = &mut w.files[f].1;
                if c.len() < pos + n {
                    c.resize(pos + n, 0);
                }
                c[pos..pos + n].copy_from_slice(&data);
                w.fds[k].pos += n;
                n as i64
            }
        }
    })
}
#[no_mangle]
extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> i64 {
    if fd < BASE {
        return unsafe { syscall(0, fd as i64, p, n) };
    }
    vread(fd, &[(p, n)])
}
#[no_mangle]
extern "C" fn write(fd: i32, p: *const u8, n: usize) -> i64 {
    if fd < BASE {
        return unsafe { syscall(1, fd as i64, p, n) };
    }
    vwrite(fd, &[(p, n)])
}
#[repr(C)]
struct Iov {
    p: *mut u8,
    n: usize,
}
#[no_mangle]
extern "C" fn readv(fd: i32, v: *const Iov, n: i32) -> i64 {
    if fd < BASE {
        return unsafe { syscall(19, fd as i64, v, n as i64) };
    }
    let s = unsafe { std::slice::from_raw_parts(v, n as usize) };
    vread(fd, &s.iter().map(|x| (x.p, x.n)).collect::<Vec<_>>())
}
#[no_mangle]
extern "C" fn writev(fd: i32, v: *const Iov, n: i32) -> i64 {
    if fd < BASE {
        return unsafe { syscall(20, fd as i64, v, n as i64) };
    }
    let s = unsafe { std::slice::from_raw_parts(v, n as usize) };
    vwrite(fd, &s.iter().map(|x| (x.p as *const u8, x.n)).collect::<Vec<_>>())
}
#[no_mangle]
extern "C" fn lseek64(fd: i32, off: i64, wh: i32) -> i64 {
    if fd < BASE {
        return unsafe { syscall(8, fd as i64, off, wh as i64) };
    }
    world(|w| {
        let k = (fd - BASE) as usize;
        let base = match wh {
            0 => 0,
            1 => w.fds[k].pos as i64,
            _ => w.files[w.fds[k].file].1.len() as i64,
        };
        if base + off < 0 {
            return errno(22);
        }
        w.fds[k].pos = (base + off) as usize;
        base + off
    })
}
#[no_mangle]
extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if fd < BASE {
        return unsafe { syscall(77, fd as i64, n) as i32 };
    }
    world(|w| {
        let f = w.fds[(fd - BASE) as usize].file;
        w.files[f].1.resize(n as usize, 0);
    });
    0
}
#[no_mangle]
extern "C" fn fsync(fd: i32) -> i32 {
    if fd < BASE {
        return unsafe { syscall(74, fd as i64) as i32 };
    }
    0
}
#[no_mangle]
extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if fd < BASE {
        return unsafe { syscall(72, fd as i64, cmd as i64, arg) as i32 };
    }
    if world(|w| w.fds[(fd - BASE) as usize].open) {
        0
    } else {
        errno(9) as i32
    }
}
#[no_mangle]
extern "C" fn fdatasync(fd: i32) -> i32 {
    fsync(fd)
}
fn fill(buf: *mut u8, size: usize) {
    unsafe {
        std::ptr::write_bytes(buf, 0, 144);
        *(buf.add(24) as *mut u32) = 0o100644;
        *(buf.add(48) as *mut u64) = size as u64;
        *(buf.add(56) as *mut u64) = 4096;
    }
}
#[no_mangle]
extern "C" fn stat64(path: *const u8, buf: *mut u8) -> i32 {
    match simulated(path) {
        None => unsafe { syscall(4, path, buf) as i32 },
        Some(name) => world(|w| match w.files.iter().find(|f| f.2 && f.0 == name) {
            None => errno(2) as i32,
            Some(f) => {
                fill(buf, f.1.len());
                0
            }
        }),
    }
}
#[no_mangle]
extern "C" fn fstat64(fd: i32, buf: *mut u8) -> i32 {
    if fd < BASE {
        return unsafe { syscall(5, fd as i64, buf) as i32 };
    }
    world(|w| {
        let f = w.fds[(fd - BASE) as usize].file;
        fill(buf, w.files[f].1.len());
    });
    0
}
#[no_mangle]
extern "C" fn statx(_: i32, _: *const u8, _: i32, _: u32, _: *mut u8) -> i32 {
    errno(38) as i32
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    let file = std::env::args().nth(1).expect("file of inputs");
    let text = std::fs::read_to_string(file).expect("file of inputs");
    let table = vharness::table();
    std::panic::set_hook(Box::new(|i| {
        LIMIT.store(usize::MAX, Ordering::Relaxed);
        stop(11, &format!("panic: {}", i).replace('\n', " "))
    }));
    for line in text.lines() {
        let mut parts = line.split('\t');
        let name = parts.next().unwrap();
        let params = parts.next().unwrap_or("");
        let inputs = parts.next().unwrap_or("");
        let limit = parts.next().and_then(|x| x.parse().ok()).unwrap_or(1 << 20);
        let mut w = World::default();
        w.params = params.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        for p in inputs.split(' ').filter(|x| !x.is_empty()) {
            let (k, v) = p.split_once('=').unwrap();
            w.inputs.insert(k.to_string(), unhex(v));
        }
        W.with(|x| *x.borrow_mut() = w);
        let f = table.iter().find(|x| x.0 == name).expect("known harness").1;
        LIMIT.store(limit, Ordering::Relaxed);
        f();
        LIMIT.store(usize::MAX, Ordering::Relaxed);
        let out = world(|w| std::mem::take(&mut w.emit));
        let mut s = String::new();
        for b in out {
            s.push_str(&format!("{:02x}", b));
        }
        println!("OK {}", s);
    }
}
