//! A small in-memory file system behind the libc calls of the standard
//! library, with optional faults: interrupted, short and failing calls.

use crate::exec::*;
use crate::ir::*;
use crate::state::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum L {
    Open,
    Close,
    Read,
    Write,
    Readv,
    Writev,
    Lseek,
    Stat,
    Fstat,
    Statx,
    Errno,
    Fsync,
    Fcntl,
    Ftruncate,
    Getrandom,
    Fail,
    Zero,
    Gettid,
    File,
    Faults,
    FileRead,
    Failed,
    Rename,
    Unlink,
    Strerror,
}

pub fn classify(n: &str) -> Option<L> {
    Some(match n {
        "open64" | "open" => L::Open,
        "close" => L::Close,
        "read" => L::Read,
        "write" => L::Write,
        "readv" => L::Readv,
        "writev" => L::Writev,
        "lseek64" | "lseek" => L::Lseek,
        "stat64" | "lstat64" | "stat" => L::Stat,
        "fstat64" | "fstat" => L::Fstat,
        "statx" => L::Statx,
        "__errno_location" => L::Errno,
        "fsync" | "fdatasync" => L::Fsync,
        "fcntl" | "fcntl64" => L::Fcntl,
        "ftruncate64" => L::Ftruncate,
        "getrandom" => L::Getrandom,
        "getcwd" | "getenv" | "realpath" | "readlink" | "dl_iterate_phdr" => L::Fail,
        "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "munmap" => L::Zero,
        "gettid" => L::Gettid,
        "__sym_file" => L::File,
        "__sym_io_faults" => L::Faults,
        "__sym_file_read" => L::FileRead,
        "__sym_io_failed" => L::Failed,
        "rename" => L::Rename,
        "unlink" => L::Unlink,
        "__xpg_strerror_r" | "strerror_r" => L::Strerror,
        _ => return None,
    })
}

const EINTR: u64 = 4;
const EIO: u64 = 5;
const EBADF: u64 = 9;
const EACCES: u64 = 13;
const ENOENT: u64 = 2;
const ENOSPC: u64 = 28;
const ENOSYS: u64 = 38;
/// transfers after so many that could have gone wrong are complete
const MAX_IOS: u32 = 90;

impl Engine {
    fn ret(&self, st: &mut State, c: &CallD, v: u64) {
        if c.nret > 0 {
            let i = (st.base + c.d) as usize;
            st.regs[i] = Val::c(v & mask(c.rw[0] as u32));
        }
    }
    fn errno(&mut self, st: &mut State, c: &CallD, e: u64) -> R<()> {
        let a = st.errno_obj;
        self.store(st, a, 4, 32, Val::c(e))?;
        self.ret(st, c, !0);
        Ok(())
    }
    /// index of the existing file with this name; forks if the name is symbolic
    pub fn vfs_find(&mut self, st: &mut State, name: &[Val]) -> R<Option<usize>> {
        let files = st.vfs.files.clone();
        for (i, (n, _, exists)) in files.iter().enumerate() {
            if !*exists || n.len() != name.len() {
                continue;
            }
            let mut eq = self.ex.cst(1, 1);
            for (a, b) in n.iter().zip(name) {
                let v = self.cmp_val(st, Pred::Eq, 8, Val::c(*a as u64), *b)?;
                let v = self.id(v, 1);
                eq = self.ex.and(eq, v);
            }
            let hit = match self.ex.cval(eq) {
                Some(v) => v == 1,
                None => self.decide(st, eq)?,
            };
            if hit {
                return Ok(Some(i));
            }
        }
        Ok(None)
    }
    fn cstr(&mut self, st: &mut State, p: Val) -> R<Vec<Val>> {
        let p = self.conc(st, p)?;
        let mut out = vec![];
        loop {
            let v = self.byte(st, p + out.len() as u64)?;
            let z = self.cmp_val(st, Pred::Eq, 8, v, Val::c(0))?;
            let z = if z.e == 0 { z.c == 1 } else { self.decide(st, z.e)? };
            if z {
                return Ok(out);
            }
            out.push(v);
        }
    }
    fn fill_stat(&mut self, st: &mut State, buf: u64, i: usize) -> R<()> {
        let n = st.vfs.files[i].1.len() as u64;
        for k in 0..144 {
            self.store_byte(st, buf + k, Val::c(0))?;
        }
        self.store(st, buf + 24, 4, 32, Val::c(0o100644))?; // st_mode
        self.store(st, buf + 48, 8, 64, Val::c(n))?; // st_size
        self.store(st, buf + 56, 8, 64, Val::c(4096))?;
        Ok(())
    }
    fn fd(&mut self, st: &State, fd: u64) -> Option<usize> {
        let k = (fd as usize).checked_sub(10)?;
        if k < st.vfs.fds.len() && st.vfs.fds[k].open {
            Some(k)
        } else {
            None
        }
    }
    /// The position in an open file; any place after the end counts as one.
    fn position(&mut self, st: &mut State, k: usize) -> R<u64> {
        let pos = st.vfs.fds[k].pos;
        if pos.e == 0 {
            return Ok(pos.c);
        }
        let n = st.vfs.files[st.vfs.fds[k].file].1.len() as u64;
        let t = self.cmp_val(st, Pred::Ult, 64, pos, Val::c(n))?;
        if if t.e == 0 { t.c == 1 } else { self.decide(st, t.e)? } {
            let p = self.conc(st, pos)?;
            Rc::make_mut(&mut st.vfs).fds[k].pos = Val::c(p);
            Ok(p)
        } else {
            Ok(n)
        }
    }
    /// The outcome of one transfer of up to `want` bytes: Ok(count) or errno.
    fn transfer(&mut self, st: &mut State, want: u64, hard: u64) -> R<Result<u64, u64>> {
        // options: 0 complete, then interrupted, hard error, shorter counts
        let v = st.vfs.clone();
        if v.ios >= MAX_IOS {
            return Ok(Ok(want));
        }
        let mut opts: Vec<Result<u64, u64>> = vec![Ok(want)];
        if v.eintr > 0 {
            opts.push(Err(EINTR));
        }
        if v.hard > 0 {
            opts.push(Err(hard));
        }
        if v.short > 0 {
            for n in 1..want.min(9) {
                opts.push(Ok(n));
            }
            if want > 9 {
                opts.push(Ok(want - 1));
            }
        }
        let k = self.pick(st, "io", opts.len() as u64)?;
        let f = Rc::make_mut(&mut st.vfs);
        f.ios += (opts.len() > 1) as u32;
        let r = opts[k as usize];
        match r {
            Err(e) if e == EINTR => f.eintr -= 1,
            Err(_) => {
                f.hard -= 1;
                f.failed = true;
            }
            Ok(n) if n < want => f.short -= 1,
            _ => {}
        }
        Ok(r)
    }

    pub fn call_libc(&mut self, st: &mut State, l: L, a: &[Val], c: &CallD) -> R<()> {
        match l {
            L::Errno => {
                let v = st.errno_obj;
                self.ret(st, c, v);
            }
            L::File => {
                // name, content, exists
                let n = self.conc(st, a[1])?;
                let p = self.conc(st, a[0])?;
                let name = self.read_bytes(st, p, n)?;
                let name: Vec<u8> = name.iter().map(|v| v.c as u8).collect();
                let n = self.conc(st, a[3])?;
                let p = if n > 0 { self.conc(st, a[2])? } else { 0 };
                let content = self.read_bytes(st, p, n)?;
                let ex = self.conc(st, a[4])?;
                Rc::make_mut(&mut st.vfs).files.push((name, content, ex & 1 == 1));
            }
            L::Faults => {
                let s = self.conc(st, a[0])?;
                let e = self.conc(st, a[1])?;
                let h = self.conc(st, a[2])?;
                let v = Rc::make_mut(&mut st.vfs);
                v.short = s as u32;
                v.eintr = e as u32;
                v.hard = h as u32;
            }
            L::FileRead => {
                // name, buffer, capacity -> length or -1
                let n = self.conc(st, a[1])?;
                let p = self.conc(st, a[0])?;
                let name = self.read_bytes(st, p, n)?;
                match self.vfs_find(st, &name)? {
                    None => self.ret(st, c, !0),
                    Some(i) => {
                        let q = self.conc(st, a[2])?;
                        let cap = self.conc(st, a[3])?;
                        let content = st.vfs.files[i].1.clone();
                        for (k, v) in content.iter().enumerate().take(cap as usize) {
                            self.store_byte(st, q + k as u64, *v)?;
                        }
                        self.ret(st, c, content.len() as u64);
                    }
                }
            }
            L::Failed => {
                let f = st.vfs.failed as u64;
                self.ret(st, c, f);
            }
            L::Strerror => {
                let e = self.conc(st, a[0])?;
                let p = self.conc(st, a[1])?;
                let n = self.conc(st, a[2])?;
                let t: &[u8] = match e {
                    ENOENT => b"No such file or directory",
                    EINTR => b"Interrupted system call",
                    EIO => b"Input/output error",
                    EACCES => b"Permission denied",
                    ENOSPC => b"No space left on device",
                    _ => b"Unknown error",
                };
                for (i, b) in t.iter().chain(&[0u8]).enumerate().take(n as usize) {
                    self.store_byte(st, p + i as u64, Val::c(*b as u64))?;
                }
                self.ret(st, c, 0);
            }
            L::Rename => {
                let from = self.cstr(st, a[0])?;
                let to = self.cstr(st, a[1])?;
                if let Err(e) = self.transfer(st, 0, EACCES)? {
                    return self.errno(st, c, e);
                }
                let i = match self.vfs_find(st, &from)? {
                    None => return self.errno(st, c, ENOENT),
                    Some(i) => i,
                };
                let old = self.vfs_find(st, &to)?;
                let mut n = vec![];
                for v in &to {
                    n.push(self.conc(st, *v)? as u8);
                }
                let v = Rc::make_mut(&mut st.vfs);
                if let Some(o) = old {
                    if o != i {
                        v.files[o].2 = false;
                    }
                }
                v.files[i].0 = n;
                self.ret(st, c, 0);
            }
            L::Unlink => {
                let name = self.cstr(st, a[0])?;
                match self.vfs_find(st, &name)? {
                    None => return self.errno(st, c, ENOENT),
                    Some(i) => {
                        Rc::make_mut(&mut st.vfs).files[i].2 = false;
                        self.ret(st, c, 0);
                    }
                }
            }
            L::Open => {
                let name = self.cstr(st, a[0])?;
                let flags = self.conc(st, a[1])?;
                let found = self.vfs_find(st, &name)?;
                if let Err(e) = self.transfer(st, 0, EACCES)? {
                    return self.errno(st, c, e);
                }
                let creat = flags & 0o100 != 0;
                let trunc = flags & 0o1000 != 0;
                let excl = flags & 0o200 != 0;
                let i = match found {
                    Some(_) if creat && excl => return self.errno(st, c, 17),
                    Some(i) => i,
                    None if creat => {
                        let mut n = vec![];
                        for v in &name {
                            n.push(self.conc(st, *v)? as u8);
                        }
                        if !n.starts_with(b"/vfs/") {
                            return self.errno(st, c, ENOENT);
                        }
                        let v = Rc::make_mut(&mut st.vfs);
                        v.files.push((n, vec![], true));
                        v.files.len() - 1
                    }
                    None => return self.errno(st, c, ENOENT),
                };
                let v = Rc::make_mut(&mut st.vfs);
                if trunc {
                    v.files[i].1.clear();
                }
                v.fds.push(OpenFile { file: i, pos: Val::c(0), append: flags & 0o2000 != 0, open: true });
                let fd = 10 + v.fds.len() as u64 - 1;
                self.ret(st, c, fd);
            }
            L::Close => {
                let fd = self.conc(st, a[0])?;
                match self.fd(st, fd) {
                    Some(k) => {
                        Rc::make_mut(&mut st.vfs).fds[k].open = false;
                        self.ret(st, c, 0);
                    }
                    None => return self.errno(st, c, EBADF),
                }
            }
            L::Read | L::Readv => {
                let fd = self.conc(st, a[0])?;
                let k = match self.fd(st, fd) {
                    Some(k) => k,
                    None => return self.errno(st, c, EBADF),
                };
                let segs = self.segments(st, l == L::Readv, a)?;
                let total: u64 = segs.iter().map(|s| s.1).sum();
                let file = st.vfs.fds[k].file;
                let pos = self.position(st, k)?;
                let avail = (st.vfs.files[file].1.len() as u64).saturating_sub(pos);
                let want = total.min(avail);
                match self.transfer(st, want, EIO)? {
                    Err(e) => return self.errno(st, c, e),
                    Ok(n) => {
                        if n > 0 {
                            let data: Vec<Val> = st.vfs.files[file].1[pos as usize..(pos + n) as usize].to_vec();
                            self.scatter(st, &segs, &data)?;
                            Rc::make_mut(&mut st.vfs).fds[k].pos = Val::c(pos + n);
                        }
                        self.ret(st, c, n);
                    }
                }
            }
            L::Write | L::Writev => {
                let fd = self.conc(st, a[0])?;
                if fd == 1 || fd == 2 {
                    let segs = self.segments(st, l == L::Writev, a)?;
                    let total: u64 = segs.iter().map(|s| s.1).sum();
                    self.ret(st, c, total);
                    return Ok(());
                }
                let k = match self.fd(st, fd) {
                    Some(k) => k,
                    None => return self.errno(st, c, EBADF),
                };
                let segs = self.segments(st, l == L::Writev, a)?;
                let total: u64 = segs.iter().map(|s| s.1).sum();
                match self.transfer(st, total, ENOSPC)? {
                    Err(e) => return self.errno(st, c, e),
                    Ok(n) => {
                        let mut data = vec![];
                        for (p, len) in &segs {
                            data.extend(self.read_bytes(st, *p, *len)?);
                        }
                        data.truncate(n as usize);
                        let pos = st.vfs.fds[k].pos;
                        let mut pos = self.conc(st, pos)? as usize;
                        let v = Rc::make_mut(&mut st.vfs);
                        let file = v.fds[k].file;
                        if v.fds[k].append {
                            pos = v.files[file].1.len();
                        }
                        let content = &mut v.files[file].1;
                        while content.len() < pos + data.len() {
                            content.push(Val::c(0));
                        }
                        content[pos..pos + data.len()].copy_from_slice(&data);
                        v.fds[k].pos = Val::c(pos as u64 + n);
                        self.ret(st, c, n);
                    }
                }
            }
            L::Lseek => {
                let fd = self.conc(st, a[0])?;
                let wh = self.conc(st, a[2])?;
                let k = match self.fd(st, fd) {
                    Some(k) => k,
                    None => return self.errno(st, c, EBADF),
                };
                let base = match wh {
                    0 => Val::c(0),
                    1 => st.vfs.fds[k].pos,
                    _ => Val::c(st.vfs.files[st.vfs.fds[k].file].1.len() as u64),
                };
                let n = self.bin_val(st, Bin::Add, 64, base, a[1])?;
                let neg = self.cmp_val(st, Pred::Slt, 64, n, Val::c(0))?;
                if if neg.e == 0 { neg.c == 1 } else { self.decide(st, neg.e)? } {
                    return self.errno(st, c, 22);
                }
                Rc::make_mut(&mut st.vfs).fds[k].pos = n;
                if c.nret > 0 {
                    let i = (st.base + c.d) as usize;
                    st.regs[i] = n;
                }
            }
            L::Stat => {
                let name = self.cstr(st, a[0])?;
                match self.vfs_find(st, &name)? {
                    None => return self.errno(st, c, ENOENT),
                    Some(i) => {
                        let b = self.conc(st, a[1])?;
                        self.fill_stat(st, b, i)?;
                        self.ret(st, c, 0);
                    }
                }
            }
            L::Fstat => {
                let fd = self.conc(st, a[0])?;
                match self.fd(st, fd) {
                    None => return self.errno(st, c, EBADF),
                    Some(k) => {
                        let b = self.conc(st, a[1])?;
                        let f = st.vfs.fds[k].file;
                        self.fill_stat(st, b, f)?;
                        self.ret(st, c, 0);
                    }
                }
            }
            L::Statx => return self.errno(st, c, ENOSYS),
            L::Fsync => self.ret(st, c, 0),
            // only asked whether the descriptor is open
            L::Fcntl => {
                let fd = self.conc(st, a[0])?;
                match self.fd(st, fd) {
                    None => return self.errno(st, c, EBADF),
                    Some(_) => self.ret(st, c, 0),
                }
            }
            L::Ftruncate => {
                let fd = self.conc(st, a[0])?;
                let n = self.conc(st, a[1])? as usize;
                match self.fd(st, fd) {
                    None => return self.errno(st, c, EBADF),
                    Some(k) => {
                        let v = Rc::make_mut(&mut st.vfs);
                        let f = v.fds[k].file;
                        v.files[f].1.resize(n, Val::c(0));
                        self.ret(st, c, 0);
                    }
                }
            }
            L::Getrandom => {
                let p = self.conc(st, a[0])?;
                let n = self.conc(st, a[1])?;
                for i in 0..n {
                    self.store_byte(st, p + i, Val::c(7))?;
                }
                self.ret(st, c, n);
            }
            L::Fail => {
                if c.nret > 0 && c.rw[0] == 64 {
                    self.errno(st, c, ENOENT)?;
                    self.ret(st, c, 0);
                } else {
                    self.errno(st, c, ENOENT)?;
                }
            }
            L::Zero => self.ret(st, c, 0),
            L::Gettid => self.ret(st, c, 1000),
        }
        Ok(())
    }

    fn segments(&mut self, st: &mut State, vec: bool, a: &[Val]) -> R<Vec<(u64, u64)>> {
        if !vec {
            let n = self.conc(st, a[2])?;
            let p = self.conc(st, a[1])?;
            return Ok(vec![(p, n)]);
        }
        let p = self.conc(st, a[1])?;
        let n = self.conc(st, a[2])?;
        let mut out = vec![];
        for i in 0..n {
            let b = self.load(st, p + 16 * i, 8, 64)?;
            let l = self.load(st, p + 16 * i + 8, 8, 64)?;
            let b = self.conc(st, b)?;
            let l = self.conc(st, l)?;
            out.push((b, l));
        }
        Ok(out)
    }
    fn scatter(&mut self, st: &mut State, segs: &[(u64, u64)], data: &[Val]) -> R<()> {
        let mut k = 0;
        for (p, n) in segs {
            for i in 0..*n {
                if k == data.len() {
                    return Ok(());
                }
                self.store_byte(st, p + i, data[k])?;
                k += 1;
            }
        }
        Ok(())
    }
}
