//! Interface between the harnesses and the symbolic executor. The replay
//! program defines the same functions over concrete values.

extern "C" {
    fn __sym_bytes(p: *mut u8, n: usize, name: *const u8, len: usize);
    fn __sym_assume(c: bool);
    fn __sym_fail(msg: *const u8, len: usize) -> !;
    fn __sym_reach(id: u32);
    fn __sym_emit(p: *const u8, n: usize);
    fn __sym_param(i: u32) -> u64;
    fn __sym_pick(n: u64) -> u64;
    fn __sym_concrete(v: u64) -> u64;
    fn __sym_hash_perm(n: u32);
    fn __sym_file(name: *const u8, nlen: usize, data: *const u8, len: usize, exists: bool);
    fn __sym_file_read(name: *const u8, nlen: usize, buf: *mut u8, cap: usize) -> i64;
    fn __sym_io_faults(short: u32, eintr: u32, hard: u32);
    fn __sym_io_failed() -> bool;
}

/// `n` arbitrary bytes
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { __sym_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len()) }
    }
    v
}

/// one arbitrary byte
pub fn byte(name: &str) -> u8 {
    bytes(name, 1)[0]
}

/// one byte between two bounds, both included
pub fn byte_in(name: &str, lo: u8, hi: u8) -> u8 {
    let b = byte(name);
    assume(lo <= b);
    assume(b <= hi);
    b
}

/// the path continues only for inputs that satisfy the condition
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}

/// every UTF-8 text of exactly `n` bytes
pub fn text(name: &str, n: usize) -> String {
    let v = bytes(name, n);
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            String::new()
        }
    }
}

/// every UTF-8 text of up to `max` bytes
pub fn text_upto(name: &str, max: usize) -> String {
    let n = pick(max + 1);
    text(name, n)
}

/// First bytes of characters outside ASCII: Latin, combining marks, Hebrew,
/// Arabic, Thai, Hangul, spaces and joiners, punctuation, CJK, full width,
/// emoji, skin tones, flags, private use.
const LEADS: [&[u8]; 20] = [
    b"\xc2", b"\xc3", b"\xcc", b"\xd7", b"\xd8", b"\xe0\xb8", b"\xe1\x84", b"\xe1\x86", b"\xe2\x80", b"\xe2\x81",
    b"\xe3\x80", b"\xe3\x82", b"\xe4\xb8", b"\xea\xb0", b"\xef\xbb", b"\xef\xbd", b"\xf0\x9f\x98", b"\xf0\x9f\x8f",
    b"\xf0\x9f\x87", b"\xf3\xb0\x80",
];

/// Every character of 20 blocks of 64 outside ASCII.
pub fn wide(name: &str) -> String {
    let mut v = LEADS[pick(LEADS.len())].to_vec();
    v.push(byte_in(name, 0x80, 0xbf));
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            String::new()
        }
    }
}

/// every ASCII text of up to `max` bytes
pub fn ascii_upto(name: &str, max: usize) -> String {
    let n = pick(max + 1);
    let v = bytes(name, n);
    for b in &v {
        assume(*b < 0x80);
    }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => fail("ASCII is UTF-8"),
    }
}

/// Texts by alphabet: any UTF-8 of up to `max` bytes, ASCII of up to `max`
/// bytes, a character from beyond ASCII, or one followed by an ASCII text.
pub fn text_of(alphabet: usize, name: &str, max: usize) -> String {
    match alphabet {
        0 => text_upto(name, max),
        1 => ascii_upto(name, max),
        2 => wide(name),
        _ => {
            let mut s = wide("wide");
            s.push_str(&ascii_upto(name, max));
            s
        }
    }
}

/// an arbitrary choice below `n`
pub fn pick(n: usize) -> usize {
    unsafe { __sym_pick(n as u64) as usize }
}

pub fn flip() -> bool {
    pick(2) == 1
}

pub fn fail(msg: &str) -> ! {
    unsafe { __sym_fail(msg.as_ptr(), msg.len()) }
}

/// the property
#[inline(always)]
pub fn check(c: bool, msg: &str) {
    if !c {
        fail(msg)
    }
}

/// witness that some input gets here
pub fn reach(id: u32) {
    unsafe { __sym_reach(id) }
}

/// output compared with the one of the compiled program for sampled inputs
pub fn emit(b: &[u8]) {
    unsafe { __sym_emit(b.as_ptr(), b.len()) }
}

pub fn param(i: u32) -> usize {
    unsafe { __sym_param(i) as usize }
}

pub fn concrete(v: usize) -> usize {
    unsafe { __sym_concrete(v as u64) as usize }
}

/// From now on each string written to a hasher gets an arbitrary hash below
/// `n`; calling it again forgets the hashes chosen before. 0 switches it off.
pub fn hash_perm(n: u32) {
    unsafe { __sym_hash_perm(n) }
}

/// a file of the simulated file system; names start with /vfs/
pub fn file(name: &str, data: &[u8]) {
    unsafe { __sym_file(name.as_ptr(), name.len(), data.as_ptr(), data.len(), true) }
}

pub fn file_content(name: &str) -> Option<Vec<u8>> {
    let mut buf = vec![0u8; 1 << 16];
    let n = unsafe { __sym_file_read(name.as_ptr(), name.len(), buf.as_mut_ptr(), buf.len()) };
    if n < 0 {
        return None;
    }
    buf.truncate(n as usize);
    Some(buf)
}

/// number of short transfers, interruptions and errors that may happen
pub fn io_faults(short: u32, eintr: u32, hard: u32) {
    unsafe { __sym_io_faults(short, eintr, hard) }
}

/// Whether a call of the file system failed for good. After that the path may
/// also end in a panic.
pub fn io_failed() -> bool {
    unsafe { __sym_io_failed() }
}

/// Runs the lazily initialised parts once before inputs become symbolic.
pub fn warm() {
    let po = rspolib::pofile("msgid \"a\"\nmsgstr \"b\"\n").unwrap();
    let s = po.to_string();
    if s.is_empty() {
        fail("warm up");
    }
}
