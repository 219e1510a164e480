//! MO images laid out in other ways than the crate does it.

use crate::c10::no_separators;
use crate::sym::*;
use crate::util::*;
use rspolib::{mofile, MOEntry, MOFile, MAGIC, MAGIC_SWAPPED};

const ORDERS: [[usize; 4]; 8] =
    [[0, 1, 2, 3], [1, 0, 2, 3], [2, 0, 1, 3], [3, 0, 1, 2], [3, 1, 2, 0], [0, 3, 1, 2], [1, 3, 2, 0], [2, 3, 1, 0]];

/// one of six shapes, with `t` in one of its texts
fn made(i: usize, kind: usize, t: &str) -> MOEntry {
    let mut e = MOEntry::from(nth(i).as_str());
    e.msgstr = Some("text".to_string());
    match kind {
        0 => e.msgid.push_str(t),
        1 => e.msgstr = Some(t.to_string()),
        2 => e.msgctxt = Some(t.to_string()),
        3 => {
            e.msgid_plural = Some(t.to_string());
            e.msgstr_plural = vec!["one".to_string(), "text".to_string()];
        }
        4 => {
            e.msgid_plural = Some("many".to_string());
            e.msgstr_plural = vec!["".to_string(), t.to_string(), "three".to_string()];
        }
        _ => {
            e.msgctxt = Some("".to_string());
            e.msgid_plural = Some("many".to_string());
            e.msgstr_plural = vec![t.to_string()];
        }
    }
    if e.msgid_plural.is_some() {
        e.msgstr = None;
    }
    e
}

fn key(e: &MOEntry) -> Vec<u8> {
    let mut k = crate::c10::key(e);
    if let Some(p) = &e.msgid_plural {
        k.push(0);
        k.extend_from_slice(p.as_bytes());
    }
    k
}

fn value(e: &MOEntry) -> Vec<u8> {
    if e.msgid_plural.is_none() {
        return or_empty(&e.msgstr).as_bytes().to_vec();
    }
    let mut v = Vec::new();
    for (i, f) in e.msgstr_plural.iter().enumerate() {
        if i > 0 {
            v.push(0);
        }
        v.extend_from_slice(f.as_bytes());
    }
    v
}

struct Layout {
    order: [usize; 4],
    gap: usize,
    /// strings in order, from the last to the first, or values before keys
    strings: usize,
    /// equal strings and ends of strings are stored once
    shared: bool,
    hash: usize,
    tail: usize,
    /// what lies where no table points at
    other: u8,
}

fn image(pairs: &[(Vec<u8>, Vec<u8>)], l: &Layout, big: bool, revision: u32) -> Vec<u8> {
    let n = pairs.len();
    let size = [8 * n, 8 * n, 4 * l.hash];
    // the strings, each at its place from the start of their block
    let mut block: Vec<u8> = Vec::new();
    let mut places = vec![(0usize, 0usize); 2 * n];
    let all: Vec<usize> = match l.strings {
        0 => (0..2 * n).collect(),
        1 => (0..2 * n).rev().collect(),
        _ => (n..2 * n).chain(0..n).collect(),
    };
    for i in all {
        let s = if i < n { &pairs[i].0 } else { &pairs[i - n].1 };
        let mut z = s.clone();
        z.push(0);
        let mut at = None;
        if l.shared && s == b"text" {
            // an end of a longer string before
            at = block.windows(5).position(|w| w == b"text\0");
        }
        if l.shared && s.is_empty() {
            at = block.iter().position(|c| *c == 0);
        }
        let at = at.unwrap_or(block.len());
        if at == block.len() {
            block.extend_from_slice(&z);
        }
        places[i] = (s.len(), at);
    }
    let mut start = [0; 4];
    let mut at = 28;
    for b in l.order {
        at += l.gap;
        start[b] = at;
        at += if b == 3 { block.len() } else { size[b] };
    }
    let mut out = vec![l.other; at + l.tail];
    let mut put = |at: usize, v: u32| {
        let b = if big { v.to_be_bytes() } else { v.to_le_bytes() };
        out[at..at + 4].copy_from_slice(&b);
    };
    put(0, MAGIC);
    put(4, revision);
    put(8, n as u32);
    put(12, start[0] as u32);
    put(16, start[1] as u32);
    put(20, l.hash as u32);
    put(24, start[2] as u32);
    for i in 0..2 * n {
        let t = start[i / n] + 8 * (i % n);
        put(t, places[i].0 as u32);
        put(t + 4, (start[3] + places[i].1) as u32);
    }
    out[start[3]..start[3] + block.len()].copy_from_slice(&block);
    out
}

fn verify(b: Vec<u8>, entries: &[MOEntry], metadata: bool, big: bool, revision: u32) {
    file("/vfs/foreign.mo", &b);
    let r: MOFile = match mofile(b) {
        Ok(r) => r,
        Err(_) => fail("a well-formed image is rejected"),
    };
    check(r.entries.len() == entries.len(), "number of entries differs");
    for (a, b) in entries.iter().zip(&r.entries) {
        check_mo_texts(a, b);
    }
    check(r.magic_number == Some(if big { MAGIC_SWAPPED } else { MAGIC }), "another byte order");
    check(r.version == Some(revision), "another revision");
    check(r.metadata.len() == if metadata { 2 } else { 0 }, "number of metadata differs");
    if metadata {
        check(r.metadata.get("Language").map(|s| s.as_str()) == Some("es"), "metadata differ");
        check(r.metadata.get("X-Key").map(|s| s.as_str()) == Some("a: text"), "metadata differ");
    }
    match mofile("/vfs/foreign.mo") {
        Ok(f) => check(f.entries == r.entries && f.metadata == r.metadata, "a file is read in another way"),
        Err(_) => fail("a well-formed file is rejected"),
    }
    emit(r.to_string().as_bytes());
    reach(0);
}

const METADATA: &[u8] = b"Language: es\nX-Key: a: text\n";

/// p0 entries of six shapes, one of them with up to p1 open bytes of alphabet
/// p2, in every layout (p3 = 1: in two of them).
#[no_mangle]
pub extern "C" fn h_c30() {
    warm();
    let t = text_of(param(2), "text", param(1));
    no_separators(&t);
    let n = param(0);
    let metadata = flip();
    let mut pairs = Vec::new();
    if metadata {
        pairs.push((Vec::new(), METADATA.to_vec()));
    }
    let open = pick(n);
    let mut entries = Vec::new();
    for i in 0..n {
        // not in the order of the keys
        let e = made(n - i, pick(6), if i == open { &t } else { "a text" });
        pairs.push((key(&e), value(&e)));
        entries.push(e);
    }
    let l = if param(3) == 1 {
        let k = pick(2);
        Layout { order: ORDERS[[4, 7][k]], gap: k, strings: k + 1, shared: true, hash: 3, tail: 5, other: 0xa5 }
    } else {
        Layout {
            order: ORDERS[pick(8)],
            gap: [0, 3][pick(2)],
            strings: pick(3),
            shared: flip(),
            hash: [0, 5][pick(2)],
            tail: [0, 7][pick(2)],
            other: 0xa5,
        }
    };
    let big = flip();
    let revision = pick(2) as u32;
    verify(image(&pairs, &l, big, revision), &entries, metadata, big, revision);
}

/// The gap between the parts of the image is any number up to p0; the
/// number of strings in the hash table any up to 255.
#[no_mangle]
pub extern "C" fn h_c30_gap() {
    warm();
    let gap = pick(param(0) + 1);
    let entries = vec![made(1, 2, "a text"), made(0, 4, "b"), made(2, 1, "")];
    let mut pairs = vec![(Vec::new(), METADATA.to_vec())];
    for e in &entries {
        pairs.push((key(e), value(e)));
    }
    let mut l =
        Layout { order: ORDERS[pick(8)], gap, strings: pick(3), shared: flip(), hash: 2, tail: 3, other: 0x5a };
    let mut b = image(&pairs, &l, false, 0);
    // what the hash table is does not matter
    let h = bytes("table", 8);
    b[20..28].copy_from_slice(&h);
    if gap <= 4 {
        // nor what is in the bytes of which nothing speaks
        l.other = 0xa5;
        let c = image(&pairs, &l, false, 0);
        let o = bytes("other", 40);
        let mut k = 0;
        for i in 28..b.len() {
            if b[i] != c[i] {
                b[i] = o[k];
                k += 1;
            }
        }
    }
    verify(b, &entries, true, false, 0);
}

/// p0 entries of the six shapes, one of them with an open byte, in two layouts.
#[no_mangle]
pub extern "C" fn h_c30_many() {
    warm();
    let n = param(0);
    let t = text_of(1, "text", 1);
    no_separators(&t);
    let open = [0, n / 2, n - 1][pick(3)];
    let kind = pick(6);
    let mut pairs = vec![(Vec::new(), METADATA.to_vec())];
    let mut entries = Vec::new();
    for i in 0..n {
        let e = if i == open { made(n - i, kind, &t) } else { made(n - i, i % 6, "a text") };
        pairs.push((key(&e), value(&e)));
        entries.push(e);
    }
    let k = pick(2);
    let l = Layout { order: ORDERS[[4, 7][k]], gap: k, strings: k + 1, shared: true, hash: 3, tail: 5, other: 0xa5 };
    verify(image(&pairs, &l, k == 0, 1), &entries, true, k == 0, 1);
}

/// Strings of p0 bytes with an open letter in one of three places.
#[no_mangle]
pub extern "C" fn h_c30_long() {
    warm();
    let n = param(0);
    let c = byte("text");
    assume(c.is_ascii_alphanumeric());
    let mut t = vec![b'x'; n];
    t[[1, n / 2, n - 1][pick(3)]] = c;
    let t = match String::from_utf8(t) {
        Ok(t) => t,
        Err(_) => fail("not text"),
    };
    let entries = vec![made(1, pick(6), &t), made(2, 1, "b")];
    let mut pairs = vec![(Vec::new(), METADATA.to_vec())];
    for e in &entries {
        pairs.push((key(e), value(e)));
    }
    let big = flip();
    let l = Layout { order: ORDERS[4], gap: 0, strings: pick(3), shared: false, hash: 0, tail: 0, other: 0 };
    let b = image(&pairs, &l, big, 0);
    let r: MOFile = match mofile(b) {
        Ok(r) => r,
        Err(_) => fail("a well-formed image is rejected"),
    };
    check(r.entries.len() == entries.len(), "number of entries differs");
    for (a, b) in entries.iter().zip(&r.entries) {
        check_mo_texts(a, b);
    }
    emit(r.entries.len().to_string().as_bytes());
    reach(0);
}
