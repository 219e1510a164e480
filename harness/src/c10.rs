//! Catalogues written as MO images.

use crate::c09::{split_key, u32_at};
use crate::sym::*;
use crate::util::*;
use rspolib::{MOEntry, MOFile, MAGIC, MAGIC_SWAPPED};

pub fn no_separators(s: &str) {
    assume(!s.contains('\0'));
    assume(!s.contains('\u{4}'));
}

/// An entry with a message of up to `n` open bytes, maybe with context,
/// maybe plural.
pub fn catalogue_entry(i: usize, alphabet: usize, n: usize, forms: usize) -> MOEntry {
    let id = text_of(alphabet, ["id0", "id1", "id2"][i], n);
    no_separators(&id);
    let mut e = MOEntry::new(id, None, None, vec![], None);
    let letter = |name: &str| String::from_utf8(vec![byte_in(name, b'A', b'Z')]).unwrap();
    if flip() {
        let c = text_of(if alphabet == 2 { 1 } else { alphabet }, ["ctx0", "ctx1", "ctx2"][i], n);
        no_separators(&c);
        e.msgctxt = Some(c);
    }
    let k = pick(forms + 1);
    if k == 0 {
        e.msgstr = Some(letter(["str0", "str1", "str2"][i]));
    } else {
        e.msgid_plural = Some(if flip() { letter(["pl0", "pl1", "pl2"][i]) } else { String::new() });
        e.msgstr_plural = vec![letter(["str0", "str1", "str2"][i])];
        for j in 1..k {
            e.msgstr_plural.push(["", "more", ""][j].to_string());
        }
    }
    e
}

pub fn key(e: &MOEntry) -> Vec<u8> {
    let mut k = Vec::new();
    if let Some(c) = &e.msgctxt {
        k.extend_from_slice(c.as_bytes());
        k.push(4);
    }
    k.extend_from_slice(e.msgid.as_bytes());
    k
}

/// Up to p0 entries with distinct keys of alphabet p2 and up to p1 open bytes
/// in each text; up to p3 plural forms.
pub fn catalogue() -> MOFile {
    let mut m = MOFile::new("".into());
    let n = if param(4) == 1 { param(0) } else { pick(param(0) + 1) };
    for i in 0..n {
        let e = catalogue_entry(i, param(2), param(1), param(3));
        // the empty key is the one of the metadata
        assume(e.msgctxt.is_some() || !e.msgid.is_empty());
        for o in &m.entries {
            assume(key(o) != key(&e));
        }
        m.entries.push(e);
    }
    if flip() {
        m.metadata.insert("Language".to_string(), "es".to_string());
        m.metadata.insert("X-Key".to_string(), crate::c05::letter("meta"));
    }
    m
}

fn back(m: &MOFile, b: &[u8], magic: u32, revision: u32) {
    let r = match rspolib::mofile(b.to_vec()) {
        Ok(r) => r,
        Err(_) => fail("the image cannot be read"),
    };
    check(r.entries.len() == m.entries.len(), "number of entries differs");
    check(r.metadata == m.metadata, "metadata differs");
    check(r.magic_number == Some(magic), "byte order differs");
    check(r.version == Some(revision), "revision differs");
    for w in r.entries.windows(2) {
        check(key(&w[0]) < key(&w[1]), "entries are not sorted by their key");
    }
    for e in &m.entries {
        let k = key(e);
        match r.entries.iter().find(|x| key(x) == k) {
            Some(x) => check_mo_texts(e, x),
            None => fail("an entry is lost"),
        }
    }
}

/// Write and read back.
#[no_mangle]
pub extern "C" fn h_c10() {
    warm();
    let m = catalogue();
    let magic = if flip() { MAGIC } else { MAGIC_SWAPPED };
    let revision = pick(2) as u32;
    let b = m.as_bytes_with(magic, revision).into_owned();
    back(&m, &b, magic, revision);
    emit(&b);
    reach(0);
}

/// Up to p0 plural forms, each empty or not, beside other entries.
#[no_mangle]
pub extern "C" fn h_c10_forms() {
    warm();
    let mut m = MOFile::new("".into());
    let mut e = MOEntry::from("b");
    e.msgid_plural = Some("bs".to_string());
    if flip() {
        e.msgctxt = Some("c".to_string());
    }
    for i in 0..1 + pick(param(0)) {
        e.msgstr_plural.push(if flip() {
            crate::c05::letter(["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7"][i])
        } else {
            String::new()
        });
    }
    m.entries.push(e);
    if flip() {
        let mut o = MOEntry::from("a");
        o.msgstr = Some("x".to_string());
        m.entries.push(o);
    }
    let magic = if flip() { MAGIC } else { MAGIC_SWAPPED };
    let b = m.as_bytes_with(magic, 0).into_owned();
    back(&m, &b, magic, 0);
    emit(&b);
    reach(0);
}

/// Texts of up to p0 open bytes (alphabet p1) in the translations.
#[no_mangle]
pub extern "C" fn h_c10_texts() {
    warm();
    let t = crate::c03::put(param(2), &text_of(param(1), "text", param(0)));
    no_separators(&t);
    let mut m = MOFile::new("".into());
    let mut e = MOEntry::from("b");
    match pick(5) {
        0 => e.msgstr = Some(t),
        1 => {
            e.msgid_plural = Some(t);
            e.msgstr_plural = vec!["x".to_string(), "y".to_string()];
        }
        2 => {
            e.msgid_plural = Some("bs".to_string());
            e.msgstr_plural = vec![t];
        }
        3 => {
            e.msgid_plural = Some("bs".to_string());
            e.msgstr_plural = vec!["x".to_string(), t];
        }
        _ => {
            assume(!t.is_empty());
            assume(t != "a" && t != "c");
            e.msgid = t;
            e.msgstr = Some("x".to_string());
        }
    }
    for (k, v) in [("a", "1"), ("c", "3")] {
        let mut o = MOEntry::from(k);
        o.msgstr = Some(v.to_string());
        m.entries.push(o);
    }
    m.entries.insert(pick(3), e);
    let magic = if flip() { MAGIC } else { MAGIC_SWAPPED };
    let b = m.as_bytes_with(magic, 0).into_owned();
    back(&m, &b, magic, 0);
    emit(&b);
    reach(0);
}

fn text_at(b: &[u8], table: u64, i: u64, big: bool) -> (usize, usize) {
    let l = u32_at(b, table + 8 * i, big).unwrap() as u64;
    let o = u32_at(b, table + 8 * i + 4, big).unwrap() as u64;
    check(o + l < b.len() as u64, "a text lies outside of the image");
    check(b[(o + l) as usize] == 0, "a text is not followed by NUL");
    (o as usize, l as usize)
}

/// The layout of the image, and a binary search for each key.
fn layout(m: &MOFile, b: &[u8], magic: u32, revision: u32) {
    let big = magic == MAGIC_SWAPPED;
    check(b.len() >= 28, "the header is cut");
    check(u32_at(b, 0, big) == Some(MAGIC), "the magic number is wrong");
    check(u32_at(b, 4, big) == Some(revision), "the revision is wrong");
    let n = u32_at(b, 8, big).unwrap() as u64;
    check(n == m.entries.len() as u64 + 1, "the number of texts is wrong");
    let keys = u32_at(b, 12, big).unwrap() as u64;
    let values = u32_at(b, 16, big).unwrap() as u64;
    let len = b.len() as u64;
    check(keys >= 20 && keys + 8 * n <= len, "the table of keys lies outside of the image");
    check(values >= 20 && values + 8 * n <= len, "the table of values lies outside of the image");
    check(keys + 8 * n <= values || values + 8 * n <= keys, "the tables overlap");
    check(u32_at(b, 20, big) == Some(0), "there is a hash table");
    let mut all: Vec<(usize, usize)> = Vec::new();
    for i in 0..n {
        let (o, l) = text_at(b, keys, i, big);
        check(o as u64 >= 28 + 16 * n, "a key lies in the tables");
        // readers compare keys up to the first NUL
        let end = b[o..o + l].iter().position(|c| *c == 0).unwrap_or(l);
        if i > 0 {
            let (po, pl) = all[i as usize - 1];
            check(b[po..po + pl] < b[o..o + end], "the keys are not in ascending order");
        } else {
            check(l == 0, "the first key is not the one of the metadata");
        }
        all.push((o, end));
        let (o, _) = text_at(b, values, i, big);
        check(o as u64 >= 28 + 16 * n, "a value lies in the tables");
    }
    for e in &m.entries {
        let k = key(e);
        let (mut lo, mut hi) = (0usize, n as usize);
        let mut found = false;
        while lo < hi {
            let mid = (lo + hi) / 2;
            let (o, l) = all[mid];
            let x = &b[o..o + l];
            if x == &k[..] {
                let (vo, vl) = text_at(b, values, mid as u64, big);
                let want = if e.msgid_plural.is_some() { e.msgstr_plural.join("\0") } else { or_empty(&e.msgstr).to_string() };
                check(&b[vo..vo + vl] == want.as_bytes(), "a search finds another translation");
                let (ko, kl) = text_at(b, keys, mid as u64, big);
                let whole = std::str::from_utf8(&b[ko..ko + kl]).unwrap_or("\u{1}");
                check(split_key(whole).1 == e.msgid_plural, "a search finds another plural");
                found = true;
                break;
            } else if x < &k[..] {
                lo = mid + 1;
            } else {
                hi = mid;
            }
        }
        check(found, "a key cannot be found by searching");
    }
    let (o, l) = text_at(b, values, 0, big);
    let meta = std::str::from_utf8(&b[o..o + l]).unwrap_or("\u{1}");
    check(meta.lines().filter(|l| !l.is_empty()).count() == m.metadata.len(), "the metadata is not complete");
}

#[no_mangle]
pub extern "C" fn h_c11() {
    warm();
    let m = catalogue();
    let magic = if flip() { MAGIC } else { MAGIC_SWAPPED };
    let revision = pick(2) as u32;
    let b = m.as_bytes_with(magic, revision).into_owned();
    layout(&m, &b, magic, revision);
    emit(&b);
    reach(0);
}

/// The ways to get the bytes of PO and MO files agree.
#[no_mangle]
pub extern "C" fn h_c11_ways() {
    use rspolib::{AsBytes, POEntry, POFile};
    warm();
    let mut p = POFile::new("".into());
    for i in 0..pick(3) {
        let mut e = POEntry::new(0);
        e.msgid = text_of(param(1), ["id0", "id1"][i], param(0));
        no_separators(&e.msgid);
        assume(!e.msgid.is_empty());
        assume(i == 0 || p.entries[0].msgid != e.msgid);
        e.msgstr = Some("t".to_string());
        p.entries.push(e);
    }
    let m = MOFile::from(&p);
    let le = p.as_bytes_le().into_owned();
    check(p.as_bytes() == m.as_bytes(), "the bytes of PO and MO file differ");
    check(le == m.as_bytes_le().into_owned(), "the little endian bytes of PO and MO file differ");
    check(p.as_bytes_be() == m.as_bytes_be(), "the big endian bytes of PO and MO file differ");
    layout(&m, &le, MAGIC, 0);
    layout(&m, &p.as_bytes_be(), MAGIC_SWAPPED, 0);
    emit(&le);
    reach(0);
}

/// Large catalogues: many entries, or a text of more than 65535 bytes, with
/// an open byte in a key. p0 = 1: also reads the image back.
#[no_mangle]
pub extern "C" fn h_c10_large() {
    warm();
    let mut m = MOFile::new("".into());
    let n = [40, 300, 2][pick(3)];
    // not in order
    for i in 0..n {
        let k = i * 7 % n;
        let mut s = String::from("k");
        s.push((b'a' + (k / 26) as u8) as char);
        s.push((b'a' + (k % 26) as u8) as char);
        let mut e = MOEntry::from(s.as_str());
        e.msgstr = Some(s);
        m.entries.push(e);
    }
    let mut e = MOEntry::from("k");
    e.msgid.push(byte_in("id", b'!', b'~') as char);
    e.msgstr = Some("open".to_string());
    if n == 2 {
        e.msgstr = Some("x".repeat(70000));
    }
    m.entries.insert(n / 2, e);
    let magic = if flip() { MAGIC } else { MAGIC_SWAPPED };
    let b = m.as_bytes_with(magic, 0).into_owned();
    if param(0) == 1 {
        back(&m, &b, magic, 0);
    } else {
        layout(&m, &b, magic, 0);
    }
    emit(&b[..28]);
    reach(0);
}

/// A catalogue of p0 entries, an open byte in the last one.
#[no_mangle]
pub extern "C" fn h_c10_count() {
    warm();
    let mut m = MOFile::new("".into());
    let n = param(0);
    m.entries.reserve_exact(n);
    let mut key = *b"aaaa";
    for _ in 0..n {
        m.entries.push(MOEntry::from(std::str::from_utf8(&key).unwrap()));
        for c in key.iter_mut().rev() {
            if *c < b'z' {
                *c += 1;
                break;
            }
            *c = b'a';
        }
    }
    m.entries[n - 1].msgstr = Some(String::from(byte_in("text", b'!', b'~') as char));
    let magic = if flip() { MAGIC } else { MAGIC_SWAPPED };
    let b = m.as_bytes_with(magic, 0).into_owned();
    emit(&b[..28]);
    let Ok(back) = rspolib::mofile(b) else { return fail("the image is rejected") };
    check(back.entries.len() == n, "another number of entries");
    let (a, e) = (&m.entries[n - 1], &back.entries[n - 1]);
    check(a.msgid == e.msgid && a.msgstr == e.msgstr, "the last entry differs");
    reach(0);
}

/// Two entries whose keys are characters of 20 blocks of 64.
#[no_mangle]
pub extern "C" fn h_c11_wide() {
    warm();
    let mut m = MOFile::new("".into());
    for name in ["id0", "id1"] {
        let t = wide(name);
        let mut e = MOEntry::from("id");
        if flip() {
            e.msgctxt = Some(t);
        } else {
            e.msgid = t;
        }
        e.msgstr = Some("t".to_string());
        m.entries.push(e);
    }
    assume(key(&m.entries[0]) != key(&m.entries[1]));
    let b = m.as_bytes_with(MAGIC, 0).into_owned();
    layout(&m, &b, MAGIC, 0);
    back(&m, &b, MAGIC, 0);
    emit(&b);
    reach(0);
}
