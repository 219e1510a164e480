//! Arbitrary content given to the MO reader.

use crate::sym::*;
use rspolib::{MOFile, MAGIC, MAGIC_SWAPPED};

pub enum Image {
    Bad,
    /// nothing outside of the content, except maybe the place of an empty string
    Good(Vec<(Vec<u8>, Vec<u8>)>, bool),
}

pub fn u32_at(b: &[u8], i: u64, big: bool) -> Option<u32> {
    if i + 4 > b.len() as u64 {
        return None;
    }
    let i = i as usize;
    let w = [b[i], b[i + 1], b[i + 2], b[i + 3]];
    Some(if big { u32::from_be_bytes(w) } else { u32::from_le_bytes(w) })
}

/// An independent reader of MO images.
pub fn read_image(b: &[u8]) -> Image {
    let big = match u32_at(b, 0, false) {
        Some(MAGIC) => false,
        Some(MAGIC_SWAPPED) => true,
        _ => return Image::Bad,
    };
    let mut head = [0u32; 4];
    for i in 0..4 {
        match u32_at(b, 4 + 4 * i as u64, big) {
            Some(x) => head[i] = x,
            None => return Image::Bad,
        }
    }
    if head[0] > 1 {
        return Image::Bad;
    }
    let n = head[1] as u64;
    let len = b.len() as u64;
    if n > 0 && (head[2] as u64 + 8 * n > len || head[3] as u64 + 8 * n > len) {
        return Image::Bad;
    }
    let mut out = Vec::new();
    let mut odd = false;
    for i in 0..n {
        let mut pair = [Vec::new(), Vec::new()];
        for k in 0..2 {
            let at = head[2 + k] as u64 + 8 * i;
            let l = u32_at(b, at, big).unwrap() as u64;
            let o = u32_at(b, at + 4, big).unwrap() as u64;
            if o + l > len {
                if l > 0 {
                    return Image::Bad;
                }
                odd = true;
            } else {
                pair[k] = b[o as usize..(o + l) as usize].to_vec();
            }
        }
        let [a, c] = pair;
        out.push((a, c));
    }
    Image::Good(out, odd)
}

/// message, plural message and context spelled by a key
pub fn split_key(k: &str) -> (String, Option<String>, Option<String>) {
    let (first, plural) = match k.find('\0') {
        Some(i) => (&k[..i], Some(k[i + 1..].to_string())),
        None => (k, None),
    };
    match first.find('\u{4}') {
        Some(i) => (first[i + 1..].to_string(), plural, Some(first[..i].to_string())),
        None => (first.to_string(), plural, None),
    }
}

fn verify(content: Vec<u8>) {
    let expected = read_image(&content);
    match (expected, rspolib::mofile(content)) {
        (Image::Bad, Ok(_)) => fail("a damaged image is accepted"),
        (Image::Bad, Err(_)) => {
            emit(b"error");
            reach(0);
        }
        (Image::Good(pairs, odd), r) => {
            let mut texts = Vec::new();
            for (a, b) in &pairs {
                match (std::str::from_utf8(a), std::str::from_utf8(b)) {
                    (Ok(a), Ok(b)) => texts.push((a.to_string(), b.to_string())),
                    // bytes that are no text may be rejected or replaced
                    _ => return,
                }
            }
            match r {
                Err(_) => check(odd, "a sound image is rejected"),
                Ok(f) => same(&f, &texts),
            }
            reach(1);
        }
    }
}

pub fn same(f: &MOFile, texts: &[(String, String)]) {
    let skip = match texts.first() {
        Some((k, _)) if k.is_empty() => 1,
        _ => 0,
    };
    check(f.entries.len() == texts.len() - skip, "number of entries differs");
    for (e, (k, v)) in f.entries.iter().zip(texts[skip..].iter()) {
        let (id, plural, ctxt) = split_key(k);
        // more than one separator of a kind means nothing
        if k.matches('\0').count() > 1 || k.matches('\u{4}').count() > 1 {
            continue;
        }
        check(e.msgctxt == ctxt, "context differs");
        check(e.msgid == id, "message differs");
        check(e.msgid_plural == plural, "plural message differs");
        if plural.is_some() {
            let forms: Vec<&str> = v.split('\0').collect();
            check(e.msgstr_plural.len() == forms.len(), "number of plural forms differs");
            for (a, b) in e.msgstr_plural.iter().zip(forms) {
                check(a == b, "plural translation differs");
            }
        } else {
            check(e.msgstr.as_deref() == Some(v), "translation differs");
        }
        emit(e.msgid.as_bytes());
    }
}

/// Content of up to p0 bytes; p1 = 1: it begins with a magic number, p1 = 2:
/// with magic number, revision and count.
#[no_mangle]
pub extern "C" fn h_c09_any() {
    warm();
    let mut b = Vec::new();
    if param(1) > 0 {
        b.extend_from_slice(&(if flip() { MAGIC } else { MAGIC_SWAPPED }).to_le_bytes());
    }
    if param(1) > 1 {
        let n = pick(3) as u8;
        b.extend_from_slice(&[0, 0, 0, 0]);
        b.extend_from_slice(&if b[0] == 0xde { [n, 0, 0, 0] } else { [0, 0, 0, n] });
    }
    let n = pick(param(0) + 1);
    b.extend_from_slice(&bytes("data", n));
    verify(b);
}

fn word(b: &mut Vec<u8>, big: bool, x: u32) {
    b.extend_from_slice(&if big { x.to_be_bytes() } else { x.to_le_bytes() });
}

fn open(b: &mut Vec<u8>, name: &str) {
    b.extend_from_slice(&bytes(name, 4));
}

/// An image with entries in which some numbers are arbitrary:
/// p0 = 0 revision, 1 count, 2 place of the keys, 3 place of the values,
/// 4 a key, 5 a value, 6 both lengths, 7 both places, 8 to 11 length and place
/// of a key and of a value, 12 the magic number. p1 counts the entries.
#[no_mangle]
pub extern "C" fn h_c09_numbers() {
    warm();
    let big = flip();
    let n = param(1) as u32;
    let what = param(0);
    let last = if n > 2 { [0, n / 2, n - 1][pick(3)] } else { n - 1 };
    let mut b = Vec::new();
    if what == 12 {
        open(&mut b, "magic");
    } else {
        word(&mut b, big, MAGIC);
    }
    if what == 0 {
        open(&mut b, "revision");
    } else {
        word(&mut b, big, 0);
    }
    if what == 1 {
        open(&mut b, "count");
    } else {
        word(&mut b, big, n);
    }
    let (keys, values) = (20, 20 + 8 * n);
    let texts = 20 + 16 * n;
    if what == 2 {
        open(&mut b, "keys");
    } else {
        word(&mut b, big, keys);
    }
    if what == 3 {
        open(&mut b, "values");
    } else {
        word(&mut b, big, values);
    }
    for i in 0..n {
        if i == last && (what == 4 || what == 6 || what == 8) {
            open(&mut b, "keylen");
        } else {
            word(&mut b, big, 2);
        }
        if i == last && (what == 4 || what == 7 || what == 9) {
            open(&mut b, "keypos");
        } else {
            word(&mut b, big, texts + 6 * i);
        }
    }
    for i in 0..n {
        if i == last && (what == 5 || what == 6 || what == 10) {
            open(&mut b, "vallen");
        } else {
            word(&mut b, big, 2);
        }
        if i == last && (what == 5 || what == 7 || what == 11) {
            open(&mut b, "valpos");
        } else {
            word(&mut b, big, texts + 6 * i + 3);
        }
    }
    for i in 0..n {
        b.extend_from_slice(&[b'k', b'0' + i as u8, 0, b'v', b'0' + i as u8, 0]);
    }
    verify(b);
}

/// An image cut at any place.
#[no_mangle]
pub extern "C" fn h_c09_cut() {
    warm();
    let mut m = MOFile::new("".into());
    let mut e = rspolib::MOEntry::from("k");
    e.msgstr = Some(crate::c05::letter("str"));
    m.entries.push(e);
    if flip() {
        let mut e = rspolib::MOEntry::from("l");
        e.msgctxt = Some("c".to_string());
        e.msgid_plural = Some("m".to_string());
        e.msgstr_plural = vec![crate::c05::letter("form"), "".to_string(), "z".to_string()];
        m.entries.push(e);
        m.metadata.insert("K".to_string(), "v".to_string());
    }
    let b = m.as_bytes_with(if flip() { MAGIC } else { MAGIC_SWAPPED }, pick(2) as u32).into_owned();
    let n = pick(b.len() + 1);
    let cut = b.len() - n;
    let r = rspolib::mofile(b[..n].to_vec());
    // without the last terminator all texts are still there
    if cut > 1 {
        match &r {
            Ok(_) => fail("a truncated image is accepted"),
            Err(e) => emit(e.to_string().as_bytes()),
        }
        reach(0);
    }
    if cut == 0 {
        match r {
            Ok(f) => check(f.entries.len() == m.entries.len(), "number of entries differs"),
            Err(_) => fail("a complete image is rejected"),
        }
        reach(1);
    }
}

/// p0 open bytes in the texts of an image.
#[no_mangle]
pub extern "C" fn h_c09_texts() {
    warm();
    let big = flip();
    let k = param(0) as u32;
    let mut b = Vec::new();
    for x in [MAGIC, pick(2) as u32, 1, 20, 28, k, 36, k, 36 + k] {
        word(&mut b, big, x);
    }
    b.extend_from_slice(&bytes("data", 2 * k as usize));
    verify(b);
}
