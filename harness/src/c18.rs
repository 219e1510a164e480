//! Ways of supplying content.

use crate::sym::*;
use rspolib::{mofile, pofile, FileOptions, MOFile, POFile};
use std::path::Path;

const BOM: &[u8] = b"\xef\xbb\xbf";

/// Text around the open part of a content.
fn around(kind: usize) -> (&'static str, &'static str) {
    match kind {
        0 => ("", ""),
        1 => ("# h\nmsgid \"\"\nmsgstr \"\"\n\"A: b\\n\"\n\n", "\n#: f:1\nmsgid \"a\"\nmsgstr \"b\"\n"),
        2 => ("msgid \"a\"\nmsgstr \"b", "\"\n\nmsgctxt \"c\"\nmsgid \"d\"\nmsgstr \"e\""),
        3 => ("#. c", "\n#, fuzzy\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\nmsgstr[1] \"d\"\n#~ msgid \"x\"\n#~ msgstr \"y\"\n"),
        _ => ("msgid \"a\"\nmsgstr \"b\"\n", "\nmsgid \"c\"\nmsgstr \"d\"\n"),
    }
}

/// the same outcome for both
pub fn same(a: &Result<POFile, rspolib::errors::SyntaxError>, b: &Result<POFile, rspolib::errors::SyntaxError>) {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            check(a.entries == b.entries, "entries differ");
            check(a.header == b.header, "header differs");
            check(a.metadata == b.metadata, "metadata differs");
            check(a.metadata_is_fuzzy == b.metadata_is_fuzzy, "fuzzy mark differs");
            reach(1);
        }
        (Err(_), Err(_)) => reach(0),
        _ => fail("only one of the ways gives a file"),
    }
}

fn content(kind: usize, open: &[u8]) -> Vec<u8> {
    let (a, b) = around(kind);
    let mut v = a.as_bytes().to_vec();
    v.extend_from_slice(open);
    v.extend_from_slice(b.as_bytes());
    v
}

fn not_a_path(t: &str) {
    // an existing file, or a name the system refuses to look up
    assume(t != "." && t != ".." && t != "/");
}

/// p0 open bytes of UTF-8 in content p1: text, bytes, path and conversions.
#[no_mangle]
pub extern "C" fn h_c18() {
    warm();
    let t = text_of(param(2), "text", param(0));
    let c = content(param(1), t.as_bytes());
    let s = match std::str::from_utf8(&c) {
        Ok(s) => s,
        Err(_) => fail("UTF-8 inside UTF-8"),
    };
    not_a_path(s);
    let by_text = pofile(s);
    match pick(9) {
        0 => same(&by_text, &pofile(c.clone())),
        1 => {
            file("/vfs/a.po", &c);
            same(&by_text, &pofile("/vfs/a.po"));
        }
        2 => {
            file("/vfs/a.po", &c);
            same(&by_text, &pofile(Path::new("/vfs/a.po")));
        }
        3 => same(&by_text, &pofile((s, [0, 1, 12, usize::MAX][pick(4)]))),
        4 => same(&by_text, &pofile((c.clone(), [0, 1, 12, usize::MAX][pick(4)]))),
        5 => {
            file("/vfs/a.po", &c);
            same(&by_text, &pofile(("/vfs/a.po", [0, 30][pick(2)])));
        }
        6 => {
            let o = FileOptions::from(s);
            same(&by_text, &pofile(&o));
        }
        7 => {
            let o = FileOptions { byte_content: Some(c.clone()), wrapwidth: 5, ..Default::default() };
            same(&by_text, &pofile(&o));
        }
        _ => {
            if by_text.is_ok() {
                same(&by_text, &Ok(POFile::from(s)));
            } else {
                reach(0);
            }
        }
    }
}

/// The same content with a byte order mark, Windows line ends or without the
/// last newline.
#[no_mangle]
pub extern "C" fn h_c18_form() {
    warm();
    let t = text_of(param(2), "text", param(0));
    let c = content(param(1), t.as_bytes());
    assume(!c.starts_with(BOM));
    assume(!c.contains(&b'\r'));
    let way = pick(5);
    let mut v: Vec<u8> = Vec::new();
    if way == 0 || way == 3 {
        v.extend_from_slice(BOM);
    }
    for b in &c {
        if *b == b'\n' && (way == 1 || way == 3) {
            v.push(b'\r');
        }
        v.push(*b);
    }
    if way == 2 {
        if v.last() == Some(&b'\n') {
            v.pop();
        } else {
            v.push(b'\n');
        }
    }
    if way == 4 {
        // two more blank lines at the end
        if v.last() != Some(&b'\n') {
            v.push(b'\n');
        }
        v.extend_from_slice(b"\r\n\n");
    }
    if flip() {
        file("/vfs/a.po", &c);
        file("/vfs/b.po", &v);
        same(&pofile("/vfs/a.po"), &pofile("/vfs/b.po"));
    } else {
        same(&pofile(c), &pofile(v));
    }
}

/// p0 arbitrary bytes in content p1: bytes that are not UTF-8 are reported.
#[no_mangle]
pub extern "C" fn h_c18_invalid() {
    warm();
    let n = 1 + pick(param(0));
    let c = content(param(1), &bytes("open", n));
    let valid = std::str::from_utf8(&c).is_ok();
    file("/vfs/a.po", &c);
    let r = if flip() { pofile("/vfs/a.po") } else { pofile(c) };
    if !valid {
        check(r.is_err(), "bytes that are not UTF-8 are accepted");
        reach(1);
    }
    reach(0);
}

/// Large contents: p0 lines before the open part.
#[no_mangle]
pub extern "C" fn h_c18_large() {
    warm();
    let mut c: Vec<u8> = Vec::new();
    let line = b"# 0123456789 0123456789 0123456789 0123456789 0123456789 012345\n";
    for _ in 0..param(0) {
        c.extend_from_slice(line);
    }
    for _ in 0..pick(4) {
        c.extend_from_slice(b"#.\n");
    }
    let mut t = String::new();
    t.push(byte_in("open", b'a', b'z') as char);
    c.extend_from_slice(b"msgid \"0123456789");
    c.extend_from_slice("中文字".as_bytes());
    c.extend_from_slice(t.as_bytes());
    c.extend_from_slice(b"\"\nmsgstr \"b\"\n");
    file("/vfs/a.po", &c);
    let a = pofile(c.clone());
    same(&a, &pofile("/vfs/a.po"));
    match std::str::from_utf8(&c) {
        Ok(s) => same(&a, &pofile(s)),
        Err(_) => fail("UTF-8"),
    }
    match a {
        Ok(f) => check(f.entries.len() == 1 && f.entries[0].msgid.ends_with(&t), "the entry is not read"),
        Err(_) => fail("not read"),
    }
}

fn same_mo(a: &Result<MOFile, rspolib::errors::IOError>, b: &Result<MOFile, rspolib::errors::IOError>) {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            check(a.entries == b.entries, "entries differ");
            check(a.metadata == b.metadata, "metadata differs");
            check(a.magic_number == b.magic_number && a.version == b.version, "numbers differ");
            reach(1);
        }
        (Err(_), Err(_)) => reach(0),
        _ => fail("only one of the ways gives a file"),
    }
}

/// MO images: p0 arbitrary bytes after the magic number, or a complete image
/// with p0 open bytes in its texts (p1 = 1).
#[no_mangle]
pub extern "C" fn h_c18_mo() {
    warm();
    let mut v = vec![0xde, 0x12, 0x04, 0x95];
    if param(1) == 1 {
        let mut m = MOFile::new("".into());
        m.metadata.insert("A".to_string(), "b".to_string());
        let mut e = rspolib::MOEntry::from("key");
        e.msgstr = Some("0123456789".to_string());
        m.entries.push(e);
        v = m.as_bytes_with([rspolib::MAGIC, rspolib::MAGIC_SWAPPED][pick(2)], 0).into_owned();
        let at = v.len() - param(0) - pick(16);
        for (i, b) in bytes("open", param(0)).into_iter().enumerate() {
            v[at + i] = b;
        }
    } else {
        let n = pick(param(0) + 1);
        v.extend_from_slice(&bytes("open", n));
    }
    let a = mofile(v.clone());
    match pick(4) {
        0 => {
            file("/vfs/a.mo", &v);
            same_mo(&a, &mofile("/vfs/a.mo"));
        }
        1 => {
            file("/vfs/a.mo", &v);
            same_mo(&a, &mofile(Path::new("/vfs/a.mo")));
        }
        2 => same_mo(&a, &mofile((v, 5))),
        _ => {
            let o = FileOptions { byte_content: Some(v), wrapwidth: 5, ..Default::default() };
            same_mo(&a, &mofile(&o));
        }
    }
}
