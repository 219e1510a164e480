//! Catalogues rendered as PO text and parsed again.

use crate::sym::*;
use crate::util::*;
use rspolib::{mofile, AsBytes, MOEntry, MOFile};

fn compare(mo: &MOFile, width: usize) {
    let back = parse_with(&mo.to_string(), width);
    check(back.entries.len() == mo.entries.len(), "number of entries differs");
    for (a, b) in mo.entries.iter().zip(back.entries.iter()) {
        let mut a = a.clone();
        if !a.msgstr_plural.is_empty() {
            // one that is read keeps its joined translation beside the forms
            a.msgstr = None;
        }
        check_mo_texts(&a, &MOEntry::from(b));
        check(!b.obsolete && b.flags.is_empty(), "marks from nowhere");
    }
    check(back.metadata == mo.metadata, "metadata differs");
    emit(mo.to_string().as_bytes());
    reach(0);
}

/// One open text of up to p0 bytes (alphabet p2) inside text p1 in any field
/// of the first of two entries, six widths.
#[no_mangle]
pub extern "C" fn h_c20() {
    warm();
    let w = crate::c03::WIDTHS[pick(6)];
    let mut mo = MOFile::new(("", w).into());
    let field = pick(6);
    let t = crate::c03::put(param(1), &text_of(param(2), "text", param(0)));
    if field == 0 {
        assume(!t.is_empty());
    }
    let e = crate::c03::entry_with(field, t);
    mo.entries.push(MOEntry::from(&e));
    let mut last = MOEntry::from("last");
    last.msgstr = Some("translation".to_string());
    mo.entries.push(last);
    if flip() {
        mo.metadata.insert("Language".to_string(), "es".to_string());
    }
    compare(&mo, w);
}

/// A metadata value of up to p0 open bytes (alphabet p1).
#[no_mangle]
pub extern "C" fn h_c20_metadata() {
    warm();
    let w = [0, 10, 78][pick(3)];
    let mut mo = MOFile::new(("", w).into());
    let v = text_of(param(1), "text", param(0));
    assume(!v.contains('\n'));
    assume(v.trim().len() == v.len());
    mo.metadata.insert(["Language", "X-Key"][pick(2)].to_string(), v);
    mo.metadata.insert("Content-Type".to_string(), "text/plain; charset=UTF-8".to_string());
    if flip() {
        mo.entries.push(MOEntry::from("a"));
    }
    compare(&mo, w);
}

/// Up to p0 entries of several shapes at p1 widths in every order.
#[no_mangle]
pub extern "C" fn h_c20_shapes() {
    warm();
    let w = [0, 6, 78][pick(3)];
    let mut mo = MOFile::new(("", w).into());
    for i in 0..pick(param(0) + 1) {
        let mut t = String::from("word ");
        t.push(byte(["c0", "c1", "c2"][i]) as char);
        let e = crate::c03::entry_with(pick(6), t);
        mo.entries.push(MOEntry::from(&e));
    }
    compare(&mo, w);
}

/// A catalogue read from an image, texts of up to p0 bytes of alphabet p1.
#[no_mangle]
pub extern "C" fn h_c20_loaded() {
    warm();
    let mut source = MOFile::new("".into());
    let t = text_of(param(1), "text", param(0));
    crate::c10::no_separators(&t);
    let field = pick(6);
    if field == 0 {
        assume(!t.is_empty());
    }
    source.entries.push(MOEntry::from(&crate::c03::entry_with(field, t)));
    source.metadata.insert("Language".to_string(), "es".to_string());
    let w = [0, 5, 78][pick(3)];
    let magic = [rspolib::MAGIC, rspolib::MAGIC_SWAPPED][pick(2)];
    let mo = match mofile((source.as_bytes_with(magic, 0).into_owned(), w)) {
        Ok(m) => m,
        Err(_) => fail("the image cannot be read"),
    };
    check(mo.entries.len() == 1, "number of entries differs");
    check_mo_texts(&source.entries[0], &mo.entries[0]);
    compare(&mo, w);
}

/// A catalogue of p0 entries of all shapes with an open byte.
#[no_mangle]
pub extern "C" fn h_c20_many() {
    warm();
    let w = [0, 20, 78][pick(3)];
    let mut mo = MOFile::new(("", w).into());
    let n = param(0);
    let k = [0, n / 2, n - 1][pick(3)];
    for i in 0..n {
        let mut e = crate::c05::fixed(i * 3 % 8);
        e.msgid.push_str(&nth(n - i));
        if i == k {
            e = crate::c03::entry_with(pick(6), ["word ", &text_upto("text", 1)].concat());
        }
        mo.entries.push(MOEntry::from(&e));
    }
    mo.metadata.insert("Language".to_string(), "es".to_string());
    compare(&mo, w);
}

/// A text of about p1 bytes with up to p0 open bytes in any field.
#[no_mangle]
pub extern "C" fn h_c20_long() {
    warm();
    let w = [30, 78][pick(2)];
    let mut mo = MOFile::new(("", w).into());
    let t = long_with(pick(6), param(1), &text_upto("text", param(0)));
    mo.entries.push(MOEntry::from(&crate::c03::entry_with(pick(6), t)));
    mo.entries.push(MOEntry::from("last"));
    compare(&mo, w);
}

/// Up to p0 plural forms, an open byte in one of them, built or loaded.
#[no_mangle]
pub extern "C" fn h_c20_forms() {
    warm();
    let mut e = MOEntry::from("one");
    e.msgid_plural = Some("many".to_string());
    let n = 1 + pick(param(0));
    let k = pick(n);
    for i in 0..n {
        let mut t = String::from(["", "form", "two\nlines", "end "][(i + n) % 4]);
        if i == k {
            t.push_str(&ascii_upto("text", 1));
            crate::c10::no_separators(&t);
        }
        e.msgstr_plural.push(t);
    }
    let mut mo = MOFile::new("".into());
    mo.entries.push(e);
    mo.entries.push(MOEntry::from("other"));
    if flip() {
        mo = match mofile(mo.as_bytes_le().into_owned()) {
            Ok(m) => m,
            Err(_) => fail("the image cannot be read"),
        };
    }
    compare(&mo, 78);
}
