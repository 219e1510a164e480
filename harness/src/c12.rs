//! Conversion of PO files and entries to MO ones.

use crate::sym::*;
use rspolib::{MOEntry, MOFile, POEntry, POFile};

fn maybe(name: &str) -> String {
    ascii_upto(name, 1)
}

/// An entry with any marks, translated completely, in part or not at all.
pub fn any_entry(i: usize, forms: usize) -> POEntry {
    let mut e = POEntry::new(i);
    e.msgid = ["first", "second", "third"][i].to_string();
    e.obsolete = flip();
    match pick(4) {
        0 => {}
        1 => {
            // "fuzzy" or any other word
            let f = bytes(["flag0", "flag1", "flag2"][i], 5);
            for c in &f {
                assume(c.is_ascii_lowercase());
            }
            e.flags = vec![String::from_utf8(f).unwrap()];
        }
        2 => e.flags = vec!["c-format".to_string(), "fuzzy".to_string()],
        _ => e.flags = vec!["no-fuzzy".to_string(), "fuzzy2".to_string(), "Fuzzy".to_string(), "".to_string()],
    }
    match pick(2 + forms) {
        0 => {
            if flip() {
                e.msgstr = Some(maybe(["str0", "str1", "str2"][i]));
            }
        }
        1 => {
            e.msgctxt = Some(maybe(["ctx0", "ctx1", "ctx2"][i]));
            e.msgstr = Some(maybe(["str0", "str1", "str2"][i]));
        }
        k => {
            e.msgid_plural = Some("many".to_string());
            for j in 0..k - 1 {
                e.msgstr_plural.push(maybe(["form0", "form1", "form2"][j]));
            }
        }
    }
    e
}

pub fn complete(e: &POEntry) -> bool {
    if e.obsolete || e.flags.iter().any(|f| f == "fuzzy") {
        return false;
    }
    if e.msgid_plural.is_some() {
        !e.msgstr_plural.is_empty() && e.msgstr_plural.iter().all(|s| !s.is_empty())
    } else {
        matches!(&e.msgstr, Some(s) if !s.is_empty())
    }
}

pub fn same(a: &POEntry, b: &MOEntry) {
    check(a.msgid == b.msgid, "message differs");
    check(a.msgstr == b.msgstr, "translation differs");
    check(a.msgctxt == b.msgctxt, "context differs");
    check(a.msgid_plural == b.msgid_plural, "plural message differs");
    check(a.msgstr_plural == b.msgstr_plural, "plural translations differ");
}

/// p0 entries, up to p1 plural forms.
#[no_mangle]
pub extern "C" fn h_c12() {
    warm();
    let mut p = POFile::new(("", 40).into());
    for i in 0..param(0) {
        p.entries.push(any_entry(i, param(1)));
    }
    if flip() {
        p.metadata.insert("Language".to_string(), maybe("meta"));
        p.metadata_is_fuzzy = flip();
    }
    let m = MOFile::from(&p);
    let expected: Vec<&POEntry> = p.entries.iter().filter(|e| complete(e)).collect();
    check(m.entries.len() == expected.len(), "other entries than the translated ones");
    for (a, b) in expected.iter().zip(m.entries.iter()) {
        same(a, b);
        emit(b.msgid.as_bytes());
    }
    check(m.metadata == p.metadata, "metadata differs");
    if !expected.is_empty() {
        reach(1);
    }
    reach(0);
}

/// Entries converted in both directions: texts of up to p0 bytes (alphabet p1).
#[no_mangle]
pub extern "C" fn h_c12_entry() {
    warm();
    let t = text_of(param(1), "text", param(0));
    let mut e = crate::c03::entry_with(pick(6), t);
    e.obsolete = flip();
    if flip() {
        e.flags.push("fuzzy".to_string());
    }
    let m = MOEntry::from(&e);
    same(&e, &m);
    let b = POEntry::from(&m);
    same(&b, &m);
    check(!b.obsolete && b.flags.is_empty(), "marks from nowhere");
    check(b.comment.is_none() && b.tcomment.is_none() && b.occurrences.is_empty(), "fields from nowhere");
    emit(m.msgid.as_bytes());
    reach(0);
}

/// The bytes of a PO file read back hold its translated entries: p0 entries.
#[no_mangle]
pub extern "C" fn h_c12_bytes() {
    use rspolib::AsBytes;
    warm();
    let mut p = POFile::new("".into());
    for i in 0..param(0) {
        let mut e = any_entry(i, 2);
        if let Some(c) = &e.msgctxt {
            crate::c10::no_separators(c);
        }
        for t in e.msgstr.iter().chain(e.msgstr_plural.iter()) {
            assume(!t.contains('\0'));
        }
        e.linenum = 0;
        p.entries.push(e);
    }
    let r = match rspolib::mofile(p.as_bytes().into_owned()) {
        Ok(r) => r,
        Err(_) => fail("the image cannot be read"),
    };
    let expected: Vec<&POEntry> = p.entries.iter().filter(|e| complete(e)).collect();
    check(r.entries.len() == expected.len(), "other entries than the translated ones");
    for e in &expected {
        match r.entries.iter().find(|x| x.msgid == e.msgid && x.msgctxt == e.msgctxt) {
            Some(x) => crate::util::check_mo_texts(&MOEntry::from(*e), x),
            None => fail("an entry is lost"),
        }
    }
    reach(0);
}

/// p0 entries, one of them open.
#[no_mangle]
pub extern "C" fn h_c12_many() {
    use rspolib::AsBytes;
    warm();
    let mut p = POFile::new("".into());
    let n = param(0);
    let k = [0, n / 2, n - 1][pick(3)];
    for i in 0..n {
        let mut e = if i == k { any_entry(0, 2) } else { crate::c05::fixed(i * 3 % 8) };
        e.msgid.push_str(&crate::util::nth(n - i));
        if let Some(c) = &e.msgctxt {
            crate::c10::no_separators(c);
        }
        for t in e.msgstr.iter().chain(e.msgstr_plural.iter()) {
            assume(!t.contains('\0'));
        }
        p.entries.push(e);
    }
    let m = MOFile::from(&p);
    let expected: Vec<&POEntry> = p.entries.iter().filter(|e| complete(e)).collect();
    check(m.entries.len() == expected.len(), "other entries than the translated ones");
    for (a, b) in expected.iter().zip(m.entries.iter()) {
        same(a, b);
    }
    let r = match rspolib::mofile(p.as_bytes().into_owned()) {
        Ok(r) => r,
        Err(_) => fail("the image cannot be read"),
    };
    check(r.entries.len() == expected.len(), "other entries than the translated ones in the image");
    for e in &expected {
        match r.entries.iter().find(|x| x.msgid == e.msgid && x.msgctxt == e.msgctxt) {
            Some(x) => crate::util::check_mo_texts(&MOEntry::from(*e), x),
            None => fail("an entry is lost"),
        }
    }
    reach(0);
}
