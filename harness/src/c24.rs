//! Unescaping of whole entries, their keys and their construction.

use crate::sym::*;
use rspolib::{MOEntry, MOFile, Merge, MsgidEotMsgctxt, POEntry, POFile, TranslatedEntry};

/// An entry with all fields, texts as they stand between quotes.
fn full() -> POEntry {
    let mut e = POEntry::new(17);
    e.msgid = "id\\n".to_string();
    e.msgstr = Some("s\\tr".to_string());
    e.msgid_plural = Some("pl\\\"".to_string());
    e.msgstr_plural = vec!["\\\\0".to_string(), "one".to_string(), "\\b2".to_string()];
    e.msgctxt = Some("ctx\\r".to_string());
    e.obsolete = true;
    e.comment = Some("com\\nment \\q".to_string());
    e.tcomment = Some("\\".to_string());
    e.occurrences = vec![("dir\\name".to_string(), "12".to_string())];
    e.flags = vec!["fl\\ag".to_string()];
    e.previous_msgid = Some("old\\n".to_string());
    e.previous_msgid_plural = Some("olds\\n".to_string());
    e.previous_msgctxt = Some("oldctx\\n".to_string());
    e
}

/// the place of a text of an entry
fn field(e: &mut POEntry, k: usize) -> &mut String {
    match k {
        0 => &mut e.msgid,
        1 => e.msgstr.get_or_insert_with(String::new),
        2 => e.msgid_plural.get_or_insert_with(String::new),
        3 => e.msgctxt.get_or_insert_with(String::new),
        4 => e.previous_msgid.get_or_insert_with(String::new),
        5 => e.previous_msgid_plural.get_or_insert_with(String::new),
        6 => e.previous_msgctxt.get_or_insert_with(String::new),
        k => &mut e.msgstr_plural[k - 7],
    }
}

/// Texts of up to p0 bytes in each text of an entry.
#[no_mangle]
pub extern "C" fn h_c24_unescape() {
    warm();
    let t = text_of(param(1), "text", param(0));
    let k = pick(10);
    let mut e = full();
    *field(&mut e, k) = t.clone();
    let mut expected = e.clone();
    for i in 0..10 {
        if i != k {
            let s = field(&mut expected, i);
            *s = s
                .replace("\\n", "\n")
                .replace("\\t", "\t")
                .replace("\\r", "\r")
                .replace("\\b", "\u{8}")
                .replace("\\\"", "\"")
                .replace("\\\\", "\\");
        }
    }
    let before = e.clone();
    match (crate::c01::denoted(&t), e.unescaped()) {
        (Some(u), Ok(r)) => {
            *field(&mut expected, k) = u;
            check(r == expected, "the unescaped entry differs");
            emit(field(&mut expected, k).as_bytes());
            reach(1);
        }
        (None, Err(_)) => reach(2),
        (Some(_), Err(_)) => fail("an entry with valid escapes is rejected"),
        (None, Ok(_)) => fail("an entry with an invalid escape is accepted"),
    }
    check(e == before, "the entry itself changed");
    reach(0);
}

/// Any presence of the fields: absent ones stay absent.
#[no_mangle]
pub extern "C" fn h_c24_absent() {
    warm();
    let f = full();
    let mut e = POEntry::new(3);
    e.msgid = f.msgid.clone();
    if flip() {
        e.msgstr = f.msgstr.clone();
    }
    if flip() {
        e.msgid_plural = f.msgid_plural.clone();
    }
    for s in f.msgstr_plural.iter().take(pick(3)) {
        e.msgstr_plural.push(s.clone());
    }
    if flip() {
        e.msgctxt = f.msgctxt.clone();
    }
    if flip() {
        e.previous_msgid = f.previous_msgid.clone();
    }
    if flip() {
        e.previous_msgid_plural = f.previous_msgid_plural.clone();
    }
    if flip() {
        e.previous_msgctxt = f.previous_msgctxt.clone();
    }
    if flip() {
        e.comment = f.comment.clone();
    }
    if flip() {
        e.tcomment = f.tcomment.clone();
    }
    let r = match e.unescaped() {
        Ok(r) => r,
        Err(_) => fail("an entry with valid escapes is rejected"),
    };
    let mut x = e.clone();
    x.msgid = "id\n".to_string();
    x.msgstr = e.msgstr.as_ref().map(|_| "s\tr".to_string());
    x.msgid_plural = e.msgid_plural.as_ref().map(|_| "pl\"".to_string());
    for (i, s) in x.msgstr_plural.iter_mut().enumerate() {
        *s = ["\\0", "one"][i].to_string();
    }
    x.msgctxt = e.msgctxt.as_ref().map(|_| "ctx\r".to_string());
    x.previous_msgid = e.previous_msgid.as_ref().map(|_| "old\n".to_string());
    x.previous_msgid_plural = e.previous_msgid_plural.as_ref().map(|_| "olds\n".to_string());
    x.previous_msgctxt = e.previous_msgctxt.as_ref().map(|_| "oldctx\n".to_string());
    check(r == x, "the unescaped entry differs");
    reach(0);
}

/// Keys: message of up to p0, context of up to p1 bytes.
#[no_mangle]
pub extern "C" fn h_c24_key() {
    warm();
    let id = text_upto("id", param(0));
    let context = if flip() { Some(text_upto("ctx", param(1))) } else { None };
    let mut p = full();
    p.msgid = id.clone();
    p.msgctxt = context.clone();
    let m = MOEntry::new(id.clone(), Some("x".to_string()), None, vec![], context.clone());
    let mut key = String::new();
    if let Some(c) = &context {
        key.push_str(c);
        key.push('\u{4}');
    }
    key.push_str(&id);
    check(p.msgid_eot_msgctxt() == key, "the key of a PO entry differs");
    check(m.msgid_eot_msgctxt() == key, "the key of a MO entry differs");
    emit(key.as_bytes());
    reach(0);
}

fn bare(e: &POEntry) {
    check(e.msgid_plural.is_none() && e.msgstr_plural.is_empty() && e.msgctxt.is_none(), "texts from nowhere");
    check(e.comment.is_none() && e.tcomment.is_none(), "comments from nowhere");
    check(e.occurrences.is_empty() && e.flags.is_empty() && !e.obsolete && !e.fuzzy(), "marks from nowhere");
    check(
        e.previous_msgid.is_none() && e.previous_msgid_plural.is_none() && e.previous_msgctxt.is_none(),
        "previous texts from nowhere",
    );
}

/// Entries built from texts of up to p0 bytes.
#[no_mangle]
pub extern "C" fn h_c24_entry() {
    warm();
    let a = text_upto("first", param(0));
    let b = text_upto("second", param(0));
    match pick(5) {
        0 => {
            let e = POEntry::from(a.as_str());
            check(e.msgid == a && e.msgstr.is_none() && e.linenum == 0, "the entry differs");
            bare(&e);
            check(!e.translated(), "an entry without translation is translated");
        }
        1 => {
            let e = POEntry::from((a.as_str(), b.as_str()));
            check(e.msgid == a && e.msgstr.as_ref() == Some(&b) && e.linenum == 0, "the entry differs");
            bare(&e);
            check(e.translated() == !b.is_empty(), "translated or not");
        }
        2 => {
            let n = usize::from_le_bytes(bytes("line", 8).try_into().unwrap_or([0; 8]));
            let e = if flip() { POEntry::from(n) } else { POEntry::new(n) };
            check(e.msgid.is_empty() && e.msgstr.is_none() && e.linenum == n, "the entry differs");
            bare(&e);
        }
        3 => {
            let e = MOEntry::from(a.as_str());
            check(e == MOEntry::new(a.clone(), None, None, vec![], None), "the entry differs");
            check(e.msgid == a && e.msgstr.is_none() && e.msgctxt.is_none(), "the entry differs");
            check(e.msgid_plural.is_none() && e.msgstr_plural.is_empty(), "texts from nowhere");
            check(!e.translated(), "an entry without translation is translated");
        }
        _ => {
            let mut e = MOEntry::new(
                a.clone(),
                Some(b.clone()),
                Some("many".to_string()),
                vec![b.clone(), a.clone()],
                Some("ctx".to_string()),
            );
            check(e.msgid == a && e.msgstr.as_ref() == Some(&b), "the entry differs");
            check(e.msgid_plural.as_deref() == Some("many") && e.msgctxt.as_deref() == Some("ctx"), "the entry differs");
            check(e.msgstr_plural.len() == 2 && e.msgstr_plural[0] == b && e.msgstr_plural[1] == a, "the entry differs");
            check(e.translated() == !b.is_empty(), "translated or not");
            let other = MOEntry::new("x".to_string(), None, None, vec![], flip().then(|| a.clone()));
            e.merge(other.clone());
            check(e == other, "merging keeps old texts");
        }
    }
    emit(a.as_bytes());
    reach(0);
}

/// Files built from lists of up to p0 entries.
#[no_mangle]
pub extern "C" fn h_c24_file() {
    warm();
    let n = pick(param(0) + 1);
    let mut entries = Vec::new();
    for i in 0..n {
        let mut e = crate::c05::fixed(pick(8));
        e.msgid = text_upto(["a0", "a1", "a2", "a3"][i], 1);
        entries.push(e);
    }
    let p = POFile::from(entries.iter().collect::<Vec<_>>());
    check(p.entries == entries, "the entries differ");
    check(p.header.is_none() && p.metadata.is_empty() && !p.metadata_is_fuzzy, "something from nowhere");
    let mo: Vec<MOEntry> = entries.iter().map(MOEntry::from).collect();
    let m = MOFile::from(mo.iter().collect::<Vec<_>>());
    check(m.entries == mo, "the MO entries differ");
    check(m.metadata.is_empty(), "metadata from nowhere");
    check(p.options == m.options, "the options differ");
    reach(0);
}
