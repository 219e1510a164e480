//! Whole PO files written and parsed again.

use crate::sym::*;
use crate::util::*;
use rspolib::{POEntry, POFile};

pub fn letter(name: &str) -> String {
    String::from_utf8(vec![byte_in(name, b'a', b'z')]).unwrap()
}

/// One of 8 shapes of entries; `i` numbers its open bytes.
pub fn shaped(i: usize, kind: usize) -> POEntry {
    let mut e = POEntry::new(0);
    e.msgid = letter(["id0", "id1", "id2", "id3"][i]);
    e.msgid.push_str(["-0", "-1", "-2", "-3"][i]);
    let s = ["str0", "str1", "str2", "str3"][i];
    match kind {
        0 => e.msgstr = Some(letter(s)),
        1 => {
            e.msgstr = Some(letter(s));
            e.obsolete = true;
        }
        2 => {
            e.msgid_plural = Some("many".to_string());
            e.msgstr_plural = vec![letter(s), "".to_string()];
            e.flags = vec!["fuzzy".to_string(), "c-format".to_string()];
            e.previous_msgid = Some("was".to_string());
        }
        3 => {
            e.tcomment = Some(letter(s));
            e.comment = Some("extracted".to_string());
            e.occurrences = vec![("a.c".to_string(), "1".to_string()), ("b.c".to_string(), "".to_string())];
        }
        4 => {
            e.tcomment = Some("kept".to_string());
            e.msgctxt = Some(letter(s));
            e.msgstr = Some("".to_string());
            e.obsolete = true;
        }
        5 => {
            e.msgid_plural = Some("many".to_string());
            e.msgstr_plural = vec!["one".to_string(), letter(s), "three".to_string()];
            e.obsolete = true;
        }
        6 => {
            e.msgctxt = Some(letter(s));
            e.msgstr = Some("a long translation of several words\nand two lines that has to be wrapped somewhere in its middle\n".to_string());
        }
        _ => {
            e.flags = vec!["fuzzy".to_string()];
            e.comment = Some(letter(s));
            e.msgstr = Some("y".to_string());
            e.obsolete = true;
        }
    }
    e
}

pub fn round_trip(po: &POFile) {
    let text = po.to_string();
    let back = parse_with(&text, po.options.wrapwidth);
    check(
        or_empty(&po.header).trim_end_matches('\n') == or_empty(&back.header).trim_end_matches('\n'),
        "header differs",
    );
    check(po.metadata == back.metadata, "metadata differs");
    check(po.metadata_is_fuzzy == back.metadata_is_fuzzy, "fuzzy mark of the metadata differs");
    check(po.entries.len() == back.entries.len(), "number of entries differs");
    let mut k = 0;
    for obsolete in [false, true] {
        for e in &po.entries {
            if e.obsolete == obsolete {
                check_texts(e, &back.entries[k]);
                check_extras(e, &back.entries[k]);
                k += 1;
            }
        }
    }
    check(back.to_string() == text, "written again the text differs");
    emit(text.as_bytes());
    reach(0);
}

/// Up to p0 entries of every shape, in every order; p1 wrap width.
#[no_mangle]
pub extern "C" fn h_c05_entries() {
    warm();
    let mut po = POFile::new(("", param(1)).into());
    if flip() {
        po.header = Some("Title\n\nCopyright".to_string());
        po.metadata.insert("Language".to_string(), "es".to_string());
    }
    for i in 0..pick(param(0) + 1) {
        po.entries.push(shaped(i, pick(8)));
    }
    round_trip(&po);
}

/// Headers of up to p1 lines with up to p0 open bytes each.
#[no_mangle]
pub extern "C" fn h_c05_header() {
    warm();
    let mut po = POFile::new(("", 78).into());
    let mut h = String::new();
    for i in 0..pick(param(1) + 1) {
        let l = text_of(param(2), ["line0", "line1", "line2"][i], param(0));
        assume(!l.contains('\n'));
        assume(l.trim_end().len() == l.len());
        if i > 0 {
            h.push('\n');
        }
        h.push_str(&l);
    }
    po.header = Some(h);
    po.metadata_is_fuzzy = flip();
    po.metadata.insert("Language".to_string(), "es".to_string());
    if flip() {
        po.entries.push(shaped(0, 3));
    }
    round_trip(&po);
}

/// Up to p2 pairs of metadata, values with up to p0 open bytes.
#[no_mangle]
pub extern "C" fn h_c05_metadata() {
    warm();
    let mut po = POFile::new(("", 78).into());
    for i in 0..pick(param(2) + 1) {
        let k = match pick(4) {
            0 => "Project-Id-Version",
            1 => "Plural-Forms",
            2 => "Language",
            _ => "X-Tool",
        };
        let v = text_of(param(1), ["val0", "val1"][i], param(0));
        assume(!v.contains('\n'));
        assume(v.trim().len() == v.len());
        let w = match pick(3) {
            0 => v,
            1 => {
                let mut s = String::from("a: b ");
                s.push_str(&v);
                s
            }
            _ => {
                let mut s = v;
                s.push_str(";\\n \"q\" éß a rather long value that goes well beyond the seventy eight columns of a line");
                s
            }
        };
        assume(w.trim().len() == w.len());
        po.metadata.insert(k.to_string(), w);
    }
    po.metadata_is_fuzzy = flip();
    if flip() {
        po.entries.push(shaped(0, 0));
    }
    round_trip(&po);
}

/// Raw entry strings: every string of up to p0 bytes in a message or a
/// translation of a file with header, checked for stability of the text.
#[no_mangle]
pub extern "C" fn h_c05_strings() {
    warm();
    let mut po = POFile::new(("", [0, 9, 78][pick(3)]).into());
    po.header = Some("h".to_string());
    let t = crate::c03::put(param(1), &text_of(param(2), "text", param(0)));
    let mut e = shaped(0, [0, 1][pick(2)]);
    if flip() {
        assume(!t.is_empty());
        e.msgid = t;
    } else {
        e.msgstr = Some(t);
    }
    po.entries.push(e);
    po.entries.push(shaped(1, 3));
    round_trip(&po);
}

/// Comments that have to be wrapped, with up to p0 open bytes (alphabet p1).
#[no_mangle]
pub extern "C" fn h_c05_comments() {
    warm();
    let w = [0, 8, 20][pick(3)];
    let mut po = POFile::new(("", w).into());
    let t = text_of(param(1), "text", param(0));
    assume(!t.contains('\n'));
    let t = crate::c03::put(1, &t);
    let mut e = shaped(0, [0, 1][pick(2)]);
    let before = flip();
    if before {
        e.tcomment = Some(t.clone());
    } else {
        e.comment = Some(t.clone());
    }
    po.entries.push(shaped(1, 0));
    po.entries.push(e);
    let text = po.to_string();
    let back = parse_with(&text, w);
    check(back.entries.len() == 2, "number of entries differs");
    let e = &back.entries[1];
    let c = if before { &e.tcomment } else { &e.comment };
    check(squeeze(or_empty(c)) == squeeze(&t), "comment differs");
    check(back.to_string() == text, "written again the text differs");
    emit(text.as_bytes());
    reach(0);
}

/// p0 entries of all shapes in turn, one of any shape with open letters.
#[no_mangle]
pub extern "C" fn h_c05_many() {
    warm();
    let mut po = POFile::new(("", [20, 78][pick(2)]).into());
    let n = param(0);
    let k = [0, n / 2, n - 1][pick(3)];
    let step = 1 + 2 * pick(2);
    for i in 0..n {
        if i == k {
            po.entries.push(shaped(0, pick(8)));
            continue;
        }
        let mut e = fixed(step * i % 8);
        e.msgid.push_str(&nth(i));
        po.entries.push(e);
    }
    po.header = Some("Title\n\nCopyright".to_string());
    po.metadata.insert("Language".to_string(), "es".to_string());
    round_trip(&po);
}

/// an entry of some shape without open parts
pub fn fixed(kind: usize) -> POEntry {
    let s = |t: &str| Some(t.to_string());
    let mut e = POEntry::from("msg ");
    match kind {
        0 => e.msgstr = s("text"),
        1 => {
            e.msgstr = s("old");
            e.obsolete = true;
        }
        2 => {
            e.msgid_plural = s("msgs");
            e.msgstr_plural = vec!["one".to_string(), "two".to_string()];
        }
        3 => {
            e.flags = vec!["fuzzy".to_string()];
            e.previous_msgid = s("was");
            e.msgstr = s("maybe");
        }
        4 => {
            e.tcomment = s("note");
            e.msgctxt = s("ctx");
        }
        5 => {
            e.comment = s("extracted");
            e.occurrences = vec![("a.c".to_string(), "12".to_string())];
            e.msgstr = s("a translation of some words\n");
        }
        6 => {
            e.msgid_plural = s("olds");
            e.msgstr_plural = vec!["one".to_string(), "".to_string(), "three".to_string()];
            e.obsolete = true;
        }
        _ => {
            e.msgctxt = s("menu");
            e.msgstr = s("\"quoted\"");
        }
    }
    e
}

/// An entry with any number up to two of comments, references, flags and
/// previous texts, plural or not, before a plain entry; or (p0 = 1) the same
/// entry twice.
#[no_mangle]
pub extern "C" fn h_c05_full() {
    warm();
    let mut po = POFile::new(("", 78).into());
    let mut e = shaped(0, 0);
    e.tcomment = [None, Some("note"), Some("note\nof two lines")][pick(3)].map(String::from);
    e.comment = [None, Some("extracted"), Some("extracted\nfrom two")][pick(3)].map(String::from);
    for k in 0..pick(3) {
        e.occurrences.push((["a.c", "b.c"][k].to_string(), ["1", ""][k].to_string()));
    }
    for k in 0..pick(3) {
        e.flags.push(["fuzzy", "c-format"][k].to_string());
    }
    if flip() {
        e.previous_msgctxt = Some("old".to_string());
        e.previous_msgid = Some("was\nso".to_string());
    }
    if flip() {
        e.previous_msgid_plural = Some("were".to_string());
        e.msgctxt = Some("c".to_string());
    }
    let forms = pick(4);
    if forms > 0 {
        e.msgid_plural = Some("many".to_string());
        for k in 0..forms {
            e.msgstr_plural.push(["one", "", "three"][k].to_string());
        }
        e.msgstr = None;
    }
    // previous texts of obsolete entries are not read
    e.obsolete = e.previous_msgid.is_none() && e.previous_msgid_plural.is_none() && flip();
    if param(0) == 1 {
        po.entries.push(e.clone());
        po.entries.push(e);
    } else {
        po.entries.push(e);
        po.entries.push(shaped(1, pick(2)));
    }
    round_trip(&po);
}

/// A field of p0 bytes with an open letter in one of three places, wrap width p1.
#[no_mangle]
pub extern "C" fn h_c05_huge() {
    warm();
    let n = param(0);
    let mut t = vec![b'x'; n];
    // long comments are broken at spaces
    let field = pick(7);
    if field != 3 && field != 4 && flip() {
        for i in 0..n / 10 {
            t[10 * i + 5] = b' ';
        }
    }
    t[[1, n / 2, n - 1][pick(3)]] = byte_in("text", b'a', b'z');
    let t = match String::from_utf8(t) {
        Ok(t) => t,
        Err(_) => fail("not text"),
    };
    let mut po = POFile::new(("", param(1)).into());
    let mut e = shaped(0, 1);
    let some = Some(t.clone());
    match field {
        0 => e.msgid = t,
        1 => e.msgstr = some,
        2 => e.msgctxt = some,
        3 => e.comment = some,
        4 => e.tcomment = some,
        5 => e.previous_msgid = some,
        _ => {
            e.msgstr = None;
            e.msgid_plural = some;
            e.msgstr_plural = vec!["a".to_string(), t];
        }
    }
    po.entries.push(e);
    let text = po.to_string();
    let back = parse_with(&text, param(1));
    check(back.entries.len() == 1, "number of entries differs");
    check_texts(&po.entries[0], &back.entries[0]);
    check_extras(&po.entries[0], &back.entries[0]);
    emit(back.entries.len().to_string().as_bytes());
    reach(0);
}
