//! Files with arbitrary contents written in every format.

use crate::c03::{put, WIDTHS};
use crate::sym::*;
use crate::util::*;
use rspolib::{mofile, pofile, AsBytes, MOEntry, MOFile, POEntry, POFile};

/// Everything that can be written: none of it may panic, and neither may
/// reading it back, whatever that gives.
fn write(po: &POFile) {
    let text = po.to_string();
    emit(text.as_bytes());
    if let Ok(back) = pofile((text.as_str(), po.options.wrapwidth)) {
        emit(&[back.entries.len() as u8]);
        reach(0);
    }
    images(&MOFile::from(po));
}

fn images(mo: &MOFile) {
    emit(mo.to_string().as_bytes());
    for image in [mo.as_bytes_le(), mo.as_bytes_be()] {
        emit(&image);
        match mofile(image.to_vec()) {
            Ok(back) => check(back.entries.len() <= mo.entries.len() + 1, "entries from nowhere"),
            Err(_) => fail("the image cannot be read"),
        }
    }
    reach(1);
}

fn set(po: &mut POFile, field: usize, t: String) {
    let mut e = POEntry::from(("id", "x"));
    match field {
        0 => e.msgid = t,
        1 => e.msgstr = Some(t),
        2 => e.msgctxt = Some(t),
        3 => e.msgid_plural = Some(t),
        4 => {
            e.msgid_plural = Some("ids".to_string());
            e.msgstr_plural = vec!["a".to_string(), t];
        }
        // forms without plural message
        5 => e.msgstr_plural = vec![t, "b".to_string()],
        6 => e.comment = Some(t),
        7 => e.tcomment = Some(t),
        8 => e.occurrences = vec![(t, "1".to_string()), ("b.c".to_string(), "2".to_string())],
        9 => e.occurrences = vec![("a.c".to_string(), t)],
        10 => e.flags = vec![t, "fuzzy".to_string()],
        11 => e.previous_msgid = Some(t),
        12 => e.previous_msgctxt = Some(t),
        13 => e.previous_msgid_plural = Some(t),
        14 => po.header = Some(t),
        15 => {
            po.metadata.insert(t, "v".to_string());
        }
        _ => {
            po.metadata.insert("Plural-Forms".to_string(), t);
        }
    }
    po.entries.push(e);
}

/// Any text of up to p0 bytes inside text p1 (alphabet p2) in any of 17
/// places, obsolete or not, six widths.
#[no_mangle]
pub extern "C" fn h_c26_text() {
    warm();
    let mut po = POFile::new(("", WIDTHS[pick(WIDTHS.len())]).into());
    let t = put(param(1), &text_of(param(2), "text", param(0)));
    let field = pick(17);
    set(&mut po, field, t);
    po.entries[0].obsolete = flip();
    write(&po);
}

/// Two places at once, up to p0 bytes each.
#[no_mangle]
pub extern "C" fn h_c26_two() {
    warm();
    let mut po = POFile::new(("", [0, 78][pick(2)]).into());
    let a = text_of(param(1), "one", param(0));
    let b = text_of(param(1), "two", param(0));
    set(&mut po, pick(17), a);
    set(&mut po, pick(17), b);
    write(&po);
}

/// Entries where anything may be missing.
#[no_mangle]
pub extern "C" fn h_c26_missing() {
    warm();
    let mut po = POFile::new(("", [0, 78][pick(2)]).into());
    let c = byte("c") as char;
    for i in 0..1 + pick(param(0)) {
        let mut e = POEntry::new(0);
        if i > 0 {
            po.entries.push(crate::c05::fixed(pick(8)));
            continue;
        }
        if flip() {
            e.msgid.push(c);
        }
        if flip() {
            e.msgstr = Some("x".to_string());
        }
        if flip() {
            e.msgctxt = Some(String::new());
        }
        if flip() {
            e.msgid_plural = Some("p".to_string());
        }
        for _ in 0..pick(3) {
            e.msgstr_plural.push(String::new());
        }
        e.obsolete = flip();
        if flip() {
            e.flags.push("fuzzy".to_string());
            e.occurrences.push((String::new(), String::new()));
            e.comment = Some(String::new());
            e.tcomment = Some(String::new());
            e.previous_msgid = Some(String::new());
        }
        po.entries.push(e);
    }
    write(&po);
}

/// Catalogues with any text of up to p0 bytes in any field.
#[no_mangle]
pub extern "C" fn h_c26_mo() {
    warm();
    let mut mo = MOFile::new(("", WIDTHS[pick(WIDTHS.len())]).into());
    let t = put(param(1), &text_of(param(2), "text", param(0)));
    let mut e = MOEntry::from("id");
    match pick(7) {
        0 => e.msgid = t,
        1 => e.msgstr = Some(t),
        2 => e.msgctxt = Some(t),
        3 => e.msgid_plural = Some(t),
        4 => {
            e.msgid_plural = Some("ids".to_string());
            e.msgstr_plural = vec!["a".to_string(), t];
        }
        5 => e.msgstr_plural = vec![t],
        _ => {
            mo.metadata.insert(t, "v".to_string());
        }
    }
    mo.entries.push(e);
    mo.entries.push(MOEntry::from("last"));
    images(&mo);
    for e in &mo.entries {
        emit(e.to_string().as_bytes());
    }
    emit(&POFile::from(mo.entries.iter().map(POEntry::from).collect::<Vec<_>>().iter().collect::<Vec<_>>()).as_bytes());
    reach(0);
}

/// A long text of p1 bytes with up to p0 open bytes in any place.
#[no_mangle]
pub extern "C" fn h_c26_long() {
    warm();
    let mut po = POFile::new(("", [0, 78, usize::MAX][pick(3)]).into());
    let t = long_with(pick(6), param(1), &text_upto("text", param(0)));
    let field = pick(17);
    set(&mut po, field, t);
    write(&po);
}
