//! Texts of files and of their entries.

use crate::c03::{entry_with, put};
use crate::c05::shaped;
use crate::sym::*;
use crate::util::*;
use rspolib::{MOEntry, MOFile, POEntry, POFile};

/// The text of the file is the one it has without entries, followed by the
/// text of each entry, current ones first.
fn verify(po: &POFile) {
    let mut bare = POFile::new(("", po.options.wrapwidth).into());
    bare.header = po.header.clone();
    bare.metadata = po.metadata.clone();
    bare.metadata_is_fuzzy = po.metadata_is_fuzzy;
    let mut want = bare.to_string();
    let mut kept = Vec::new();
    for obsolete in [false, true] {
        for e in &po.entries {
            if e.obsolete == obsolete {
                want.push('\n');
                want.push_str(&e.to_string_with_wrapwidth(po.options.wrapwidth));
                kept.push(e.clone());
            }
        }
    }
    let text = po.to_string();
    check(text == want, "the file is not written as its entries are");
    // neither does it depend on where entries come from
    bare.entries = kept;
    for (i, e) in bare.entries.iter_mut().enumerate() {
        e.linenum = 7 * i;
    }
    check(bare.to_string() == text, "the text depends on the order of obsolete entries or on line numbers");
    check(po.to_string() == text, "the second text differs");
    emit(text.as_bytes());
}

fn verify_mo(mo: &MOFile) {
    let mut bare = MOFile::new(("", mo.options.wrapwidth).into());
    bare.metadata = mo.metadata.clone();
    let mut want = bare.to_string();
    for e in &mo.entries {
        want.push('\n');
        want.push_str(&e.to_string_with_wrapwidth(mo.options.wrapwidth));
    }
    let text = mo.to_string();
    check(text == want, "the file is not written as its entries are");
    check(mo.to_string() == text, "the second text differs");
    emit(text.as_bytes());
}

fn metadata(po: &mut POFile) {
    if flip() {
        po.metadata.insert("Language".to_string(), "es".to_string());
        po.metadata.insert("X-Key".to_string(), "a value".to_string());
        po.header = Some("Title".to_string());
        po.metadata_is_fuzzy = flip();
    }
}

/// Up to p0 entries of every shape, in every order.
#[no_mangle]
pub extern "C" fn h_c29() {
    warm();
    let mut po = POFile::new(("", [10, 78][pick(2)]).into());
    metadata(&mut po);
    for i in 0..pick(param(0) + 1) {
        po.entries.push(shaped(i, pick(8)));
    }
    verify(&po);
    reach(0);
}

/// Up to p0 bytes of alphabet p2 inside text p1 in any of nine strings of an
/// entry, between two others; also twice.
#[no_mangle]
pub extern "C" fn h_c29_text() {
    warm();
    let mut po = POFile::new(("", [0, 7, 78][pick(3)]).into());
    let t = put(param(1), &text_of(param(2), "text", param(0)));
    let field = pick(9);
    let mut e;
    if field < 6 {
        e = entry_with(field, t);
    } else {
        e = POEntry::from(("id", "x"));
        match field {
            6 => e.previous_msgid = Some(t),
            7 => e.tcomment = Some(t),
            _ => e.comment = Some(t),
        }
    }
    e.obsolete = flip();
    check(e.to_string() == e.to_string_with_wrapwidth(78), "the usual width is another one");
    let again = pick(3);
    po.entries.push(POEntry::from(("first", "text")));
    po.entries.push(e.clone());
    if again == 1 {
        po.entries.push(e.clone());
    }
    po.entries.push(POEntry::from(("last", "text")));
    if again == 2 {
        po.entries.push(e);
    }
    verify(&po);
    reach(0);
}

/// The same for catalogues read from MO.
#[no_mangle]
pub extern "C" fn h_c29_mo() {
    warm();
    let mut mo = MOFile::new(("", [0, 7, 78][pick(3)]).into());
    let t = put(param(1), &text_of(param(2), "text", param(0)));
    let e = MOEntry::from(&entry_with(pick(6), t));
    check(e.to_string() == e.to_string_with_wrapwidth(78), "the usual width is another one");
    mo.entries.push(MOEntry::from("first"));
    mo.entries.push(e.clone());
    let again = pick(3);
    if again == 1 {
        mo.entries.push(e.clone());
    }
    mo.entries.push(MOEntry::from("last"));
    if again == 2 {
        mo.entries.push(e);
    }
    if flip() {
        mo.metadata.insert("Language".to_string(), "es".to_string());
    }
    verify_mo(&mo);
    reach(0);
}

/// The entry that holds the metadata, with an open key and value of up to p0
/// bytes of ASCII: it says what the file says.
#[no_mangle]
pub extern "C" fn h_c29_metadata() {
    warm();
    let mut po = POFile::new(("", [10, 78][pick(2)]).into());
    po.metadata.insert("Language".to_string(), "es".to_string());
    let k = ascii_upto("key", param(0));
    let v = ascii_upto("value", param(0));
    assume(!k.is_empty());
    po.metadata.insert(k, v);
    po.metadata_is_fuzzy = flip();
    let e = po.metadata_as_entry();
    check(e.msgid.is_empty(), "the metadata are under a message");
    check((e.flags.len() == 1 && e.flags[0] == "fuzzy") == po.metadata_is_fuzzy, "fuzzy mark of the metadata differs");
    let mut mo = MOFile::new(("", 78).into());
    mo.metadata = po.metadata.clone();
    let m = mo.metadata_as_entry();
    check(or_empty(&m.msgstr) == or_empty(&e.msgstr), "metadata differ");
    po.entries.push(shaped(0, 0));
    verify(&po);
    verify_mo(&mo);
    reach(0);
}
