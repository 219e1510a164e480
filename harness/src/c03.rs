//! Entries written as PO and parsed again.

use crate::sym::*;
use crate::util::*;
use rspolib::POEntry;

pub const WIDTHS: [usize; 6] = [0, 1, 2, 7, 20, 78];

/// Text around the open part of a string.
pub fn around(kind: usize) -> (&'static str, &'static str) {
    match kind {
        0 => ("", ""),
        1 => ("one two ", " three"),
        2 => ("tail ", ""),
        3 => ("", "\nnext line\n"),
        4 => ("say \"hi\" \\ ", "\t\"end\""),
        5 => ("días 中文字 ", " ñandú 文"),
        _ => ("0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 ", "0123456789 0"),
    }
}

pub fn put(kind: usize, t: &str) -> String {
    let (a, b) = around(kind);
    let mut s = String::from(a);
    s.push_str(t);
    s.push_str(b);
    s
}

/// An entry in which one string field holds `t`. The other fields are fixed.
pub fn entry_with(field: usize, t: String) -> POEntry {
    let mut e = POEntry::new(0);
    e.msgid = "id".to_string();
    match field {
        0 => {
            e.msgid = t;
            e.msgstr = Some("x".to_string());
        }
        1 => e.msgstr = Some(t),
        2 => {
            e.msgctxt = Some(t);
            e.msgstr = Some("x".to_string());
        }
        3 => {
            e.msgid_plural = Some(t);
            e.msgstr_plural = vec!["x".to_string(), "y".to_string()];
        }
        4 => {
            e.msgid_plural = Some("ids".to_string());
            e.msgstr_plural = vec![t, "y".to_string()];
        }
        _ => {
            e.msgctxt = Some("ctx".to_string());
            e.msgid_plural = Some("ids".to_string());
            e.msgstr_plural = vec!["x".to_string(), "".to_string(), t];
        }
    }
    e
}

fn round_trip(e: &POEntry, width: usize) {
    let text = e.to_string_with_wrapwidth(width);
    let po = parse(&text);
    check(po.entries.len() == 1, "not exactly one entry comes back");
    check_texts(e, &po.entries[0]);
    check_extras(e, &po.entries[0]);
    emit(text.as_bytes());
    reach(0);
}

/// One open string of up to p0 bytes of alphabet p2 inside fixed text p1;
/// every field and mark, all widths or (p3 = 1) two of them.
#[no_mangle]
pub extern "C" fn h_c03() {
    warm();
    let field = pick(6);
    let t = put(param(1), &text_of(param(2), "text", param(0)));
    if field == 0 {
        assume(!t.is_empty());
    }
    let mut e = entry_with(field, t);
    e.obsolete = flip();
    let width = if param(3) == 1 { [2, 78][pick(2)] } else { WIDTHS[pick(WIDTHS.len())] };
    round_trip(&e, width);
}

/// Every string of the entry open at once, each of up to p0 bytes, p1 of the
/// plural forms.
#[no_mangle]
pub extern "C" fn h_c03_all() {
    warm();
    let n = param(0);
    let mut e = POEntry::new(0);
    e.msgid = text_upto("msgid", n);
    assume(!e.msgid.is_empty());
    if flip() {
        e.msgctxt = Some(text_upto("msgctxt", n));
    }
    if flip() {
        e.msgid_plural = Some(text_upto("msgid_plural", n));
        let k = 1 + pick(param(1));
        for i in 0..k {
            e.msgstr_plural.push(text_upto(["msgstr0", "msgstr1", "msgstr2"][i], n));
        }
    } else if flip() {
        e.msgstr = Some(text_upto("msgstr", n));
    }
    e.obsolete = flip();
    round_trip(&e, 78);
}

/// Long texts of several kinds in one field with up to p0 open bytes of
/// alphabet p2, about p1 bytes in all, at two widths.
#[no_mangle]
pub extern "C" fn h_c03_long() {
    warm();
    let t = text_of(param(2), "text", param(0));
    let mut e = entry_with(pick(6), long_with(pick(6), param(1), &t));
    e.obsolete = flip();
    round_trip(&e, [40, 78][pick(2)]);
}

/// Up to p0 (p1 = 1: exactly) plural forms, one of them with an open byte.
#[no_mangle]
pub extern "C" fn h_c03_forms() {
    warm();
    let mut e = POEntry::from("id");
    if flip() {
        e.msgid_plural = Some("ids".to_string());
    }
    let n = if param(1) == 1 { param(0) } else { 1 + pick(param(0)) };
    let k = if param(1) == 1 { [0, n / 2, n - 1][pick(3)] } else { pick(n) };
    for i in 0..n {
        let mut s = String::from(["", "some text ", "other"][i % 3]);
        if i == k {
            s.push_str(&ascii_upto("text", 1));
        }
        e.msgstr_plural.push(s);
    }
    e.obsolete = flip();
    round_trip(&e, [5, 78][pick(2)]);
}
