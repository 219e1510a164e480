//! Comparison of entries up to the differences that the PO format cannot
//! express.

use crate::sym::*;
use rspolib::{MOEntry, POEntry, POFile};

/// no translation and an empty translation are written the same
pub fn or_empty(s: &Option<String>) -> &str {
    match s {
        Some(s) => s,
        None => "",
    }
}

pub fn some_nonempty(s: &Option<String>) -> Option<&str> {
    match s {
        Some(s) if !s.is_empty() => Some(s),
        _ => None,
    }
}

pub fn check_texts(a: &POEntry, b: &POEntry) {
    check(a.msgid == b.msgid, "message differs");
    check(a.msgctxt == b.msgctxt, "context differs");
    check(a.msgid_plural == b.msgid_plural, "plural message differs");
    check(a.msgstr_plural == b.msgstr_plural, "plural translations differ");
    if a.msgstr_plural.is_empty() {
        check(or_empty(&a.msgstr) == or_empty(&b.msgstr), "translation differs");
    }
    check(a.obsolete == b.obsolete, "obsolete mark differs");
}

pub fn check_mo_texts(a: &MOEntry, b: &MOEntry) {
    check(a.msgid == b.msgid, "message differs");
    check(a.msgctxt == b.msgctxt, "context differs");
    check(a.msgid_plural == b.msgid_plural, "plural message differs");
    check(a.msgstr_plural == b.msgstr_plural, "plural translations differ");
    if a.msgstr_plural.is_empty() {
        check(or_empty(&a.msgstr) == or_empty(&b.msgstr), "translation differs");
    }
}

pub fn check_extras(a: &POEntry, b: &POEntry) {
    check(a.flags == b.flags, "flags differ");
    check(a.comment == b.comment, "extracted comment differs");
    check(a.tcomment == b.tcomment, "translator comment differs");
    if !a.obsolete {
        check(a.occurrences == b.occurrences, "references differ");
        check(a.previous_msgid == b.previous_msgid, "previous message differs");
        check(a.previous_msgctxt == b.previous_msgctxt, "previous context differs");
        check(a.previous_msgid_plural == b.previous_msgid_plural, "previous plural message differs");
    }
}

pub fn parse(text: &str) -> POFile {
    match rspolib::pofile(text) {
        Ok(f) => f,
        Err(_) => fail("the text cannot be parsed"),
    }
}

pub fn parse_with(text: &str, wrapwidth: usize) -> POFile {
    match rspolib::pofile((text, wrapwidth)) {
        Ok(f) => f,
        Err(_) => fail("the text cannot be parsed"),
    }
}

/// the characters of a text that are not whitespace
pub fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

const UNITS: [&str; 6] =
    ["The quick fox, 12 ", "abcdefghij", "a\"b\\c\n\td ", "文字和 ", "line one\nline two\n", "é😀ñ\u{301}-x "];

/// A text of some kind of at least `n` bytes.
pub fn long(kind: usize, n: usize) -> String {
    let mut s = String::new();
    while s.len() < n {
        s.push_str(UNITS[kind]);
    }
    s
}

/// The same with `t` at its start, in its middle or at its end.
pub fn long_with(kind: usize, n: usize, t: &str) -> String {
    let place = pick(3);
    let mut s = String::new();
    if place > 0 {
        s.push_str(&long(kind, if place == 1 { n / 2 } else { n }));
    }
    s.push_str(t);
    if place < 2 {
        s.push_str(&long(kind, if place == 1 { n / 2 } else { n }));
    }
    s
}

/// two letters for a number below 676, in its order
pub fn nth(i: usize) -> String {
    let mut s = String::new();
    s.push((b'a' + (i / 26) as u8) as char);
    s.push((b'a' + (i % 26) as u8) as char);
    s
}
