//! Wrapping of long strings.

use crate::sym::*;
use rspolib::escaping::escape;
use rspolib::{AsBytes, FileOptions, MOEntry, MOFile, POEntry, POFile};
use unicode_width::{UnicodeWidthChar, UnicodeWidthStr};

fn width(s: &str) -> usize {
    let sum = s.chars().map(|c| UnicodeWidthChar::width(c).unwrap_or(0)).sum();
    std::cmp::min(sum, UnicodeWidthStr::width(s))
}

/// The quoted pieces of the lines of `text` that start with `keyword` and of
/// the continuation lines after them.
pub fn pieces(text: &str, keyword: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut inside = false;
    for line in text.split('\n') {
        let line = line.strip_prefix("#~ ").unwrap_or(line);
        let start = if line.starts_with('"') {
            if !inside {
                continue;
            }
            0
        } else {
            inside = line.strip_prefix(keyword).map_or(false, |r| r.starts_with(" \""));
            if !inside {
                continue;
            }
            keyword.len() + 1
        };
        check(line.len() >= start + 2 && line.ends_with('"'), "a line is not quoted");
        out.push(line[start + 1..line.len() - 1].to_string());
    }
    out
}

pub fn verify(text: &str, keyword: &str, value: &str, wrapwidth: usize) {
    let p = pieces(text, keyword);
    let whole = escape(value).into_owned();
    check(p.concat() == whole, "the pieces are not the escaped text");
    let b = whole.as_bytes();
    let mut at = 0;
    for x in &p {
        let end = at + x.len();
        if width(x) > wrapwidth {
            for (i, _) in unicode_linebreak::linebreaks(&whole) {
                if i > at && i < end {
                    let mut k = i;
                    while k > 0 && b[k - 1] == b'\\' {
                        k -= 1;
                    }
                    check((i - k) % 2 == 1, "a piece is too wide and could be broken");
                }
            }
            reach(1);
        }
        at = end;
    }
    if p.len() > 2 {
        reach(2);
    }
    emit(text.as_bytes());
    reach(0);
}

/// Writes `t` in some field of an entry at width `w`.
fn written(t: String, w: usize) {
    match pick(4) {
        0 => {
            let mut e = POEntry::new(0);
            e.msgid = t;
            verify(&e.to_string_with_wrapwidth(w), "msgid", &e.msgid, w);
        }
        1 => {
            let mut e = POEntry::new(0);
            e.msgid = "a".to_string();
            e.obsolete = true;
            e.msgctxt = Some(t.clone());
            verify(&e.to_string_with_wrapwidth(w), "msgctxt", &t, w);
        }
        2 => {
            let mut e = MOEntry::from("a");
            e.msgstr = Some(t.clone());
            verify(&e.to_string_with_wrapwidth(w), "msgstr", &t, w);
        }
        _ => {
            let mut e = POEntry::new(0);
            e.msgid = "a".to_string();
            e.msgid_plural = Some("b".to_string());
            e.msgstr_plural = vec!["c".to_string(), t.clone()];
            verify(&e.to_string_with_wrapwidth(w), "msgstr[1]", &t, w);
        }
    }
}

fn any_width(max: usize) -> usize {
    if flip() {
        return usize::MAX;
    }
    let w = byte("width");
    assume(w as usize <= max);
    w as usize
}

/// Up to p0 open bytes of alphabet p2 inside text p1, any width up to p3.
#[no_mangle]
pub extern "C" fn h_c13() {
    warm();
    let t = crate::c03::put(param(1), &text_of(param(2), "text", param(0)));
    written(t, any_width(param(3)));
}

/// p0 characters of different kinds, any width up to p1.
#[no_mangle]
pub extern "C" fn h_c13_kinds() {
    warm();
    let mut t = String::new();
    for i in 0..param(0) {
        match pick(11) {
            0 => t.push(byte_in(["c0", "c1", "c2", "c3", "c4", "c5"][i], b'a', b'z') as char),
            1 => t.push(' '),
            2 => t.push('文'),
            3 => t.push('\u{301}'),
            4 => t.push('"'),
            5 => t.push('\\'),
            6 => t.push('\n'),
            7 => t.push('-'),
            8 => t.push('\u{200b}'),
            9 => t.push('é'),
            _ => t.push('😀'),
        }
    }
    let w = any_width(param(1));
    let mut e = MOEntry::from("a");
    e.msgstr = Some(t.clone());
    verify(&e.to_string_with_wrapwidth(w), "msgstr", &t, w);
}

/// Words of open lengths: p0 words of up to p1 letters, any width up to p2.
#[no_mangle]
pub extern "C" fn h_c13_words() {
    warm();
    let mut t = String::new();
    for i in 0..param(0) {
        if i > 0 {
            t.push_str([" ", "  ", "\n"][pick(3)]);
        }
        for _ in 0..1 + pick(param(1)) {
            t.push(['a', 'é', '文'][i % 3]);
        }
        t.push(byte_in(["c0", "c1", "c2", "c3", "c4", "c5"][i], b'a', b'z') as char);
    }
    written(t, any_width(param(2)));
}

/// The width of a file is the one of its entries.
#[no_mangle]
pub extern "C" fn h_c13_file() {
    warm();
    let w = any_width(param(0));
    let mut t = String::from("some words of a text ");
    t.push(byte_in("c", b'a', b'z') as char);
    t.push_str(" that goes on");
    let mut e = POEntry::new(0);
    e.msgid = t.clone();
    e.msgstr = Some("x".to_string());
    e.obsolete = flip();
    e.comment = if flip() { Some("a comment of several words".to_string()) } else { None };
    let mut p = POFile::new(("", w).into());
    p.entries.push(e.clone());
    let text = p.to_string();
    check(text.ends_with(&e.to_string_with_wrapwidth(w)), "the entry of a PO file has another width");
    let mut m = MOFile::new(("", w).into());
    m.entries.push(MOEntry::from(&e));
    let text = m.to_string();
    check(text.ends_with(&m.entries[0].to_string_with_wrapwidth(w)), "the entry of a MO file has another width");
    let back = match rspolib::pofile((p.to_string().as_str(), w)) {
        Ok(f) => f,
        Err(_) => fail("the text cannot be parsed"),
    };
    check(back.to_string() == p.to_string(), "the width of a parsed file is another");
    // entries alone are written at the width 78
    check(e.to_string() == e.to_string_with_wrapwidth(78), "the default width is another");
    emit(text.as_bytes());
    reach(0);
}

/// The width given with a content in each way is the one of its entries.
#[no_mangle]
pub extern "C" fn h_c13_options() {
    warm();
    let w = any_width(param(0));
    let mut t = String::from("some words of a text ");
    t.push(byte_in("c", b'a', b'z') as char);
    t.push_str(" that goes on");
    let mut p = POFile::new("".into());
    let mut e = POEntry::new(0);
    e.msgid = t;
    e.msgstr = Some("others after these".to_string());
    p.entries.push(e.clone());
    let given = |c: &[u8], way: usize| match way {
        0 => (w, (c.to_vec(), w).into()),
        1 => {
            file("/vfs/a", c);
            (w, ("/vfs/a", w).into())
        }
        2 => (w, FileOptions { byte_content: Some(c.to_vec()), wrapwidth: w, ..Default::default() }),
        3 => (w, FileOptions::from(&FileOptions::from((c.to_vec(), w)))),
        4 => {
            file("/vfs/a", c);
            (78, std::path::Path::new("/vfs/a").into())
        }
        _ => (78, c.to_vec().into()),
    };
    let way = pick(6);
    if flip() {
        let (w, options): (usize, FileOptions) = given(p.to_string().as_bytes(), way);
        match rspolib::pofile(options) {
            Ok(f) => check(f.to_string().ends_with(&e.to_string_with_wrapwidth(w)), "a PO file has another width than given"),
            Err(_) => fail("the text cannot be parsed"),
        }
    } else {
        let m = MOFile::from(&p);
        let (w, options): (usize, FileOptions) = given(&m.as_bytes(), way);
        match rspolib::mofile(options) {
            Ok(f) => check(
                f.to_string().ends_with(&m.entries[0].to_string_with_wrapwidth(w)),
                "a MO file has another width than given",
            ),
            Err(_) => fail("the image cannot be read"),
        }
        reach(1);
    }
    reach(0);
}

/// Texts of about p1 bytes with up to p0 open bytes of alphabet p2, widths
/// from p3 on.
#[no_mangle]
pub extern "C" fn h_c13_long() {
    warm();
    let t = crate::util::long_with(pick(6), param(1), &text_of(param(2), "text", param(0)));
    let w = byte("width");
    assume((w as usize) < 16);
    written(t, param(3) + w as usize);
}
