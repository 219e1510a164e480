//! Comments, references, flags and previous texts written and parsed again.

use crate::c03::WIDTHS;
use crate::sym::*;
use crate::util::*;
use rspolib::POEntry;

const HEAD: &str = "#\nmsgid \"\"\nmsgstr \"\"\n\n";

fn plain() -> POEntry {
    let mut e = POEntry::new(0);
    e.msgid = "id".to_string();
    e.msgstr = Some("x".to_string());
    e
}

/// Writes the entry between two others and parses the result.
fn again(e: &POEntry, width: usize) -> POEntry {
    let mut text = String::from(HEAD);
    text.push_str("msgid \"first\"\nmsgstr \"1\"\n\n");
    let own = e.to_string_with_wrapwidth(width);
    text.push_str(&own);
    text.push_str("\nmsgid \"last\"\nmsgstr \"3\"\n");
    let po = parse(&text);
    check(po.entries.len() == 3, "not exactly three entries come back");
    for (i, id) in [(0, "first"), (2, "last")] {
        let o = &po.entries[i];
        check(o.msgid == id, "another entry changed");
        check(
            o.flags.is_empty()
                && o.occurrences.is_empty()
                && o.comment.is_none()
                && o.tcomment.is_none()
                && o.previous_msgid.is_none()
                && o.previous_msgctxt.is_none()
                && o.previous_msgid_plural.is_none(),
            "something moved to another entry",
        );
    }
    emit(own.as_bytes());
    po.entries[1].clone()
}

/// A line that the format can express as comment: not empty, no whitespace
/// at its ends.
fn assume_line(s: &str) {
    assume(!s.is_empty());
    assume(!s.contains('\n'));
    let t = s.trim();
    assume(t.len() == s.len());
}

/// Previous texts: any text of alphabet p2 with up to p0 bytes in one of
/// them, the others there or not.
#[no_mangle]
pub extern "C" fn h_c04_previous() {
    warm();
    let mut e = plain();
    let t = crate::c03::put(param(1), &text_of(param(2), "text", param(0)));
    let which = pick(3);
    let other = flip();
    if other {
        e.previous_msgctxt = Some("pctx".to_string());
        e.previous_msgid = Some("pid one two".to_string());
        e.previous_msgid_plural = Some("pids".to_string());
        e.flags.push("fuzzy".to_string());
        e.msgctxt = Some("ctx".to_string());
    }
    match which {
        0 => e.previous_msgctxt = Some(t),
        1 => e.previous_msgid = Some(t),
        _ => e.previous_msgid_plural = Some(t),
    }
    let width = WIDTHS[pick(WIDTHS.len())];
    let r = again(&e, width);
    check_texts(&e, &r);
    check_extras(&e, &r);
    reach(0);
}

/// Comments of up to p1 lines with up to p0 open bytes each (alphabet p2).
#[no_mangle]
pub extern "C" fn h_c04_comment() {
    warm();
    let mut e = plain();
    e.obsolete = flip();
    let translator = flip();
    let lines = 1 + pick(param(1));
    let mut t = String::new();
    for i in 0..lines {
        let l = text_of(param(2), ["line0", "line1", "line2"][i], param(0));
        let kind = pick(3);
        let l = match kind {
            0 => l,
            1 => {
                let mut s = String::from("Some words ");
                s.push_str(&l);
                s
            }
            _ => {
                let mut s = l;
                s.push_str(", fuzzy msgid \"x\" # and-more");
                s
            }
        };
        assume_line(&l);
        if i > 0 {
            t.push('\n');
        }
        t.push_str(&l);
    }
    if translator {
        e.tcomment = Some(t);
    } else {
        e.comment = Some(t);
    }
    let width = WIDTHS[pick(WIDTHS.len())];
    let r = again(&e, width);
    check_texts(&e, &r);
    if width < 78 {
        // lines may have been broken at whitespace
        check(
            squeeze(or_empty(&e.tcomment)) == squeeze(or_empty(&r.tcomment)),
            "words of the translator comment differ",
        );
        check(squeeze(or_empty(&e.comment)) == squeeze(or_empty(&r.comment)), "words of the extracted comment differ");
        check(r.flags.is_empty() && r.occurrences.is_empty(), "comment became something else");
        check(e.tcomment.is_some() || r.tcomment.is_none(), "comment changed its kind");
        check(e.comment.is_some() || r.comment.is_none(), "comment changed its kind");
    } else {
        check_extras(&e, &r);
    }
    reach(0);
}

/// Flags: up to p1 of them with up to p0 open bytes each.
#[no_mangle]
pub extern "C" fn h_c04_flags() {
    warm();
    let mut e = plain();
    e.obsolete = flip();
    let n = 1 + pick(param(1));
    for i in 0..n {
        let f = match pick(3) {
            0 => "fuzzy".to_string(),
            1 => "python-brace-format".to_string(),
            _ => {
                let f = text_of(param(2), ["flag0", "flag1", "flag2"][i], param(0));
                assume_line(&f);
                assume(!f.contains(','));
                f
            }
        };
        e.flags.push(f);
    }
    let width = WIDTHS[pick(WIDTHS.len())];
    let r = again(&e, width);
    check_texts(&e, &r);
    check_extras(&e, &r);
    reach(0);
}

/// References: up to p1 of them, file names with up to p0 open bytes or long
/// fixed ones, line numbers of up to two digits or none.
#[no_mangle]
pub extern "C" fn h_c04_references() {
    warm();
    let mut e = plain();
    let n = 1 + pick(param(1));
    for i in 0..n {
        let f = match pick(3) {
            0 => "a.c".to_string(),
            1 => "some/long/path-name/file_x.rs".to_string(),
            _ => {
                let f = text_of(param(2), ["file0", "file1", "file2", "file3"][i], param(0));
                assume(!f.is_empty());
                for c in f.chars() {
                    assume(!c.is_whitespace());
                }
                f
            }
        };
        let digits = pick(3);
        let l = bytes(["num0", "num1", "num2", "num3"][i], digits);
        for d in &l {
            assume(b'0' <= *d);
            assume(*d <= b'9');
        }
        assume(!f.contains(':'));
        e.occurrences.push((f, String::from_utf8(l).unwrap()));
    }
    let width = WIDTHS[pick(WIDTHS.len())];
    let r = again(&e, width);
    check_texts(&e, &r);
    check_extras(&e, &r);
    reach(0);
}

/// Every combination of the fields, with one open byte in each.
#[no_mangle]
pub extern "C" fn h_c04_all() {
    warm();
    let one = |name: &str| String::from_utf8(vec![byte_in(name, b'a', b'z')]).unwrap();
    let mut e = plain();
    if flip() {
        e.tcomment = Some(one("tc"));
    }
    if flip() {
        e.comment = Some(one("gc"));
    }
    for i in 0..pick(3) {
        e.occurrences.push((one(["oc0", "oc1"][i]), "7".to_string()));
    }
    for i in 0..pick(3) {
        e.flags.push(one(["fl0", "fl1"][i]));
    }
    if flip() {
        e.previous_msgctxt = Some(one("pc"));
    }
    if flip() {
        e.previous_msgid = Some(one("pm"));
    }
    if flip() {
        e.previous_msgid_plural = Some(one("pp"));
    }
    if flip() {
        e.msgctxt = Some(one("ctx"));
    }
    if flip() {
        e.msgstr = None;
        e.msgid_plural = Some(one("mp"));
        e.msgstr_plural = vec![one("s0"), one("s1")];
    }
    let width = [0, 5, 78][pick(3)];
    let r = again(&e, width);
    check_texts(&e, &r);
    check_extras(&e, &r);
    reach(0);
}

/// A number with two digits or more as text.
fn number(i: usize) -> String {
    let mut s = String::from("1");
    s.push((b'0' + (i / 10 % 10) as u8) as char);
    s.push((b'0' + (i % 10) as u8) as char);
    s
}

/// p0 flags, references or comment lines, one of them with an open byte.
#[no_mangle]
pub extern "C" fn h_c04_many() {
    warm();
    let mut e = plain();
    let n = param(0);
    let k = [0, n / 2, n - 1][pick(3)];
    let what = pick(4);
    let open = text_upto("open", 1);
    for c in open.bytes() {
        assume(c.is_ascii_graphic());
        assume(c != b',' && c != b':');
    }
    let mut lines = String::new();
    for i in 0..n {
        let mut s = String::from(["item", "a-longer-item", "it"][i % 3]);
        if i == k {
            s.push_str(&open);
        }
        match what {
            0 => e.flags.push(s),
            1 => e.occurrences.push((s, number(i))),
            _ => {
                s.push_str(&number(i));
                if i > 0 {
                    lines.push('\n');
                }
                lines.push_str(&s);
            }
        }
    }
    match what {
        2 => e.comment = Some(lines),
        3 => e.tcomment = Some(lines),
        _ => {}
    }
    let width = [30, 78][pick(2)];
    let r = again(&e, width);
    check_texts(&e, &r);
    check_extras(&e, &r);
    reach(0);
}

/// A comment line of about p1 bytes with up to p0 open bytes; a reference or
/// a flag of that length.
#[no_mangle]
pub extern "C" fn h_c04_long() {
    warm();
    let mut e = plain();
    let t = text_of(param(2), "text", param(0));
    let what = pick(4);
    if what < 2 {
        let l = long_with([0, 1, 3, 5][pick(4)], param(1), &t);
        let l = l.trim();
        assume_line(l);
        if what == 0 {
            e.comment = Some(l.to_string());
        } else {
            e.tcomment = Some(l.to_string());
        }
    } else {
        let l = long_with(1, param(1), &t);
        assume_line(&l);
        for c in l.chars() {
            assume(!c.is_whitespace());
            assume(c != ':' && c != ',');
        }
        if what == 2 {
            e.occurrences = vec![("a".to_string(), "1".to_string()), (l, "123".to_string()), ("b".to_string(), "".to_string())];
        } else {
            e.flags = vec!["a".to_string(), l, "b".to_string()];
        }
    }
    let width = [20, 78][pick(2)];
    let r = again(&e, width);
    check_texts(&e, &r);
    check(
        squeeze(or_empty(&e.tcomment)) == squeeze(or_empty(&r.tcomment)),
        "words of the translator comment differ",
    );
    check(squeeze(or_empty(&e.comment)) == squeeze(or_empty(&r.comment)), "words of the extracted comment differ");
    check(r.flags == e.flags && r.occurrences == e.occurrences, "flags or references differ");
    reach(0);
}
