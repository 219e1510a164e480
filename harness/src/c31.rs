//! Variations of the layout of a text that do not change what it says.

use crate::c06::LINES;
use crate::c08::line_of;
use crate::sym::*;
use crate::util::*;
use rspolib::pofile;

/// The line with its string split in two: nothing and all of it, or (second)
/// the first byte and the others.
fn split(line: &str, second: bool) -> Option<(String, String)> {
    let start = line.find('"')?;
    if line.starts_with("#~|") || !line.ends_with('"') || line.len() < start + 2 || (line.starts_with('#') && !line.starts_with("#~") && !line.starts_with("#|")) {
        return None;
    }
    let mut at = start + 1;
    if second {
        // not inside of an escape or character
        let c = *line.as_bytes().get(at)?;
        if !c.is_ascii_alphanumeric() {
            return None;
        }
        at += 1;
    }
    let mark = if line.starts_with("#~") {
        "#~ "
    } else if line.starts_with("#|") {
        "#| "
    } else {
        ""
    };
    Some(([&line[..at], "\""].concat(), [mark, "\"", &line[at..]].concat()))
}

/// Compares the text of these lines with a variation of it.
fn compare(lines: &[String]) {
    let at = pick(lines.len());
    let mut other = lines.to_vec();
    // the first line whose number changes
    let mut moved = usize::MAX;
    let l = lines[at].clone();
    match pick(8) {
        0 => {
            other.insert(at, String::new());
            moved = at;
        }
        1 => {
            other.insert(at, " \t ".to_string());
            moved = at;
        }
        2 => other[at] = [&l, [" ", "\t", "\r"][pick(3)]].concat(),
        3 => other[at] = [["  ", "\t"][pick(2)], &l].concat(),
        4 => {
            // more space before the string
            let k = match l.find(" \"") {
                Some(k) if !l.starts_with('#') || l.starts_with("#| msg") || l.starts_with("#~ msg") => k,
                _ => {
                    assume(false);
                    0
                }
            };
            other[at] = [&l[..k], ["  ", "\t", " \t "][pick(3)], &l[k + 1..]].concat();
        }
        5 => {
            // every line end
            for o in other.iter_mut() {
                o.push('\r');
            }
        }
        k => match split(&l, k == 7) {
            Some((a, b)) => {
                other[at] = a;
                other.insert(at + 1, b);
                moved = at + 1;
            }
            None => assume(false),
        },
    }
    let (a, b) = (lines.join("\n"), other.join("\n"));
    match (pofile(a.as_str()), pofile(b.as_str())) {
        (Ok(mut x), Ok(mut y)) => {
            check(x.metadata == y.metadata && x.metadata_is_fuzzy == y.metadata_is_fuzzy, "metadata differ");
            check(x.header == y.header, "header differs");
            check(x.entries.len() == y.entries.len(), "number of entries differs");
            for (e, f) in x.entries.iter_mut().zip(y.entries.iter_mut()) {
                let n = e.linenum + usize::from(e.linenum > moved);
                check(f.linenum == n || (f.linenum > moved && n + 1 == f.linenum), "line differs");
                e.linenum = 0;
                f.linenum = 0;
                check_texts(e, f);
                check_extras(e, f);
                check(e == f, "entry differs");
            }
            emit(x.to_string().as_bytes());
            reach(0);
        }
        (Err(e), Err(f)) => {
            let n = line_of(&e).map(|n| n + usize::from(n > moved));
            // an error within a string that is split may be in either part
            let part = n.is_some() && n == Some(moved) && line_of(&f) == Some(moved + 1);
            check(line_of(&f) == n || part, "the error names another line");
            reach(1);
        }
        (Ok(_), Err(_)) => fail("the same text in another layout is rejected"),
        (Err(_), Ok(_)) => fail("the same text in another layout is accepted"),
    }
}

fn lines_of(text: &str) -> Vec<String> {
    text.lines().map(|l| l.to_string()).collect()
}

const HEAD: &str = "# header\nmsgid \"\"\nmsgstr \"\"\n\"Language: es\\n\"\n\"X-Key: a b\\n\"\n";

/// p0 lines of 25 kinds before one of p1 entries.
#[no_mangle]
pub extern "C" fn h_c31() {
    warm();
    let mut lines = lines_of(HEAD);
    for name in ["a0", "a1", "a2"].iter().take(param(0)) {
        let l = LINES[pick(LINES.len())];
        match l.split_once('@') {
            Some((a, b)) => {
                let c = byte(name);
                assume(c.is_ascii_alphanumeric());
                let mut s = String::from(a);
                s.push(c as char);
                s.push_str(b);
                lines.push(s);
            }
            None => lines.push(l.to_string()),
        }
    }
    lines.extend(lines_of(crate::c28::LAST[pick(param(1))]));
    compare(&lines);
}

/// Any text of up to p0 bytes in a line of eight kinds.
#[no_mangle]
pub extern "C" fn h_c31_text() {
    warm();
    let t = text_upto("text", param(0));
    for c in t.bytes() {
        assume(c != b'\n' && c != b'\r');
    }
    let (a, b) = [
        ("msgctxt \"", "\"\nmsgid \"m\"\nmsgstr \"y\""),
        ("msgid \"m", "\"\nmsgstr \"y\""),
        ("msgid \"m\"\nmsgstr \"", "\"\nmsgid \"k\"\nmsgstr \"y\""),
        ("#~ msgid \"m\"\n#~ msgstr \"", "\""),
        ("# ", ".\nmsgid \"m\"\nmsgstr \"y\""),
        ("#, a", ", b\nmsgid \"m\"\nmsgstr \"y\""),
        ("#| msgid \"", "\"\nmsgid \"m\"\nmsgstr \"y\""),
        ("msgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[0] \"", "\"\nmsgstr[1] \"z\""),
    ][pick(8)];
    let text = ["msgid \"\"\nmsgstr \"A: b\\n\"\n", a, &t, b].concat();
    let lines: Vec<String> = text.split('\n').map(|l| l.to_string()).collect();
    compare(&lines);
}

/// Strings of p0 bytes, an open letter in one of three places, in one line or
/// in two.
#[no_mangle]
pub extern "C" fn h_c31_long() {
    warm();
    let n = param(0);
    let c = byte("text");
    assume(c.is_ascii_alphanumeric());
    let mut t = vec![b'x'; n];
    t[[1, n / 2, n - 1][pick(3)]] = c;
    let t = match String::from_utf8(t) {
        Ok(t) => t,
        Err(_) => fail("not text"),
    };
    let (mark, a, b) = [
        ("", "msgctxt ", "msgid \"m\"\nmsgstr \"y\""),
        ("", "msgid ", "msgstr \"y\""),
        ("", "msgid \"m\"\nmsgstr ", ""),
        ("#~ ", "#~ msgid \"m\"\n#~ msgstr ", ""),
        ("#| ", "#| msgid ", "msgid \"m\"\nmsgstr \"y\""),
        ("", "msgid \"m\"\nmsgid_plural ", "msgstr[0] \"y\"\nmsgstr[1] \"z\""),
        ("", "msgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[0] ", "msgstr[1] \"z\""),
    ][pick(7)];
    let head = "msgid \"\"\nmsgstr \"A: b\\n\"\n\n";
    let one = [head, a, "\"", &t, "\"\n", b].concat();
    let k = [0, n / 2, n - 2][pick(3)];
    let two = [head, a, "\"", &t[..k], "\"\n", mark, "\"", &t[k..], "\"\n", b].concat();
    let (x, y) = match (pofile(one.as_str()), pofile(two.as_str())) {
        (Ok(x), Ok(y)) => (x, y),
        _ => fail("a long text is rejected"),
    };
    check(x.entries.len() == 1 && y.entries.len() == 1, "number of entries differs");
    let e = &x.entries[0];
    check_texts(e, &y.entries[0]);
    check_extras(e, &y.entries[0]);
    let some = Some(t.clone());
    check(
        e.msgid == t
            || e.msgstr == some
            || e.msgctxt == some
            || e.previous_msgid == some
            || e.msgid_plural == some
            || e.msgstr_plural.first() == some.as_ref(),
        "a long text is changed",
    );
    emit(x.entries.len().to_string().as_bytes());
    reach(0);
}
