//! What errors tell.

use crate::sym::*;
use rspolib::errors::{EscapingError, IOError, SyntaxError};
use rspolib::escaping::unescape;
use rspolib::pofile;

/// whether a number is among those of a message
fn tells(message: &str, n: usize) -> bool {
    let n = n.to_string();
    message.split(|c: char| !c.is_ascii_digit()).any(|w| w == n)
}

/// where an error is, as far as it says
fn place(e: &SyntaxError) -> Option<(usize, usize)> {
    match e {
        SyntaxError::Generic { line, index, .. } => Some((*line, *index)),
        SyntaxError::Custom { line, index, .. } => Some((*line, *index)),
        SyntaxError::UnescapedDoubleQuoteFound { line, index, .. } => Some((*line, *index)),
        _ => None,
    }
}

/// The error for a content by text and by path.
fn both(content: &[u8]) -> SyntaxError {
    const PATH: &str = "/vfs/dir/one.po";
    let e = match pofile(content.to_vec()) {
        Err(e) => e,
        Ok(_) => fail("a malformed content is accepted"),
    };
    let m = e.to_string();
    check(!m.contains(PATH), "the message names a file");
    if let Ok(s) = std::str::from_utf8(content) {
        match pofile(s) {
            Err(x) => {
                check(x.to_string() == m, "the message differs for text");
                check(place(&x) == place(&e), "the place differs for text");
            }
            Ok(_) => fail("a malformed content is accepted as text"),
        }
    }
    file(PATH, content);
    match pofile(PATH) {
        Err(x) => {
            let n = x.to_string();
            check(place(&x) == place(&e), "the place differs for a path");
            check(n.matches(PATH).count() == 1, "the message does not name the file once");
            check(n.replacen(" in file /vfs/dir/one.po", "", 1) == m, "the message differs for a path");
        }
        Ok(_) => fail("a malformed content is accepted by path"),
    }
    if let Some((line, index)) = place(&e) {
        check(tells(&m, line), "the message does not name the line");
        check(tells(&m, index), "the message does not name the position");
        reach(1);
    }
    emit(m.as_bytes());
    e
}

const BEFORE: [&str; 4] =
    ["", "# header\n\nmsgid \"\"\nmsgstr \"A: b\\n\"\n\n", "msgid \"a\"\nmsgstr \"b\"\n", "#~ msgid \"a\"\n#~ msgstr \"b\"\n\n\n\n\n\n\n\n\n"];

/// A character of p0 bytes in malformed lines of several kinds.
#[no_mangle]
pub extern "C" fn h_c23_path() {
    warm();
    let t = text_upto("text", param(0));
    assume(!t.is_empty());
    for c in t.chars() {
        assume(c > ' ' && !c.is_whitespace() && c != '"' && c != '\\' && c != ']' && c != '\u{feff}');
    }
    let before = BEFORE[pick(4)];
    let line = 1 + before.matches('\n').count();
    let mut s = String::from(before);
    let kind = pick(9);
    let mut whole = false;
    match kind {
        0 => {
            // no known word
            s.push_str("message");
            s.push_str(&t);
            s.push_str(" \"x\"\n");
        }
        1 => {
            s.push_str("msgid \"");
            s.push_str(&t);
            s.push('\n');
        }
        2 => {
            s.push_str("msgid \"a\"\nmsgstr[1");
            s.push_str(&t);
            s.push_str("] \"\"\n");
            assume(!t.bytes().all(|c| c.is_ascii_digit()));
        }
        3 => {
            s.push_str("#| previous");
            s.push_str(&t);
            s.push_str(" \"x\"\n");
        }
        4 => s.push_str("#|\n"),
        5 => {
            s.push_str("#| ");
            s.push_str(&t);
            s.push('\n');
        }
        6 => {
            let (a, b) = [
                ("msgid \"a\\", "\"\nmsgstr \"b\"\n"),
                ("msgctxt \"\\", "a\"\nmsgid \"a\"\nmsgstr \"b\"\n"),
                ("msgid \"a\"\nmsgstr \"b\"\n\"\\", "\"\n"),
                ("msgid \"a\"\nmsgid_plural \"\\", "\"\nmsgstr[0] \"b\"\n"),
                ("msgid \"a\"\nmsgid_plural \"\"\nmsgstr[0] \"\\", "\"\n"),
                ("#~ msgid \"a\\", "\"\n#~ msgstr \"b\"\n"),
                ("#~ msgid \"a\"\n#~ msgstr \"b\\", "\"\n\nmsgid \"more\"\nmsgstr \"\"\n"),
                ("#| msgid \"\\", "\"\nmsgid \"a\"\nmsgstr \"b\"\n"),
            ][pick(8)];
            s.push_str(a);
            s.push_str(&t);
            s.push_str(b);
            assume(!"abtnvrf".contains(t.chars().next().unwrap_or('a')));
            whole = true;
        }
        7 => {
            s.push_str("msgstr[0] \"");
            s.push_str(&t);
            s.push_str("\"\n");
            assume(before.is_empty() || before.ends_with("\n\n"));
        }
        _ => {
            s.push_str("msgid \"");
            s.push_str(&t);
            s.push_str("\"b\"\n");
        }
    }
    let e = both(s.as_bytes());
    let m = e.to_string();
    match place(&e) {
        Some((l, _)) => check(l == if kind == 2 { line + 1 } else { line }, "the error names another line"),
        None => check(whole, "the error names no line"),
    }
    // the piece that is wrong
    match kind {
        1 | 3 => check(m.contains(&t), "the message does not show what is wrong"),
        2 => {
            let mut n = String::from("1");
            n.push_str(&t);
            check(m.contains(&n), "the message does not show the number");
        }
        6 => {
            let mut q = String::from("'");
            q.push(t.chars().next().unwrap_or('a'));
            q.push('\'');
            check(m.contains(&q), "the message does not show the character");
        }
        _ => {}
    }
    reach(0);
}

/// Bytes that are not UTF-8.
#[no_mangle]
pub extern "C" fn h_c23_bytes() {
    warm();
    let before = BEFORE[pick(4)];
    let line = 1 + before.matches('\n').count();
    let mut s = before.as_bytes().to_vec();
    s.extend_from_slice(["# ", "msgid \"a", "#: "][pick(3)].as_bytes());
    let b = bytes("raw", param(0));
    assume(std::str::from_utf8(&b).is_err());
    for c in &b {
        assume(*c != b'\n');
    }
    s.extend_from_slice(&b);
    s.extend_from_slice(b"\"\n");
    match place(&both(&s)) {
        Some((l, _)) => check(l == line, "the error names another line"),
        None => fail("the error names no line"),
    }
    reach(0);
}

/// The column of a quote inside a string: text p0 (alphabet p1) before it.
#[no_mangle]
pub extern "C" fn h_c23_quote() {
    warm();
    let t = text_of(param(1), "text", param(0));
    let mut escaped = false;
    for c in t.chars() {
        assume(c != '\n' && c != '\r');
        assume(c != '"' || escaped);
        escaped = c == '\\' && !escaped;
    }
    assume(!escaped);
    let (before, start) = [
        ("", "msgid "),
        ("", "msgctxt "),
        ("msgid \"a\"\n", "msgstr "),
        ("msgid \"a\"\n", "msgid_plural "),
        ("msgid \"a\"\nmsgid_plural \"b\"\n", "msgstr[0] "),
        ("msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"é\"\n", "msgstr[12] "),
        ("msgid \"a\"\n", ""),
        ("", "#| msgid "),
        ("", "#| msgid_plural "),
        ("#| msgctxt \"a\"\n", "#| "),
        ("", "#~ msgid "),
        ("#~ msgid \"a\"\n", "#~ msgstr "),
        ("#~ msgid \"a\"\n", "#~ "),
        ("#~ msgid \"a\"\n#~ msgid_plural \"b\"\n", "#~ msgstr[1] "),
        ("", "msgid   "),
        ("", "  msgid "),
        ("msgid \"a\"\n", "\tmsgstr\t"),
        ("msgid \"a\"\n", "   "),
    ][pick(18)];
    let mut s = String::from(before);
    s.push_str(start);
    s.push('"');
    s.push_str(&t);
    s.push_str(["\"b\"", "\"\"", "\"é\" "][pick(3)]);
    s.push('\n');
    let column = start.len() + 1 + t.chars().count() + 1;
    let line = 1 + before.matches('\n').count();
    match both(s.as_bytes()) {
        SyntaxError::UnescapedDoubleQuoteFound { line: l, index, .. } => {
            check(l == line, "the error names another line");
            check(index == column, "the error names another column");
        }
        _ => fail("another error"),
    }
    reach(0);
}

/// Errors of unescaping: any text of p0 bytes.
#[no_mangle]
pub extern "C" fn h_c23_escape() {
    warm();
    let t = text_of(param(1), "text", param(0));
    let mut wrong = None;
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some(c) if "\\\"btnvrf".contains(c) => {}
                other => {
                    wrong = Some(other);
                    break;
                }
            }
        }
    }
    match (unescape(&t), wrong) {
        (Ok(_), None) => reach(1),
        (Err(e), Some(wrong)) => {
            let m = e.to_string();
            match (&e, wrong) {
                (EscapingError::EscapeAtEndOfString { .. }, None) => reach(2),
                (EscapingError::InvalidEscapedCharacter { character, .. }, Some(c)) => {
                    check(*character == c, "the error names another character");
                    check(m.contains(c), "the message does not show the character");
                    reach(3);
                }
                _ => fail("the error is of another kind"),
            }
            emit(m.as_bytes());
        }
        _ => fail("an error from nowhere or none"),
    }
    reach(0);
}

/// The numbers of MO errors, any bytes; the message for some of them.
#[no_mangle]
pub extern "C" fn h_c23_mo() {
    warm();
    let b = bytes("number", 4);
    let mut four = [0; 4];
    four.copy_from_slice(&b);
    let magic = rspolib::MAGIC.to_le_bytes();
    let mut swapped = magic;
    swapped.reverse();
    if flip() {
        assume(four != magic && four != swapped);
        let mut image = b.clone();
        image.extend_from_slice(&[0; 28]);
        match rspolib::mofile(image) {
            Err(IOError::IncorrectMagicNumber { magic_number_le, magic_number_be }) => {
                check(magic_number_le == u32::from_le_bytes(four), "another number read as little endian");
                check(magic_number_be == u32::from_be_bytes(four), "another number read as big endian");
                reach(1);
            }
            Err(_) => fail("another error"),
            Ok(_) => fail("an unknown magic number is accepted"),
        }
    } else {
        let big = flip();
        let version = if big { u32::from_be_bytes(four) } else { u32::from_le_bytes(four) };
        assume(version > 1);
        let mut image = if big { swapped } else { magic }.to_vec();
        image.extend_from_slice(&b);
        image.extend_from_slice(&[0; 28]);
        match rspolib::mofile(image) {
            Err(IOError::UnsupportedMORevisionNumber { version: v }) => {
                check(v == version, "another revision");
                reach(2);
            }
            Err(_) => fail("another error"),
            Ok(_) => fail("an unknown revision is accepted"),
        }
    }
    reach(0);
}

/// The messages of the same errors, one open byte in a number.
#[no_mangle]
pub extern "C" fn h_c23_mo_text() {
    warm();
    let c = concrete(byte("number") as usize) as u8;
    let mut four = [0, 0, 0, 0];
    four[pick(4)] = c;
    if flip() {
        let mut image = four.to_vec();
        image.extend_from_slice(&[0; 28]);
        match rspolib::mofile(image) {
            Err(e) => {
                let m = e.to_string();
                check(tells(&m, u32::from_le_bytes(four) as usize), "the message does not show the number read as little endian");
                check(tells(&m, u32::from_be_bytes(four) as usize), "the message does not show the number read as big endian");
                emit(m.as_bytes());
                reach(1);
            }
            Ok(_) => fail("an unknown magic number is accepted"),
        }
    } else {
        let version = u32::from_le_bytes(four);
        assume(version > 1);
        let mut image = rspolib::MAGIC.to_le_bytes().to_vec();
        image.extend_from_slice(&four);
        image.extend_from_slice(&[0; 28]);
        match rspolib::mofile(image) {
            Err(e) => {
                let m = e.to_string();
                check(tells(&m, version as usize), "the message does not show the revision");
                emit(m.as_bytes());
                reach(2);
            }
            Ok(_) => fail("an unknown revision is accepted"),
        }
    }
    reach(0);
}
