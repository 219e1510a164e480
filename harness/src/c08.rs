//! A malformed line after well-formed ones.

use crate::c07::Gen;
use crate::sym::*;
use rspolib::errors::SyntaxError;
use rspolib::POEntry;

#[derive(Clone, Copy, PartialEq)]
enum At {
    Start,
    Header,
    Comment,
    Generated,
    Reference,
    Flags,
    Previous,
    Context,
    Message,
    Plural,
    Done,
    DonePlural,
}

/// Lines that bring the parser to some point of an entry.
fn prefix(g: &mut Gen) -> At {
    if param(2) == 1 {
        if flip() {
            g.line(&["# header"]);
            g.line(&[""]);
            g.metadata();
            return At::Done;
        }
        return At::Start;
    }
    let whole = pick(param(0) + 1);
    if whole > 0 && flip() {
        g.line(&["# header"]);
    }
    for i in 0..whole {
        if i == 0 && flip() {
            g.metadata();
        } else {
            let mut e = POEntry::new(0);
            if flip() {
                g.comment(&mut e);
            }
            let s = g.word();
            g.line(&["msgid \"", &s, "\""]);
            if flip() {
                g.line(&["msgstr \"y\""]);
            } else {
                g.line(&["msgid_plural \"\""]);
                g.line(&["\"many\""]);
                g.line(&["msgstr[0] \"y\""]);
            }
        }
    }
    if whole == 0 {
        return match pick(2) {
            0 => At::Start,
            _ => {
                g.line(&["# header"]);
                At::Header
            }
        };
    }
    let w = g.word();
    match pick(10) {
        0 => {
            g.line(&["msgid \"", &w, "\""]);
            g.line(&["msgstr \"y\""]);
            At::Done
        }
        1 => {
            g.line(&["msgid \"", &w, "\""]);
            g.line(&["msgid_plural \"s\""]);
            g.line(&["msgstr[0] \"y\""]);
            At::DonePlural
        }
        2 => {
            g.line(&["# ", &w]);
            At::Comment
        }
        3 => {
            g.line(&["#. ", &w]);
            At::Generated
        }
        4 => {
            g.line(&["#: ", &w, ":1"]);
            At::Reference
        }
        5 => {
            g.line(&["#, ", &w]);
            At::Flags
        }
        6 => {
            g.line(&["#| ", ["msgid", "msgctxt", "msgid_plural"][pick(3)], " \"", &w, "\""]);
            At::Previous
        }
        7 => {
            g.line(&["msgctxt \"", &w, "\""]);
            At::Context
        }
        8 => {
            g.line(&["msgid \"", &w, "\""]);
            At::Message
        }
        _ => {
            g.line(&["msgid \"", &w, "\""]);
            g.line(&["msgid_plural \"s\""]);
            At::Plural
        }
    }
}

/// the line of an error that has one
pub fn line_of(e: &SyntaxError) -> Option<usize> {
    match e {
        SyntaxError::Generic { line, .. } => Some(*line),
        SyntaxError::Custom { line, .. } => Some(*line),
        SyntaxError::UnescapedDoubleQuoteFound { line, .. } => Some(*line),
        _ => None,
    }
}

fn verify(mut g: Gen, bad: Vec<u8>, lined: bool) {
    let line = 1 + g.text.bytes().filter(|c| *c == b'\n').count();
    let mut b = std::mem::take(&mut g.text).into_bytes();
    b.extend_from_slice(&bad);
    b.push(b'\n');
    if flip() {
        b.extend_from_slice(b"\nmsgid \"later\"\nmsgstr \"z\"\n");
    }
    match rspolib::pofile(b) {
        Ok(_) => fail("a malformed line is accepted"),
        Err(e) => {
            match line_of(&e) {
                Some(l) => {
                    check(l == line, "the error names another line");
                    reach(1);
                }
                None => check(!lined, "the error names no line"),
            }
            emit(e.to_string().as_bytes());
        }
    }
    reach(0);
}

/// Lines out of place.
#[no_mangle]
pub extern "C" fn h_c08_order() {
    use At::*;
    warm();
    let mut g = Gen::new(param(1), 0, 0);
    let at = prefix(&mut g);
    let w = g.word();
    let (ok, word): (&[At], &str) = match pick(7) {
        0 => (&[Message, Plural, Comment], "msgstr "),
        1 => (&[Message, Plural, DonePlural, Comment], "msgstr[0] "),
        2 => (&[Message, Comment, Generated, Previous], "msgid_plural "),
        3 => (&[Context, Message, Plural, Done, DonePlural, Previous], ""),
        4 => (&[Start, Header, Comment, Generated, Reference, Flags, Previous, Done, DonePlural], "msgctxt "),
        5 => (&[Previous], "#| "),
        _ => (&[Start, Header, Comment, Generated, Reference, Flags, Previous, Done, DonePlural, Context], "msgid "),
    };
    assume(!ok.contains(&at));
    let mut bad = word.as_bytes().to_vec();
    bad.push(b'"');
    bad.extend_from_slice(w.as_bytes());
    bad.push(b'"');
    if word != "#| " && flip() {
        let mut o = b"#~ ".to_vec();
        o.extend_from_slice(&bad);
        bad = o;
    }
    verify(g, bad, true);
}

/// A line that begins with no known word: one byte of a known word replaced
/// by another letter, added or dropped. p3 = 1: after the mark of previous
/// texts.
#[no_mangle]
pub extern "C" fn h_c08_word() {
    warm();
    let mut g = Gen::new(param(1), 0, 0);
    prefix(&mut g);
    let known = ["msgid", "msgstr", "msgctxt", "msgid_plural"];
    let mut w = known[pick(4)].as_bytes().to_vec();
    let i = pick(w.len() + 1);
    let c = byte("other");
    assume(c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80 || c == b'%' || c == b'.');
    match pick(3) {
        0 => {
            if i < w.len() {
                w[i] = c;
            }
        }
        1 => w.insert(i, c),
        _ => {
            if i < w.len() {
                w.remove(i);
            }
        }
    }
    let start = if param(3) == 1 { 2 } else { pick(2) };
    for k in known {
        // there are no previous translations
        assume(w != k.as_bytes() || (start == 2 && k == "msgstr"));
    }
    let mut bad = ["", "#~ ", "#| "][start].as_bytes().to_vec();
    bad.extend_from_slice(&w);
    bad.extend_from_slice(b" \"x\"");
    verify(g, bad, true);
}

/// A string that is not quoted as it has to be.
#[no_mangle]
pub extern "C" fn h_c08_quotes() {
    warm();
    let mut g = Gen::new(param(1), 0, 0);
    let at = prefix(&mut g);
    let c = byte_in("inside", b' ', b'~');
    assume(c != b'"' && c != b'\\' && c != b' ');
    let start = match pick(7) {
        0 => "msgid ",
        1 => {
            assume(at == At::Message);
            "msgstr "
        }
        2 => "msgctxt ",
        3 => {
            assume(at == At::Plural);
            "msgstr[0] "
        }
        4 => "#| msgid ",
        5 => "#| msgctxt ",
        _ => {
            assume(at == At::Message || at == At::Done);
            ""
        }
    };
    let mut bad = start.as_bytes().to_vec();
    let how = pick(6);
    // a string without any quote is no continuation line
    assume(!(start.is_empty() && (how == 0 || how == 2)));
    match how {
        0 => bad.push(c),
        1 => bad.extend_from_slice(&[b'"', c]),
        2 => bad.extend_from_slice(&[c, b'"']),
        3 => bad.extend_from_slice(&[b'"', c, b'"', b'b', b'"']),
        4 => bad.extend_from_slice(&[b'"', b'a', b'"', b'"', c, b'"']),
        _ => bad.extend_from_slice(&[b'"', b'\\', b'\\', b'"', c, b'"']),
    }
    verify(g, bad, true);
}

/// Other malformed lines, each with an open byte.
#[no_mangle]
pub extern "C" fn h_c08_other() {
    warm();
    let mut g = Gen::new(param(1), 0, 0);
    prefix(&mut g);
    let mut bad = Vec::new();
    let mut lined = true;
    match pick(7) {
        0 => {
            // the number of a plural form
            let c = byte("other");
            assume(!c.is_ascii_digit() && c != b'\n' && c != b'\r' && c < 0x80);
            assume(c != b']' && c != b'+');
            bad.extend_from_slice(b"msgstr[");
            bad.push(c);
            bad.extend_from_slice(b"] \"x\"");
        }
        1 => bad.extend_from_slice(b"msgstr[] \"x\""),
        2 => bad.extend_from_slice(b"#|"),
        3 => {
            bad.extend_from_slice(b"#| ");
            bad.extend_from_slice(g.word().as_bytes());
            bad.extend_from_slice(b"sgid_plurals \"x\"");
        }
        4 => {
            // not UTF-8
            let c = byte("other");
            assume(c >= 0x80);
            bad.extend_from_slice(["# ", "msgid \"a", "#: "][pick(3)].as_bytes());
            bad.push(c);
            bad.extend_from_slice(b"\"");
        }
        5 => {
            // unknown escape, found when the entry is complete
            let c = byte_in("other", b' ', b'~');
            assume(!b"\\\"abtnvrf".contains(&c));
            bad.extend_from_slice(b"msgid \"a\\");
            bad.push(c);
            bad.extend_from_slice(b"\"");
            bad.extend_from_slice(b"\nmsgstr \"y\"");
            lined = false;
        }
        _ => {
            // a marker that is none
            let c = byte_in("other", b'!', b'~');
            assume(!b"#,.:|~".contains(&c));
            bad.push(b'#');
            bad.push(c);
            bad.extend_from_slice(b" x");
        }
    }
    verify(g, bad, lined);
}

/// A malformed line after p0 and up to 5 more lines.
#[no_mangle]
pub extern "C" fn h_c08_far() {
    warm();
    let mut g = Gen::new(0, 0, 0);
    let kind = pick(6);
    let n = param(0) + pick(6);
    match kind {
        0 => g.line(&["msgid \"\""]),
        1 => g.line(&["#~ msgid \"old\""]),
        _ => {}
    }
    for i in 0..n {
        match kind {
            0 => g.line(&["\"more \""]),
            1 => g.line(&["#~ \"more \""]),
            2 => g.line(&[""]),
            3 => g.line(&["#. note"]),
            5 => g.line(&["#~| msgid \"before\""]),
            _ => g.line(&[["msgid \"a\"", "msgstr \"b\"", ""][i % 3]]),
        }
    }
    match kind {
        0 => g.line(&["msgstr \"\""]),
        1 => g.line(&["#~ msgstr \"\""]),
        4 if n % 3 == 1 => g.line(&["msgstr \"b\""]),
        _ => {}
    }
    let mut bad = Vec::new();
    match pick(4) {
        0 => {
            bad.extend_from_slice(g.word().as_bytes());
            bad.extend_from_slice(b"sgids \"x\"");
        }
        1 => {
            bad.extend_from_slice(b"msgid \"");
            bad.extend_from_slice(g.word().as_bytes());
        }
        2 => bad.extend_from_slice(b"#| msgstr[0] \"x\""),
        _ => {
            assume(kind != 4 || n == 0);
            assume(kind > 1);
            bad.extend_from_slice(b"msgstr \"x\"");
        }
    }
    verify(g, bad, true);
}

/// An entry and perhaps a malformed line after p0 and up to 3 more lines.
#[no_mangle]
pub extern "C" fn h_c08_very_far() {
    warm();
    let n = param(0) + pick(4);
    let mut b = vec![b'\n'; n];
    b.extend_from_slice(b"msgid \"");
    b.push(byte_in("letter", b'a', b'z'));
    b.extend_from_slice(b"\"\nmsgstr \"x\"\n");
    let bad = flip();
    if bad {
        b.extend_from_slice(b"msgstr[");
        b.push(byte_in("index", b'a', b'z'));
        b.extend_from_slice(b"] \"x\"\n");
    }
    match rspolib::pofile(b) {
        Ok(po) => {
            check(!bad, "a malformed line is accepted");
            check(po.entries.len() == 1 && po.entries[0].linenum == n + 1, "the entry begins on another line");
            reach(0);
        }
        Err(e) => {
            check(bad && line_of(&e) == Some(n + 3), "the error names another line");
            emit(e.to_string().as_bytes());
            reach(1);
        }
    }
}
