//! Escaping and unescaping.

use crate::sym::*;
use rspolib::escaping::{escape, unescape};

/// Texts in which the open part is embedded.
fn context(kind: usize) -> (&'static str, &'static str) {
    match kind {
        0 => ("", ""),
        1 => ("plain ", " text"),
        2 => ("a\"b\\c\n", "\t\\"),
        3 => ("héllo wörld 中文字符 🎉 ", "é"),
        _ => ("0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 ", " 0123456789"),
    }
}

fn both_ways(s: &str) {
    let e = escape(s);
    let mut escaped = false;
    for c in e.chars() {
        check(c != '\n' && c != '\r' && c != '\t', "raw control character in escaped text");
        check(c != '"' || escaped, "unescaped double quote in escaped text");
        escaped = c == '\\' && !escaped;
    }
    check(!escaped, "escaped text ends inside an escape");
    match unescape(&e) {
        Ok(u) => check(u.as_ref() == s, "unescaped text differs"),
        Err(_) => fail("escaped text is rejected"),
    }
    emit(e.as_bytes());
    reach(0);
}

#[no_mangle]
pub extern "C" fn h_c01() {
    let (pre, post) = context(param(1));
    let t = text_upto("text", param(0));
    let mut s = String::from(pre);
    s.push_str(&t);
    s.push_str(post);

    both_ways(&s);
}

/// What a single pair stands for, one of two characters.
fn meaning(pair: &str, a: char, b: char) -> char {
    let c = unescape(pair).ok().and_then(|t| t.chars().next());
    check(c == Some(a) || c == Some(b), "a valid escape is rejected or replaced by another character");
    c.unwrap_or(a)
}

/// What a text with backslash pairs denotes, None if it is not valid.
pub fn denoted(s: &str) -> Option<String> {
    // see h_c02_letter
    let v = meaning("\\v", '\u{b}', '\u{11}');
    let f = meaning("\\f", '\u{c}', '\u{12}');
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        let d = it.next()?;
        let r = match d {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            'b' => '\u{8}',
            'v' => v,
            'f' => f,
            '"' => '"',
            '\\' => '\\',
            _ => return None,
        };
        out.push(r);
    }
    Some(out)
}

#[no_mangle]
pub extern "C" fn h_c02() {
    let (pre, post) = match param(1) {
        0 => ("", ""),
        1 => ("a\\n", "\\tb"),
        2 => ("\\\\é", "中"),
        _ => ("0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 ", "\\\""),
    };
    let t = text_upto("text", param(0));
    let mut s = String::from(pre);
    s.push_str(&t);
    s.push_str(post);

    meant(&s);
}

fn meant(s: &str) {
    let expected = denoted(s);
    match unescape(s) {
        Ok(u) => {
            reach(0);
            check(expected.is_some(), "invalid escape is accepted");
            check(expected.as_deref() == Some(u.as_ref()), "unescaped text differs");
            emit(u.as_bytes());
        }
        Err(_) => {
            reach(1);
            check(expected.is_none(), "valid text is rejected");
            emit(b"error");
        }
    }
}

/// Each of the escapes denotes the character it denotes in C.
#[no_mangle]
pub extern "C" fn h_c02_letter() {
    let (letter, c) =
        [('n', 10), ('r', 13), ('t', 9), ('b', 8), ('"', 34), ('\\', 92), ('v', 11), ('f', 12)][pick(8)];
    let mut s = text_upto("text", param(0));
    assume(!s.contains('\\'));
    let n = s.len();
    s.push('\\');
    s.push(letter);
    match unescape(&s) {
        Ok(u) => check(u.as_bytes()[n..] == [c], "an escape denotes another character"),
        Err(_) => fail("a valid escape is rejected"),
    }
    reach(0);
}

/// Long texts of several kinds with up to p0 open bytes, p1 bytes in all.
#[no_mangle]
pub extern "C" fn h_c01_long() {
    let t = text_upto("text", param(0));
    both_ways(&crate::util::long_with(pick(6), param(1), &t));
}

/// The same for escaped texts.
#[no_mangle]
pub extern "C" fn h_c02_long() {
    let t = text_upto("text", param(0));
    let kind = pick(6);
    let place = pick(3);
    let l = escape(&crate::util::long(kind, param(1) / 2)).into_owned();
    let mut s = String::new();
    if place > 0 {
        s.push_str(&l);
    }
    s.push_str(&t);
    if place < 2 {
        s.push_str(&l);
    }
    meant(&s);
}
