//! Arbitrary content given to the PO parser.

use crate::sym::*;
use rspolib::POFile;

fn done(r: Result<POFile, rspolib::errors::SyntaxError>) {
    match r {
        Ok(f) => {
            reach(0);
            for e in &f.entries {
                emit(e.msgid.as_bytes());
                emit(e.msgstr.as_deref().unwrap_or("-").as_bytes());
            }
        }
        Err(e) => {
            reach(1);
            let m = e.to_string();
            check(!m.is_empty(), "an error without description");
            emit(m.as_bytes());
        }
    }
}

const STARTS: [&str; 24] = [
    "",
    "msgid ",
    "msgstr ",
    "msgctxt ",
    "msgid_plural ",
    "msgstr[",
    "msgstr[0]",
    "#| ",
    "#| msgid ",
    "#| msgctxt",
    "#| msgid_plural \"",
    "#~ ",
    "#~ msgid ",
    "#~|",
    "#,",
    "#:",
    "#.",
    "#",
    "\"",
    "\u{feff}",
    "msgid \"",
    "#~ #| ",
    "#~ \"",
    "#: a:",
];

const BEFORE: [&str; 4] = [
    "",
    "msgid \"\"\nmsgstr \"A: b\\n\"\n\n",
    "msgid \"a\"\n",
    "# c\nmsgctxt \"c\"\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\n",
];

/// Content of p0 open bytes, as text (p1 = 0) or as bytes.
#[no_mangle]
pub extern "C" fn h_c06_any() {
    warm();
    if param(1) == 0 {
        let t = text_upto("text", param(0));
        done(rspolib::pofile(t.as_str()));
    } else {
        let n = pick(param(0) + 1);
        let b = bytes("data", n);
        done(rspolib::pofile(b));
    }
}

/// The start of some line, p0 open bytes and the rest of content, after p1.
#[no_mangle]
pub extern "C" fn h_c06_line() {
    warm();
    let mut b = BEFORE[param(1)].as_bytes().to_vec();
    b.extend_from_slice(STARTS[pick(STARTS.len())].as_bytes());
    let n = param(0);
    b.extend_from_slice(&bytes("data", n));
    match pick(3) {
        0 => {}
        1 => b.extend_from_slice(b"\n\"more\"\nmsgstr \"z\"\n"),
        _ => b.extend_from_slice(b"\"\nmsgstr \"z\"\n"),
    }
    done(rspolib::pofile(b));
}

/// A quoted string with p0 open bytes in it, in some line of an entry.
#[no_mangle]
pub extern "C" fn h_c06_quoted() {
    warm();
    const K: [&str; 10] = [
        "msgid ", "msgid \"m\"\nmsgstr ", "msgctxt ", "msgid \"m\"\nmsgid_plural ", "msgid \"m\"\nmsgstr[1] ", "#| msgid ",
        "#| msgctxt ", "#| msgid_plural ", "#~ msgid ", "msgid \"m\"\nmsgstr \"\"\n",
    ];
    let mut b = K[pick(K.len())].as_bytes().to_vec();
    b.push(b'"');
    b.extend_from_slice(&bytes("data", param(0)));
    b.extend_from_slice(b"\"\n");
    if flip() {
        b.extend_from_slice(b"msgid \"n\"\nmsgstr \"o\"\n");
    }
    done(rspolib::pofile(b));
}

/// `@` stands for an open byte.
pub const LINES: [&str; 25] = [
    "",
    "# @",
    "#",
    "##@",
    "#. @",
    "#.",
    "#: f:@ g",
    "#, fuzzy,@ x",
    "#| msgctxt \"@\"",
    "#| msgid \"@\"",
    "#| msgid_plural \"@\"",
    "#| \"@\"",
    "#|",
    "#~ msgid \"@\"",
    "#~ msgstr \"@\"",
    "#~| msgid \"@\"",
    "#~ \"@\"",
    "#~",
    "msgctxt \"@\"",
    "msgid \"@\"",
    "msgid_plural \"@\"",
    "msgstr \"@\"",
    "msgstr[@] \"z\"",
    "msgstr[2] \"@\"",
    "\"@\"",
];

/// p0 lines of any kinds in any order; their open bytes are any byte (p1 = 0)
/// or letters and digits.
#[no_mangle]
pub extern "C" fn h_c06_lines() {
    warm();
    let mut b: Vec<u8> = Vec::new();
    for i in 0..param(0) {
        for c in LINES[pick(LINES.len())].bytes() {
            if c == b'@' {
                let x = byte(["b0", "b1", "b2", "b3", "b4", "b5"][i]);
                if param(1) == 1 {
                    assume(x.is_ascii_alphanumeric());
                }
                b.push(x);
            } else {
                b.push(c);
            }
        }
        b.push(b'\n');
    }
    done(rspolib::pofile(b));
}

/// The number of a plural form: up to p0 open digits, alone or after many
/// fixed ones.
#[no_mangle]
pub extern "C" fn h_c06_index() {
    warm();
    let n = pick(param(0) + 1);
    let mut b = b"msgid \"i\"\nmsgid_plural \"l\"\nmsgstr[".to_vec();
    let d = bytes("data", n);
    for c in &d {
        assume(c.is_ascii_digit() || *c == b'+');
    }
    b.extend_from_slice([&b""[..], b"1844674407370955", b"99999999999999999999"][pick(3)]);
    b.extend_from_slice(&d);
    b.extend_from_slice(b"] \"x\"\n");
    if flip() {
        b.extend_from_slice(b"msgstr[1] \"y\"\n");
    }
    done(rspolib::pofile(b));
}

/// A long line of some kind with p0 open bytes at its end or in its middle.
#[no_mangle]
pub extern "C" fn h_c06_long() {
    warm();
    let mut b = BEFORE[pick(4)].as_bytes().to_vec();
    b.extend_from_slice(STARTS[pick(STARTS.len())].as_bytes());
    let l = rspolib::escaping::escape(&crate::util::long([0, 2, 3][pick(3)], 130)).into_owned();
    b.extend_from_slice(l.as_bytes());
    b.extend_from_slice(&bytes("data", param(0)));
    if flip() {
        b.extend_from_slice(l.as_bytes());
    }
    b.extend_from_slice([&b""[..], b"\"\nmsgstr \"z\"\n"][pick(2)]);
    done(rspolib::pofile(b));
}
