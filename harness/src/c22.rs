//! The lines on which entries begin.

use crate::c07::Gen;
use crate::sym::*;
use crate::util::parse;

/// Arguments as for h_c07.
#[no_mangle]
pub extern "C" fn h_c22() {
    warm();
    let mut g = Gen::new(param(4), param(2), param(6));
    g.numbered = true;
    if param(5) == 1 {
        g.metadata();
    }
    for _ in 0..param(0) {
        g.entry(param(1), param(3));
    }
    g.verify();
}

/// Other line ends and whitespace at the ends of lines.
#[no_mangle]
pub extern "C" fn h_c22_space() {
    warm();
    let mut g = Gen::new(1, param(2), 0);
    g.numbered = true;
    g.eol = [" \n", "\r\n", "\t\n"][pick(3)];
    if flip() {
        g.metadata();
    }
    g.entry(param(1), 1);
    g.entry(0, 0);
    g.verify();
}

/// p0 and up to 5 more lines of seven kinds before or inside of entries.
#[no_mangle]
pub extern "C" fn h_c22_far() {
    warm();
    let mut t = String::new();
    if flip() {
        t.push_str("# header\nmsgid \"\"\nmsgstr \"\"\n\"A: b\\n\"\n");
    }
    let n = param(0) + pick(6);
    let kind = pick(7);
    let mut starts = Vec::new();
    let line = |t: &String| 1 + t.bytes().filter(|c| *c == b'\n').count();
    let c = byte_in("letter", b'a', b'z') as char;
    for i in 0..3 {
        if kind == 0 {
            for _ in 0..n {
                t.push('\n');
            }
        }
        if kind == 6 {
            for _ in 0..n {
                t.push_str("#~| msgid \"before\"\n");
            }
        }
        starts.push(line(&t));
        match kind {
            1 => {
                for _ in 0..n {
                    t.push_str("#. note\n");
                }
            }
            2 => {
                t.push_str("#| msgid \"\"\n");
                for _ in 0..n {
                    t.push_str("#| \"old\"\n");
                }
            }
            _ => {}
        }
        let pre = if i == 1 && kind > 2 { "#~ " } else { "" };
        t.push_str(pre);
        t.push_str("msgid \"");
        t.push(c);
        t.push_str(["0\"\n", "1\"\n", "2\"\n"][i]);
        if kind == 3 {
            for _ in 0..n {
                t.push_str(pre);
                t.push_str("\"more\"\n");
            }
        }
        t.push_str(pre);
        t.push_str("msgstr \"\"\n");
        if kind == 4 {
            for _ in 0..n {
                t.push_str(pre);
                t.push_str("\"more\"\n");
            }
        }
        if kind == 5 {
            for _ in 0..n {
                t.push_str(" \t\n");
            }
        }
    }
    let po = parse(&t);
    check(po.entries.len() == 3, "number of entries differs");
    for (e, s) in po.entries.iter().zip(starts) {
        check(e.linenum == s, "an entry begins on another line");
    }
    emit(t.as_bytes());
    reach(0);
}

/// Up to p0 entries of eight shapes, with up to one blank line around them.
#[no_mangle]
pub extern "C" fn h_c22_shapes() {
    warm();
    let mut t = String::from("msgid \"\"\nmsgstr \"A: b\\n\"\n\n");
    let line = |t: &String| 1 + t.bytes().filter(|c| *c == b'\n').count();
    let mut starts = Vec::new();
    for i in 0..param(0) {
        starts.push(line(&t));
        t.push_str(&crate::c05::shaped(i, pick(8)).to_string());
        if flip() {
            t.push('\n');
        }
    }
    let po = parse(&t);
    check(po.entries.len() == starts.len(), "number of entries differs");
    for (e, s) in po.entries.iter().zip(starts) {
        check(e.linenum == s, "an entry begins on another line");
    }
    emit(t.as_bytes());
    reach(0);
}

/// A line of any of 12 kinds with up to p0 open bytes of ASCII before its end,
/// and what follows it: an entry (line) or a malformed line (error).
#[no_mangle]
pub extern "C" fn h_c22_ends() {
    warm();
    let t = ascii_upto("text", param(0));
    for c in t.bytes() {
        assume(c != b'\n' && c != b'\r' && c != b'"' && c != b'\\');
    }
    let mut s = String::from("msgid \"\"\nmsgstr \"A: b\\n\"\n\n");
    let (a, b, inside) = [
        ("# ", "\n", false),
        ("#. ", "\n", false),
        ("#: a.c", "\n", false),
        ("#, fuzzy", "\n", false),
        ("#| msgid \"", "\"\n", false),
        ("#~| msgid \"", "\"\n", false),
        ("msgctxt \"", "\"\n", false),
        ("msgid \"i", "\"\nmsgstr \"x\"\n", true),
        ("msgid \"i\"\nmsgstr \"", "\"\n", true),
        ("msgid \"i\"\nmsgstr \"x\"\n\"", "\"\n", true),
        ("msgid \"i\"\nmsgid_plural \"", "\"\nmsgstr[0] \"x\"\n", true),
        ("#~ msgid \"i\"\n#~ msgstr \"", "\"\n", true),
    ][pick(12)];
    s.push_str(a);
    s.push_str(&t);
    s.push_str(b);
    let line = |t: &String| 1 + t.bytes().filter(|c| *c == b'\n').count();
    let n = line(&s);
    if flip() {
        s.push_str("msgid \"k\"\nmsgstr \"y\"\n");
        let start = line(&s);
        s.push_str("msgid \"l\"\nmsgstr \"y\"\n");
        let po = parse(&s);
        check(po.entries.len() == if inside { 3 } else { 2 }, "number of entries differs");
        let mut last = po.entries.iter().rev();
        let (l, k) = (last.next().unwrap(), last.next().unwrap());
        check(l.linenum == start, "an entry begins on another line");
        if inside {
            check(k.linenum == n, "an entry begins on another line");
        } else {
            check(k.linenum <= n && n - k.linenum < 2, "an entry begins on another line");
        }
        reach(0);
    } else {
        s.push_str("msgid \"k\nmsgstr \"y\"\n");
        match rspolib::pofile(s.as_str()) {
            Ok(_) => fail("a malformed line is accepted"),
            Err(e) => match crate::c08::line_of(&e) {
                Some(l) => check(l == n, "the error names another line"),
                None => fail("the error names no line"),
            },
        }
        reach(1);
    }
    emit(s.as_bytes());
}
