//! Written PO text read by a strict reader that knows only the PO layout.

use crate::c03::{entry_with, put, WIDTHS};
use crate::c05::shaped;
use crate::sym::*;
use crate::util::*;
use rspolib::{MOEntry, MOFile, POEntry, POFile};

/// The text of quoted pieces: escapes replaced, no raw quote, tab or line end.
fn unquote(piece: &str, to: &mut String) {
    check(piece.len() >= 2 && piece.starts_with('"') && piece.ends_with('"'), "a string is not between quotes");
    let mut it = piece[1..piece.len() - 1].chars();
    while let Some(c) = it.next() {
        check(c != '"' && c != '\t' && c != '\r', "a raw character that must be escaped");
        if c != '\\' {
            to.push(c);
            continue;
        }
        to.push(match it.next() {
            Some('n') => '\n',
            Some('t') => '\t',
            Some('r') => '\r',
            Some('b') => '\u{8}',
            Some('"') => '"',
            Some('\\') => '\\',
            _ => fail("an escape that is not known or cut"),
        });
    }
}

#[derive(Clone, Copy, PartialEq, PartialOrd)]
enum Stage {
    Note,
    Extracted,
    Places,
    Flags,
    PrevContext,
    PrevMessage,
    PrevPlural,
    Context,
    Message,
    Plural,
    Text,
    Forms,
}

fn add_line(to: &mut Option<String>, line: &str) {
    match to {
        Some(s) => {
            s.push('\n');
            s.push_str(line);
        }
        None => *to = Some(line.to_string()),
    }
}

/// Reads the lines of one entry.
fn block(lines: &str) -> POEntry {
    use Stage::*;
    let mut e = POEntry::new(0);
    let mut at = Note;
    let mut begun = false;
    for line in lines.split('\n') {
        let mut rest = line;
        let mut marked = false;
        let mut previous = false;
        if let Some(r) = line.strip_prefix("#~| ") {
            (rest, marked, previous) = (r, true, true);
        } else if let Some(r) = line.strip_prefix("#~ ") {
            (rest, marked) = (r, true);
        } else if let Some(r) = line.strip_prefix("#| ") {
            (rest, previous) = (r, true);
        } else if line.starts_with('#') {
            check(!begun, "a comment line among strings");
            let (stage, r) = if let Some(r) = line.strip_prefix("#. ") {
                (Extracted, r)
            } else if let Some(r) = line.strip_prefix("#: ") {
                (Places, r)
            } else if let Some(r) = line.strip_prefix("#, ") {
                (Flags, r)
            } else if line == "#" {
                (Note, "")
            } else {
                check(line.starts_with("# "), "a comment line of no known kind");
                (Note, &line[2..])
            };
            check(at <= stage, "comment lines out of order");
            at = stage;
            match stage {
                Note => add_line(&mut e.tcomment, r),
                Extracted => add_line(&mut e.comment, r),
                Flags => {
                    for f in r.split(", ") {
                        e.flags.push(f.to_string());
                    }
                }
                _ => {
                    for p in r.split(' ') {
                        e.occurrences.push(match p.split_once(':') {
                            Some((f, l)) => (f.to_string(), l.to_string()),
                            None => (p.to_string(), String::new()),
                        });
                    }
                }
            }
            continue;
        }
        if rest.starts_with('"') {
            check(begun && previous == (at < Context), "a continuation of nothing");
        } else {
            let (word, quoted) = match rest.split_once(' ') {
                Some(x) => x,
                None => fail("a line without string"),
            };
            let stage = match (word, previous) {
                ("msgctxt", true) => PrevContext,
                ("msgid", true) => PrevMessage,
                ("msgid_plural", true) => PrevPlural,
                ("msgctxt", false) => Context,
                ("msgid", false) => Message,
                ("msgid_plural", false) => Plural,
                ("msgstr", false) => Text,
                (_, true) => fail("an unknown word"),
                _ => {
                    let n = e.msgstr_plural.len();
                    let mut want = String::from("msgstr[");
                    if n > 9 {
                        want.push((b'0' + (n / 10) as u8) as char);
                    }
                    want.push((b'0' + (n % 10) as u8) as char);
                    want.push(']');
                    check(word == want, "an unknown word or a form with another number");
                    Forms
                }
            };
            check(at < stage || at == Forms && stage == Forms, "strings out of order");
            if stage == Forms {
                check(at == Plural || at == Forms, "forms without plural message");
                e.msgstr_plural.push(String::new());
            }
            at = stage;
            begun = true;
            rest = quoted;
            match stage {
                PrevContext => e.previous_msgctxt = Some(String::new()),
                PrevMessage => e.previous_msgid = Some(String::new()),
                PrevPlural => e.previous_msgid_plural = Some(String::new()),
                Context => e.msgctxt = Some(String::new()),
                Plural => e.msgid_plural = Some(String::new()),
                Text => e.msgstr = Some(String::new()),
                _ => {}
            }
            if stage == Context || stage == Message && e.msgctxt.is_none() {
                e.obsolete = marked;
            }
        }
        if !previous {
            check(marked == e.obsolete, "a mark of obsolete entries is missing or too many");
        }
        let to = match at {
            PrevContext => e.previous_msgctxt.as_mut(),
            PrevMessage => e.previous_msgid.as_mut(),
            PrevPlural => e.previous_msgid_plural.as_mut(),
            Context => e.msgctxt.as_mut(),
            Message => Some(&mut e.msgid),
            Plural => e.msgid_plural.as_mut(),
            Text => e.msgstr.as_mut(),
            Forms => e.msgstr_plural.last_mut(),
            _ => None,
        };
        match to {
            Some(to) => unquote(rest, to),
            None => fail("a string at no place"),
        }
    }
    check(at == Text || at == Forms, "an entry without translation");
    e
}

/// The entries of a text: the first one is the metadata.
fn strict(text: &str) -> Vec<POEntry> {
    check(text.ends_with('\n'), "the last line has no end");
    text[..text.len() - 1].split("\n\n").map(block).collect()
}

/// U+0011 and U+0012 have escapes that mean something else elsewhere.
fn portable(s: &str) {
    for c in s.chars() {
        assume(c != '\u{11}' && c != '\u{12}');
    }
}

fn same(a: &POEntry, b: &POEntry) {
    check_texts(a, b);
    check(a.flags == b.flags, "flags differ");
    if !a.obsolete {
        check(a.occurrences == b.occurrences, "references differ");
    }
    check(a.previous_msgid == b.previous_msgid, "previous message differs");
    check(a.previous_msgctxt == b.previous_msgctxt, "previous context differs");
    check(a.previous_msgid_plural == b.previous_msgid_plural, "previous plural message differs");
    // lines may have been broken at whitespace
    for (x, y) in [(&a.comment, &b.comment), (&a.tcomment, &b.tcomment)] {
        check(x.is_some() == y.is_some() && squeeze(or_empty(x)) == squeeze(or_empty(y)), "comments differ");
    }
}

pub fn verify(po: &POFile) {
    let text = po.to_string();
    let back = strict(&text);
    check(back.len() == po.entries.len() + 1, "number of entries differs");
    let m = &back[0];
    check(m.msgid.is_empty() && m.msgctxt.is_none() && m.msgid_plural.is_none(), "the metadata does not come first");
    check(or_empty(&m.tcomment) == or_empty(&po.header), "header differs");
    check(m.flags.is_empty() != po.metadata_is_fuzzy, "fuzzy mark of the metadata differs");
    check_metadata(or_empty(&m.msgstr), &po.metadata);
    let mut k = 1;
    for obsolete in [false, true] {
        for e in &po.entries {
            if e.obsolete == obsolete {
                same(e, &back[k]);
                k += 1;
            }
        }
    }
    emit(text.as_bytes());
    reach(0);
}

fn check_metadata(text: &str, metadata: &std::collections::HashMap<String, String>) {
    let mut n = 0;
    for line in text.split('\n') {
        if line.is_empty() {
            continue;
        }
        match line.split_once(": ") {
            Some((k, v)) => check(metadata.get(k).is_some_and(|x| x == v), "metadata differs"),
            None => fail("a metadata line without colon"),
        }
        n += 1;
    }
    check(n == metadata.len(), "metadata is missing");
    check(n == 0 || text.ends_with('\n'), "the last metadata line has no end");
}

fn file(w: usize) -> POFile {
    let mut po = POFile::new(("", w).into());
    po.metadata.insert("Language".to_string(), "es".to_string());
    po
}

/// One open text of up to p0 bytes (alphabet p2) inside text p1 in any string
/// of an entry, obsolete or not, previous ones included.
#[no_mangle]
pub extern "C" fn h_c27_text() {
    warm();
    let w = if param(3) == 1 { [5, 78][pick(2)] } else { WIDTHS[pick(WIDTHS.len())] };
    let t = put(param(1), &text_of(param(2), "text", param(0)));
    portable(&t);
    let field = pick(9);
    if field == 0 {
        assume(!t.is_empty());
    }
    let mut e;
    if field < 6 {
        e = entry_with(field, t);
    } else {
        e = POEntry::from(("id", "x"));
        match field {
            6 => e.previous_msgctxt = Some(t),
            7 => e.previous_msgid = Some(t),
            _ => e.previous_msgid_plural = Some(t),
        }
    }
    e.obsolete = flip();
    let mut po = file(w);
    po.entries.push(e);
    po.entries.push(POEntry::from(("last", "text")));
    verify(&po);
}

/// Up to p0 entries of every shape, in every order.
#[no_mangle]
pub extern "C" fn h_c27_shapes() {
    warm();
    let mut po = POFile::new(("", [10, 78][pick(2)]).into());
    if flip() {
        po = file(po.options.wrapwidth);
        po.header = Some("Title\n\nCopyright".to_string());
    }
    po.metadata_is_fuzzy = flip();
    for i in 0..pick(param(0) + 1) {
        po.entries.push(shaped(i, pick(8)));
    }
    verify(&po);
}

/// Comments, flags and references with up to p0 open bytes (alphabet p1).
#[no_mangle]
pub extern "C" fn h_c27_comments() {
    warm();
    let mut po = file([10, 78][pick(2)]);
    let mut e = POEntry::from(("id", "x"));
    let t = text_of(param(1), "text", param(0));
    assume(!t.is_empty());
    assume(!t.contains('\n'));
    assume(t.trim().len() == t.len());
    e.obsolete = flip();
    match pick(5) {
        0 => e.tcomment = Some(t),
        1 => e.comment = Some(t),
        2 => {
            assume(!t.contains(','));
            e.flags = vec!["fuzzy".to_string(), t, "c-format".to_string()];
        }
        3 => {
            for c in t.chars() {
                assume(c != ':' && !c.is_whitespace());
            }
            e.occurrences = vec![("a.c".to_string(), "1".to_string()), (t, "25".to_string()), ("b".to_string(), "".to_string())];
        }
        _ => po.header = Some(t),
    }
    if flip() {
        e.previous_msgid = Some("was".to_string());
        e.flags.push("more".to_string());
        add_line(&mut e.comment, "and a second line");
    }
    po.entries.push(POEntry::from(("first", "text")));
    po.entries.push(e);
    verify(&po);
}

/// A metadata pair with up to p0 open bytes (alphabet p1) in its value.
#[no_mangle]
pub extern "C" fn h_c27_metadata() {
    warm();
    let mut po = file(78);
    let v = text_of(param(1), "text", param(0));
    portable(&v);
    assume(!v.contains('\n'));
    assume(v.trim().len() == v.len());
    po.metadata.insert(["X-Key", "Plural-Forms"][pick(2)].to_string(), v);
    po.metadata_is_fuzzy = flip();
    verify(&po);
}

/// A text of about p1 bytes with up to p0 open bytes in any field.
#[no_mangle]
pub extern "C" fn h_c27_long() {
    warm();
    let mut po = file([30, 78][pick(2)]);
    let t = long_with(pick(6), param(1), &text_upto("text", param(0)));
    portable(&t);
    let mut e = entry_with(pick(6), t);
    e.obsolete = flip();
    po.entries.push(e);
    verify(&po);
}

/// Up to p0 plural forms with an open byte.
#[no_mangle]
pub extern "C" fn h_c27_forms() {
    warm();
    let mut po = file(78);
    let mut e = POEntry::from("id");
    e.msgid_plural = Some("ids".to_string());
    let n = 1 + pick(param(0));
    let k = pick(n);
    for i in 0..n {
        let mut s = String::from(["", "some text ", "other"][i % 3]);
        if i == k {
            s.push_str(&ascii_upto("text", 1));
        }
        portable(&s);
        e.msgstr_plural.push(s);
    }
    e.obsolete = flip();
    po.entries.push(e);
    po.entries.push(POEntry::from(("last", "text")));
    verify(&po);
}

/// The text of a catalogue with an open text of up to p0 bytes.
#[no_mangle]
pub extern "C" fn h_c27_mo() {
    warm();
    let mut mo = MOFile::new(("", WIDTHS[pick(WIDTHS.len())]).into());
    let t = put(param(1), &text_of(param(2), "text", param(0)));
    portable(&t);
    let field = pick(6);
    if field == 0 {
        assume(!t.is_empty());
    }
    mo.entries.push(MOEntry::from(&entry_with(field, t)));
    mo.entries.push(MOEntry::from("last"));
    if flip() {
        mo.metadata.insert("Language".to_string(), "es".to_string());
    }
    let text = mo.to_string();
    let back = strict(&text);
    check(back.len() == 3, "number of entries differs");
    check_metadata(or_empty(&back[0].msgstr), &mo.metadata);
    for (a, b) in mo.entries.iter().zip(&back[1..]) {
        same(&POEntry::from(a), b);
    }
    emit(text.as_bytes());
    reach(0);
}
