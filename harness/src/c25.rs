//! Histories of operations: every one gives what it gives on its own.

use crate::sym::*;
use crate::util::*;
use rspolib::{escaping, mofile, pofile, AsBytes, MOEntry, MOFile, Merge, POEntry, POFile, SaveAsPOFile};

const OPS: usize = 13;

fn s(parts: &[&str]) -> String {
    parts.concat()
}

/// a letter or digit
fn letter(name: &str) -> String {
    let c = byte(name);
    assume(c.is_ascii_alphanumeric());
    (c as char).to_string()
}

fn rich(x: &str) -> (String, POFile) {
    let text = s(&[
        "# Title ", x, "\nmsgid \"\"\nmsgstr \"\"\n\"Language: ", x, "\\n\"\n\n",
        "# note ", x, "\n#. extracted\n#: a.c:12 ", x, ".c:3\n#, fuzzy, f", x, "\n#| msgid \"was ", x, "\"\n",
        "msgctxt \"c", x, "\"\nmsgid \"one\"\nmsgid_plural \"many ", x, "\"\nmsgstr[0] \"", x, "\"\nmsgstr[1] \"\"\n\"x", x, "\"\n\n",
        "msgid \"plain\"\nmsgstr \"", x, "\\n\"\n\n",
        "#~ msgid \"gone\"\n#~ msgstr \"", x, "\"\n",
    ]);
    let mut po = POFile::new("".into());
    po.header = Some(s(&["Title ", x]));
    po.metadata.insert("Language".to_string(), x.to_string());
    let mut e = POEntry::from("one");
    e.tcomment = Some(s(&["note ", x]));
    e.comment = Some("extracted".to_string());
    e.occurrences = vec![("a.c".to_string(), "12".to_string()), (s(&[x, ".c"]), "3".to_string())];
    e.flags = vec!["fuzzy".to_string(), s(&["f", x])];
    e.previous_msgid = Some(s(&["was ", x]));
    e.msgctxt = Some(s(&["c", x]));
    e.msgid_plural = Some(s(&["many ", x]));
    e.msgstr_plural = vec![x.to_string(), s(&["x", x])];
    e.linenum = 13;
    po.entries.push(e);
    let mut e = POEntry::from(("plain", s(&[x, "\n"]).as_str()));
    e.linenum = 20;
    po.entries.push(e);
    let mut e = POEntry::from(("gone", x));
    e.obsolete = true;
    e.linenum = 23;
    po.entries.push(e);
    (text, po)
}

fn equal(a: &POFile, b: &POFile) {
    check(a.entries.len() == b.entries.len(), "number of entries differs");
    for (a, b) in a.entries.iter().zip(&b.entries) {
        check_texts(a, b);
        check_extras(a, b);
    }
    check(a.metadata == b.metadata, "metadata differs");
    check(a.metadata_is_fuzzy == b.metadata_is_fuzzy, "fuzzy mark of the metadata differs");
    check(or_empty(&a.header) == or_empty(&b.header), "header differs");
}

fn catalogue(x: &str) -> MOFile {
    let mut mo = MOFile::new("".into());
    mo.metadata.insert("Language".to_string(), x.to_string());
    let mut e = MOEntry::from("a");
    e.msgstr = Some(x.to_string());
    mo.entries.push(e);
    let mut e = MOEntry::from("b");
    e.msgctxt = Some("c".to_string());
    e.msgid_plural = Some("bs".to_string());
    e.msgstr_plural = vec![x.to_string(), "two".to_string()];
    mo.entries.push(e);
    mo
}

fn equal_mo(a: &MOFile, b: &MOFile) {
    check(a.entries.len() == b.entries.len(), "number of entries differs");
    for e in &a.entries {
        match b.entries.iter().find(|x| x.msgid == e.msgid) {
            Some(x) => check_mo_texts(e, x),
            None => fail("an entry is missing"),
        }
    }
    check(a.metadata == b.metadata, "metadata differs");
}

/// One operation on a letter, with all that it must give.
fn op(kind: usize, x: &str) {
    match kind {
        0 => {
            let t = s(&["\"", x, "\\\n"]);
            let e = escaping::escape(&t);
            check(e == s(&["\\\"", x, "\\\\\\n"]), "escaped text differs");
            check(escaping::unescape(&e).is_ok_and(|u| u == t), "unescaped text differs");
        }
        1 => check(escaping::unescape(&s(&[x, "\\"])).is_err(), "a cut escape is accepted"),
        2 => {
            let (text, po) = rich(x);
            equal(&parse(&text), &po);
        }
        3 => {
            // fails late, with all parts of an entry seen
            let text = s(&[
                "# Head\n\n# note\n#. extracted\n#: a.c:1\n#, fuzzy\n#| msgid \"was\"\nmsgctxt \"", x,
                "\"\nmsgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[0] \"", x, "\"\nmsgstr[x] \"q\"\n",
            ]);
            match pofile(text.as_str()) {
                Ok(_) => fail("a malformed file is accepted"),
                Err(e) => check(crate::c08::line_of(&e) == Some(12), "the error names another line"),
            }
        }
        4 => crate::c27::verify(&rich(x).1),
        5 => {
            let mo = catalogue(x);
            let le = mo.as_bytes_le();
            let be = mo.as_bytes_be();
            for image in [le, be] {
                match mofile(image.to_vec()) {
                    Ok(back) => equal_mo(&mo, &back),
                    Err(_) => fail("the image cannot be read"),
                }
            }
        }
        6 => {
            let mut image = catalogue(x).as_bytes_le().to_vec();
            image.truncate(image.len() - 3);
            check(mofile(image).is_err(), "a cut image is accepted");
        }
        7 => {
            let mut po = rich(x).1;
            let mut other = POFile::new("".into());
            other.entries.push(POEntry::from("plain"));
            other.entries.push(POEntry::from(("new", x)));
            po.merge(other);
            check(po.entries.len() == 4, "number of merged entries differs");
            check(po.entries[0].obsolete && !po.entries[1].obsolete, "obsolete marks after merging differ");
            check(po.entries[3].msgid == "new" && !po.entries[3].obsolete, "the merged entry differs");
        }
        8 => {
            let mut po = rich(x).1;
            check(po.find_by_msgid("plain").is_some_and(|e| or_empty(&e.msgstr).starts_with(x)), "found entry differs");
            check(po.find_by_msgid_msgctxt("one", &s(&["c", x])).is_some(), "an entry is not found");
            check(po.translated_entries().len() == 1 && po.fuzzy_entries().len() == 1, "counts differ");
            po.remove_by_msgid("plain");
            check(po.find_by_msgid("plain").is_none() && po.entries.len() == 2, "removal differs");
        }
        9 => {
            let (_, po) = rich(x);
            po.save_as_pofile("/vfs/history.po");
            match pofile(std::path::Path::new("/vfs/history.po")) {
                Ok(back) => equal(&back, &po),
                Err(_) => fail("the saved file cannot be parsed"),
            }
        }
        10 => {
            let mut po = POFile::new(("", 12).into());
            let mut e = POEntry::from(("some words that are wrapped", s(&["with a ", x, " in the middle"]).as_str()));
            e.comment = Some(s(&["a comment with ", x, " inside"]));
            po.entries.push(e);
            crate::c27::verify(&po);
            for l in po.to_string().lines() {
                check(l.len() <= 20, "a line is not wrapped");
            }
        }
        11 => {
            // ends in the middle of everything
            let text = s(&["msgid \"a\"\nmsgstr \"", x, "\"\n\n# left\n#, fuzzy\n#| msgid \"over\"\n"]);
            let po = parse(&text);
            check(po.entries.len() == 1 && or_empty(&po.entries[0].msgstr) == x, "the entry differs");
            check(po.entries[0].flags.is_empty(), "marks from nowhere");
        }
        _ => {
            let (_, po) = rich(x);
            let mut copy = po.clone();
            copy.entries[0].msgid.push('z');
            copy.entries[0].flags.clear();
            copy.metadata.clear();
            copy.entries[1].msgstr_plural.push(x.to_string());
            equal(&po, &rich(x).1);
        }
    }
}

/// p0 operations one after the other, each of any kind on its own letter.
#[no_mangle]
pub extern "C" fn h_c25() {
    for i in 0..param(0) {
        let x = letter(["c0", "c1", "c2", "c3"][i]);
        op(pick(OPS), &x);
    }
    emit(b"done");
    reach(0);
}

/// Results that are kept while other operations run stay what they were.
#[no_mangle]
pub extern "C" fn h_c25_kept() {
    let x = letter("c0");
    let (text, want) = rich(&x);
    let po = parse(&text);
    let mo = catalogue(&x);
    let image = mo.as_bytes_be().into_owned();
    let t = s(&["\"", &x]);
    let e = escaping::escape(&t);
    let written = po.to_string();
    for i in 0..param(0) {
        op(pick(OPS), &letter(["c1", "c2", "c3"][i]));
    }
    equal(&po, &want);
    check(po.to_string() == written, "the same file is written differently");
    check(mo.as_bytes_be() == image.as_slice(), "the same image is written differently");
    check(e == s(&["\\\"", &x]), "a kept text differs");
    equal_mo(&mo, &catalogue(&x));
    emit(written.as_bytes());
    reach(0);
}

/// One kind p0 times on fixed letters, then any kind on an open one.
#[no_mangle]
pub extern "C" fn h_c25_repeat() {
    let k = pick(OPS);
    let n = param(0);
    for i in 0..n {
        op(k, ["a", "bc", "def", "g h i j"][if k == 2 || k == 4 || k == 9 { i % 3 } else { i % 4 }]);
    }
    op(pick(OPS), &letter("c"));
    emit(b"done");
    reach(0);
}
