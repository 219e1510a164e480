//! Texts put one after the other.

use crate::c06::LINES;
use crate::c08::line_of;
use crate::sym::*;
use crate::util::*;
use rspolib::pofile;

const HEAD: &str = "msgid \"\"\nmsgstr \"\"\n\"Language: es\\n\"\n\n";

pub const LAST: [&str; 8] = [
    "msgid \"x\"\nmsgstr \"y\"\n",
    "#~ msgid \"x\"\n#~ msgstr \"y\"\n",
    "msgid \"x\"\nmsgid_plural \"xs\"\nmsgstr[0] \"y\"\nmsgstr[1] \"z\"\n",
    "#, fuzzy\n#| msgid \"was\"\nmsgctxt \"c\"\nmsgid \"x\"\nmsgstr \"\"\n\"y\"\n",
    "# note\n#. extracted\n#: a.c:1\nmsgid \"\"\n\"x\"\nmsgstr \"y\"\n",
    "#~ msgctxt \"c\"\n#~ msgid \"x\"\n#~ msgid_plural \"xs\"\n#~ msgstr[0] \"y\"\n#~ msgstr[1] \"\"\n#~ \"z\"\n",
    "# note\n# more\n#. from\n#. two\n#, fuzzy, c-format\n#| msgctxt \"old\"\n#| msgid \"\"\n#| \"was\"\n#| msgid_plural \"were\"\nmsgid \"x\"\nmsgid_plural \"xs\"\nmsgstr[0] \"y\"\nmsgstr[1] \"\"\nmsgstr[2] \"z\"\n",
    "# note\n# more\n#. from\n#. two\n#: a.c b.c:2\nmsgctxt \"\"\nmsgid \"x\"\nmsgstr \"y\"\n\"z\\n\"\n\"w\"\n",
];

/// the lines that begin an entry
const FIRST: [usize; 12] = [1, 2, 3, 4, 6, 7, 8, 9, 10, 13, 18, 19];

/// n lines of any kind (`@` stands for an open letter or digit) and an entry
fn part(n: usize, names: [&str; 3], lasts: usize, begin: bool) -> String {
    let mut s = String::new();
    for (i, name) in names.iter().take(n).enumerate() {
        // other lines would belong to what comes before
        let l = LINES[if begin && i == 0 { FIRST[pick(FIRST.len())] } else { pick(LINES.len()) }];
        match l.split_once('@') {
            Some((a, b)) => {
                let c = byte(name);
                assume(c.is_ascii_alphanumeric());
                s.push_str(a);
                s.push(c as char);
                s.push_str(b);
            }
            None => s.push_str(l),
        }
        s.push('\n');
    }
    s.push_str(LAST[pick(lasts)]);
    s
}

fn lines(s: &str) -> usize {
    s.bytes().filter(|b| *b == b'\n').count()
}

fn compare(a: &str, b: &str) {
    let one = [HEAD, a].concat();
    let two = [HEAD, b].concat();
    let both = [HEAD, a, "\n", b].concat();
    let moved = lines(a) + 1;
    let x = match pofile(one.as_str()) {
        Ok(x) => x,
        Err(e) => {
            // what comes later does not matter
            match pofile(both.as_str()) {
                Ok(_) => fail("what follows hides an error"),
                Err(f) => check(line_of(&e) == line_of(&f), "what follows moves an error"),
            }
            reach(1);
            return;
        }
    };
    // an entry without message would be taken as metadata
    for e in &x.entries {
        assume(!e.msgid.is_empty());
    }
    match (pofile(two.as_str()), pofile(both.as_str())) {
        (Ok(y), Ok(z)) => {
            for e in &y.entries {
                assume(!e.msgid.is_empty());
            }
            check(z.entries.len() == x.entries.len() + y.entries.len(), "number of entries differs");
            check(z.metadata == x.metadata && z.header == x.header, "metadata differs");
            for (i, e) in z.entries.iter().enumerate() {
                let (w, shift) = if i < x.entries.len() { (&x.entries[i], 0) } else { (&y.entries[i - x.entries.len()], moved) };
                check_texts(w, e);
                check_extras(w, e);
                check(e.linenum == w.linenum + shift, "line differs");
                emit(e.to_string().as_bytes());
            }
            reach(0);
        }
        (Err(e), Err(f)) => {
            check(line_of(&e).map(|l| l + moved) == line_of(&f), "the error names another line");
            reach(2);
        }
        (Ok(_), Err(_)) => fail("two good texts are rejected together"),
        (Err(_), Ok(_)) => fail("what comes before hides an error"),
    }
}

/// p0 and p1 lines of 25 kinds, each before one of p2 entries.
#[no_mangle]
pub extern "C" fn h_c28() {
    warm();
    let a = part(param(0), ["a0", "a1", "a2"], param(2), false);
    let b = part(param(1), ["b0", "b1", "b2"], param(2), true);
    compare(&a, &b);
}

/// A quoted string with any text of up to p0 bytes in the first or second.
#[no_mangle]
pub extern "C" fn h_c28_text() {
    warm();
    let t = text_upto("text", param(0));
    let quoted = |k: usize| {
        [
            ["msgctxt \"", "\"\nmsgid \"m\"\nmsgstr \"y\"\n"],
            ["msgid \"m", "\"\nmsgstr \"y\"\n"],
            ["msgid \"m\"\nmsgstr \"", "\"\n"],
            ["#~ msgid \"m\"\n#~ msgstr \"", "\"\n"],
            ["# ", "\nmsgid \"m\"\nmsgstr \"y\"\n"],
            ["#, ", "\nmsgid \"m\"\nmsgstr \"y\"\n"],
            ["#| msgid \"", "\"\nmsgid \"m\"\nmsgstr \"y\"\n"],
            ["msgid \"m\"\nmsgid_plural \"ms\"\nmsgstr[0] \"", "\"\nmsgstr[1] \"z\"\n"],
        ][k]
            .join(&t)
    };
    let k = pick(8);
    let other = LAST[pick(LAST.len())];
    // the open text ends with a line end only inside of strings
    if flip() {
        compare(&quoted(k), other);
    } else {
        compare(other, &quoted(k));
    }
}
