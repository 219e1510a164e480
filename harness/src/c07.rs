//! Well-formed sequences of PO lines.

use crate::sym::*;
use crate::util::*;
use rspolib::POEntry;

/// Lines written so far and what they spell.
pub struct Gen {
    pub text: String,
    pub entries: Vec<POEntry>,
    pub header: Option<String>,
    /// nothing but header comments so far
    pub at_start: bool,
    pub open: usize,
    /// blank lines still to be placed
    pub blanks: usize,
    /// strings that may still be continued on further lines
    pub continued: usize,
    /// strings that may still hold any printable byte
    pub printable: usize,
    pub space: &'static str,
    pub eol: &'static str,
    /// physical lines so far
    pub lines: usize,
    /// compare the lines on which entries begin
    pub numbered: bool,
}

const NAMES: [&str; 40] = [
    "x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12", "x13", "x14", "x15", "x16", "x17", "x18",
    "x19", "x20", "x21", "x22", "x23", "x24", "x25", "x26", "x27", "x28", "x29", "x30", "x31", "x32", "x33", "x34", "x35", "x36",
    "x37", "x38", "x39",
];

impl Gen {
    pub fn new(blanks: usize, continued: usize, printable: usize) -> Gen {
        Gen {
            text: String::new(),
            entries: Vec::new(),
            header: None,
            at_start: true,
            open: 0,
            blanks,
            continued,
            printable,
            space: " ",
            eol: "\n",
            lines: 0,
            numbered: false,
        }
    }

    pub fn name(&mut self) -> &'static str {
        self.open += 1;
        NAMES[self.open - 1]
    }

    /// a printable byte that stands for itself inside quotes
    pub fn plain(&mut self) -> String {
        if self.printable == 0 || !flip() {
            return self.word();
        }
        self.printable -= 1;
        let c = byte_in(self.name(), b' ', b'~');
        assume(c != b'"');
        assume(c != b'\\');
        String::from_utf8(vec![c]).unwrap()
    }

    pub fn word(&mut self) -> String {
        let c = byte_in(self.name(), b'a', b'z');
        String::from_utf8(vec![c]).unwrap()
    }

    pub fn line(&mut self, parts: &[&str]) {
        for p in parts {
            self.text.push_str(p);
        }
        self.text.push_str(self.eol);
        self.lines += 1;
        if self.blanks > 0 && flip() {
            self.blanks -= 1;
            self.lines += 1;
            self.text.push_str(self.eol);
        }
    }

    /// A quoted string of a field.
    pub fn string(&mut self, pre: &str, keyword: &str) -> String {
        let mut s = self.plain();
        let sp = self.space;
        let how = if self.continued > 0 { pick(3) } else { 0 };
        if how > 0 {
            self.continued -= 1;
        }
        match how {
            0 => {
                let t = s.clone();
                self.line(&[pre, keyword, sp, "\"", &t, "\""]);
            }
            1 => {
                self.line(&[pre, keyword, sp, "\"\""]);
                let t = s.clone();
                self.line(&[pre, "\"", &t, "\""]);
            }
            _ => {
                let t = s.clone();
                self.line(&[pre, keyword, sp, "\"", &t, "\""]);
                let u = self.plain();
                self.line(&[pre, "\"", &u, "c\""]);
                self.line(&[pre, "\"d\""]);
                s.push_str(&u);
                s.push_str("cd");
            }
        }
        s
    }

    pub fn comment(&mut self, e: &mut POEntry) {
        let w = self.word();
        let kind = pick(7);
        match kind {
            0 => {
                let to = if self.at_start { &mut self.header } else { &mut e.tcomment };
                match to {
                    Some(t) => {
                        t.push('\n');
                        t.push_str(&w);
                    }
                    None => *to = Some(w.clone()),
                }
                self.line(&["# ", &w]);
                return;
            }
            1 => {
                match &mut e.comment {
                    Some(t) => {
                        t.push('\n');
                        t.push_str(&w);
                    }
                    None => e.comment = Some(w.clone()),
                }
                self.at_start = false;
                self.line(&["#. ", &w]);
            }
            2 => {
                self.at_start = false;
                e.occurrences.push((w.clone(), "7".to_string()));
                e.occurrences.push(("f".to_string(), "".to_string()));
                self.line(&["#: ", &w, ":7 f"]);
            }
            3 => {
                self.at_start = false;
                e.flags.push(w.clone());
                e.flags.push("g".to_string());
                self.line(&["#, ", &w, ", g"]);
            }
            4 => {
                self.at_start = false;
                assume(e.previous_msgctxt.is_none());
                e.previous_msgctxt = Some(self.string("#| ", "msgctxt"));
            }
            5 => {
                self.at_start = false;
                assume(e.previous_msgid.is_none());
                e.previous_msgid = Some(self.string("#| ", "msgid"));
            }
            _ => {
                self.at_start = false;
                assume(e.previous_msgid_plural.is_none());
                e.previous_msgid_plural = Some(self.string("#| ", "msgid_plural"));
            }
        }
    }

    /// An entry after up to `comments` comment lines, with up to `forms`
    /// plural forms.
    pub fn entry(&mut self, comments: usize, forms: usize) {
        let mut e = POEntry::new(self.lines + 1);
        for _ in 0..pick(comments + 1) {
            self.comment(&mut e);
            if self.at_start {
                // that was a line of the header
                e.linenum = self.lines + 1;
            }
        }
        e.obsolete = flip();
        let pre = if e.obsolete { "#~ " } else { "" };
        if flip() {
            e.msgctxt = Some(self.string(pre, "msgctxt"));
        }
        e.msgid = self.string(pre, "msgid");
        let n = pick(forms + 1);
        if n == 0 {
            e.msgstr = Some(self.string(pre, "msgstr"));
        } else {
            e.msgid_plural = Some(self.string(pre, "msgid_plural"));
            for i in 0..n {
                let s = self.string(pre, ["msgstr[0]", "msgstr[1]", "msgstr[2]"][i]);
                e.msgstr_plural.push(s);
            }
        }
        self.at_start = false;
        self.entries.push(e);
    }

    pub fn metadata(&mut self) {
        self.line(&["msgid \"\""]);
        self.line(&["msgstr \"\""]);
        self.line(&["\"Language: es\\n\""]);
        self.at_start = false;
    }

    pub fn verify(&self) {
        let po = parse(&self.text);
        check(po.entries.len() == self.entries.len(), "number of entries differs");
        for (a, b) in self.entries.iter().zip(po.entries.iter()) {
            check_texts(a, b);
            check(a.msgstr == b.msgstr, "translation differs");
            let mut a = a.clone();
            a.obsolete = false;
            check_extras(&a, b);
            check(!self.numbered || a.linenum == b.linenum, "an entry begins on another line");
        }
        check(or_empty(&po.header) == or_empty(&self.header), "header differs");
        emit(self.text.as_bytes());
        reach(0);
    }
}

/// p0 entries, each after up to p1 comment lines, p2 continued strings, up to
/// p3 plural forms, p4 blank lines, p5 = 1: after metadata, p6 strings with
/// any printable byte.
#[no_mangle]
pub extern "C" fn h_c07() {
    warm();
    let mut g = Gen::new(param(4), param(2), param(6));
    if param(5) == 1 {
        g.metadata();
    }
    for _ in 0..param(0) {
        g.entry(param(1), param(3));
    }
    g.verify();
}

/// Whitespace around and inside the lines, Windows line ends.
#[no_mangle]
pub extern "C" fn h_c07_space() {
    warm();
    let mut g = Gen::new(0, param(2), param(6));
    g.space = [" ", "\t", "   "][pick(3)];
    if flip() {
        g.eol = [" \n", "\r\n", "\t\n"][pick(3)];
    }
    g.entry(param(1), 1);
    g.entry(0, 0);
    g.verify();
}

const FORMS: [&str; 12] = [
    "msgstr[0]", "msgstr[1]", "msgstr[2]", "msgstr[3]", "msgstr[4]", "msgstr[5]", "msgstr[6]", "msgstr[7]", "msgstr[8]",
    "msgstr[9]", "msgstr[10]", "msgstr[11]",
];

/// Up to p0 plural forms in several orders, p1 continued strings.
#[no_mangle]
pub extern "C" fn h_c07_forms() {
    warm();
    let mut g = Gen::new(0, param(1), 0);
    if flip() {
        g.entry(0, 1);
    }
    let mut e = POEntry::new(0);
    e.obsolete = flip();
    let pre = if e.obsolete { "#~ " } else { "" };
    e.msgid = "id".to_string();
    e.msgid_plural = Some("ids".to_string());
    g.line(&[pre, "msgid \"id\""]);
    g.line(&[pre, "msgid_plural \"ids\""]);
    let n = 1 + pick(param(0));
    e.msgstr_plural = vec![String::new(); n];
    let (start, step) = [(0, 1), (n - 1, n - 1), (n / 2, 1), (1 % n, n + 1)][pick(4)];
    let mut left = vec![true; n];
    let mut i = start;
    for _ in 0..n {
        while !left[i % n] {
            i += 1;
        }
        left[i % n] = false;
        e.msgstr_plural[i % n] = g.string(pre, FORMS[i % n]);
        i += step;
    }
    g.entries.push(e);
    if flip() {
        g.entry(0, 1);
    }
    g.verify();
}

/// One of p0 entries of all shapes is open, after up to p1 comment lines.
#[no_mangle]
pub extern "C" fn h_c07_many() {
    warm();
    let mut g = Gen::new(0, 1, 0);
    if flip() {
        g.metadata();
    }
    let n = param(0);
    let k = [0, n / 2, n - 1][pick(3)];
    for i in 0..n {
        if i == k {
            g.entry(param(1), 2);
            continue;
        }
        let e = crate::c05::fixed((3 * i + 1) % 8);
        g.text.push_str(&e.to_string());
        if i % 3 == 0 {
            g.text.push('\n');
        }
        let mut e = e;
        if e.msgid_plural.is_none() && e.msgstr.is_none() {
            e.msgstr = Some(String::new());
        }
        g.entries.push(e);
        g.at_start = false;
    }
    g.verify();
}

/// Many comment lines of one kind before an entry.
#[no_mangle]
pub extern "C" fn h_c07_comments() {
    warm();
    let mut g = Gen::new(0, 0, 0);
    g.entry(0, 0);
    let mut e = POEntry::new(0);
    let kind = pick(4);
    let n = param(0);
    for i in 0..n {
        let w = if i == n / 2 || i == n - 1 { g.word() } else { ["one", "two", "three"][i % 3].to_string() };
        match kind {
            0 | 1 => {
                let to = if kind == 0 { &mut e.tcomment } else { &mut e.comment };
                match to {
                    Some(t) => {
                        t.push('\n');
                        t.push_str(&w);
                    }
                    None => *to = Some(w.clone()),
                }
                g.line(&[["# ", "#. "][kind], &w]);
            }
            2 => {
                e.occurrences.push((w.clone(), "12".to_string()));
                e.occurrences.push((w.clone(), "".to_string()));
                g.line(&["#: ", &w, ":12 ", &w]);
            }
            _ => {
                e.flags.push(w.clone());
                e.flags.push("x".to_string());
                g.line(&["#, ", &w, ", x"]);
            }
        }
    }
    e.msgid = g.string("", "msgid");
    e.msgstr = Some(g.string("", "msgstr"));
    g.entries.push(e);
    g.entry(0, 0);
    g.verify();
}
