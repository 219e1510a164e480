//! Tokenizer for textual LLVM IR.

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok<'a> {
    /// bare word: keyword, type, attribute, label
    Word(&'a str),
    /// integer literal (kept as text, may be negative or wide)
    Num(&'a str),
    /// %name
    Local(&'a str),
    /// @name
    Global(&'a str),
    /// "..." raw contents
    Str(&'a str),
    /// c"..." raw contents
    CStr(&'a str),
    /// !name, !12, !{...}
    Meta(&'a str),
    /// #12
    Attr(&'a str),
    /// label definition: name followed by ':'
    Label(&'a str),
    P(u8),
    Eof,
}

pub struct Lexer<'a> {
    s: &'a str,
    b: &'a [u8],
    pub pos: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lexer<'a> {
    pub fn new(s: &'a str) -> Self {
        Lexer { s, b: s.as_bytes(), pos: 0 }
    }

    fn skip_ws(&mut self) {
        while self.pos < self.b.len() {
            let c = self.b[self.pos];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.pos += 1;
            } else if c == b';' {
                while self.pos < self.b.len() && self.b[self.pos] != b'\n' {
                    self.pos += 1;
                }
            } else {
                break;
            }
        }
    }

    fn quoted(&mut self) -> &'a str {
        // self.pos is at the opening quote
        let start = self.pos + 1;
        let mut i = start;
        while self.b[i] != b'"' {
            i += 1;
        }
        self.pos = i + 1;
        &self.s[start..i]
    }

    fn word(&mut self) -> &'a str {
        let start = self.pos;
        while self.pos < self.b.len() && is_word(self.b[self.pos]) {
            self.pos += 1;
        }
        &self.s[start..self.pos]
    }

    pub fn next(&mut self) -> Tok<'a> {
        self.skip_ws();
        if self.pos >= self.b.len() {
            return Tok::Eof;
        }
        let c = self.b[self.pos];
        match c {
            b'%' => {
                self.pos += 1;
                if self.b[self.pos] == b'"' {
                    Tok::Local(self.quoted())
                } else {
                    Tok::Local(self.word())
                }
            }
            b'@' => {
                self.pos += 1;
                if self.b[self.pos] == b'"' {
                    Tok::Global(self.quoted())
                } else {
                    Tok::Global(self.word())
                }
            }
            b'#' => {
                self.pos += 1;
                Tok::Attr(self.word())
            }
            b'!' => {
                self.pos += 1;
                if self.pos < self.b.len() && is_word(self.b[self.pos]) {
                    Tok::Meta(self.word())
                } else {
                    Tok::Meta("")
                }
            }
            b'"' => {
                let s = self.quoted();
                if self.pos < self.b.len() && self.b[self.pos] == b':' {
                    self.pos += 1;
                    return Tok::Label(s);
                }
                Tok::Str(s)
            }
            b'c' if self.pos + 1 < self.b.len() && self.b[self.pos + 1] == b'"' => {
                self.pos += 1;
                Tok::CStr(self.quoted())
            }
            _ if is_word(c) => {
                let w = self.word();
                if self.pos < self.b.len() && self.b[self.pos] == b':' {
                    self.pos += 1;
                    return Tok::Label(w);
                }
                if w.starts_with("f0x") {
                    return Tok::Num(w);
                }
                let f = w.as_bytes()[0];
                if f.is_ascii_digit() || (f == b'-' && w.len() > 1 && w.as_bytes()[1].is_ascii_digit()) {
                    // floating literals such as 1.000000e+02 contain '+'
                    if w.ends_with('e') && self.pos < self.b.len() && self.b[self.pos] == b'+' {
                        let start = self.pos - w.len();
                        self.pos += 1;
                        self.word();
                        return Tok::Num(&self.s[start..self.pos]);
                    }
                    Tok::Num(w)
                } else {
                    Tok::Word(w)
                }
            }
            _ => {
                self.pos += 1;
                Tok::P(c)
            }
        }
    }

    pub fn peek(&mut self) -> Tok<'a> {
        let p = self.pos;
        let t = self.next();
        self.pos = p;
        t
    }
}

/// Decodes the \XX escapes of IR string literals.
pub fn unescape_bytes(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 1 < b.len() && b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
                continue;
            }
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            out.push(h(b[i + 1]) * 16 + h(b[i + 2]));
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}
