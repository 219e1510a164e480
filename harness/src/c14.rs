//! The metadata of files.

use crate::sym::*;
use crate::util::*;
use rspolib::{AsBytes, MOFile, POFile};
use std::cmp::Ordering;
use std::collections::HashMap;

const KNOWN: [&str; 11] = [
    "Project-Id-Version",
    "Report-Msgid-Bugs-To",
    "POT-Creation-Date",
    "PO-Revision-Date",
    "Last-Translator",
    "Language-Team",
    "Language",
    "MIME-Version",
    "Content-Type",
    "Content-Transfer-Encoding",
    "Plural-Forms",
];

fn a_key(t: &str) {
    assume(!t.is_empty());
    assume(!t.contains('\n'));
    assume(!t.contains(':'));
    assume(!t.contains('\0'));
}

fn a_value(t: &str) {
    assume(!t.contains('\n'));
    assume(!t.contains('\0'));
    assume(t.trim().len() == t.len());
}

/// Numbers by value, other characters by code; no zeros in front, no spaces.
fn natural(a: &[u8], b: &[u8]) -> Ordering {
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].is_ascii_digit() && b[j].is_ascii_digit() {
            let (mut p, mut q) = (i, j);
            while p < a.len() && a[p].is_ascii_digit() {
                p += 1;
            }
            while q < b.len() && b[q].is_ascii_digit() {
                q += 1;
            }
            match (p - i).cmp(&(q - j)).then(a[i..p].cmp(&b[j..q])) {
                Ordering::Equal => {}
                o => return o,
            }
            i = p;
            j = q;
        } else {
            match a[i].cmp(&b[j]) {
                Ordering::Equal => {}
                o => return o,
            }
            i += 1;
            j += 1;
        }
    }
    (a.len() - i).cmp(&(b.len() - j))
}

fn map(pairs: &[(String, String)], order: &[usize]) -> HashMap<String, String> {
    let mut m = HashMap::new();
    for i in order {
        m.insert(pairs[*i].0.clone(), pairs[*i].1.clone());
    }
    m
}

/// the lines of the metadata in the text of a file
fn lines_of(text: &str) -> Vec<String> {
    crate::c13::pieces(text, "msgstr").into_iter().filter(|s| !s.is_empty()).collect()
}

fn written(pairs: &[(String, String)], order: &[usize]) -> String {
    let mut p = POFile::new("".into());
    p.metadata = map(pairs, order);
    p.to_string()
}

fn read_back(pairs: &[(String, String)], order: &[usize]) {
    let mut p = POFile::new("".into());
    p.metadata = map(pairs, order);
    let back = parse(&p.to_string());
    check(back.metadata.len() == pairs.len(), "number of keys differs in PO");
    for (k, v) in pairs {
        check(back.metadata.get(k) == Some(v), "a value differs in PO");
    }
    let mut m = MOFile::new("".into());
    m.metadata = map(pairs, order);
    let back = match rspolib::mofile(m.as_bytes().into_owned()) {
        Ok(f) => f,
        Err(_) => fail("the image cannot be read"),
    };
    check(back.metadata.len() == pairs.len(), "number of keys differs in MO");
    for (k, v) in pairs {
        check(back.metadata.get(k) == Some(v), "a value differs in MO");
    }
    let b = parse(&m.to_string());
    check(b.metadata.len() == pairs.len(), "number of keys differs in the text of a MO file");
    for (k, v) in pairs {
        check(b.metadata.get(k) == Some(v), "a value differs in the text of a MO file");
    }
}

/// Up to p2 pairs, keys and values with up to p0 open bytes of alphabet p1,
/// well-known keys among them: read back as PO and as MO.
#[no_mangle]
pub extern "C" fn h_c14_back() {
    warm();
    let mut pairs: Vec<(String, String)> = Vec::new();
    let n = 1 + pick(param(2));
    for i in 0..n {
        let k = if flip() {
            KNOWN[pick(11)].to_string()
        } else {
            let t = text_of(param(1), ["key0", "key1"][i], param(0));
            a_key(&t);
            t
        };
        for (o, _) in &pairs {
            assume(*o != k);
        }
        let v = text_of(param(1), ["val0", "val1"][i], if param(3) == 1 { 1 } else { param(0) });
        let v = match if param(4) == 1 { 1 + pick(3) } else { 0 } {
            1 => ["a: ", &v].concat(),
            2 => [&v, ": b"].concat(),
            3 => ["http://x:1/", &v, ":"].concat(),
            _ => v,
        };
        a_value(&v);
        pairs.push((k, v));
    }
    let order: Vec<usize> = (0..n).collect();
    read_back(&pairs, &order);
    let text = written(&pairs, &order);
    let lines = lines_of(&text);
    check(lines.len() == n, "not one line for each key");
    for (k, v) in &pairs {
        let mut l = k.clone();
        l.push_str(": ");
        l.push_str(v);
        l.push('\n');
        let l = rspolib::escaping::escape(&l).into_owned();
        check(lines.iter().filter(|x| **x == l).count() == 1, "a pair is not written once");
    }
    emit(text.as_bytes());
    reach(0);
}

const ORDERS: [[usize; 3]; 5] = [[0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

/// Three keys, the open part of up to p0 bytes in p1 (0 any, 1 letters and
/// digits, 2 digits and separators), added in different orders.
#[no_mangle]
pub extern "C" fn h_c14_order() {
    warm();
    let mut pairs: Vec<(String, String)> = Vec::new();
    for i in 0..3 {
        let t = ascii_upto(["key0", "key1", "key2"][i], param(0));
        for c in t.bytes() {
            match param(1) {
                1 => assume(c.is_ascii_alphanumeric()),
                2 => assume((b'0'..=b'2').contains(&c) || c == b' ' || c == b'-' || c == b'.'),
                _ => {}
            }
        }
        a_key(&t);
        for (o, _) in &pairs {
            assume(*o != t);
        }
        pairs.push((t, ["a", "b", "c"][i].to_string()));
    }
    let a = written(&pairs, &[0, 1, 2]);
    let b = written(&pairs, &ORDERS[pick(5)]);
    check(a == b, "the text depends on the order of insertion");
    reach(0);
}

/// Keys of several kinds in maps with any hashing (p0 buckets).
#[no_mangle]
pub extern "C" fn h_c14_hashing() {
    warm();
    let keys = [
        ["X-10", "X-9", "Language"],
        ["Plural-Forms", "Content-Type", "x"],
        ["b", "B", "a"],
        ["k1", "k01", "k001"],
        ["", "a b", "ab"],
    ][pick(5)];
    let mut pairs: Vec<(String, String)> = Vec::new();
    for i in 0..3 {
        let c = byte_in(["v0", "v1", "v2"][i], b'a', b'z');
        pairs.push((keys[i].to_string(), String::from_utf8(vec![c]).unwrap()));
    }
    let a = written(&pairs, &[0, 1, 2]);
    hash_perm(param(0) as u32);
    let b = written(&pairs, &ORDERS[pick(5)]);
    check(a == b, "the text depends on the order of insertion or on hashing");
    emit(a.as_bytes());
    reach(0);
}

/// Known keys come first in their order, others after them in natural order:
/// p0 keys, open parts of up to p1 letters and digits.
#[no_mangle]
pub extern "C" fn h_c14_places() {
    warm();
    let mut pairs: Vec<(String, String)> = Vec::new();
    let mut ranks: Vec<Result<usize, String>> = Vec::new();
    for i in 0..param(0) {
        let r = if flip() {
            Ok(pick(11))
        } else {
            let mut t = String::from("L");
            let s = ascii_upto(["key0", "key1", "key2"][i], param(1));
            let mut before = b'L';
            for c in s.bytes() {
                assume(c.is_ascii_alphanumeric());
                assume(c != b'0' || before.is_ascii_digit());
                before = c;
            }
            t.push_str(&s);
            Err(t)
        };
        for o in &ranks {
            assume(*o != r);
        }
        let k = match &r {
            Ok(k) => KNOWN[*k].to_string(),
            Err(t) => t.clone(),
        };
        pairs.push((k, ["a", "b", "c"][i].to_string()));
        ranks.push(r);
    }
    let n = pairs.len();
    let order: Vec<usize> = (0..n).collect();
    let text = written(&pairs, &order);
    let lines = lines_of(&text);
    check(lines.len() == n, "not one line for each key");
    let place = |i: usize| {
        let mut l = pairs[i].0.clone();
        l.push_str(": ");
        l.push_str(&pairs[i].1);
        l.push_str("\\n");
        match lines.iter().position(|x| *x == l) {
            Some(p) => p,
            None => fail("a pair is not written"),
        }
    };
    for i in 0..n {
        for j in 0..i {
            let less = match (&ranks[i], &ranks[j]) {
                (Ok(a), Ok(b)) => a < b,
                (Ok(_), Err(_)) => true,
                (Err(_), Ok(_)) => false,
                (Err(a), Err(b)) => natural(a.as_bytes(), b.as_bytes()) == Ordering::Less,
            };
            check(less == (place(i) < place(j)), "keys are not in their order");
        }
    }
    emit(text.as_bytes());
    reach(0);
}

/// A key that is nearly a well-known one, beside well-known ones.
#[no_mangle]
pub extern "C" fn h_c14_near() {
    warm();
    let which = pick(11);
    let mut k = KNOWN[which].as_bytes().to_vec();
    let i = pick(k.len() + 1);
    let c = byte_in("other", b'!', b'~');
    assume(c != b':');
    match pick(3) {
        0 => {
            assume(i < k.len());
            k[i] = c;
        }
        1 => k.insert(i, c),
        _ => {
            assume(c == b'a');
            k.truncate(i);
        }
    }
    let k = String::from_utf8(k).unwrap();
    a_key(&k);
    for x in KNOWN {
        assume(k != x);
    }
    let pairs = vec![
        ("Plural-Forms".to_string(), "n".to_string()),
        (k, "open".to_string()),
        ("Language".to_string(), "es".to_string()),
        (KNOWN[(which + 2) % 6].to_string(), "x".to_string()),
    ];
    read_back(&pairs, &[0, 1, 2, 3]);
    let text = written(&pairs, &[0, 1, 2, 3]);
    let lines = lines_of(&text);
    check(lines.len() == 4, "not one line for each key");
    check(lines[3] == [pairs[1].0.replace('\\', "\\\\").replace('"', "\\\""), ": open\\n".to_string()].concat(), "keys are not in their order");
    emit(text.as_bytes());
    reach(0);
}

/// All well-known keys and up to p0 others, one of them open.
#[no_mangle]
pub extern "C" fn h_c14_all() {
    warm();
    let mut pairs: Vec<(String, String)> = Vec::new();
    for k in KNOWN {
        pairs.push((k.to_string(), k.to_string()));
    }
    for i in 0..param(0) {
        let mut k = String::from("X-");
        k.push((b'a' + (i * 5 % 23) as u8) as char);
        pairs.push((k, "value".to_string()));
    }
    let mut k = String::from("X-");
    k.push(byte_in("open", b'!', b'~') as char);
    a_key(&k);
    for (o, _) in &pairs {
        assume(*o != k);
    }
    pairs.push((k, "open".to_string()));
    let n = pairs.len();
    let order: Vec<usize> = match pick(3) {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => (0..n).map(|i| (i + n / 2) % n).collect(),
    };
    read_back(&pairs, &order);
    let text = written(&pairs, &order);
    let lines = lines_of(&text);
    check(lines.len() == n, "not one line for each key");
    for (i, k) in KNOWN.iter().enumerate() {
        check(lines[i].starts_with(k) && lines[i][k.len()..].starts_with(": "), "well-known keys are not in their order");
    }
    let byte_of = |l: &str| match l.as_bytes()[2] {
        b'\\' => l.as_bytes()[3],
        c => c,
    };
    for w in lines[11..].windows(2) {
        check(byte_of(&w[0]) < byte_of(&w[1]), "other keys are not in their order");
    }
    reach(0);
}
