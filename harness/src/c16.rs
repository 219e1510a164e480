//! Comparison of entries.

use crate::sym::*;
use rspolib::{EntryCmpByOptions, MOEntry, POEntry};
use std::cmp::Ordering;

const NAMES: [[&str; 3]; 2] = [["a0", "a1", "a2"], ["b0", "b1", "b2"]];

/// absent, or up to `max` bytes without NUL
fn maybe(name: &str, max: usize) -> Option<String> {
    let n = if param(2) == 1 { [0, max + 1][pick(2)] } else { pick(max + 2) };
    if n == 0 {
        return None;
    }
    let t = text(name, n - 1);
    assume(!t.contains('\0'));
    Some(t)
}

/// up to two words, the first open
fn list(name: &str) -> Vec<String> {
    let mut v = Vec::new();
    let n = if param(2) == 1 { 1 + pick(2) } else { pick(4) };
    if n == 3 {
        v.push("k".to_string());
    }
    if n > 0 {
        v.push(text(name, 1));
    }
    if n == 2 {
        v.push("k".to_string());
    }
    v
}

fn set(e: &mut POEntry, field: usize, name: &str, max: usize) {
    match field {
        0 => {
            let t = if param(2) == 1 { text(name, max) } else { text_upto(name, max) };
            assume(!t.contains('\0'));
            e.msgid = t;
        }
        1 => e.msgstr = maybe(name, max),
        2 => e.msgctxt = maybe(name, max),
        3 => e.obsolete = flip(),
        4 => {
            for w in list(name) {
                e.occurrences.push((w, "1".to_string()));
            }
            if e.occurrences.len() == 1 && param(2) == 0 && flip() {
                e.occurrences[0].1 = "2".to_string();
            }
        }
        5 => e.msgid_plural = maybe(name, max),
        6 => e.msgstr_plural = list(name),
        _ => e.flags = list(name),
    }
}

fn options(on: &[bool; 8]) -> EntryCmpByOptions {
    EntryCmpByOptions::new()
        .by_msgid(on[0])
        .by_msgstr(on[1])
        .by_msgctxt(on[2])
        .by_obsolete(on[3])
        .by_occurrences(on[4])
        .by_msgid_plural(on[5])
        .by_msgstr_plural(on[6])
        .by_flags(on[7])
}

fn sorted<T: Clone + Ord>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    if v.len() == 2 && v[1] < v[0] {
        v.swap(0, 1);
    }
    v
}

fn same(a: &POEntry, b: &POEntry, field: usize) -> bool {
    match field {
        0 => a.msgid == b.msgid,
        1 => a.msgstr == b.msgstr,
        2 => a.msgctxt == b.msgctxt,
        3 => a.obsolete == b.obsolete,
        4 => sorted(&a.occurrences) == sorted(&b.occurrences),
        5 => a.msgid_plural == b.msgid_plural,
        6 => sorted(&a.msgstr_plural) == sorted(&b.msgstr_plural),
        _ => sorted(&a.flags) == sorted(&b.flags),
    }
}

const MO: [bool; 8] = [true, true, true, false, false, true, true, false];

/// Reflexivity, antisymmetry and equality of two entries.
fn pair(a: &POEntry, b: &POEntry, on: &[bool; 8], open: &[usize]) -> Ordering {
    let o = options(on);
    let r = a.cmp_by(b, &o);
    check(b.cmp_by(a, &o) == r.reverse(), "not antisymmetric");
    check(a.cmp_by(a, &o) == Ordering::Equal, "not reflexive");
    let equal = open.iter().all(|f| !on[*f] || same(a, b, *f));
    check((r == Ordering::Equal) == equal, "equality does not follow the selected fields");
    let (x, y) = (MOEntry::from(a), MOEntry::from(b));
    let q = x.cmp_by(&y, &o);
    check(y.cmp_by(&x, &o) == q.reverse(), "not antisymmetric in MO");
    let equal = open.iter().all(|f| !on[*f] || !MO[*f] || same(a, b, *f));
    check((q == Ordering::Equal) == equal, "equality does not follow the selected fields in MO");
    r
}

/// One (p1 = 1) or two fields of different kinds.
fn fields() -> (usize, usize) {
    let f = pick(8);
    let g = if param(1) == 1 { f } else { pick(8) };
    assume(f <= g && (f < g || param(1) == 1));
    (f, g)
}

/// Two entries that differ in p1 fields with up to p0 open bytes, every
/// choice of options or (p1 = 2) of those fields and of all others at once.
#[no_mangle]
pub extern "C" fn h_c16_pairs() {
    warm();
    let (f, g) = fields();
    let mut on = [param(1) == 2 && flip(); 8];
    for i in 0..8 {
        if param(1) == 1 || i == f || i == g {
            on[i] = flip();
        }
    }
    let mut a = POEntry::from("id");
    let mut b = POEntry::from("id");
    set(&mut a, f, "a0", param(0));
    set(&mut b, f, "a1", param(0));
    if f != g {
        set(&mut a, g, "b0", param(0));
        set(&mut b, g, "b1", param(0));
    }
    let r = pair(&a, &b, &on, &[f, g]);
    // fields that are not selected do not count
    let mut c = a.clone();
    c.linenum = 7;
    c.comment = Some("x".to_string());
    c.tcomment = Some("x".to_string());
    c.previous_msgid = Some("x".to_string());
    c.previous_msgctxt = Some("x".to_string());
    c.previous_msgid_plural = Some("x".to_string());
    if !on[0] {
        c.msgid = "other".to_string();
    }
    if !on[1] {
        c.msgstr = Some("other".to_string());
    }
    if !on[2] {
        c.msgctxt = Some("other".to_string());
    }
    if !on[3] {
        c.obsolete = !c.obsolete;
    }
    if !on[4] {
        c.occurrences.push(("other".to_string(), "9".to_string()));
    }
    if !on[5] {
        c.msgid_plural = Some("other".to_string());
    }
    if !on[6] {
        c.msgstr_plural.push("other".to_string());
    }
    if !on[7] {
        c.flags.push("other".to_string());
    }
    let o = options(&on);
    check(c.cmp_by(&b, &o) == r, "a field that is not selected counts");
    check(b.cmp_by(&c, &o) == r.reverse(), "a field that is not selected counts");
    check(
        MOEntry::from(&c).cmp_by(&MOEntry::from(&b), &o) == MOEntry::from(&a).cmp_by(&MOEntry::from(&b), &o),
        "a field that is not selected counts in MO",
    );
    reach(if r == Ordering::Equal { 0 } else { 1 });
}

/// Three entries with p1 fields of up to p0 open bytes: transitivity.
#[no_mangle]
pub extern "C" fn h_c16_triples() {
    warm();
    let (f, g) = fields();
    let mut on = [false; 8];
    on[f] = true;
    on[g] = true;
    let others = flip();
    if others {
        on = [true; 8];
    }
    let mut v = Vec::new();
    for i in 0..3 {
        let mut e = POEntry::from("id");
        set(&mut e, f, NAMES[0][i], param(0));
        if f != g {
            set(&mut e, g, NAMES[1][i], param(0));
        }
        v.push(e);
    }
    let o = options(&on);
    let (ab, bc) = (v[0].cmp_by(&v[1], &o), v[1].cmp_by(&v[2], &o));
    if ab == bc || bc == Ordering::Equal {
        check(v[0].cmp_by(&v[2], &o) == ab, "not transitive");
        reach(1);
    } else if ab == Ordering::Equal {
        check(v[0].cmp_by(&v[2], &o) == bc, "not transitive");
    }
    let m: Vec<MOEntry> = v.iter().map(MOEntry::from).collect();
    let (ab, bc) = (m[0].cmp_by(&m[1], &o), m[1].cmp_by(&m[2], &o));
    if ab == bc || bc == Ordering::Equal {
        check(m[0].cmp_by(&m[2], &o) == ab, "not transitive in MO");
    } else if ab == Ordering::Equal {
        check(m[0].cmp_by(&m[2], &o) == bc, "not transitive in MO");
    }
    reach(0);
}

/// Lists of up to three words in different orders compare equal.
#[no_mangle]
pub extern "C" fn h_c16_lists() {
    warm();
    let mut w = Vec::new();
    for i in 0..3 {
        let t = ascii_upto(NAMES[0][i], param(0));
        assume(!t.contains('\0'));
        w.push(t);
    }
    let order = [[0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][pick(5)];
    let x: Vec<String> = order.iter().map(|i| w[*i].clone()).collect();
    let mut a = POEntry::from("id");
    let mut b = POEntry::from("id");
    match pick(4) {
        0 => {
            a.flags = w;
            b.flags = x;
        }
        1 => {
            a.msgstr_plural = w;
            b.msgstr_plural = x;
        }
        2 => {
            a.occurrences = w.into_iter().map(|t| (t, "1".to_string())).collect();
            b.occurrences = x.into_iter().map(|t| (t, "1".to_string())).collect();
        }
        _ => {
            a.occurrences = w.into_iter().map(|t| ("f".to_string(), t)).collect();
            b.occurrences = x.into_iter().map(|t| ("f".to_string(), t)).collect();
        }
    }
    let o = EntryCmpByOptions::new();
    check(a.cmp_by(&b, &o) == Ordering::Equal, "the order of a list counts");
    check(MOEntry::from(&a).cmp_by(&MOEntry::from(&b), &o) == Ordering::Equal, "the order of a list counts in MO");
    reach(0);
}

/// Options set by name, by the builder and all at once select the same.
#[no_mangle]
pub extern "C" fn h_c16_options() {
    warm();
    let names =
        ["msgid", "msgstr", "msgctxt", "obsolete", "occurrences", "msgid_plural", "msgstr_plural", "flags", "other"];
    let mut on = [true; 8];
    let mut by_name: Vec<(String, bool)> = Vec::new();
    let n = pick(3);
    for i in 0..n {
        let k = pick(9);
        let v = byte(["v0", "v1"][i]) & 1 == 1;
        by_name.push((names[k].to_string(), v));
        if k < 8 {
            on[k] = v;
        }
    }
    let f = pick(8);
    let mut a = POEntry::from("id");
    let mut b = POEntry::from("id");
    set(&mut a, f, "a0", 1);
    set(&mut b, f, "a1", 1);
    let r = a.cmp_by(&b, &options(&on));
    check(a.cmp_by(&b, &EntryCmpByOptions::from(&by_name)) == r, "options by name differ");
    if n == 0 {
        check(a.cmp_by(&b, &EntryCmpByOptions::default()) == r, "default options differ");
        check(a.cmp_by(&b, &EntryCmpByOptions::new().by_all(true)) == r, "all options differ");
        check(
            a.cmp_by(&b, &EntryCmpByOptions::new().by_all(false)) == Ordering::Equal,
            "entries differ in no field",
        );
    }
    if r != Ordering::Equal {
        reach(1);
    }
    reach(0);
}

/// Lists of p0 words, one of them open, that differ in their order or in one
/// word; p1 more words in the second list.
#[no_mangle]
pub extern "C" fn h_c16_long() {
    warm();
    let n = param(0);
    let mut w: Vec<String> = Vec::new();
    for i in 0..n {
        w.push(["k", "b", "x", "b", "", "kk", "c"][i % 7].to_string());
    }
    let k = [0, n / 2, n - 1][pick(3)];
    w[k] = ascii_upto("a0", 1);
    let mut x: Vec<String> = match pick(3) {
        0 => w.clone(),
        1 => w.iter().rev().cloned().collect(),
        _ => (0..n).map(|i| w[(i + n / 2) % n].clone()).collect(),
    };
    let at = x.iter().position(|t| *t == w[k]).unwrap();
    let t = ascii_upto("b0", 1);
    assume(!w[k].contains('\0') && !t.contains('\0'));
    let mut equal = t == w[k];
    x[at] = t;
    if flip() {
        x.push("k".to_string());
        equal = false;
    }
    let mut a = POEntry::from("id");
    let mut b = POEntry::from("id");
    let f = [4, 6, 7][pick(3)];
    match f {
        4 => {
            a.occurrences = w.into_iter().map(|t| (t, "1".to_string())).collect();
            b.occurrences = x.into_iter().map(|t| (t, "1".to_string())).collect();
        }
        6 => {
            a.msgstr_plural = w;
            b.msgstr_plural = x;
        }
        _ => {
            a.flags = w;
            b.flags = x;
        }
    }
    let o = EntryCmpByOptions::new();
    let r = a.cmp_by(&b, &o);
    check((r == Ordering::Equal) == equal, "equality does not follow the words");
    check(b.cmp_by(&a, &o) == r.reverse(), "not antisymmetric");
    let r = MOEntry::from(&a).cmp_by(&MOEntry::from(&b), &o);
    check((r == Ordering::Equal) == (equal || f != 6), "equality does not follow the words in MO");
    check(MOEntry::from(&b).cmp_by(&MOEntry::from(&a), &o) == r.reverse(), "not antisymmetric in MO");
    reach(0);
}

/// References that differ in the text after the file name only, up to p0
/// bytes of ASCII.
#[no_mangle]
pub extern "C" fn h_c16_references() {
    warm();
    let mut v = Vec::new();
    for name in NAMES[0] {
        let t = ascii_upto(name, param(0));
        assume(!t.contains('\0'));
        let mut e = POEntry::from("id");
        e.occurrences.push(("f".to_string(), t));
        v.push(e);
    }
    let mut on = [false; 8];
    on[4] = true;
    let ab = pair(&v[0], &v[1], &on, &[4]);
    let bc = pair(&v[1], &v[2], &on, &[4]);
    let o = options(&on);
    if ab == bc || bc == Ordering::Equal {
        check(v[0].cmp_by(&v[2], &o) == ab, "not transitive");
        reach(1);
    } else if ab == Ordering::Equal {
        check(v[0].cmp_by(&v[2], &o) == bc, "not transitive");
    }
    reach(0);
}
