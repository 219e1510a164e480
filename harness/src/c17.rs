//! Merging of a reference.

use crate::sym::*;
use crate::util::*;
use rspolib::{MOEntry, Merge, POEntry, POFile};

/// `n` entries with open messages (up to `max` bytes) and contexts (absent or
/// up to `ctx` - 1 bytes)
fn file(who: usize, n: usize, max: usize, ctx: usize) -> Vec<POEntry> {
    let ids = [["i0", "i1", "i2"], ["j0", "j1", "j2"], ["k0", "k1", "k2"]][who];
    let cs = [["c0", "c1", "c2"], ["d0", "d1", "d2"], ["e0", "e1", "e2"]][who];
    let mut v = Vec::new();
    for i in 0..n {
        let mut e = POEntry::new(10 * who + i);
        e.msgid = ascii_upto(ids[i], max);
        if ctx > 0 {
            let k = pick(ctx + 1);
            if k > 0 {
                let b = bytes(cs[i], k - 1);
                for c in &b {
                    assume(*c < 0x80);
                }
                e.msgctxt = String::from_utf8(b).ok();
            }
        }
        e.tcomment = Some([["a", "b", "c"], ["x", "y", "z"], ["p", "q", "r"]][who][i].to_string());
        v.push(e);
    }
    v
}

/// Fields other than message and context, of two kinds.
fn fill(e: &mut POEntry, kind: usize) {
    let s = |t: &str| Some(t.to_string());
    match kind {
        0 => e.msgstr = s("text"),
        _ => {
            e.msgid_plural = s("many");
            e.msgstr_plural = vec!["one".to_string(), "two".to_string()];
            e.comment = s("comment");
            e.flags = vec!["fuzzy".to_string(), "c-format".to_string()];
            e.occurrences = vec![("f.c".to_string(), "7".to_string())];
            e.previous_msgid = s("before");
            e.previous_msgctxt = s("context before");
            e.previous_msgid_plural = s("many before");
        }
    }
}

/// What one merge has to do, stated on the files before and after.
fn merged(before: &[POEntry], reference: &[POEntry], after: &[POEntry]) {
    check(after.len() >= before.len(), "an entry is lost");
    let in_reference = |e: &POEntry| reference.iter().any(|r| r.msgid == e.msgid);
    for (b, a) in before.iter().zip(after.iter()) {
        let mut expected = b.clone();
        expected.obsolete = b.obsolete || !in_reference(b);
        check(*a == expected, "an entry that was there is not kept, moved or wrongly marked");
        if a.obsolete && !b.obsolete {
            reach(1);
        }
    }
    // what is added are the missing reference entries, each once
    let mut added: Vec<&POEntry> = Vec::new();
    for r in reference {
        let same = |e: &&POEntry| e.msgid == r.msgid && e.msgctxt == r.msgctxt;
        if before.iter().find(same).is_none() && added.iter().find(|e| same(e)).is_none() {
            added.push(r);
        }
    }
    let new = &after[before.len()..];
    check(new.len() == added.len(), "not the missing entries are added");
    for (a, r) in new.iter().zip(added.iter()) {
        check(*a == **r, "an added entry differs from the reference");
        reach(2);
    }
}

/// p0 entries merged with p1 ones, messages of up to p2 bytes and contexts
/// absent or of up to p3 - 1 bytes.
#[no_mangle]
pub extern "C" fn h_c17() {
    warm();
    let mut po = POFile::new("".into());
    po.entries = file(0, param(0), param(2), param(3));
    let mut reference = POFile::new("".into());
    reference.entries = file(1, param(1), param(2), param(3));
    let k = pick(2);
    for e in po.entries.iter_mut() {
        e.obsolete = flip();
        fill(e, k);
    }
    for e in reference.entries.iter_mut() {
        fill(e, 1 - k);
    }
    if let Some(e) = reference.entries.first_mut() {
        e.obsolete = flip();
    }
    po.metadata.insert("Language".to_string(), "es".to_string());
    po.header = Some("header".to_string());
    let before = po.clone();
    po.merge(reference.clone());
    merged(&before.entries, &reference.entries, &po.entries);
    check(po.metadata == before.metadata && po.header == before.header, "metadata or header changed");
    reach(0);
}

/// Two merges, the second with the same or another reference of one entry.
#[no_mangle]
pub extern "C" fn h_c17_again() {
    warm();
    let mut po = POFile::new("".into());
    po.entries = file(0, param(0), param(2), param(3));
    for e in po.entries.iter_mut() {
        fill(e, 0);
    }
    let mut reference = POFile::new("".into());
    reference.entries = file(1, param(1), param(2), param(3));
    for e in reference.entries.iter_mut() {
        fill(e, 1);
    }
    let first = po.entries.clone();
    po.merge(reference.clone());
    merged(&first, &reference.entries, &po.entries);
    let second = po.entries.clone();
    if flip() {
        po.merge(reference.clone());
        check(po.entries == second, "a second merge of the same reference changes something");
    } else {
        let mut other = POFile::new("".into());
        other.entries = file(2, 1, param(2), param(3));
        po.merge(other.clone());
        merged(&second, &other.entries, &po.entries);
    }
    reach(0);
}

/// An entry merged with another takes all its fields.
#[no_mangle]
pub extern "C" fn h_c17_entry() {
    warm();
    let t = text_of(param(1), "text", param(0));
    let mut a = crate::c03::entry_with(pick(6), "old".to_string());
    let mut b = crate::c03::entry_with(pick(6), t);
    let k = pick(3);
    if k < 2 {
        fill(&mut a, k);
        a.comment = Some("old".to_string());
        a.tcomment = Some("old".to_string());
    }
    let k = pick(3);
    if k < 2 {
        fill(&mut b, k);
    }
    b.obsolete = flip();
    let mut m = MOEntry::from(&a);
    let n = MOEntry::from(&b);
    a.merge(b.clone());
    check(a == b, "a field is not merged");
    m.merge(n.clone());
    check_mo_texts(&m, &n);
    check(m == n, "a field is not merged in MO");
    reach(0);
}

/// p0 entries merged with as many, one open on each side.
#[no_mangle]
pub extern "C" fn h_c17_many() {
    warm();
    let n = param(0);
    let mut po = POFile::new("".into());
    let mut reference = POFile::new("".into());
    let k = [0, n / 2, n - 1][pick(3)];
    let l = [0, n / 2, n - 1][pick(3)];
    for i in 0..n {
        let mut e = crate::c05::fixed(i % 8);
        e.msgid.push_str(&crate::util::nth(i));
        if i == k {
            e.msgid = file(0, 1, 1, 0).remove(0).msgid;
            e.obsolete = flip();
        }
        po.entries.push(e);
        let mut r = crate::c05::fixed((i + 4) % 8);
        r.obsolete = false;
        r.msgid.push_str(&crate::util::nth(2 * (n - i)));
        if i == l {
            let o = file(1, 1, 1, 2).remove(0);
            r.msgid = o.msgid;
            r.msgctxt = o.msgctxt;
        }
        reference.entries.push(r);
    }
    let before = po.entries.clone();
    po.merge(reference.clone());
    merged(&before, &reference.entries, &po.entries);
    let second = po.entries.clone();
    po.merge(reference);
    check(po.entries == second, "a second merge of the same reference changes something");
    reach(0);
}
