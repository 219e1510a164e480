//! Searches, views and removals.

use crate::sym::*;
use crate::util::*;
use rspolib::{MOEntry, MOFile, POEntry, POFile};

const MARKS: [&str; 4] = ["w", "x", "y", "z"];
const FIELDS: [&str; 9] = [
    "msgid",
    "msgstr",
    "msgctxt",
    "msgid_plural",
    "previous_msgid",
    "previous_msgid_plural",
    "previous_msgctxt",
    "comment",
    "",
];

/// absent or up to `max` bytes of UTF-8
fn maybe(name: &str, max: usize) -> Option<String> {
    let n = pick(max + 2);
    if n == 0 {
        None
    } else {
        Some(text(name, n - 1))
    }
}

fn field<'a>(e: &'a POEntry, by: usize) -> Option<&'a str> {
    match by {
        0 => Some(&e.msgid),
        1 => Some(or_empty(&e.msgstr)),
        2 => Some(or_empty(&e.msgctxt)),
        3 => Some(or_empty(&e.msgid_plural)),
        4 => Some(or_empty(&e.previous_msgid)),
        5 => Some(or_empty(&e.previous_msgid_plural)),
        6 => Some(or_empty(&e.previous_msgctxt)),
        _ => None,
    }
}

/// Entries whose field `by` and context are open.
fn entries(n: usize, by: usize, max: usize, context: usize) -> Vec<POEntry> {
    let mut v = Vec::new();
    for i in 0..n {
        let mut e = POEntry::new(i);
        // other fields hold values a search could find by mistake
        e.msgid = "a".to_string();
        e.msgstr = Some("a".to_string());
        e.msgid_plural = Some("a".to_string());
        e.previous_msgid = Some("a".to_string());
        e.previous_msgid_plural = Some("a".to_string());
        e.previous_msgctxt = Some("a".to_string());
        e.tcomment = Some(MARKS[i].to_string());
        e.comment = Some("a".to_string());
        if context > 0 {
            e.msgctxt = maybe(["ctx0", "ctx1", "ctx2", "ctx3"][i], context - 1);
        }
        let t = maybe(["val0", "val1", "val2", "val3"][i], max);
        match by {
            0 => e.msgid = or_empty(&t).to_string(),
            1 => e.msgstr = t,
            2 => e.msgctxt = t,
            3 => e.msgid_plural = t,
            4 => e.previous_msgid = t,
            5 => e.previous_msgid_plural = t,
            6 => e.previous_msgctxt = t,
            _ => {}
        }
        v.push(e);
    }
    v
}

fn marks<'a>(v: impl Iterator<Item = &'a POEntry>) -> String {
    let mut s = String::new();
    for e in v {
        s.push_str(or_empty(&e.tcomment));
    }
    s
}

/// p0 entries; the searched field and the value with up to p1 bytes of UTF-8,
/// contexts with up to p2 - 1 bytes.
#[no_mangle]
pub extern "C" fn h_c15_find() {
    warm();
    let by = pick(FIELDS.len());
    let mut po = POFile::new("".into());
    po.entries = entries(param(0), by, param(1), param(2));
    for e in po.entries.iter_mut() {
        e.obsolete = flip();
    }
    let value = text_upto("value", param(1));
    let ctx = if param(2) > 0 { maybe("ctx", param(2) - 1) } else { None };
    let all = flip();
    let found = po.find(&value, FIELDS[by], ctx.as_deref(), all);
    let mut expected = String::new();
    for e in &po.entries {
        let hit = field(e, by) == Some(value.as_str())
            && (all || !e.obsolete)
            && match &ctx {
                Some(c) => or_empty(&e.msgctxt) == c,
                None => true,
            };
        if hit {
            expected.push_str(or_empty(&e.tcomment));
        }
    }
    let got = marks(found.iter().copied());
    check(got == expected, "other entries than the matching ones in order");
    for e in &found {
        check(po.entries.iter().any(|x| x == *e), "an entry is changed by the search");
    }
    emit(got.as_bytes());
    reach(if got.is_empty() { 0 } else { 1 });
}

/// The same for MO files.
#[no_mangle]
pub extern "C" fn h_c15_find_mo() {
    warm();
    let by = [0, 1, 2, 3, 4, 8][pick(6)];
    let source = entries(param(0), by, param(1), param(2));
    let mut mo = MOFile::new("".into());
    for (i, e) in source.iter().enumerate() {
        let mut m = MOEntry::from(e);
        m.msgstr_plural.push(MARKS[i].to_string());
        mo.entries.push(m);
    }
    let value = text_upto("value", param(1));
    let ctx = if param(2) > 0 { maybe("ctx", param(2) - 1) } else { None };
    let found = mo.find(&value, FIELDS[by], ctx.as_deref());
    let mut expected = String::new();
    for e in &source {
        let hit = by < 4
            && field(e, by) == Some(value.as_str())
            && match &ctx {
                Some(c) => or_empty(&e.msgctxt) == c,
                None => true,
            };
        if hit {
            expected.push_str(or_empty(&e.tcomment));
        }
    }
    let mut got = String::new();
    for e in &found {
        got.push_str(&e.msgstr_plural[0]);
    }
    check(got == expected, "other entries than the matching ones in order");
    emit(got.as_bytes());
    reach(if got.is_empty() { 0 } else { 1 });
}

/// Searches for one entry: p0 entries, messages of up to p1 and contexts of
/// up to p2 - 1 bytes.
#[no_mangle]
pub extern "C" fn h_c15_first() {
    warm();
    let mut po = POFile::new("".into());
    po.entries = entries(param(0), 0, param(1), param(2));
    let mut mo = MOFile::new("".into());
    for (i, e) in po.entries.iter_mut().enumerate() {
        e.obsolete = flip();
        let mut m = MOEntry::from(&*e);
        m.msgstr_plural.push(MARKS[i].to_string());
        mo.entries.push(m);
    }
    let value = text_upto("value", param(1));
    let first = po.entries.iter().find(|e| e.msgid == value);
    check(po.find_by_msgid(&value).as_ref() == first, "not the first entry with the message");
    let got = mo.find_by_msgid(&value).map(|m| m.msgstr_plural[0].as_str());
    check(got == first.map(|e| or_empty(&e.tcomment)), "not the first entry with the message in MO");
    if first.is_some() {
        reach(1);
    }
    let ctx = text_upto("ctx", if param(2) > 0 { param(2) - 1 } else { 0 });
    let first = po.entries.iter().find(|e| e.msgid == value && or_empty(&e.msgctxt) == ctx);
    check(
        po.find_by_msgid_msgctxt(&value, &ctx).as_ref() == first,
        "not the first entry with the message and context",
    );
    let got = mo.find_by_msgid_msgctxt(&value, &ctx).map(|m| m.msgstr_plural[0].as_str());
    // without a context and with an empty one are different keys in MO
    let strict = po.entries.iter().find(|e| e.msgid == value && e.msgctxt.as_deref() == Some(ctx.as_str()));
    check(
        got == strict.map(|e| or_empty(&e.tcomment)) || got == first.map(|e| or_empty(&e.tcomment)),
        "not the first entry with the message and context in MO",
    );
    if first.is_some() {
        reach(2);
    }
    reach(0);
}

/// Views and the percentage: p0 entries, up to p1 plural forms.
#[no_mangle]
pub extern "C" fn h_c15_views() {
    warm();
    let mut po = POFile::new("".into());
    let n = pick(param(0) + 1);
    for i in 0..n {
        let mut e = crate::c12::any_entry(i, param(1));
        e.tcomment = Some(MARKS[i].to_string());
        po.entries.push(e);
    }
    let all = &po.entries;
    let fuzzy = |e: &&POEntry| e.flags.iter().any(|f| f == "fuzzy") && !e.obsolete;
    let t = marks(po.translated_entries().into_iter());
    check(t == marks(all.iter().filter(|e| crate::c12::complete(e))), "translated entries");
    let u = marks(po.untranslated_entries().into_iter());
    check(u == marks(all.iter().filter(|e| !crate::c12::complete(e))), "untranslated entries");
    let o = marks(po.obsolete_entries().into_iter());
    check(o == marks(all.iter().filter(|e| e.obsolete)), "obsolete entries");
    let f = marks(po.fuzzy_entries().into_iter());
    check(f == marks(all.iter().filter(fuzzy)), "fuzzy entries");
    let p = po.percent_translated();
    check(p >= 0.0 && p <= 100.0, "percentage out of range");
    let k = t.len();
    if k == 0 {
        check(p == 0.0, "percentage of nothing");
    } else {
        let d = p * n as f32 - 100.0 * k as f32;
        check(d < 0.01 && d > -0.01, "wrong percentage");
        reach(1);
    }
    emit(t.as_bytes());
    emit(f.as_bytes());
    reach(0);
}

/// What a removal leaves: `hits` says which entries match.
fn left(before: usize, hits: &[bool], after: &[usize]) {
    let mut at = 0;
    let mut first = true;
    for i in 0..before {
        let kept = at < after.len() && after[at] == i;
        if kept {
            at += 1;
        } else {
            check(hits[i], "an entry that does not match is removed");
        }
        if hits[i] && first {
            first = false;
            check(!kept, "the first matching entry is not removed");
        }
    }
    check(at == after.len(), "entries are in another order");
    reach(if first { 0 } else { 1 });
}

/// Removals: p0 entries, messages of up to p1 and contexts of up to p2 - 1
/// bytes.
#[no_mangle]
pub extern "C" fn h_c15_remove() {
    warm();
    let n = param(0);
    let mut po = POFile::new("".into());
    po.entries = entries(n, 0, param(1), param(2));
    let mut mo = MOFile::new("".into());
    for (i, e) in po.entries.iter_mut().enumerate() {
        e.obsolete = flip();
        let mut m = MOEntry::from(&*e);
        m.msgstr_plural.push(MARKS[i].to_string());
        mo.entries.push(m);
    }
    let before = po.entries.clone();
    let value = text_upto("value", param(1));
    let hits: Vec<bool> = match pick(3) {
        0 => {
            po.remove_by_msgid(&value);
            mo.remove_by_msgid(&value);
            before.iter().map(|e| e.msgid == value).collect()
        }
        1 => {
            let ctx = text_upto("ctx", if param(2) > 0 { param(2) - 1 } else { 0 });
            po.remove_by_msgid_msgctxt(&value, &ctx);
            mo.remove_by_msgid_msgctxt(&value, &ctx);
            before.iter().map(|e| e.msgid == value && or_empty(&e.msgctxt) == ctx).collect()
        }
        _ => {
            let k = pick(n);
            po.remove(&before[k]);
            let m = mo.entries[k].clone();
            mo.remove(&m);
            (0..n).map(|i| i == k).collect()
        }
    };
    let after: Vec<usize> = po.entries.iter().map(|e| MARKS.iter().position(|m| *m == or_empty(&e.tcomment)).unwrap()).collect();
    left(n, &hits, &after);
    for (i, k) in after.iter().enumerate() {
        check(po.entries[i] == before[*k], "an entry that stays is changed");
    }
    let after: Vec<usize> = mo.entries.iter().map(|e| MARKS.iter().position(|m| *m == e.msgstr_plural[0]).unwrap()).collect();
    left(n, &hits, &after);
}

/// Removal of an entry that occurs twice and of one that is not there.
#[no_mangle]
pub extern "C" fn h_c15_equal() {
    warm();
    let mut v = Vec::new();
    for i in 0..3 {
        let mut e = POEntry::new(0);
        e.msgid = text_upto(["id0", "id1", "id2"][i], param(0));
        e.msgstr = maybe(["str0", "str1", "str2"][i], param(0));
        e.obsolete = flip();
        v.push(e);
    }
    let target = v.pop().unwrap();
    let mut po = POFile::new("".into());
    po.entries = v.clone();
    po.remove(&target);
    let same = |a: &POEntry| a.msgid == target.msgid && a.msgstr == target.msgstr && a.obsolete == target.obsolete;
    let rest: Vec<POEntry> = v.iter().filter(|e| !same(e)).cloned().collect();
    if v.iter().filter(|e| same(e)).count() < 2 {
        check(po.entries == rest, "other entries are removed");
    } else {
        check(po.entries.len() < 2, "an entry is not removed");
    }
    reach(0);
}

/// A history of p0 additions, removals and searches.
#[no_mangle]
pub extern "C" fn h_c15_history() {
    warm();
    let mut po = POFile::new("".into());
    let mut model: Vec<(String, Option<String>)> = Vec::new();
    for i in 0..param(0) {
        let id = text_upto(["id0", "id1", "id2", "id3", "id4"][i], 1);
        match pick(4) {
            0 | 1 => {
                let mut e = POEntry::from(id.as_str());
                e.msgctxt = if flip() { Some("c".to_string()) } else { None };
                model.push((id, e.msgctxt.clone()));
                po.entries.push(e);
            }
            2 => {
                assume(model.iter().filter(|m| m.0 == id).count() < 2);
                model.retain(|m| m.0 != id);
                po.remove_by_msgid(&id);
            }
            _ => {
                assume(model.iter().filter(|m| m.0 == id && m.1.is_some()).count() < 2);
                model.retain(|m| m.0 != id || m.1.is_none());
                po.remove_by_msgid_msgctxt(&id, "c");
            }
        }
        check(po.entries.len() == model.len(), "number of entries");
        for (e, m) in po.entries.iter().zip(model.iter()) {
            check(e.msgid == m.0 && e.msgctxt == m.1, "other entries");
        }
    }
    if model.len() > 1 {
        let id = model[1].0.clone();
        let n = model.iter().filter(|m| m.0 == id).count();
        check(po.find(&id, "msgid", None, true).len() == n, "entries found");
        reach(1);
    }
    reach(0);
}

/// p0 entries, one of them and the searched value open.
#[no_mangle]
pub extern "C" fn h_c15_many() {
    warm();
    let n = param(0);
    let k = [0, n / 2, n - 1][pick(3)];
    let mut po = POFile::new("".into());
    let mut mo = MOFile::new("".into());
    for i in 0..n {
        let mut e = if i == k { crate::c12::any_entry(0, 1) } else { crate::c05::fixed(i * 3 % 8) };
        e.msgid = if i == k { text_upto("id", 1) } else { ["a", "b", "", "ab", "c"][i % 5].to_string() };
        e.linenum = i;
        let mut m = MOEntry::from(&e);
        m.msgstr_plural = vec!["x".repeat(i)];
        mo.entries.push(m);
        po.entries.push(e);
    }
    let value = text_upto("value", 1);
    let ids = |v: Vec<&POEntry>| v.iter().map(|e| e.linenum).collect::<Vec<usize>>();
    let all = flip();
    let want = ids(po.entries.iter().filter(|e| e.msgid == value && (all || !e.obsolete)).collect());
    check(ids(po.find(&value, "msgid", None, all)) == want, "other entries than the matching ones in order");
    let first = po.entries.iter().find(|e| e.msgid == value);
    check(po.find_by_msgid(&value).as_ref() == first, "not the first entry with the message");
    let want: Vec<usize> = (0..n).filter(|i| po.entries[*i].msgid == value).collect();
    let got: Vec<usize> = mo.find(&value, "msgid", None).iter().map(|e| e.msgstr_plural[0].len()).collect();
    check(got == want, "other entries than the matching ones in order in MO");
    let done = ids(po.entries.iter().filter(|e| crate::c12::complete(e)).collect());
    check(ids(po.translated_entries()) == done, "translated entries");
    let open = ids(po.entries.iter().filter(|e| !crate::c12::complete(e)).collect());
    check(ids(po.untranslated_entries()) == open, "untranslated entries");
    let old = ids(po.entries.iter().filter(|e| e.obsolete).collect());
    check(ids(po.obsolete_entries()) == old, "obsolete entries");
    let fuzzy = ids(po.entries.iter().filter(|e| !e.obsolete && e.flags.iter().any(|f| f == "fuzzy")).collect());
    check(ids(po.fuzzy_entries()) == fuzzy, "fuzzy entries");
    let d = po.percent_translated() * n as f32 - 100.0 * done.len() as f32;
    check(d < 0.01 && d > -0.01, "wrong percentage");
    let before = po.entries.clone();
    let hits: Vec<bool> = before.iter().map(|e| e.msgid == value).collect();
    po.remove_by_msgid(&value);
    left(n, &hits, &ids(po.entries.iter().collect()));
    mo.remove_by_msgid(&value);
    left(n, &hits, &mo.entries.iter().map(|e| e.msgstr_plural[0].len()).collect::<Vec<usize>>());
    reach(2);
}
