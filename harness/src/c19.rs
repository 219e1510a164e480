//! Saving and loading while the file system delivers data in pieces,
//! interrupts calls or fails.

use crate::sym::*;
use rspolib::{mofile, pofile, AsBytes, MOFile, POEntry, POFile, Save, SaveAsMOFile, SaveAsPOFile};

/// p4 = k: with texts of k * 1000 bytes
fn catalogue(entries: usize) -> POFile {
    // long texts are not wrapped
    let width = if param(4) > 0 { usize::MAX } else { 78 };
    let mut po = POFile::new(("", width).into());
    for i in 0..entries {
        let mut t = String::from(["abc ", "def ", "ghi "][i]);
        t.push(byte_in(["c0", "c1", "c2"][i], b'a', b'z') as char);
        let mut e = POEntry::from(t.as_str());
        e.msgstr = Some(["ñandú", "x", "文"][i].to_string());
        if param(4) > 0 {
            e.msgstr = Some(crate::util::long([0, 3, 5][i], 1000 * param(4)));
        }
        po.entries.push(e);
    }
    po
}

fn faults() {
    io_faults(param(1) as u32, param(2) as u32, param(3) as u32);
}

/// Saves a file of p0 entries in every way; p1 short transfers, p2
/// interruptions and p3 errors at any call.
#[no_mangle]
pub extern "C" fn h_c19_save() {
    warm();
    let po = catalogue(param(0));
    let mo = MOFile::from(&po);
    let expected: Vec<u8>;
    let way = pick(5);
    // an older and longer file is replaced completely
    let old = vec![b'#'; 700];
    if flip() {
        file("/vfs/out", &old);
    }
    let path = "/vfs/out";
    match way {
        0 => {
            expected = po.to_string().into_bytes();
            faults();
            po.save(path);
        }
        1 => {
            expected = po.to_string().into_bytes();
            faults();
            po.save_as_pofile(path);
        }
        2 => {
            expected = mo.as_bytes().into_owned();
            faults();
            po.save_as_mofile(path);
        }
        3 => {
            expected = mo.as_bytes().into_owned();
            faults();
            if flip() {
                mo.save(path);
            } else {
                mo.save_as_mofile(path);
            }
        }
        _ => {
            expected = mo.to_string().into_bytes();
            faults();
            mo.save_as_pofile(path);
        }
    }
    // after an error it was tried again
    match file_content(path) {
        Some(c) => check(c == expected, "the file does not hold the content"),
        None => fail("there is no file"),
    }
    reach(0);
}

/// Loads a PO file under the same conditions.
#[no_mangle]
pub extern "C" fn h_c19_load_po() {
    warm();
    let text = catalogue(param(0)).to_string();
    let expected = pofile(text.as_str());
    file("/vfs/a.po", text.as_bytes());
    faults();
    let r = pofile("/vfs/a.po");
    if io_failed() {
        reach(1);
        if r.is_err() {
            return;
        }
    }
    crate::c18::same(&expected, &r);
    check(r.is_ok(), "the file is not read");
    reach(0);
}

/// Loads a MO file under the same conditions.
#[no_mangle]
pub extern "C" fn h_c19_load_mo() {
    warm();
    let image = if flip() { catalogue(param(0)).as_bytes_be().into_owned() } else { catalogue(param(0)).as_bytes().into_owned() };
    let expected = mofile(image.clone());
    file("/vfs/a.mo", &image);
    faults();
    let r = mofile("/vfs/a.mo");
    if io_failed() {
        reach(1);
        if r.is_err() {
            return;
        }
    }
    match (expected, r) {
        (Ok(a), Ok(b)) => {
            check(a.entries == b.entries && a.metadata == b.metadata, "the file is not read completely");
            check(b.entries.len() == param(0), "entries are missing");
        }
        _ => fail("the file is not read"),
    }
    reach(0);
}
