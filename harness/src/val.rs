//! Concrete runs over the data files of the repository's tests, to compare
//! the executor with the compiled program (tools/validate.sh).

use crate::sym::*;
use rspolib::{AsBytes, MOFile};

include!(env!("VERIF_TESTDATA"));

#[no_mangle]
pub extern "C" fn h_val() {
    warm();
    let (name, data) = FILES[param(0)];
    if name.ends_with(".mo") {
        match rspolib::mofile(data.to_vec()) {
            Ok(f) => {
                emit(f.to_string().as_bytes());
                emit(&f.as_bytes());
                emit(&f.as_bytes_be());
            }
            Err(e) => emit(e.to_string().as_bytes()),
        }
    } else {
        match rspolib::pofile(data.to_vec()) {
            Ok(mut f) => {
                emit(f.to_string().as_bytes());
                f.options.wrapwidth = 31;
                emit(f.to_string().as_bytes());
                emit(&MOFile::from(&f).as_bytes());
            }
            Err(e) => emit(e.to_string().as_bytes()),
        }
    }
    reach(0);
}
