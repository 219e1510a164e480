//! Simple versions of standard library searches; the executor runs these in
//! place of the vectorised ones.

#[no_mangle]
pub fn m_memchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < text.len() {
        if text[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}

#[no_mangle]
pub fn m_memrchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = text.len();
    while i > 0 {
        i -= 1;
        if text[i] == x {
            return Some(i);
        }
    }
    None
}

#[no_mangle]
pub fn m_count_chars(s: &str) -> usize {
    let mut n = 0;
    for b in s.as_bytes() {
        n += ((*b as i8) >= -64) as usize;
    }
    n
}
