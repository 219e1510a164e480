//! Readable function names, from a file with "mangled<TAB>readable" lines.

use std::collections::HashMap;
use std::sync::OnceLock;

static NAMES: OnceLock<HashMap<String, String>> = OnceLock::new();

pub fn init(path: &str) {
    let mut m = HashMap::new();
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some((a, b)) = l.split_once('\t') {
                m.insert(a.to_string(), b.to_string());
            }
        }
    }
    let _ = NAMES.set(m);
}

pub fn demangle(n: &str) -> String {
    NAMES.get().and_then(|m| m.get(n).cloned()).unwrap_or_else(|| n.to_string())
}
