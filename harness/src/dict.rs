//! Texts and numbers written in the library's own source: inputs that mean something to it.
//! They only steer what is tried, never what is accepted.
use crate::rng::Rng;
use serde_json::Value;
use std::sync::OnceLock;

#[derive(Default)]
struct Dict {
    words: Vec<String>,
    /// those not in the source the machinery was made for
    new_words: Vec<String>,
    new_numbers: Vec<usize>,
}
static DICT: OnceLock<Dict> = OnceLock::new();

pub fn read(path: &str) {
    let Ok(text) = std::fs::read_to_string(path) else { return };
    let v: Value = serde_json::from_str(&text).expect("dictionary");
    let words = |k: &str| -> Vec<String> { v[k].as_array().map_or_else(Vec::new, |a| a.iter().filter_map(|s| s.as_str()).map(str::to_string).collect()) };
    let d = Dict {
        words: words("words"),
        new_words: words("new_words"),
        new_numbers: v["new_numbers"].as_array().map_or_else(Vec::new, |a| a.iter().filter_map(|n| n.as_u64()).map(|n| n as usize).collect()),
    };
    let _ = DICT.set(d);
}
fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

/// A text of the source.
pub fn word(r: &mut Rng) -> Option<String> {
    let d = dict();
    if !d.new_words.is_empty() && !r.one_in(3) {
        Some(r.pick(&d.new_words).clone())
    } else if !d.words.is_empty() {
        Some(r.pick(&d.words).clone())
    } else {
        None
    }
}
/// Is there a text worth trying often?
pub fn news() -> bool {
    !dict().new_words.is_empty()
}
/// A number around one that is new in the source.
pub fn number(r: &mut Rng, lo: usize, hi: usize) -> Option<usize> {
    let fit: Vec<usize> = dict().new_numbers.iter().flat_map(|n| [n.saturating_sub(1), *n, n + 1]).filter(|n| (lo..=hi).contains(n)).collect();
    if fit.is_empty() {
        None
    } else {
        Some(*r.pick(&fit))
    }
}
/// Between lo and hi as a rule; sometimes around a number of the source, up to cap.
pub fn range(r: &mut Rng, lo: usize, hi: usize, cap: usize) -> usize {
    if !dict().new_numbers.is_empty() && r.one_in(5) {
        if let Some(n) = number(r, lo, cap) {
            return n;
        }
    }
    r.range(lo, hi)
}
