//! The checked properties.

use crate::engine::*;

pub mod abstraction;
pub mod chars;
pub mod context;
pub mod encoding;
pub mod errors;
pub mod escapes;
pub mod grammar;
pub mod lexer;
#[cfg(feature = "link")]
pub mod link;
pub mod nosource;
pub mod program;
pub mod relations;
pub mod reports;
pub mod structure;
pub mod totality;
pub mod values;
pub mod warnings;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(totality::properties());
    v.extend(structure::properties());
    v.extend(grammar::properties());
    v.extend(abstraction::properties());
    v.extend(lexer::properties());
    v.extend(errors::properties());
    v.extend(encoding::properties());
    v.extend(relations::properties());
    v.extend(context::properties());
    v.extend(reports::properties());
    v.extend(values::properties());
    v.extend(chars::properties());
    v.extend(warnings::properties());
    v.extend(escapes::properties());
    v.extend(program::properties());
    v.extend(nosource::properties());
    #[cfg(feature = "link")]
    v.extend(link::properties());
    v
}

pub fn fail(sig: impl Into<String>, key: &str, detail: impl Into<String>) -> Outcome {
    Outcome::Fail {
        sig: sig.into(),
        key: key.to_string(),
        detail: detail.into(),
    }
}

pub fn pass(key: &str, nontrivial: bool, labels: Vec<&'static str>) -> Outcome {
    Outcome::Pass(Report {
        key: key.to_string(),
        nontrivial,
        labels,
    })
}

/// The code under test panicked where an answer was due.
pub fn panicked(e: &str, key: &str) -> Outcome {
    fail(format!("panic: {}", strip_loc(e)), key, format!("panicked: {e}"))
}

/// Bytes rendered for reports.
pub fn show_bytes(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b {
        match x {
            b'\\' => o.push_str("\\\\"),
            0x20..=0x7e => o.push(*x as char),
            _ => o.push_str(&format!("\\x{x:02x}")),
        }
    }
    o
}

/// Byte offset of a slice of `input`.
pub fn offset_in(input: &[u8], part: &[u8]) -> Option<usize> {
    let a = input.as_ptr() as usize;
    let b = part.as_ptr() as usize;
    if b >= a && b + part.len() <= a + input.len() {
        Some(b - a)
    } else {
        None
    }
}
