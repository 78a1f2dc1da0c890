//! Reads texts and options from standard input and writes what the parser
//! makes of each, until the input ends.

#[allow(dead_code)]
#[path = "../../harness/src/tree.rs"]
mod tree;
#[path = "../../harness/src/view.rs"]
mod view;

use std::io::{Read, Write};
use wolfram_parser::{EncodingMode, FirstLineBehavior, ParseOptions, QuirkSettings};

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(serve).unwrap();
    let _ = t.join();
}

fn serve() {
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut head = [0u8; 12];
    while i.read_exact(&mut head).is_ok() {
        let len = u32::from_le_bytes(head[..4].try_into().unwrap()) as usize;
        let tab = u32::from_le_bytes(head[4..8].try_into().unwrap());
        let mut text = vec![0; len];
        if i.read_exact(&mut text).is_err() {
            break;
        }
        let p = ParseOptions::make(
            match head[8] {
                0 => FirstLineBehavior::NotScript,
                1 => FirstLineBehavior::Check,
                _ => FirstLineBehavior::Script,
            },
            if head[9] == 0 {
                wolfram_parser::source::SourceConvention::LineColumn
            } else {
                wolfram_parser::source::SourceConvention::CharacterIndex
            },
            if head[10] == 0 { EncodingMode::Normal } else { EncodingMode::Box },
            tab,
            QuirkSettings {
                infix_binary_at: head[11] & 1 != 0,
                flatten_times: head[11] & 2 != 0,
                old_at_at_at: head[11] & 4 != 0,
            },
        );
        let a = match std::panic::catch_unwind(|| view::view(&text, &p)) {
            Ok(v) => v.join("\0"),
            Err(_) => "panicked".into(),
        };
        o.write_all(&(a.len() as u32).to_le_bytes()).unwrap();
        o.write_all(a.as_bytes()).unwrap();
        o.flush().unwrap();
    }
}
