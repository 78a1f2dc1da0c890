//! P09: bytes and characters.

use super::*;
use crate::opts;
use crate::textgen::{self, any_bytes, any_text, TextCfg, BAD_BYTES};
use crate::tree::{self, span_str, Pos};
use wolfram_parser::source::SourceCharacter as S;
use wolfram_parser::UnsafeCharacterEncoding as U;
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P09",
        assumptions: &["UTF-8 as defined by Unicode; a malformed sequence ends before the first byte that cannot continue it"],
        subs: vec![
            Sub {
                name: "characters",
                quick: 1_000_000,
                thorough: 10_000_000,
                rule: "random text with byte order marks and all line endings; the source character iterator against the characters of the text; non-trivial: at least one character beyond ASCII",
                f: characters,
            },
            Sub {
                name: "flag",
                quick: 120_000,
                thorough: 5_000_000,
                rule: "random bytes, mostly text with malformed sequences inserted; every entry point reports unsafe encoding exactly when the bytes are not UTF-8 or hold a byte order mark, with a kind that occurs, and one fatal issue per malformed sequence at its position; non-trivial: at least one malformed sequence",
                f: flag,
            },
            Sub {
                name: "containment",
                quick: 120_000,
                thorough: 5_000_000,
                rule: "random bytes with malformed sequences, and the text with each malformed sequence replaced by one invalid character; token kinds, spans and tree shape agree; non-trivial: at least one malformed sequence",
                f: containment,
            },
        ],
    }]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Unit {
    Char(char),
    Bad(U),
}

/// Decode bytes one unit at a time: a character, or as many bytes of one as
/// there are.
fn units(b: &[u8]) -> Vec<(Unit, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let lead = b[i];
        let (n, lo, hi) = match lead {
            0..=0x7f => (1, 0, 0),
            0xc2..=0xdf => (2, 0x80, 0xbf),
            0xe0 => (3, 0xa0, 0xbf),
            0xe1..=0xef => (3, 0x80, 0xbf),
            0xf0 => (4, 0x90, 0xbf),
            0xf1..=0xf3 => (4, 0x80, 0xbf),
            0xf4 => (4, 0x80, 0x8f),
            _ => (0, 0, 0),
        };
        let mut k = 1;
        while k < n {
            let (lo, hi) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
            match b.get(i + k) {
                Some(x) if (lo..=hi).contains(x) => k += 1,
                _ => break,
            }
        }
        let u = if n == 0 || k < n {
            Unit::Bad(U::IncompleteUTF8Sequence)
        } else {
            match std::str::from_utf8(&b[i..i + n]) {
                Ok("\u{feff}") => Unit::Bad(U::BOM),
                Ok(t) => Unit::Char(t.chars().next().unwrap()),
                Err(_) => Unit::Bad(U::StraySurrogate),
            }
        };
        v.push((u, k));
        i += k;
    }
    v
}

fn characters(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let text = if s.chance(1, 3) {
        any_text(s, TextCfg::default())
    } else {
        let n = s.below(40) + 1;
        let mut t = String::new();
        for _ in 0..n {
            if s.chance(1, 12) {
                t.push_str(s.ps(&["\u{feff}", "\r\n", "\r", "\n\r", "\u{10ffff}", "\u{fffe}", "\u{ffff}", "\0", "\x7f"]));
            } else {
                t.push(textgen::any_char(s));
            }
        }
        t
    };
    let key = format!("{} {:?}", o.show(), text);
    let mut want = vec![];
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        want.push(match c {
            '\r' if it.peek() == Some(&'\n') => {
                it.next();
                S::CRLF
            },
            '\u{feff}' => S::Unsafe3ByteUtf8Sequence,
            c => S::Char(c),
        });
    }
    let popts = o.make();
    let got: Vec<S> = match guard(|| iter::source_chars(&text, &popts).collect()) {
        Ok(v) => v,
        Err(e) => return fail(format!("panic {}", strip_loc(&e)), &key, e),
    };
    if got != want {
        let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
        return fail(
            "source characters",
            &key,
            format!("character {i} is {:?}, should be {:?}", got.get(i), want.get(i)),
        );
    }
    pass(&key, !text.is_ascii(), vec![])
}

fn bytes(s: &mut Src) -> Vec<u8> {
    match s.below(8) {
        0 => {
            // pieces of sequences, any order
            let n = s.below(10) + 1;
            let mut b = vec![];
            for _ in 0..n {
                match s.below(3) {
                    0 => b.push(s.below(256) as u8),
                    1 => b.extend_from_slice(*s.pick(BAD_BYTES)),
                    _ => b.extend_from_slice(s.ps(&["a", "+", "\"", " ", "\n", "\u{e9}", "\u{20ac}", "\u{1f600}", "["]).as_bytes()),
                }
            }
            b
        },
        1 => {
            // a valid sequence with one byte changed or removed
            let mut b = s.ps(&["a\u{e9}b", "\u{20ac}", "x+\u{1f600}", "\"\u{20ac}\"", "(*\u{1f600}*)", "\u{800}\u{7ff}", "\u{d7ff}\u{e000}", "\u{10000}\u{10ffff}"]).as_bytes().to_vec();
            let i = s.below(b.len() as u32) as usize;
            match s.below(3) {
                0 => {
                    b.remove(i);
                },
                1 => b[i] = s.below(256) as u8,
                _ => b.truncate(i + 1),
            }
            b
        },
        _ => any_bytes(s, TextCfg { max_frags: 12 }),
    }
}

/// The text with every malformed sequence replaced by BEL, which is not a
/// character of the language either.
fn sanitize(us: &[(Unit, usize)]) -> String {
    us.iter()
        .map(|(u, _)| match u {
            Unit::Char(c) => *c,
            Unit::Bad(_) => '\x07',
        })
        .collect()
}

fn flag(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let b = bytes(s);
    let key = format!("{} {}", o.show(), show_bytes(&b));
    let us = units(&b);
    let kinds: Vec<U> = us
        .iter()
        .filter_map(|u| match u.0 {
            Unit::Bad(k) => Some(k),
            _ => None,
        })
        .collect();
    let popts = o.make();
    let (safe, toks, parsed) = {
        let safe = safe_string(&b, &popts).map(|t| t.as_bytes().as_ptr() as usize);
        let toks = tokenize_bytes(&b, &popts).map(|NodeSeq(v)| v.len());
        let cst = parse_bytes_cst_seq(&b, &popts);
        let ast = parse_bytes_ast_seq(&b, &popts);
        (
            safe,
            toks,
            [
                (cst.unsafe_character_encoding, cst.fatal_issues, cst.non_fatal_issues),
                (ast.unsafe_character_encoding, ast.fatal_issues, ast.non_fatal_issues),
            ],
        )
    };
    let want = |got: Option<U>| match got {
        None => kinds.is_empty(),
        Some(k) => kinds.contains(&k),
    };
    let valid = std::str::from_utf8(&b).is_ok() && !String::from_utf8_lossy(&b).contains('\u{feff}');
    if valid != kinds.is_empty() {
        return Outcome::Discard("the oracle disagrees with the standard library");
    }
    let mut answers = vec![
        ("safe_string", safe.as_ref().err().copied()),
        ("tokenize_bytes", toks.as_ref().err().copied()),
    ];
    answers.push(("parse_bytes_cst_seq", parsed[0].0));
    answers.push(("parse_bytes_ast_seq", parsed[1].0));
    for (n, a) in answers {
        if !want(a) {
            return fail(
                format!("{n} encoding flag"),
                &key,
                format!("{n} says {a:?}; the input has {kinds:?}"),
            );
        }
    }
    if let Ok(p) = safe {
        if p != b.as_ptr() as usize {
            return fail("safe_string copies", &key, "");
        }
    }
    // one fatal issue for each, where it is
    let pos = Pos::new(&sanitize(&us), o.tab);
    let mut wanted = vec![];
    let mut off = 0;
    for (u, _) in &us {
        let len = match u {
            Unit::Char(c) => c.len_utf8(),
            _ => 1,
        };
        if let Unit::Bad(k) = u {
            wanted.push(format!("{} {}", tag_of(*k), pos.span(off, off + len, o.conv)));
        }
        off += len;
    }
    for (_, fatal, non) in &parsed {
        let got: Vec<String> = fatal
            .iter()
            .map(|i| (format!("{:?}", i.tag), i))
            .filter(|(t, _)| is_encoding(t))
            .map(|(t, i)| format!("{t} {}", tree::source_str(&i.src)))
            .collect();
        if non.iter().any(|i| is_encoding(&format!("{:?}", i.tag))) {
            return fail("encoding issue is not fatal", &key, "");
        }
        for g in &got {
            if !wanted.contains(g) {
                return fail("encoding issue misplaced", &key, format!("{g}; the input has {wanted:?}"));
            }
        }
        if fatal.len() < 10 {
            for w in &wanted {
                if !got.contains(w) {
                    return fail("encoding issue missing", &key, format!("{w}; issues {got:?}"));
                }
            }
        }
    }
    pass(&key, !kinds.is_empty(), vec![])
}

fn tag_of(k: U) -> &'static str {
    match k {
        U::IncompleteUTF8Sequence => "IncompleteUTF8Sequence",
        U::StraySurrogate => "StraySurrogate",
        U::BOM => "BOM",
    }
}
fn is_encoding(t: &str) -> bool {
    matches!(t, "IncompleteUTF8Sequence" | "StraySurrogate" | "BOM")
}

fn containment(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let b = bytes(s);
    let key = format!("{} {}", o.show(), show_bytes(&b));
    let us = units(&b);
    let bad = us.iter().filter(|u| matches!(u.0, Unit::Bad(_))).count();
    let t = sanitize(&us);
    let popts = o.make();
    let (x, y) = {
        let NodeSeq(x) = parse_bytes_cst_seq(&b, &popts).syntax;
        let NodeSeq(y) = parse_cst_seq(&t, &popts).syntax;
        (
            x.iter().map(tree::from_cst).collect::<Vec<_>>(),
            y.iter().map(tree::from_cst).collect::<Vec<_>>(),
        )
    };
    let unfinished = |n: &tree::N| {
        let mut yes = false;
        n.walk(&mut |k| yes |= k.label.contains("Unterminated") || k.label.contains("GroupMissingCloser"));
        yes
    };
    if y.iter().any(|n| unfinished(n)) {
        // recovery reads lines of the text, so only for text
        return Outcome::Discard("unterminated construct");
    }
    fn shape(n: &tree::N, o: &mut String) {
        let l = n.label.replace("Error_UnsafeCharacterEncoding", "Error_UnhandledCharacter");
        o.push_str(&l);
        o.push(' ');
        o.push_str(&n.span.as_ref().map(|s| span_str(s)).unwrap_or_default());
        o.push('[');
        for k in &n.kids {
            shape(k, o);
            o.push(' ');
        }
        o.push(']');
    }
    let show = |v: &[tree::N]| {
        let mut o = String::new();
        for n in v {
            shape(n, &mut o);
            o.push('\n');
        }
        o
    };
    let (a, c) = (show(&x), show(&y));
    if a != c {
        return fail("malformed bytes change the tree around them", &key, format!("bytes\n{a}\ntext\n{c}"));
    }
    pass(&key, bad > 0, vec![])
}
