//! P27: characters print the way they are written.

use super::lexer::{as_char, escaped_text};
use super::*;
use crate::opts;
use crate::longnames::Class;
use crate::reflex::{names_of, Esc, Lex, C};
use crate::textgen::{self, any_text, TextCfg};
use wolfram_parser::read::{Escape, WLCharacter};
use wolfram_parser::source::SourceCharacter as S;
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P27",
        assumptions: &["a character with several long names may print with any of them"],
        subs: vec![
            Sub {
                name: "source",
                quick: 400_000,
                thorough: 20_000_000,
                rule: "any text; its source characters printed one after the other are the text, and printed in graphical form are ASCII that stands for the same characters; non-trivial: a control character or one outside ASCII",
                f: source,
            },
            Sub {
                name: "wolfram",
                quick: 400_000,
                thorough: 20_000_000,
                rule: "text dense in escapes; each of its Wolfram characters, printed in both forms, reads back as that character in that notation; non-trivial: at least one escape stands for a character",
                f: wolfram,
            },
            Sub {
                name: "escaped",
                quick: 400_000,
                thorough: 20_000_000,
                rule: "any character in any notation that can hold it, made with WLCharacter::escaped; printed in both forms it is that notation and reads back as that character; non-trivial: all",
                f: escaped,
            },
        ],
    }]
}

/// The characters `t` stands for, one per character or escape.
fn read(t: &str) -> Vec<(C, Esc)> {
    let lex = Lex { t };
    let mut v = vec![];
    let mut o = 0;
    loop {
        let (c, e, end) = lex.decode(o);
        if c == C::Eof {
            return v;
        }
        v.push((c, e));
        o = end;
    }
}

fn ascii(t: &str) -> bool {
    t.bytes().all(|b| (0x20..0x7f).contains(&b))
}

/// The graphical form of the plain character `c`.
fn graphical_ok(c: char, g: &str) -> bool {
    if (' '..='~').contains(&c) {
        return g.len() == 1 && g.starts_with(c);
    }
    if !ascii(g) {
        return false;
    }
    let meta = match c {
        '\x08' => b'b',
        '\x0c' => b'f',
        '\n' => b'n',
        '\r' => b'r',
        '\t' => b't',
        _ => 0,
    };
    match read(g)[..] {
        [(C::Ch(d), e)] => d == c && e != Esc::None,
        [(C::Meta(m), Esc::Single)] => meta == m,
        _ => false,
    }
}

fn any_str(s: &mut Src) -> String {
    if s.chance(1, 3) {
        return any_text(s, TextCfg::default()).replace('\u{feff}', "");
    }
    let n = s.below(20) + 1;
    let mut t = String::new();
    for _ in 0..n {
        match s.below(10) {
            0 => t.push_str(s.ps(&["\r\n", "\r", "\n", "\t", "\x08", "\x0c", "\x1b", "\x7f", "\0"])),
            1 => t.push(char::from_u32(s.below(0x100)).unwrap()),
            2 => t.push(char::from_u32(0xf700 + s.below(0x100)).unwrap()),
            _ => t.push(textgen::any_char(s)),
        }
    }
    t.replace('\u{feff}', "")
}

fn source(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let text = any_str(s);
    let key = format!("{} {:?}", o.show(), text);
    let popts = o.make();
    let got = match guard(|| {
        iter::source_chars(&text, &popts)
            .map(|c| (c, format!("{c}"), format!("{c:#}")))
            .collect::<Vec<_>>()
    }) {
        Ok(v) => v,
        Err(e) => return panicked(&e, &key),
    };
    let all: String = got.iter().map(|g| g.1.as_str()).collect();
    if all != text {
        return fail("the printed characters are not the text", &key, format!("{all:?}"));
    }
    for (c, plain, g) in &got {
        let ok = match c {
            S::CRLF => g == "\\r\\n",
            S::Char(c) => graphical_ok(*c, g),
            _ => false,
        };
        if !ok {
            return fail("the graphical form stands for something else", &key, format!("{plain:?} prints as {g:?}"));
        }
    }
    pass(&key, text.chars().any(|c| !(' '..='~').contains(&c)), vec![])
}

fn wolfram(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let text = if s.chance(1, 6) {
        any_text(s, TextCfg::default())
    } else {
        escaped_text(s, 12)
    }
    .replace('\u{feff}', "");
    let key = format!("{} {:?}", o.show(), text);
    let popts = o.make();
    let got = match guard(|| {
        iter::wolfram_chars(&text, &popts)
            .map(|c| (c, format!("{c}"), format!("{c:#}")))
            .collect::<Vec<_>>()
    }) {
        Ok(v) => v,
        Err(e) => return panicked(&e, &key),
    };
    let want = read(&text);
    if want.len() != got.len() {
        return fail("the number of characters is wrong", &key, format!("{} instead of {}", got.len(), want.len()));
    }
    let mut n = 0;
    for ((c, e), (_, plain, g)) in want.iter().zip(&got) {
        if *e != Esc::None {
            n += 1;
        }
        let ok = match (c, e) {
            (C::Ch(c), Esc::None | Esc::Raw) => *plain == c.to_string() && graphical_ok(*c, g),
            (C::CrLf, _) => plain == "\r\n" && g == "\\r\\n",
            (C::Cont(b, k), _) => {
                let (p, q) = match (b, k) {
                    (_, 2) => ("\\\r\n", "\\\\r\\n"),
                    (b'\n', _) => ("\\\n", "\\\\n"),
                    _ => ("\\\r", "\\\\r"),
                };
                plain == p && g == q
            },
            // a quote or backslash by its raw name
            (C::Meta(b @ (b'"' | b'\\')), Esc::Raw) => {
                let b = *b as char;
                (*plain == b.to_string() || *plain == format!("\\{b}")) && *g == format!("\\{b}")
            },
            (c, e) => read(plain)[..] == [(*c, *e)] && read(g)[..] == [(*c, *e)] && ascii(plain) && ascii(g),
        };
        if !ok {
            return fail(
                format!("a character prints as another, {e:?}"),
                &key,
                format!("{:?} prints as {plain:?} and {g:?}", as_char(*c, *e)),
            );
        }
    }
    pass(&key, n > 0, vec![])
}

fn escaped(s: &mut Src) -> Outcome {
    let c = match s.below(4) {
        0 => char::from_u32(s.below(0x200)).unwrap(),
        1 => char::from_u32(0xf000 + s.below(0x800)).unwrap(),
        2 => {
            let n = crate::longnames::NAMES;
            char::from_u32(n[s.below(n.len() as u32) as usize].2 as u32).unwrap()
        },
        _ => textgen::any_char(s),
    };
    if matches!(c, '"' | '\\' | '\u{feff}') {
        return Outcome::Discard("has no plain escape");
    }
    let v = c as u32;
    let mut es = vec![(Escape::Hex6, Esc::Hex6), (Escape::None, Esc::None)];
    if v < 0x10000 {
        es.push((Escape::Hex4, Esc::Hex4));
    }
    if v < 0x100 {
        es.push((Escape::Hex2, Esc::Hex2));
    }
    if v < 0x200 {
        es.push((Escape::Octal, Esc::Octal));
    }
    if !names_of(c).is_empty() {
        es.push((Escape::LongName, Esc::LongName));
    }
    let (e, want) = es[s.below(es.len() as u32) as usize];
    let key = format!("{c:?} {want:?}");
    let (plain, g) = match guard(|| {
        let w = WLCharacter::escaped(c, e);
        (format!("{w}"), format!("{w:#}"))
    }) {
        Ok(v) => v,
        Err(e) => return panicked(&e, &key),
    };
    let ok = if want == Esc::None {
        plain == c.to_string() && graphical_ok(c, &g)
    } else {
        let raw = names_of(c).iter().any(|n| n.1 == Class::Raw);
        ascii(&plain)
            && plain == g
            && match read(&plain)[..] {
                [(C::Ch(d), f)] => d == c && (f == want || raw && want == Esc::LongName && f == Esc::Raw),
                _ => false,
            }
    };
    if !ok {
        return fail(format!("a character prints as another, {want:?}"), &key, format!("{plain:?}, graphical {g:?}"));
    }
    pass(&key, true, vec![])
}
