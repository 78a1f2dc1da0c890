//! P08, P10, P11: characters and tokens.

use super::*;
use crate::longnames::NAMES;
use crate::optable::OPS;
use crate::opts;
use crate::reflex::{letterlike, names_of, Esc, Lex, C, OPERATORS};
use crate::textgen::{self, any_text, TextCfg};
use crate::tree;
use crate::wf::{self, RefParser, WfCfg};
use wolfram_parser::read::{Escape, WLCharacter};
use wolfram_parser::source::SourceCharacter as S;
use wolfram_parser::tokenize::TokenInput;
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P08",
            assumptions: &["the long name table as published in CodeParser/Data/LongNames.wl"],
            subs: vec![
                Sub {
                    name: "decode",
                    quick: 400_000,
                    thorough: 20_000_000,
                    rule: "text dense in well-formed, truncated and misspelt escapes; the character iterator against a reference decoder; non-trivial: at least one escape stands for a character",
                    f: decode,
                },
                Sub {
                    name: "respell",
                    quick: 400_000,
                    thorough: 20_000_000,
                    rule: "a well-formed program, and the same program with its characters written as long names, hexadecimal or octal escapes, or themselves; concrete and abstract trees agree once leaf texts are decoded; non-trivial: at least two characters respelt",
                    f: respell,
                },
            ],
        },
        Property {
            id: "P10",
            assumptions: &["the number syntax of the Wolfram Language: base^^digits.digits`precision*^exponent"],
            subs: vec![Sub {
                name: "numbers",
                quick: 3_000_000,
                thorough: 30_000_000,
                rule: "pieces of number syntax strung together, with operators, continuations and escapes; every number token against a reference lexer; non-trivial: at least one number token of three or more characters",
                f: numbers,
            }],
        },
        Property {
            id: "P11",
            assumptions: &["the token syntax of the Wolfram Language and the published operator and long name tables"],
            subs: vec![
                Sub {
                    name: "tokens",
                    quick: 250_000,
                    thorough: 12_000_000,
                    rule: "any text; kind and extent of every token against a reference lexer; non-trivial: at least 3 tokens other than blanks",
                    f: tokens_any,
                },
                Sub {
                    name: "operators",
                    quick: 1_500_000,
                    thorough: 12_000_000,
                    rule: "operator characters, blanks, strings, comments and names strung together without separation; kind and extent of every token against a reference lexer; non-trivial: at least 3 tokens other than blanks",
                    f: tokens_dense,
                },
                Sub {
                    name: "characters",
                    quick: 150_000,
                    thorough: 3_000_000,
                    rule: "64 consecutive code points (of 0..10FFFF, blocks with long names favoured), each on its own, after a letter, or escaped; kind and extent of every token against a reference lexer; non-trivial: the block is not all letterlike",
                    f: characters,
                },
            ],
        },
    ]
}

fn decode_text(t: &str) -> String {
    let lex = Lex { t };
    let mut o = String::new();
    let mut off = 0;
    loop {
        let (c, _, end) = lex.next(off);
        off = end;
        match c {
            C::Ch(c) => o.push(c),
            C::CrLf => o.push_str("\r\n"),
            C::Meta(b) => {
                o.push('\\');
                o.push(b as char);
            },
            C::LinearSpace => o.push_str("\\ "),
            C::Bom => o.push('\u{feff}'),
            C::Cont(..) => unreachable!(),
            C::Eof => return o,
        }
    }
}

fn decode_leaves(mut n: tree::N) -> tree::N {
    n.text = decode_text(&n.text);
    n.kids = n.kids.into_iter().map(decode_leaves).collect();
    n
}

/// `t` with its characters written in other ways.
fn respell_text(s: &mut Src, t: &str, rate: u32, count: &mut u32) -> String {
    let mut o = String::new();
    for c in decode_text(t).chars() {
        let v = c as u32;
        if !s.chance(rate, 6) {
            o.push(c);
            continue;
        }
        *count += 1;
        match s.below(5) {
            0 => {
                let names = names_of(c);
                if names.is_empty() {
                    o.push(c);
                } else {
                    let n = s.below(names.len() as u32) as usize;
                    o.push_str(&format!("\\[{}]", names[n].0));
                }
            },
            1 if v < 0x100 => o.push_str(&format!("\\.{v:02x}")),
            2 if v < 0x200 => o.push_str(&format!("\\{v:03o}")),
            3 if v < 0x10000 => o.push_str(&format!("\\:{v:04X}")),
            _ => o.push_str(&format!("\\|{v:06x}")),
        }
    }
    o
}

fn respell(s: &mut Src) -> Outcome {
    let o = opts::positions(s);
    let quirks = opts::any(s).quirks;
    let o = opts::O { quirks, ..o };
    let items = wf::items(s, WfCfg::default());
    if let Err(e) = RefParser::parse(&items) {
        return Outcome::Discard(e);
    }
    let rate = s.below(5) + 1;
    let mut count = 0;
    let mut a = String::new();
    let mut b = String::new();
    for (i, it) in items.iter().enumerate() {
        if i > 0 && !(s.chance(1, 2) && wf::glue(&items[i - 1], it)) {
            a.push(' ');
            b.push(' ');
        }
        let t = it.text();
        a.push_str(&t);
        match it {
            // read by source characters
            wf::Item::File(..) => b.push_str(&t),
            wf::Item::Tag(tag) => {
                b.push_str(&respell_text(s, "::", rate, &mut count));
                b.push_str(tag);
            },
            // the abstract form quotes the name as it is written
            _ if t.contains('"') || t.starts_with('#') => b.push_str(&t),
            _ => b.push_str(&respell_text(s, &t, rate, &mut count)),
        }
    }
    let key = format!("{} | {a}  <~>  {b}", o.show());
    let popts = o.make();
    let concrete = |t: &str| {
        let NodeSeq(cst) = parse_cst_seq(t, &popts).syntax;
        cst.iter().map(|n| decode_leaves(tree::from_cst(n)).show()).collect::<Vec<_>>().join(" ; ")
    };
    let abst = |t: &str| {
        let NodeSeq(ast) = parse_ast_seq(t, &popts).syntax;
        ast.iter().map(|n| decode_leaves(tree::from_ast(n)).show()).collect::<Vec<_>>().join(" ; ")
    };
    let (x, y) = (concrete(&a), concrete(&b));
    if x != y {
        return fail("tree depends on spelling", &key, format!("first  {x}\nsecond {y}"));
    }
    let (x, y) = (abst(&a), abst(&b));
    if x != y {
        return fail("meaning depends on spelling", &key, format!("first  {x}\nsecond {y}"));
    }
    pass(&key, count >= 2, vec![])
}

pub fn as_char(c: C, e: Esc) -> WLCharacter {
    let point = match c {
        C::Ch(c) => S::Char(c),
        C::CrLf => S::CRLF,
        C::LinearSpace => S::LinearSyntax_Space,
        C::Bom => S::Unsafe3ByteUtf8Sequence,
        C::Eof => S::EndOfFile,
        C::Cont(b'\n', _) => S::LineContinuation_LineFeed,
        C::Cont(_, 1) => S::LineContinuation_CarriageReturn,
        C::Cont(..) => S::LineContinuation_CRLF,
        C::Meta(b'"') => S::StringMeta_DoubleQuote,
        C::Meta(b'\\') => S::StringMeta_Backslash,
        C::Meta(b'<') => S::StringMeta_Open,
        C::Meta(b'>') => S::StringMeta_Close,
        C::Meta(b'b') => S::StringMeta_Backspace,
        C::Meta(b'f') => S::StringMeta_FormFeed,
        C::Meta(b'n') => S::StringMeta_LineFeed,
        C::Meta(b'r') => S::StringMeta_CarriageReturn,
        C::Meta(_) => S::StringMeta_Tab,
    };
    let e = match e {
        Esc::None => Escape::None,
        Esc::Raw => Escape::Raw,
        Esc::Single => Escape::Single,
        Esc::Hex2 => Escape::Hex2,
        Esc::Hex4 => Escape::Hex4,
        Esc::Hex6 => Escape::Hex6,
        Esc::Octal => Escape::Octal,
        Esc::LongName => Escape::LongName,
    };
    if e == Escape::None {
        WLCharacter::new(point)
    } else {
        WLCharacter::escaped(point, e)
    }
}

fn hex(s: &mut Src, n: u32) -> String {
    (0..n)
        .map(|_| s.ps(&["0", "1", "2", "3", "7", "9", "a", "d", "f", "A", "C", "F", "8", "5", "E"]))
        .collect()
}

fn escape(s: &mut Src, o: &mut String) {
    match s.weighted(&[12, 6, 6, 6, 6, 6, 4, 5, 4, 4, 2]) {
        0 => {
            let name = s.pick(&NAMES[..]).0;
            o.push_str(&format!("\\[{name}]"));
        },
        1 => {
            let c = s.below(128) as u8;
            o.push_str(&format!("\\.{c:02x}"));
        },
        2 => {
            let c = match s.below(3) {
                0 => s.below(0x100),
                1 => s.pick(&NAMES[..]).2 & 0xffff,
                _ => s.below(0x10000),
            };
            if s.chance(1, 2) {
                o.push_str(&format!("\\:{c:04x}"));
            } else {
                o.push_str(&format!("\\:{c:04X}"));
            }
        },
        3 => {
            let c = match s.below(3) {
                0 => s.below(0x110000),
                1 => s.pick(&NAMES[..]).2,
                _ => *s.pick(&[0x22, 0x5c, 0x10ffff, 0x110000, 0xd800, 0xdfff, 0xe000, 0xffffff, 0x61]),
            };
            o.push_str(&format!("\\|{c:06x}"));
        },
        4 => {
            let c = s.below(0o1000);
            o.push_str(&format!("\\{c:03o}"));
        },
        5 => {
            o.push('\\');
            o.push(char::from_u32(s.range(0x20, 0x7e)).unwrap());
        },
        6 => o.push_str(s.ps(&["\\\n", "\\\r\n", "\\\r", "\\\n ", "\\\n\t"])),
        7 => {
            // too short
            let n = s.below(6);
            let p = s.ps(&["\\:", "\\.", "\\|", "\\"]);
            o.push_str(p);
            o.push_str(&hex(s, n));
        },
        8 => {
            // a long name cut or glued; cut names that are no name at all
            // are slow to suggest for, so mostly keep the bracket away
            let name = s.pick(&NAMES[..]).0;
            match s.below(4) {
                0 => o.push_str(&format!("\\[{name}")),
                1 => o.push_str(&format!("\\ [{name}]")),
                2 => o.push_str(&format!("\\[{name} ]")),
                _ => o.push_str("\\["),
            }
        },
        9 => o.push_str(s.ps(&["\\", "\\\\", "\\\\\\", "\\\u{e9}", "\\\u{1f600}", "\\\u{feff}"])),
        _ => {
            if s.chance(1, 40) {
                o.push_str(s.ps(textgen::UNKNOWN_NAMES));
            }
        },
    }
}

pub fn escaped_text(s: &mut Src, max: u32) -> String {
    let mut o = String::new();
    let n = s.below(max) + 1;
    for _ in 0..n {
        match s.weighted(&[7, 3, 1]) {
            0 => escape(s, &mut o),
            1 => o.push(textgen::any_char(s)),
            _ => o.push_str(s.ps(&["\u{feff}", "\r\n", "[", "]", ":", "0", "f", "|"])),
        }
    }
    o
}

fn decode(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let o = opts::O { first: 0, ..o };
    let text = if s.chance(1, 6) {
        any_text(s, TextCfg::default())
    } else {
        escaped_text(s, 12)
    };
    let key = format!("{} {:?}", o.show(), text);
    let popts = o.make();
    let got = match guard(|| iter::wolfram_chars(&text, &popts).collect::<Vec<_>>()) {
        Ok(v) => v,
        Err(e) => return fail(format!("panic {}", strip_loc(&e)), &key, e),
    };
    let lex = Lex { t: &text };
    let mut off = 0;
    let mut k = 0;
    let mut escapes = 0;
    loop {
        let (c, e, end) = lex.decode(off);
        if c == C::Eof {
            break;
        }
        if e != Esc::None {
            escapes += 1;
        }
        let want = as_char(c, e);
        match got.get(k) {
            Some(g) if *g == want => {},
            g => {
                return fail(
                    format!("character {e:?}"),
                    &key,
                    format!("at byte {off} {:?} is {want:?}, the iterator gives {g:?}", &text[off..end]),
                )
            },
        }
        k += 1;
        off = end;
    }
    if got.len() > k {
        return fail("characters after the end", &key, format!("{:?}", &got[k..]));
    }
    pass(&key, escapes > 0, vec![])
}

const NUMBER_PIECES: &[&str] = &[
    "0", "1", "2", "9", "00", "12", "16", "36", "37", "100", "^^", "^", "*^", "*", ".", "..", "`", "``",
    "+", "-", "a", "F", "z", "e", "2^^", "16^^", "36^^", "10^^", "1^^", "*^-", "*^+", "0.", ".5",
];

fn numbers(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let o = opts::O { first: 0, ..o };
    let mut text = String::new();
    let n = s.below(9) + 1;
    if s.chance(3, 4) {
        // a mostly sensible number, piece by piece
        let k = s.below(2) + 1;
        for _ in 0..k {
            if s.chance(1, 4) {
                let base = if s.chance(1, 8) { s.range(0, 120) } else { s.range(2, 36) };
                text.push_str(&base.to_string());
                text.push_str("^^");
                for _ in 0..s.below(4) {
                    let wild = s.chance(1, 6);
                    let d = s.below(if wild { 36 } else { base.clamp(1, 36) });
                    let c = std::char::from_digit(d, 36).unwrap();
                    text.push(if s.chance(1, 2) { c.to_ascii_uppercase() } else { c });
                }
            } else {
                for _ in 0..s.below(4) {
                    text.push_str(s.ps(&["0", "1", "2", "7", "9"]));
                }
            }
            if s.chance(1, 2) {
                text.push('.');
                for _ in 0..s.below(3) {
                    text.push_str(s.ps(&["0", "1", "5", "9", "a"]));
                }
            }
            if s.chance(1, 3) {
                text.push_str(s.ps(&["`", "``"]));
                text.push_str(s.ps(&["", "", "+", "-"]));
                text.push_str(s.ps(&["", "5", "12", "0"]));
                text.push_str(s.ps(&["", "", ".", ".5"]));
            }
            if s.chance(1, 3) {
                text.push_str("*^");
                text.push_str(s.ps(&["", "", "+", "-"]));
                text.push_str(s.ps(&["5", "12", "0", "00", "03", ""]));
            }
            text.push_str(s.ps(&["", " ", "+", "*", ".", "..", "^", "`", "x", ";;", "-", "...", "\n"]));
        }
    } else {
        for _ in 0..n {
            text.push_str(s.ps(NUMBER_PIECES));
        }
    }
    if s.chance(1, 4) {
        // the same characters, written another way
        let mut t = String::new();
        for c in text.chars() {
            match s.below(12) {
                0 => t.push_str(&format!("\\.{:02x}", c as u32)),
                1 => t.push_str(&format!("\\\n{c}")),
                2 => t.push_str(&format!("\\{:03o}", c as u32)),
                3 => t.push_str(&format!("\\\r\n  {c}")),
                _ => t.push(c),
            }
        }
        text = t;
    } else if s.chance(1, 10) {
        // very many digits
        let digits: Vec<usize> = text.char_indices().filter(|(_, c)| c.is_ascii_alphanumeric()).map(|(i, _)| i).collect();
        if !digits.is_empty() {
            let i = *s.pick(&digits);
            let d = text[i..i + 1].to_owned();
            text.insert_str(i, &d.repeat(s.range(1, 300) as usize));
        }
    }
    let key = format!("{} {:?}", o.show(), text);
    judge(&text, &o, key, Which::Numbers)
}

fn tokens_any(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let o = opts::O { first: 0, ..o };
    let text = any_text(s, TextCfg { max_frags: 24 });
    let key = format!("{} {:?}", o.show(), text);
    judge(&text, &o, key, Which::Others)
}

fn tokens_dense(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let o = opts::O { first: 0, ..o };
    let mut text = String::new();
    let n = s.below(10) + 1;
    for _ in 0..n {
        match s.weighted(&[10, 10, 4, 3, 3, 2, 4, 4, 3, 2, 1]) {
            0 => text.push_str(s.pick(OPERATORS).0),
            1 => {
                text.push_str(s.ps(&[
                    "^", ":", "=", "!", "*", ")", "(", ".", "/", "@", ";", "<", ">", "|", "-", "+", "~", "?", "_", "#",
                    "&", "%", "[", "]", "{", "}", ",", "'", "`", "\"",
                ]))
            },
            2 => text.push_str(s.ps(&["x", "ab1", "a`b", "`c", "$a", "x1`y", "\u{3b1}", "\\[Alpha]", "1", "0"])),
            3 => text.push_str(s.ps(&["\"\"", "\"a\\\"b\"", "\"\\\\\"", "\"a\nb\"", "\"", "\"\\\n\"", "\"\\.22\""])),
            4 => text.push_str(s.ps(&["(**)", "(*)*)", "(*(**)*)", "(*a", "*)", "(* \\* *)", "\\.28*", "(\\\n*a*)"])),
            5 => text.push_str(s.ps(&[" ", "\t", "\n", "\r", "\r\n", "\x0b", "\x0c", "\\\n", "\\\r\n \t"])),
            6 => {
                let c = char::from_u32(s.pick(&NAMES[..]).2).unwrap();
                if s.chance(1, 2) {
                    text.push(c);
                } else {
                    text.push_str(&format!("\\:{:04x}", c as u32));
                }
            },
            7 => text.push_str(&format!("\\[{}]", s.pick(&NAMES[..]).0)),
            8 => text.push_str(s.pick(&OPS[..]).text),
            10 => nested(s, &mut text),
            _ => {
                text.push('\\');
                text.push_str(s.ps(&["!", "%", "&", "(", ")", "*", "+", "/", "@", "^", "_", "`", " "]));
            },
        }
    }
    let key = format!("{} {:?}", o.show(), text);
    judge(&text, &o, key, Which::Others)
}

/// A comment or a linear syntax blob with others in it, often closed.
pub fn nested(s: &mut Src, o: &mut String) {
    let (open, close) = *s.pick(&[("\\(", "\\)"), ("(*", "*)"), ("\\(", "\\)")]);
    o.push_str(open);
    let mut depth = 1;
    for _ in 0..s.below(14) {
        match s.below(6) {
            0 | 1 => {
                o.push_str(open);
                depth += 1;
            },
            2 | 3 if depth > 1 => {
                o.push_str(close);
                depth -= 1;
            },
            4 => o.push_str(s.ps(&["\\", "*", "(", ")", "\"", "\\*", "\\!", "(*", "*)", "\\(", "\\)", "\\.28*", "\\:0029"])),
            _ => o.push_str(s.ps(&["x", " ", "\n", "\\[Alpha]", "[", "}", "1", "\\\n", "\\^", "\t"])),
        }
    }
    for _ in 0..(if s.chance(1, 6) { s.below(depth + 2) } else { depth }) {
        o.push_str(close);
    }
}

fn characters(s: &mut Src) -> Outcome {
    let o = opts::O::plain();
    let block = match s.below(3) {
        0 => s.below(0x110000 / 64),
        1 => s.below(0x10000 / 64),
        _ => s.pick(&NAMES[..]).2 / 64,
    };
    let how = s.below(4);
    let mut text = String::new();
    let mut odd = false;
    for v in block * 64..block * 64 + 64 {
        let Some(c) = char::from_u32(v) else { continue };
        if c == '"' || c == '\\' {
            continue;
        }
        odd |= !letterlike(c);
        match how {
            0 => text.push_str(&format!("{c} ")),
            1 => text.push_str(&format!("a{c}b ")),
            2 if v < 0x10000 => text.push_str(&format!("\\:{v:04x} ")),
            _ => text.push_str(&format!("x\\|{v:06x}y ")),
        }
    }
    let key = format!("block {:x} form {how}", block * 64);
    judge(&text, &o, key, Which::Others).nontrivial_if(odd)
}

#[derive(PartialEq, Clone, Copy)]
enum Which {
    Numbers,
    Others,
}

fn is_number(kind: &str) -> bool {
    matches!(kind, "Integer" | "Real" | "Rational" | "Error_Number")
}

fn judge(text: &str, o: &opts::O, key: String, which: Which) -> Outcome {
    let popts = o.make();
    let got = match guard(|| {
        iter::tokens(text, &popts)
            .map(|t| (format!("{:?}", t.tok), t.input.as_bytes().len(), t.input.as_bytes().as_ptr() as usize))
            .collect::<Vec<_>>()
    }) {
        Ok(v) => v,
        Err(e) => return panicked(&e, &key),
    };
    let lex = Lex { t: text };
    let base = text.as_ptr() as usize;
    let mut count = 0;
    for (kind, len, ptr) in &got {
        let start = ptr.wrapping_sub(base);
        if start > text.len() || !text.is_char_boundary(start) || !text.is_char_boundary((start + len).min(text.len())) {
            // where tokens start is P02's business
            return Outcome::Discard("not a partition");
        }
        let want = lex.token(start);
        let number = is_number(&want.kind) || is_number(kind);
        if number != (which == Which::Numbers) {
            continue;
        }
        let here = &text[start..(start + len).min(text.len())];
        if want.kind != *kind {
            return fail(
                format!("{} read as {}", family(&want.kind), family(kind)),
                &key,
                format!("at byte {start}: {here:?} is {kind}, should be {}", want.kind),
            );
        }
        match want.end {
            Some(e) if e != start + len => {
                return fail(
                    format!("extent of {}", family(kind)),
                    &key,
                    format!("at byte {start}: {kind} is {here:?}, should be {:?}", &text[start..e]),
                )
            },
            None => {
                // malformed: of one piece, and nothing that begins something else
                if which == Which::Numbers
                    && !here.contains('\\')
                    && here.contains(|c: char| !(c.is_ascii_alphanumeric() || "^*.`+-".contains(c)))
                {
                    return fail("malformed number too long", &key, format!("{here:?}"));
                }
            },
            _ => {},
        }
        match which {
            Which::Numbers => count += (*len >= 3) as usize,
            Which::Others => count += !matches!(kind.as_str(), "Whitespace" | "ToplevelNewline") as usize,
        }
    }
    pass(&key, count >= if which == Which::Numbers { 1 } else { 3 }, vec![])
}

/// Long names share one signature.
fn family(k: &str) -> &str {
    if k.starts_with("LongName_") {
        "a long name operator"
    } else {
        k
    }
}
