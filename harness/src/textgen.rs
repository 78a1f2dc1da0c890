//! Generators of Wolfram Language source text, from hostile to well formed.

use crate::engine::Src;
use crate::optable::{Kind, OPS};

/// ASCII operators, weighted towards those with their own parse rules.
pub const SPECIAL_OPS: &[&str] = &[
    ";", ";;", ",", ":", "/:", "=", ":=", "=.", "^=", "^:=", "::", "~", "~~",
    "@", "@@", "@@@", "//", "//@", "/@", "/;", "/.", "//.", "->", ":>", "<->",
    "|->", "<<", ">>", ">>>", "?", "??", "!", "!!", "'", "&", "&&", "||", "|",
    "+", "-", "*", "/", "^", "**", ".", "..", "...", "++", "--", "+=", "-=",
    "*=", "/=", "//=", "==", "!=", "===", "=!=", "<", ">", "<=", ">=", "<>",
    "@*", "/*", "_", "__", "___", "_.", "#", "##", "%", "%%", "::[", "<|",
    "|>", ":::", "-->", "-->", "->-", "|-", "=>",
];

pub const BRACKETS: &[&str] = &[
    "(", ")", "[", "]", "{", "}", "<|", "|>", "[[", "]]", "::[",
    "\\[LeftDoubleBracket]", "\\[RightDoubleBracket]", "\\[LeftAssociation]",
    "\\[RightAssociation]", "\\[LeftCeiling]", "\\[RightCeiling]",
    "\\[LeftFloor]", "\\[RightFloor]", "\\[LeftAngleBracket]",
    "\\[RightAngleBracket]", "\\[LeftBracketingBar]",
    "\\[RightBracketingBar]", "\\[LeftDoubleBracketingBar]",
    "\\[RightDoubleBracketingBar]", "\\[OpenCurlyQuote]",
    "\\[CloseCurlyQuote]", "\\[OpenCurlyDoubleQuote]",
    "\\[CloseCurlyDoubleQuote]", "\u{301a}", "\u{301b}",
];

pub const SYMBOLS: &[&str] = &[
    "a", "b", "x", "f", "g", "Plus", "abc", "$x", "a`b", "`a", "a`b`c", "x1",
    "\\[Alpha]", "\u{3b1}", "\\[Pi]", "\\:03b1", "\\[CapitalGamma]x",
    "x\\[Beta]1", "\u{e9}t\u{e9}", "\u{4e2d}", "List", "Null", "a`", "True",
    "\\|01d4b6", "\u{1d4b6}", "\\141bc", "\\.61",
];

pub const NUMBERS: &[&str] = &[
    "0", "1", "12", "3.", ".5", "1.5", "1`", "1``5", "1.5`10", "1*^5",
    "1*^-5", "2^^101", "16^^ff", "36^^Zz", "2^^1.01", "1.2`3*^4", "16^^a.b`5",
    "1`+5", "1`-5.2", "1``-3", "37^^1", "2^^2", "1^^0", "0^^0", "2^^", "1*^",
    "1.*^5", "1..", "1...", "1..2", "1``", "00", "00.00", "2^^1*^3", "1*^00",
    "1*^1.5", "1`.", "1`.5", "36^^.z", "11^^a9.9", "16^^F``2*^-1",
];

pub const STRINGS: &[&str] = &[
    "\"\"", "\"abc\"", "\"a\\\"b\"", "\"\\\\\"", "\"a\nb\"", "\"a\tb\"",
    "\"\\[Alpha]\"", "\"\\:03b1\"", "\"\u{3b1}\"", "\"\\n\\t\"",
    "\"a\\\nb\"", "\"\\(x\\)\"", "\"a\r\nb\"", "\"a\rb\"", "\"\\<a\\>\"",
    "\"(*\"", "\"\\\\[Alpha]\"", 
    "\"x\\\r\ny\"", "\"\u{1f600}\"", "\"\\.e9\\351\"",
];

pub const COMMENTS: &[&str] = &[
    "(**)", "(* a *)", "(* (* n *) *)", "(* a\nb *)", "(*\t*)", "(*)*)",
    "(***)", "(*\"*)", "(* \u{3b1} *)", "(*\r\n*)", "(*::Section::*)",
    "(* [ *)", "(*(*(*x*)(*y*)*)*)",
];

pub const SPACES: &[&str] = &[
    " ", "  ", "\t", " \t", "\n", "\r\n", "\r", "\n\n", "\n  ", "\\\n",
    "\\\r\n", "\\\r", "\\\n  ", "\u{a0}", "\\[IndentingNewLine]",
    "\\[NoBreak]", "\\[InvisibleSpace]", "\u{200b}", "\u{2003}", "\x0c",
    "\x0b", "\u{2028}", "\u{85}", "\\[NewLine]", "\\[RawSpace]",
    "\\[RawReturn]", "\\[RawTab]", "\\012", "\\.0a", "\\:000a", "\\:0020",
];

pub const NASTY: &[&str] = &[
    "\\", "\\[", "\\[Alpha", "\\:", "\\:0",
    "\\:zzzz", "\\:0022", "\\:005c", "\\.", "\\.f", "\\.0", "\\.22", "\\0",
    "\\04", "\\042", "\\134", "\\8", "\\|", "\\|110000", "\\|00000",
    "\\|000041", "\\|10ffff", "\"", "(*", "*)", "\\!", "\\!\\(x\\)", "\\(",
    "\\(\\(x\\)\\)", "\\(a\\(b\\(\\)c\\)\\(d\\)\\)",
    "\\)", "\\@", "\\^", "\\_", "\\%", "\\&", "\\*", "\\+", "\\/", "\\`",
    "\\ ", "\\b", "\\f", "\\n", "\\r", "\\t", "\\<", "\\>", "\\\\",
    "\\\\[Alpha]", "\\\"", "\u{0}", "\u{7f}", "\u{80}",
    "\u{e000}", "\u{f74e}", "\u{f431}", "\u{ffff}", "\u{fffd}", "\u{1f600}",
    "\u{10ffff}", "\u{f3a0}", "\u{2061}", "\u{2063}", "\u{2064}", "\u{29f4}",
    "\u{279d}", "\u{f520}", "\u{f522}", "\u{f765}", "\u{2062}", "\u{202f}",
    "\u{200e}", "\\[RawWedge]", "\\[RawQuote]", "\\[RawDoubleQuote]",
    "\\[RawBackslash]", "\\[RawLeftBracket]", "\\[RawRightBracket]",
    "\\[RawComma]", "\\[Integral]", "\\[DifferentialD]", "\\[Function]",
    "\\[ErrorIndicator]", "\\[Continuation]", "\\[AltKey]",
    "\\[UnknownGlyph]", "\\[SystemsModelDelay]", "`", "``", "a``b", "#!",
    "#!/usr/bin/env wolframscript\n", "%%%", "%5", "#1", "##2", "#a", "#\"a\"",
    "\\Alpha]", "\\Afoo", "\\g", "\\x", "\\$", "\\\u{3b1}", 
    "a::b", "a::\"b\"", "<<a`", "<< foo[a b] ", ">> \"x\"", ">> a/b", ">> [",
    "\\[InvisibleApplication]", "\\[ImplicitPlus]", "\\[CupCap]",
    "\\[VectorLess]", "\\[COMPATIBILITYKanjiSpace]", "\\[Placeholder]",
    "\\[LongDash]", "\\[Null]", "\\[EntityStart]", "\\[Limit]",
    "\\[AutoSpace]", "\\[RawAt]", "\u{feff0}",
];

/// Escapes that name no character; rare, because suggesting a correction for
/// one costs a thousand times an ordinary token.
pub const UNKNOWN_NAMES: &[&str] = &[
    "\\[]", "\\[Foo]", "\\[alpha]", "\\[Alpah]", "\\\\[Alpah]", "\"\\[Foo]\"",
    "\"\\\\[Alpah]\"",
];

fn frag(s: &mut Src, out: &mut String) {
    if s.chance(1, 250) {
        out.push_str(s.ps(UNKNOWN_NAMES));
        return;
    }
    match s.weighted(&[14, 14, 14, 10, 6, 4, 10, 10, 8, 10]) {
        0 => out.push_str(s.ps(SYMBOLS)),
        1 => out.push_str(s.ps(SPECIAL_OPS)),
        2 => out.push_str(s.ps(BRACKETS)),
        3 => out.push_str(s.ps(NUMBERS)),
        4 => out.push_str(s.ps(STRINGS)),
        5 => out.push_str(s.ps(COMMENTS)),
        6 => out.push_str(s.ps(SPACES)),
        7 => out.push_str(s.ps(NASTY)),
        8 => out.push_str(s.pick(&OPS[..]).text),
        _ => {
            let c = s.range(0x20, 0x7e);
            out.push(char::from_u32(c).unwrap());
        },
    }
}

pub fn any_char(s: &mut Src) -> char {
    match s.weighted(&[30, 6, 3, 3, 3, 2]) {
        0 => char::from_u32(s.range(0x20, 0x7e)).unwrap(),
        1 => *s.pick(&['\n', '\t', '\r', '\\', '"', '(', '*', ')']),
        2 => char::from_u32(s.below(0x80)).unwrap(),
        3 => char::from_u32(s.range(0x80, 0x7ff)).unwrap(),
        4 => loop_char(s, 0x800, 0xffff),
        _ => loop_char(s, 0x10000, 0x10ffff),
    }
}

fn loop_char(s: &mut Src, lo: u32, hi: u32) -> char {
    let c = s.range(lo, hi);
    match char::from_u32(c) {
        // BOM is handled by the encoding property.
        Some('\u{feff}') | None => '\u{4e2d}',
        Some(c) => c,
    }
}

/// Which families of text a caller wants.
#[derive(Clone, Copy)]
pub struct TextCfg {
    pub max_frags: u32,
}

impl Default for TextCfg {
    fn default() -> Self {
        TextCfg { max_frags: 40 }
    }
}

/// Any string (never containing U+FEFF). Must be the last thing drawn for the
/// literal re-encoding to be usable by the shrinker.
pub fn any_text(s: &mut Src, cfg: TextCfg) -> String {
    let mark = s.mark();
    let size = s.size;
    let n_max = (cfg.max_frags * size / 100).max(2);
    let mode = s.weighted(&[6, 34, 24, 24, 12]);
    let out = match mode {
        0 => {
            let mut o = String::new();
            loop {
                // continue flag: any non zero value
                if s.below(n_max.max(2) * 2) == 0 {
                    break;
                }
                let c = if s.is_random() {
                    let mut inner = any_char_direct(s);
                    if inner == '\u{feff}' {
                        inner = 'a';
                    }
                    inner
                } else {
                    let c = s.below(0x110000);
                    char::from_u32(crate::engine::dec_char(c)).unwrap_or('a')
                };
                o.push(c);
            }
            o
        },
        1 => {
            let n = s.below(n_max) + 1;
            let mut o = String::new();
            for _ in 0..n {
                frag(s, &mut o);
            }
            o
        },
        2 => {
            // grammar based text, several lines
            let lines = s.below(4) + 1;
            let mut o = String::new();
            for i in 0..lines {
                if i > 0 {
                    o.push_str(s.ps(&["\n", "\r\n", "\n\n", " \n", ";\n"]));
                }
                let mut budget = (size / 6).max(2) as i32;
                expr(s, &mut o, &mut budget, 4);
            }
            o
        },
        3 => {
            let mut o = String::new();
            let mut budget = (size / 4).max(3) as i32;
            expr(s, &mut o, &mut budget, 5);
            if s.chance(1, 3) {
                o.push('\n');
                expr(s, &mut o, &mut budget, 3);
            }
            mutate(s, &mut o);
            o
        },
        _ => {
            // multi-line text with unterminated constructs and indentation:
            // the shape the error recovery has to deal with
            let n = s.below(n_max.min(14)) + 1;
            let mut o = String::new();
            for _ in 0..n {
                match s.below(9) {
                    0 => o.push('\n'),
                    1 => o.push_str("\n\n"),
                    2 => o.push_str(s.ps(&["f[", "{", "(", "<|", "a[[", "g::["])),
                    3 => o.push_str(s.ps(&["]", "}", ")", "|>", "]]"])),
                    4 => o.push_str(s.ps(&["\"", "(*", "*)"])),
                    5 => o.push_str(s.ps(&["\nx = 1", "\n  y", "\nf[x_] := x", "\n\tz", "\r\nw"])),
                    6 => o.push_str(s.ps(SYMBOLS)),
                    7 => o.push_str(s.ps(&["\u{3b1}", "\t", " ", ",", ";", "\n(* ::Section:: *)\n", "\\\n"])),
                    _ => frag(s, &mut o),
                }
            }
            o
        },
    };
    let mut out: String = out.chars().filter(|c| *c != '\u{feff}').collect();
    if cfg.max_frags >= 8 && s.below(100) == 99 {
        enlarge(s, &mut out);
    }
    s.literal = Some((mark, out.chars().map(|c| c as u32).collect()));
    out
}

/// Make a long text of a short one: what only shows in the hundredth line or
/// column, item, level or character of a token.
pub fn enlarge(s: &mut Src, o: &mut String) {
    let n = match s.below(4) {
        0 => s.below(20) + 2,
        1 => s.below(120) + 10,
        _ => s.range(120, 700),
    } as usize;
    let chars: Vec<char> = o.chars().collect();
    match s.below(6) {
        // a character many times
        0 | 1 if !chars.is_empty() => {
            let i = s.below(chars.len() as u32) as usize;
            let mut t: String = chars[..i].iter().collect();
            t.extend(std::iter::repeat(chars[i]).take(n));
            t.extend(chars[i..].iter());
            *o = t;
        },
        // far down
        2 => {
            let l = s.ps(&["\n", "a\n", "\r\n", "x;\n", "(* c *)\n", "\r"]);
            *o = l.repeat(n) + o;
        },
        // far to the right
        3 => {
            let l = s.ps(&[" ", "\t", "a", "1", "\u{3b1}", "f[x];", "(**)"]);
            *o = l.repeat(n) + o;
        },
        // many items
        4 => {
            let op = s.ps(&["+", ",", ";", " ", "\n", "->", "&&", "^", ";;", "@", "~f~"]);
            let k = (n / 6).max(2);
            let l = if o.len() < 12 { o.clone() } else { "a".to_string() };
            *o = format!("{}{op}{o}", vec![l; k].join(op));
        },
        // far in
        _ => {
            let (a, b) = *s.pick(&[("(", ")"), ("{", "}"), ("f[", "]"), ("a[[", "]]"), ("<|", "|>"), ("(*", "*)"), ("-(", ")"), ("{a,", "}")]);
            let k = (n / 12).max(2);
            *o = a.repeat(k) + o + &b.repeat(k);
        },
    }
}

fn any_char_direct(s: &mut Src) -> char {
    // one recorded choice so that the literal encoding has the same shape
    let v = s.below(0x110000);
    let hi = v >> 8;
    let lo = v & 0xff;
    match hi % 8 {
        0..=4 => char::from_u32(0x20 + lo % 0x5f).unwrap(),
        5 => ['\n', '\t', '\r', '\\', '"', '(', '*', ')'][(lo % 8) as usize],
        6 => char::from_u32(lo).unwrap(),
        _ => char::from_u32(v).unwrap_or('\u{4e2d}'),
    }
}

pub fn mutate(s: &mut Src, o: &mut String) {
    let n = s.below(3) + 1;
    for _ in 0..n {
        let chars: Vec<char> = o.chars().collect();
        if chars.is_empty() {
            return;
        }
        let i = s.below(chars.len() as u32) as usize;
        match s.below(5) {
            0 => {
                // delete
                let mut c = chars.clone();
                c.remove(i);
                *o = c.into_iter().collect();
            },
            1 => {
                let mut f = String::new();
                frag(s, &mut f);
                let mut t: String = chars[..i].iter().collect();
                t.push_str(&f);
                t.extend(chars[i..].iter());
                *o = t;
            },
            2 => {
                // truncate
                *o = chars[..i].iter().collect();
            },
            3 => {
                // duplicate a slice
                let j = (i + s.below(8) as usize + 1).min(chars.len());
                let mut t: String = chars[..j].iter().collect();
                t.extend(chars[i..].iter());
                *o = t;
            },
            _ => {
                let mut c = chars.clone();
                c[i] = any_char(s);
                *o = c.into_iter().collect();
            },
        }
    }
}

fn ws(s: &mut Src, o: &mut String) {
    match s.below(10) {
        0..=5 => {},
        6 | 7 => o.push(' '),
        8 => o.push_str(s.ps(COMMENTS)),
        _ => o.push_str(s.ps(&["\t", "\n", "  ", "\n  ", "\r\n", "\\\n"])),
    }
}

/// Mostly well formed expression text (not guaranteed).
pub fn expr(s: &mut Src, o: &mut String, budget: &mut i32, depth: u32) {
    *budget -= 1;
    if *budget <= 0 || depth == 0 {
        leaf(s, o);
        return;
    }
    match s.below(14) {
        0 | 1 => leaf(s, o),
        2 | 3 | 4 => {
            // n-ary of one operator, or mixed
            let n = s.below(3) + 2;
            for i in 0..n {
                if i > 0 {
                    ws(s, o);
                    if s.chance(1, 4) {
                        let op = s.pick(&OPS[..]);
                        if op.kind == Kind::Binary || op.kind == Kind::Infix {
                            o.push_str(op.text);
                        } else {
                            o.push('+');
                        }
                    } else {
                        o.push_str(s.ps(SPECIAL_OPS));
                    }
                    ws(s, o);
                }
                expr(s, o, budget, depth - 1);
            }
        },
        5 | 6 => {
            let (a, b) = *s.pick(&[
                ("(", ")"),
                ("{", "}"),
                ("<|", "|>"),
                ("\\[LeftCeiling]", "\\[RightCeiling]"),
                ("\\[LeftAngleBracket]", "\\[RightAngleBracket]"),
                ("\u{301a}", "\u{301b}"),
            ]);
            o.push_str(a);
            seq(s, o, budget, depth - 1);
            o.push_str(b);
        },
        7 | 8 => {
            expr(s, o, budget, depth.min(2) - 1);
            let (a, b) = *s.pick(&[
                ("[", "]"),
                ("[[", "]]"),
                ("\\[LeftDoubleBracket]", "\\[RightDoubleBracket]"),
                ("::[", "]"),
            ]);
            o.push_str(a);
            seq(s, o, budget, depth - 1);
            o.push_str(b);
        },
        9 => {
            let op = s.pick(&OPS[..]);
            match op.kind {
                Kind::Prefix => {
                    o.push_str(op.text);
                    ws(s, o);
                    expr(s, o, budget, depth - 1);
                },
                _ => {
                    expr(s, o, budget, depth - 1);
                    o.push_str(op.text);
                    expr(s, o, budget, depth - 1);
                },
            }
        },
        10 => {
            expr(s, o, budget, depth - 1);
            o.push_str(s.ps(&["&", "'", "!", "++", "--", "..", "...", "=.", ";", "!!"]));
        },
        11 => {
            // implicit times
            expr(s, o, budget, depth - 1);
            o.push(' ');
            expr(s, o, budget, depth - 1);
        },
        12 => {
            o.push_str(s.ps(&[
                "x_", "_", "__h", "x___", "_.", "x_.", "x:_", "x:1", "x_:1",
                "_?f", "x_h", "#", "##", "#1", "#a", "##2", "%", "%%", "%3",
                "a::b", "a::\"c\"", "a~f~b", "a/:b=c", "a/:b:=c", "a/:b=.",
                "a;;b", ";;", "a;;b;;c", "a;;;;c", ";;b", "a;;", "-a", "!a",
                "++a", "\\[Integral]f\\[DifferentialD]x", "<<a`", "a>>b",
                "a>>>\"c\"", "a:b:c", "\\!x", "\\(a\\)", "a=.", "a= .",
            ]));
        },
        _ => {
            expr(s, o, budget, depth - 1);
            ws(s, o);
            o.push_str(s.ps(&["->", ":>", "=", ":=", "==", "<", "+", "-", "/", "//", "@", ";", "&&"]));
            ws(s, o);
            expr(s, o, budget, depth - 1);
        },
    }
}

fn seq(s: &mut Src, o: &mut String, budget: &mut i32, depth: u32) {
    let n = s.below(4);
    for i in 0..n {
        if i > 0 {
            o.push(',');
            ws(s, o);
        }
        if s.chance(1, 12) {
            continue;
        }
        if depth == 0 {
            leaf(s, o);
        } else {
            expr(s, o, budget, depth);
        }
    }
    if s.chance(1, 15) {
        o.push(',');
    }
    ws(s, o);
}

pub fn leaf(s: &mut Src, o: &mut String) {
    match s.weighted(&[10, 5, 3]) {
        0 => o.push_str(s.ps(&SYMBOLS[..])),
        1 => o.push_str(s.ps(&NUMBERS[..20])),
        _ => o.push_str(s.ps(STRINGS)),
    }
}

/// Arbitrary bytes, including malformed UTF-8.
pub fn any_bytes(s: &mut Src, cfg: TextCfg) -> Vec<u8> {
    let t = any_text(s, cfg);
    s.literal = None;
    let mut b = t.into_bytes();
    if s.chance(2, 3) {
        let n = s.below(4) + 1;
        for _ in 0..n {
            let bad: &[u8] = *s.pick(BAD_BYTES);
            let i = s.below(b.len() as u32 + 1) as usize;
            let tail = b.split_off(i);
            b.extend_from_slice(bad);
            b.extend(tail);
        }
    }
    b
}

pub const BAD_BYTES: &[&[u8]] = &[
    &[0x80], &[0xff], &[0xfe], &[0xc0], &[0xc1, 0x80], &[0xc2],
    &[0xc2, 0x41], &[0xe0, 0x80, 0x80], &[0xe0, 0xa0], &[0xe2, 0x82],
    &[0xe2, 0x28, 0xa1], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf],
    &[0xef, 0xbb, 0xbf], &[0xf0, 0x80, 0x80, 0x80], &[0xf0, 0x9f, 0x98],
    &[0xf0, 0x9f], &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80],
    &[0xf8], &[0xbf], &[0xf1, 0x80, 0x80], &[0xf1, 0x80, 0x80, 0x80],
    &[0xf4, 0x8f, 0xbf, 0xbf], &[0xe1, 0x80], &[0xed, 0x9f, 0xbf],
    &[0xee, 0x80, 0x80], &[0xf0, 0x90, 0x80, 0x80], &[0xed, 0xa0],
    &[0xe0, 0xa0, 0x80], &[0xef, 0xbb], &[0xf3, 0xbf, 0xbf, 0x22],
];
