//! A reference lexer: character escapes, then tokens, read straight off the
//! language's rules. It works on byte offsets of the text.

use crate::longnames::{Class, NAMES};
use std::collections::HashMap;
use std::sync::OnceLock;

/// A decoded character.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum C {
    Ch(char),
    CrLf,
    /// `\"`, `\\`, `\<`, `\>`, `\b`, `\f`, `\n`, `\r`, `\t`
    Meta(u8),
    /// backslash and space
    LinearSpace,
    /// backslash and a newline of this many bytes; the newline's first byte
    Cont(u8, u8),
    /// a byte order mark
    Bom,
    Eof,
}

/// How a character was written.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Esc {
    None,
    Raw,
    Single,
    Hex2,
    Hex4,
    Hex6,
    Octal,
    LongName,
}

pub fn by_name(name: &str) -> Option<(Class, char)> {
    static M: OnceLock<HashMap<&'static str, (Class, char)>> = OnceLock::new();
    M.get_or_init(|| {
        NAMES
            .iter()
            .map(|(n, k, c)| (*n, (*k, char::from_u32(*c).unwrap())))
            .collect()
    })
    .get(name)
    .copied()
}

pub fn names_of(c: char) -> &'static [(&'static str, Class)] {
    static M: OnceLock<HashMap<char, Vec<(&'static str, Class)>>> = OnceLock::new();
    M.get_or_init(|| {
        let mut m: HashMap<char, Vec<(&'static str, Class)>> = HashMap::new();
        for (n, k, c) in NAMES.iter() {
            if *k != Class::Unsupported {
                m.entry(char::from_u32(*c).unwrap())
                    .or_default()
                    .push((*n, *k));
            }
        }
        m
    })
    .get(&c)
    .map(|v| v.as_slice())
    .unwrap_or(&[])
}

pub const LINEAR: &[(char, char, &str)] = &[
    (')', '\u{f7c0}', "LinearSyntax_CloseParen"),
    ('!', '\u{f7c1}', "LinearSyntax_Bang"),
    ('@', '\u{f7c2}', "LinearSyntax_At"),
    ('%', '\u{f7c5}', "LinearSyntax_Percent"),
    ('^', '\u{f7c6}', "LinearSyntax_Caret"),
    ('&', '\u{f7c7}', "LinearSyntax_Amp"),
    ('*', '\u{f7c8}', "LinearSyntax_Star"),
    ('(', '\u{f7c9}', "LinearSyntax_OpenParen"),
    ('_', '\u{f7ca}', "LinearSyntax_Under"),
    ('+', '\u{f7cb}', "LinearSyntax_Plus"),
    ('/', '\u{f7cc}', "LinearSyntax_Slash"),
    ('`', '\u{f7cd}', "LinearSyntax_BackTick"),
];

pub struct Lex<'a> {
    pub t: &'a str,
}

impl<'a> Lex<'a> {
    /// The source character at `o`.
    pub fn raw(&self, o: usize) -> (C, usize) {
        let rest = &self.t[o..];
        if rest.starts_with("\r\n") {
            return (C::CrLf, o + 2);
        }
        match rest.chars().next() {
            None => (C::Eof, o),
            Some('\u{feff}') => (C::Bom, o + 3),
            Some(c) => (C::Ch(c), o + c.len_utf8()),
        }
    }

    fn digits(&self, o: usize, n: usize, radix: u32) -> Option<u32> {
        let s = self.t.get(o..o + n)?;
        if s.bytes().all(|b| (b as char).is_digit(radix)) {
            u32::from_str_radix(s, radix).ok()
        } else {
            None
        }
    }

    fn numeric(v: u32, esc: Esc) -> Option<(C, Esc)> {
        Some(match v {
            0x22 => (C::Meta(b'"'), esc),
            0x5c => (C::Meta(b'\\'), esc),
            _ => (C::Ch(char::from_u32(v)?), esc),
        })
    }

    /// The Wolfram character at `o`: itself, or what an escape stands for. A
    /// backslash that begins no escape stands for itself.
    pub fn decode(&self, o: usize) -> (C, Esc, usize) {
        let (c, end) = self.raw(o);
        if c != C::Ch('\\') {
            return (c, Esc::None, end);
        }
        let plain = (C::Ch('\\'), Esc::None, end);
        let (d, end2) = self.raw(end);
        let d = match d {
            C::CrLf => return (C::Cont(b'\r', 2), Esc::Single, end2),
            C::Ch(d) => d,
            _ => return plain,
        };
        match d {
            '\n' | '\r' => (C::Cont(d as u8, 1), Esc::Single, end2),
            '"' | '\\' | '<' | '>' | 'b' | 'f' | 'n' | 'r' | 't' => {
                (C::Meta(d as u8), Esc::Single, end2)
            },
            ' ' => (C::LinearSpace, Esc::Single, end2),
            ':' | '.' | '|' => {
                let (n, e) = match d {
                    ':' => (4, Esc::Hex4),
                    '.' => (2, Esc::Hex2),
                    _ => (6, Esc::Hex6),
                };
                match self.digits(end2, n, 16).and_then(|v| Self::numeric(v, e)) {
                    Some((c, e)) => (c, e, end2 + n),
                    None => plain,
                }
            },
            '0'..='7' => match self
                .digits(end, 3, 8)
                .and_then(|v| Self::numeric(v, Esc::Octal))
            {
                Some((c, e)) => (c, e, end + 3),
                None => plain,
            },
            '[' => {
                let rest = &self.t[end2..];
                let n = rest
                    .find(|c: char| !c.is_ascii_alphanumeric())
                    .unwrap_or(rest.len());
                if !rest[n..].starts_with(']') || !rest.starts_with(|c: char| c.is_ascii_uppercase())
                {
                    return plain;
                }
                match by_name(&rest[..n]) {
                    None => plain,
                    Some((k, c)) => {
                        let c = match (k, c) {
                            (Class::Raw, '"') => C::Meta(b'"'),
                            (Class::Raw, '\\') => C::Meta(b'\\'),
                            _ => C::Ch(c),
                        };
                        let e = if k == Class::Raw { Esc::Raw } else { Esc::LongName };
                        (c, e, end2 + n + 1)
                    },
                }
            },
            _ => match LINEAR.iter().find(|l| l.0 == d) {
                Some(l) => (C::Ch(l.1), Esc::Single, end2),
                None => plain,
            },
        }
    }

    /// The next character a token sees: line continuations and the blanks
    /// after them are skipped.
    pub fn next(&self, mut o: usize) -> (C, Esc, usize) {
        loop {
            let (c, e, end) = self.decode(o);
            if !matches!(c, C::Cont(..)) {
                return (c, e, end);
            }
            o = end;
            loop {
                let (c, _, end) = self.decode(o);
                if !matches!(c, C::Ch(' ' | '\t' | '\x0b' | '\x0c')) {
                    break;
                }
                o = end;
            }
        }
    }

    pub fn ch(&self, o: usize) -> Option<char> {
        match self.next(o).0 {
            C::Ch(c) => Some(c),
            _ => None,
        }
    }
    fn after(&self, o: usize) -> usize {
        self.next(o).2
    }
    fn is(&self, o: usize, f: impl Fn(char) -> bool) -> bool {
        self.ch(o).map_or(false, f)
    }
    fn run(&self, mut o: usize, f: impl Fn(char) -> bool) -> (usize, Vec<char>) {
        let mut v = vec![];
        while let Some(c) = self.ch(o).filter(|c| f(*c)) {
            v.push(c);
            o = self.after(o);
        }
        (o, v)
    }
}

pub fn is_mb_space(c: char) -> bool {
    c == '\u{f3a2}' || names_of(c).iter().any(|n| n.1 == Class::Space)
}

pub fn letterlike(c: char) -> bool {
    if (c as u32) < 0x80 {
        return c.is_ascii_alphabetic()
            || c == '$'
            || ((c as u32) < 0x20 && !matches!(c, '\x07' | '\t' | '\n' | '\x0b' | '\x0c' | '\r'));
    }
    if is_mb_space(c) || LINEAR.iter().any(|l| l.1 == c) {
        return false;
    }
    // the first class any of its names gives it
    !names_of(c).iter().any(|n| {
        matches!(n.1, Class::Punct | Class::Newline | Class::Uninterpretable)
    })
}

/// ASCII operators, longest first within a first character.
pub const OPERATORS: &[(&str, &str)] = &[
    ("^:=", "CaretColonEqual"), ("^=", "CaretEqual"), ("^", "Caret"),
    ("===", "EqualEqualEqual"), ("=!=", "EqualBangEqual"), ("==", "EqualEqual"), ("=", "Equal"),
    ("::[", "ColonColonOpenSquare"), ("::", "ColonColon"), (":=", "ColonEqual"), (":>", "ColonGreater"), (":", "Colon"),
    (";;", "SemiSemi"), (";", "Semi"),
    ("##", "HashHash"), ("#", "Hash"),
    ("&&", "AmpAmp"), ("&", "Amp"),
    ("!=", "BangEqual"), ("!!", "BangBang"), ("!", "Bang"),
    ("'", "SingleQuote"), (",", "Comma"),
    ("[", "OpenSquare"), ("]", "CloseSquare"), ("{", "OpenCurly"), ("}", "CloseCurly"), ("(", "OpenParen"), (")", "CloseParen"),
    ("*=", "StarEqual"), ("**", "StarStar"), ("*)", "Error_UnexpectedCommentCloser"), ("*", "Star"),
    ("...", "DotDotDot"), ("..", "DotDot"), (".", "Dot"),
    ("//.", "SlashSlashDot"), ("//@", "SlashSlashAt"), ("//=", "SlashSlashEqual"), ("//", "SlashSlash"),
    ("/@", "SlashAt"), ("/;", "SlashSemi"), ("/.", "SlashDot"), ("/:", "SlashColon"), ("/=", "SlashEqual"), ("/*", "SlashStar"), ("/", "Slash"),
    ("<|", "LessBar"), ("<<", "LessLess"), ("<>", "LessGreater"), ("<=", "LessEqual"), ("<->", "LessMinusGreater"), ("<", "Less"),
    (">>>", "GreaterGreaterGreater"), (">>", "GreaterGreater"), (">=", "GreaterEqual"), (">", "Greater"),
    ("->", "MinusGreater"), ("--", "MinusMinus"), ("-=", "MinusEqual"), ("-", "Minus"),
    ("++", "PlusPlus"), ("+=", "PlusEqual"), ("+", "Plus"),
    ("|>", "BarGreater"), ("||", "BarBar"), ("|->", "BarMinusGreater"), ("|", "Bar"),
    ("~~", "TildeTilde"), ("~", "Tilde"),
    ("??", "QuestionQuestion"), ("?", "Question"),
    ("@@@", "AtAtAt"), ("@@", "AtAt"), ("@*", "AtStar"), ("@", "At"),
    ("___", "UnderUnderUnder"), ("__", "UnderUnder"), ("_.", "UnderDot"), ("_", "Under"),
];

/// A token: its kind and where it ends. `end: None` where the rules do not say
/// how far a malformed token reaches.
pub struct Tok {
    pub kind: String,
    pub end: Option<usize>,
}

fn tok(kind: &str, end: usize) -> Tok {
    Tok { kind: kind.into(), end: Some(end) }
}

impl<'a> Lex<'a> {
    pub fn token(&self, o: usize) -> Tok {
        let (c, esc, end) = self.next(o);
        let c = match c {
            C::Eof => return tok("EndOfFile", end),
            C::CrLf => return tok("ToplevelNewline", end),
            C::Bom => return tok("Error_UnsafeCharacterEncoding", end),
            C::LinearSpace => return tok("LinearSyntax_Space", end),
            C::Meta(_) => return tok("Error_UnhandledCharacter", end),
            C::Cont(..) => unreachable!(),
            C::Ch(c) => c,
        };
        match c {
            '\n' | '\r' => return tok("ToplevelNewline", end),
            ' ' | '\t' | '\x0b' | '\x0c' => return tok("Whitespace", end),
            '\x07' | '\x7f' => return tok("Error_UnhandledCharacter", end),
            '0'..='9' => return self.number(o),
            '.' if self.is(end, |c| c.is_ascii_digit()) => return self.number(o),
            '"' => return self.string(end),
            '\\' => return Tok { kind: "Error_UnhandledCharacter".into(), end: None },
            '`' => return self.symbol(o),
            '(' if esc == Esc::None && self.t[end..].starts_with('*') => {
                return self.comment(end + 1)
            },
            '\u{f7c9}' => return self.blob(end),
            '%' => {
                let (e, v) = self.run(o, |c| c == '%');
                return tok(if v.len() > 1 { "PercentPercent" } else { "Percent" }, e);
            },
            _ => {},
        }
        if letterlike(c) {
            return self.symbol(o);
        }
        if let Some(l) = LINEAR.iter().find(|l| l.1 == c) {
            return tok(l.2, end);
        }
        if !c.is_ascii() {
            if is_mb_space(c) {
                return tok("Whitespace", end);
            }
            let (n, k) = names_of(c)[0];
            return match k {
                Class::Newline => tok("ToplevelNewline", end),
                Class::Uninterpretable => tok("Error_UnhandledCharacter", end),
                Class::Space => tok("Whitespace", end),
                _ => tok(&format!("LongName_{n}"), end),
            };
        }
        let mut best: Option<(&str, usize, usize)> = None;
        for (t, k) in OPERATORS {
            if !t.starts_with(c) {
                continue;
            }
            if let Some(e) = self.matches(o, t) {
                if *t == "/." && self.is(e, |c| c.is_ascii_digit()) {
                    continue;
                }
                if best.map_or(true, |b| b.2 < t.len()) {
                    best = Some((k, e, t.len()));
                }
            }
        }
        if c == '^' && best.map(|b| b.2) == Some(1) {
            if let Some(e) = self.matches(o, "^:") {
                return tok("Error_ExpectedEqual", e);
            }
        }
        let b = best.expect("an operator for every other character");
        tok(b.0, b.1)
    }

    fn matches(&self, mut o: usize, t: &str) -> Option<usize> {
        for c in t.chars() {
            if self.ch(o) != Some(c) {
                return None;
            }
            o = self.after(o);
        }
        Some(o)
    }

    fn string(&self, mut o: usize) -> Tok {
        loop {
            let (c, _, end) = self.next(o);
            match c {
                C::Ch('"') => return tok("String", end),
                C::Eof => return tok("Error_UnterminatedString", end),
                _ => o = end,
            }
        }
    }

    fn comment(&self, mut o: usize) -> Tok {
        let mut depth = 1;
        loop {
            let rest = &self.t[o..];
            if rest.starts_with("(*") {
                depth += 1;
                o += 2;
            } else if rest.starts_with("*)") {
                depth -= 1;
                o += 2;
                if depth == 0 {
                    return tok("Comment", o);
                }
            } else {
                match rest.chars().next() {
                    None => return tok("Error_UnterminatedComment", o),
                    Some(c) => o += c.len_utf8(),
                }
            }
        }
    }

    fn blob(&self, mut o: usize) -> Tok {
        let mut depth = 1;
        loop {
            let (c, _, end) = self.next(o);
            o = end;
            match c {
                C::Ch('\u{f7c9}') => depth += 1,
                C::Ch('\u{f7c0}') => {
                    depth -= 1;
                    if depth == 0 {
                        return tok("LinearSyntaxBlob", o);
                    }
                },
                C::Eof => return tok("Error_UnterminatedLinearSyntaxBlob", o),
                _ => {},
            }
        }
    }

    fn symbol(&self, mut o: usize) -> Tok {
        if self.ch(o) != Some('`') {
            o = self.run(o, |c| letterlike(c) || c.is_ascii_digit()).0;
        }
        while self.ch(o) == Some('`') {
            o = self.after(o);
            if !self.is(o, letterlike) {
                return tok("Error_ExpectedLetterlike", o);
            }
            o = self.run(o, |c| letterlike(c) || c.is_ascii_digit()).0;
        }
        tok("Symbol", o)
    }

    fn number(&self, o: usize) -> Tok {
        let bad = || Tok { kind: "Error_Number".into(), end: None };
        let digit = |c: char| c.is_ascii_digit();
        let (mut o, lead) = self.run(o, digit);
        let mut lead_n = lead.len();
        let mut base = 0;
        let mut wrong = false;
        if lead_n > 0 {
            if let Some(e) = self.matches(o, "^^") {
                let b: String = lead.iter().collect();
                let v: u128 = b.trim_start_matches('0').parse().unwrap_or(if b.len() > 30 {
                    1000
                } else {
                    0
                });
                base = if v < 100 { v as u32 } else { 0 };
                wrong = !(2..=36).contains(&v);
                let (e2, ds) = self.based(e, base);
                wrong |= ds.iter().any(|c| too_big(*c, base));
                o = e2;
                lead_n = ds.len();
                if lead_n == 0 && self.ch(o) != Some('.') {
                    return bad();
                }
            }
        }
        let done = |kind: &str, end: usize, wrong: bool| {
            if wrong {
                tok("Error_Number", end)
            } else {
                tok(kind, end)
            }
        };
        let mut real = false;
        if self.ch(o) == Some('.') {
            let e = self.after(o);
            if self.ch(e) == Some('.') {
                return if lead_n == 0 { bad() } else { done("Integer", o, wrong) };
            }
            let (e, ds) = self.based(e, base);
            wrong |= ds.iter().any(|c| too_big(*c, base));
            if lead_n == 0 && ds.is_empty() {
                return bad();
            }
            o = e;
            real = true;
        }
        if self.ch(o) == Some('`') {
            real = true;
            o = self.after(o);
            let accuracy = self.ch(o) == Some('`');
            if accuracy {
                o = self.after(o);
            }
            let before_sign = o;
            let sign = self.is(o, |c| c == '+' || c == '-');
            if sign {
                let e = self.after(o);
                if !self.is(e, |c| c.is_ascii_digit() || c == '.') {
                    return if accuracy { bad() } else { done("Real", o, wrong) };
                }
                o = e;
            }
            let (e, ds) = self.run(o, digit);
            o = e;
            let mut given = !ds.is_empty();
            if self.ch(o) == Some('.') {
                let e = self.after(o);
                if self.ch(e) == Some('.') {
                    // a dot that belongs to `..`
                    return match (given, sign) {
                        (true, _) => done("Real", o, wrong),
                        (_, true) => done("Real", before_sign, wrong),
                        _ if accuracy => bad(),
                        _ => done("Real", o, wrong),
                    };
                }
                let next_digit = self.is(e, digit);
                if !given && !sign && !next_digit {
                    return if accuracy || self.is(e, |c| c == '+' || c == '-') {
                        bad()
                    } else {
                        done("Real", o, wrong)
                    };
                }
                let (e, ds) = self.run(e, digit);
                o = e;
                given |= !ds.is_empty();
                if !given {
                    return bad();
                }
            }
            if accuracy && !given {
                return bad();
            }
        }
        let mut rational = false;
        if let Some(e) = self.matches(o, "*^") {
            let neg = self.ch(e) == Some('-');
            let e = if self.is(e, |c| c == '+' || c == '-') { self.after(e) } else { e };
            let (e, ds) = self.run(e, digit);
            if ds.is_empty() {
                return bad();
            }
            rational = neg && ds.iter().any(|c| *c != '0');
            o = e;
            if self.ch(e) == Some('.') && self.ch(self.after(e)) != Some('.') {
                return bad();
            }
        }
        done(
            if real {
                "Real"
            } else if rational {
                "Rational"
            } else {
                "Integer"
            },
            o,
            wrong,
        )
    }

    /// What may stand directly behind `::`; `None` where the rules leave it open.
    pub fn tag(&self, o: usize) -> Option<Tok> {
        let (c, _, end) = self.next(o);
        Some(match c {
            C::Ch('"') => self.string(end),
            C::Ch(c) if letterlike(c) => {
                let e = self.run(o, |c| letterlike(c) || c.is_ascii_digit()).0;
                if self.ch(e) == Some('`') {
                    return None;
                }
                tok("String", e)
            },
            _ => tok("Error_ExpectedTag", o),
        })
    }

    /// The name or number of a slot directly behind `#`.
    pub fn slot(&self, o: usize) -> Option<Tok> {
        let (c, _, end) = self.next(o);
        let t = match c {
            C::Ch('"') => self.string(end),
            C::Ch(c) if c.is_ascii_digit() => return self.index(o),
            C::Ch(c) if letterlike(c) || c == '`' => self.symbol(o),
            _ => return None,
        };
        match t.kind.as_str() {
            "String" | "Symbol" => Some(tok("String", t.end?)),
            _ => None,
        }
    }

    /// The number directly behind `##` or `%`.
    pub fn index(&self, o: usize) -> Option<Tok> {
        let (e, v) = self.run(o, |c| c.is_ascii_digit());
        (!v.is_empty()).then(|| tok("Integer", e))
    }

    /// The file name behind `<<`, `>>` or `>>>` and the blanks and newlines after it.
    pub fn file(&self, o: usize) -> Tok {
        let plain = |c: char| c.is_ascii_alphanumeric() || "$`/.\\!-_:*~?".contains(c);
        let mut e = o;
        let mut depth = 0;
        loop {
            let (c, end) = self.raw(e);
            match c {
                C::Ch('"') if e == o => return self.string(end),
                C::Ch('[') => depth += 1,
                C::Ch(']') if depth > 0 => depth -= 1,
                C::Ch(c) if depth > 0 => {
                    let nl = names_of(c).iter().any(|n| n.1 == Class::Newline);
                    if matches!(c, ' ' | '\t' | '\x0b' | '\x0c' | '\n' | '\r') || (!c.is_ascii() && (is_mb_space(c) || nl)) {
                        return tok("Error_UnterminatedFileString", e);
                    }
                },
                C::Ch(c) if plain(c) => {},
                C::CrLf | C::Eof if depth > 0 => return tok("Error_UnterminatedFileString", e),
                _ if depth > 0 => {},
                _ if e == o => return tok("Error_ExpectedFile", o),
                _ => return tok("String", e),
            }
            e = end;
        }
    }

    fn based(&self, o: usize, base: u32) -> (usize, Vec<char>) {
        if base == 0 {
            self.run(o, |c| c.is_ascii_digit())
        } else {
            self.run(o, |c| c.is_ascii_alphanumeric())
        }
    }
}

fn too_big(c: char, base: u32) -> bool {
    base > 0 && c.to_digit(36).unwrap() >= base
}
