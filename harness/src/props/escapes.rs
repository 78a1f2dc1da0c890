//! P30: malformed escapes and odd characters are reported.

use super::*;
use crate::charextra::{ASCII, USUAL};
use crate::longnames::{Class, NAMES};
use crate::opts;
use crate::reflex::{by_name, is_mb_space, letterlike, Esc, Lex, C};
use crate::textgen::{any_text, TextCfg};
use crate::tree;
use wolfram_parser::issue::{CodeAction, CodeActionKind, Issue, IssueTag as T, Severity as S};
use wolfram_parser::source::{Source, Span};
use wolfram_parser::tokenize::TokenKind as TK;
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P30",
        assumptions: &["which characters are strange, usual letters, or have ASCII replacements is frozen from CodeParser/Data/LongNames.wl and utils.rs"],
        subs: vec![
            Sub {
                name: "strings",
                quick: 150_000,
                thorough: 12_000_000,
                rule: "strings and comments with well-formed, malformed and unknown escapes and odd characters in them; the issues and code actions against those a scan of the text calls for; non-trivial: at least two issues",
                f: strings,
            },
            Sub {
                name: "code",
                quick: 150_000,
                thorough: 12_000_000,
                rule: "lines of symbols and blanks with the same escapes and characters, outside strings; the issues about them likewise; non-trivial: at least one issue",
                f: code,
            },
            Sub {
                name: "leaves",
                quick: 150_000,
                thorough: 6_000_000,
                rule: "any text that leaves nothing open; blanks, newlines and letters that are unusual, read off the leaves of the tree, against what is reported; non-trivial: at least one such issue",
                f: leaves,
            },
            Sub {
                name: "tags",
                quick: 60_000,
                thorough: 3_000_000,
                rule: "message names whose tags hold letters of other alphabets, raw and escaped; each is an UnexpectedCharacter, nothing else in them is; non-trivial: at least one",
                f: tags,
            },
            Sub {
                name: "returns",
                quick: 60_000,
                thorough: 4_000_000,
                rule: "any text, with carriage returns put in anywhere; those that are not the first half of a CRLF against the UnexpectedCarriageReturn issues, each at the return or right behind it; non-trivial: at least one of each",
                f: returns,
            },
        ],
    }]
}

#[derive(Clone, PartialEq, PartialOrd, Debug)]
struct A {
    at: (usize, usize),
    /// replace, insert, delete
    kind: char,
    text: String,
}

#[derive(Clone, PartialEq, PartialOrd, Debug)]
struct W {
    at: (usize, usize),
    tag: &'static str,
    sev: String,
    conf: f64,
    acts: Vec<A>,
}

pub fn strange(c: char) -> bool {
    matches!(c as u32,
        0..=8 | 0xb | 0xc | 0xe..=0x1a | 0x1c..=0x1f | 0x7f
        | 0x80..=0x9f
        | 0x200b..=0x200d | 0x2018 | 0x2019 | 0x201c | 0x201d | 0x2061 | 0x2063 | 0x2064
        | 0x2192 | 0x279d | 0x29f4 | 0xf3a2 | 0xf76d
        | 0xf0000..=0xffffd | 0x100000..=0x10fffd)
}

fn strange_space(c: char) -> bool {
    matches!(c, '\x0b' | '\x0c') || (!c.is_ascii() && is_mb_space(c))
}

/// Characters that were likely meant to be another one.
fn meant(c: char, escaped: bool) -> Vec<(char, String)> {
    let (name, raw) = match c as u32 {
        0xf3a2 => ("NoBreak", '\u{2060}'),
        0x2192 | 0x279d => ("Rule", '\u{f522}'),
        0x29f4 => ("RuleDelayed", '\u{f51f}'),
        0x2061 => ("InvisibleApplication", '\u{f76d}'),
        0x2063 => ("InvisibleComma", '\u{f765}'),
        0x2064 => ("ImplicitPlus", '\u{f39e}'),
        0x200b => ("InvisibleSpace", '\u{f360}'),
        _ => return vec![],
    };
    let mut v = vec![('R', if escaped { format!("\\[{name}]") } else { raw.to_string() })];
    if c as u32 == 0x2061 {
        v.push(('D', String::new()));
    }
    v
}

fn ascii(c: char) -> Vec<(char, String)> {
    match ASCII.binary_search_by_key(&(c as u32), |(c, _)| *c) {
        Ok(i) => ASCII[i].1.iter().map(|s| ('R', s.to_string())).collect(),
        Err(_) => vec![],
    }
}

fn distance(a: &str, b: &str) -> usize {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for i in 0..a.len() {
        let mut diag = row[0];
        row[0] = i + 1;
        for j in 0..b.len() {
            let sub = diag + (a[i] != b[j]) as usize;
            diag = row[j + 1];
            row[j + 1] = sub.min(diag + 1).min(row[j] + 1);
        }
    }
    row[b.len()]
}

fn nearest(name: &str) -> usize {
    NAMES.iter().map(|(n, _, _)| distance(name, n)).min().unwrap()
}

const HOT: &[&str] = &["UnhandledCharacter", "UnrecognizedLongName", "UnexpectedCharacter", "NonASCIICharacter"];

/// The name at `o`: upper case letter, then letters and digits.
fn name_at(t: &str, o: usize) -> &str {
    let r = &t[o..];
    if !r.starts_with(|c: char| c.is_ascii_uppercase()) {
        return "";
    }
    &r[..r.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(r.len())]
}

#[derive(Clone, Copy, PartialEq)]
enum Where {
    String,
    Comment,
    Code,
}

/// Whether letters of other alphabets belong to a name is left open.
fn unclear(t: &str) -> bool {
    let mut open = false;
    for c in t.chars() {
        match c {
            '\\' => open = true,
            '[' if open => {},
            c if open && !c.is_ascii() && c.is_alphanumeric() => return true,
            c if open && c.is_ascii_alphanumeric() => {},
            _ => open = false,
        }
    }
    false
}

/// The issues about a stretch of text, each character taken as `wh` says.
fn scan(t: &str, from: usize, to: usize, wh: Where, normal: bool, out: &mut Vec<W>) {
    let lex = Lex { t };
    let sev = if wh == Where::Code { "Warning" } else { "Remark" };
    let fatal = |a: usize, b: usize, acts: Vec<A>| W { at: (a, b), tag: "UnhandledCharacter", sev: "Fatal".into(), conf: 1.0, acts };
    let mut o = from;
    while o < to {
        let (c, end) = lex.raw(o);
        let C::Ch(c) = c else {
            o = end;
            continue;
        };
        // The character as it stands.
        let acts = |first: Vec<(char, String)>, graphical: bool, c: char, at: (usize, usize)| -> Vec<A> {
            let mut v = first;
            if graphical {
                v.push(('R', "<itself>".into()));
            }
            v.extend(ascii(c));
            v.into_iter().map(|(kind, text)| A { at, kind, text }).collect()
        };
        if strange(c) || c == '\x1b' {
            if !(wh == Where::Code && strange_space(c)) {
                out.push(W {
                    at: (o, end),
                    tag: "UnexpectedCharacter",
                    sev: sev.into(),
                    conf: 0.95,
                    acts: acts(meant(c, false), true, c, (o, end)),
                });
            }
        } else if !c.is_ascii() && normal {
            out.push(W { at: (o, end), tag: "NonASCIICharacter", sev: "Remark".into(), conf: 1.0, acts: acts(vec![], true, c, (o, end)) });
        }
        if c != '\\' || wh == Where::Comment {
            o = end;
            continue;
        }
        let rep = |b: usize, text: String| vec![A { at: (o, b), kind: 'R', text }];
        let (C::Ch(n), end2) = lex.raw(end) else {
            o = lex.raw(end).1.max(end);
            continue;
        };
        match n {
            '"' | 'n' | 'r' | 't' | '\n' | '\r' | '!' | '%' | '&' | '(' | ')' | '*' | '+' | '/' | '@' | '^' | '_' | '`' | ' ' => o = end2,
            '\\' => {
                if t[end2..].starts_with('[') {
                    let name = name_at(t, end2 + 1);
                    let e = end2 + 1 + name.len();
                    if !name.is_empty() && t[e..].starts_with(']') && by_name(name).is_none() {
                        let acts = if nearest(name) <= 2 {
                            vec![A { at: (o, e + 1), kind: 'R', text: "\\\\[<near>]".into() }]
                        } else {
                            vec![]
                        };
                        out.push(W { at: (o, e + 1), tag: "UnrecognizedLongName", sev: "Error".into(), conf: 0.75, acts });
                    }
                }
                o = end2;
            },
            '<' | '>' | 'b' | 'f' => {
                out.push(W { at: (o, end2), tag: "UnexpectedCharacter", sev: "Remark".into(), conf: 0.95, acts: vec![] });
                o = end2;
            },
            '[' | ':' | '.' | '|' | '0'..='7' => {
                let (d, esc, e) = lex.decode(o);
                if esc != Esc::None {
                    if let C::Ch(d) = d {
                        if strange(d) && !strange_space(d) {
                            out.push(W {
                                at: (o, e),
                                tag: "UnexpectedCharacter",
                                sev: sev.into(),
                                conf: if d.is_ascii() { 0.95 } else { 0.85 },
                                acts: acts(meant(d, true), false, d, (o, e)),
                            });
                        }
                    }
                    o = e;
                    continue;
                }
                if n == '[' {
                    let name = name_at(t, end2);
                    let e = end2 + name.len();
                    if name.is_empty() {
                        let e = if t[e..].starts_with(']') { e + 1 } else { e };
                        out.push(fatal(o, e, rep(e, format!("\\{}", &t[o..e]))));
                    } else if !t[e..].starts_with(']') {
                        let acts = if by_name(name).is_some() { vec![A { at: (e, e), kind: 'I', text: "]".into() }] } else { vec![] };
                        out.push(fatal(o, e, acts));
                    } else {
                        let acts = if nearest(name) <= 2 { rep(e + 1, "\\[<near>]".into()) } else { vec![] };
                        out.push(fatal(o, e + 1, acts));
                    }
                } else {
                    let (from, max, radix) = match n {
                        ':' => (end2, 4, 16),
                        '.' => (end2, 2, 16),
                        '|' => (end2, 6, 16),
                        _ => (end, 3, 8),
                    };
                    let k = t[from..].chars().take(max).take_while(|c| c.is_digit(radix)).count();
                    // Digits of no character (surrogates, beyond Unicode) are not reported.
                    if k < max {
                        out.push(fatal(o, from + k, rep(from + k, format!("\\{}", &t[o..from + k]))));
                    }
                }
                o = end;
            },
            _ => {
                let name = name_at(t, end);
                let e = end + name.len();
                if !name.is_empty() && t[e..].starts_with(']') && by_name(name).is_some() {
                    out.push(fatal(o, e + 1, vec![A { at: (end, end), kind: 'I', text: "[".into() }]));
                } else if n.is_ascii_uppercase() {
                    let mut acts = rep(end2, format!("\\[{n}XXX]"));
                    if n.is_ascii_hexdigit() {
                        acts.extend(rep(end2, format!("\\:{n}XXX")));
                    }
                    out.push(fatal(o, end2, acts));
                } else if n.is_ascii_hexdigit() {
                    out.push(fatal(o, end2, rep(end2, format!("\\:{n}xxx"))));
                } else if n.is_ascii_graphic() {
                    out.push(fatal(o, end2, rep(end2, format!("\\\\{n}"))));
                } else {
                    out.push(fatal(o, end2, vec![]));
                }
                o = end;
            },
        }
    }
}

fn places(pos: &tree::Pos, s: &Span) -> (usize, usize) {
    let f = |l| pos.offset_of(l).unwrap_or(usize::MAX);
    (f(s.start()), f(s.end()))
}

/// Does the replacement text stand for the character `c`?
fn itself(text: &str, c: char) -> bool {
    let (d, _, e) = Lex { t: text }.decode(0);
    text.is_ascii()
        && e == text.len()
        && text.starts_with('\\')
        && (d == C::Ch(c) || (c == '\x08' && d == C::Meta(b'b')) || (c == '\x0c' && d == C::Meta(b'f')))
}

fn action(text: &str, pos: &tree::Pos, at: (usize, usize), a: &CodeAction) -> A {
    let (kind, mut s) = match &a.kind {
        CodeActionKind::ReplaceText { replacement_text } => ('R', replacement_text.clone()),
        CodeActionKind::InsertText { insertion_text } => ('I', insertion_text.clone()),
        CodeActionKind::DeleteText => ('D', String::new()),
    };
    let src = text.get(at.0..at.1).unwrap_or("");
    let mut cs = src.chars();
    if let (Some(c), None) = (cs.next(), cs.next()) {
        if itself(&s, c) {
            s = "<itself>".into();
        }
    }
    if let (Some(i), Some(j)) = (src.find('['), s.find('[')) {
        if src.ends_with(']') && s.ends_with(']') {
            let (old, new) = (&src[i + 1..src.len() - 1], &s[j + 1..s.len() - 1]);
            if by_name(old).is_none() && by_name(new).is_some() && distance(old, new) == nearest(old) {
                s = format!("{}[<near>]", &s[..j]);
            }
        }
    }
    A { at: places(pos, &a.src), kind, text: s }
}

fn reported(text: &str, pos: &tree::Pos, issues: &[&Issue], tags: &[&str]) -> Result<Vec<W>, String> {
    let mut v = vec![];
    for i in issues {
        if !tags.contains(&i.tag.as_str()) {
            continue;
        }
        let Source::Span(s) = &i.src else { return Err(format!("issue without place: {i:?}")) };
        let at = places(pos, s);
        if matches!(i.tag, T::UnhandledCharacter | T::UnrecognizedLongName) {
            let src = text.get(at.0..at.1).unwrap_or("");
            if src.bytes().all(|b| b.is_ascii_graphic()) && !i.msg.contains(src) {
                return Err(format!("the message {:?} does not name {src:?}", i.msg));
            }
        }
        v.push(W {
            at,
            tag: i.tag.as_str(),
            sev: format!("{:?}", i.sev),
            conf: f64::from(i.val),
            acts: i.actions.iter().map(|a| action(text, pos, at, a)).collect(),
        });
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    Ok(v)
}

fn damaged_name(s: &mut Src) -> String {
    let mut n: Vec<u8> = s.pick(&NAMES[..]).0.bytes().collect();
    for _ in 0..s.range(1, 4) {
        let i = s.below(n.len() as u32) as usize;
        let c = *s.pick(&b"aeghlnorstzABX19"[..]);
        match s.below(4) {
            0 if n.len() > 2 => {
                n.remove(i.max(1));
            },
            1 => n[i] = c,
            2 => n.insert(i + 1, c),
            _ if i > 1 => n.swap(i - 1, i),
            _ => n.insert(i + 1, c),
        }
    }
    String::from_utf8(n).unwrap()
}

const ODD: &[char] = &[
    '\0', '\x01', '\x07', '\x08', '\x0b', '\x0c', '\x0e', '\x1a', '\x1b', '\x1c', '\x1f', '\x7f', '\u{80}', '\u{85}', '\u{9f}', '\u{a0}',
    '\u{200a}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{200e}', '\u{2018}', '\u{2019}', '\u{201c}', '\u{201d}', '\u{2028}', '\u{2060}', '\u{2061}', '\u{2062}',
    '\u{2063}', '\u{2064}', '\u{2192}', '\u{279d}', '\u{29f4}', '\u{f3a2}', '\u{f76d}', '\u{f765}', '\u{f522}', '\u{effff}', '\u{f0000}',
    '\u{ffffd}', '\u{ffffe}', '\u{100000}', '\u{10fffd}', '\u{10fffe}', '\u{1f600}', 'é', 'α', '×', '≤', '∖', '…', '\u{f360}', '\u{ad}',
];

fn char_for(s: &mut Src) -> char {
    match s.below(4) {
        0 | 1 => *s.pick(ODD),
        2 => char::from_u32(s.pick(&NAMES[..]).2).unwrap(),
        _ => char::from_u32(s.below(0x3000)).unwrap_or('x'),
    }
}

fn hex(s: &mut Src, n: u32) -> String {
    (0..n).map(|_| *s.pick(&b"0123456789abcdefABCDEF"[..]) as char).collect()
}

/// One escape or character, good or bad.
fn piece(s: &mut Src, wh: Where) -> String {
    match s.weighted(&[5, 4, 2, 3, 4, 3, 4, 2, 2]) {
        0 => s.ps(&["a", "b ", "Z9", "x", "y1", " ", "q", "7", "e"]).to_string(),
        // a character, raw or escaped
        1 => {
            let c = char_for(s);
            let v = c as u32;
            match s.below(5) {
                0 | 1 => c.to_string(),
                2 if v < 0x100 => format!("\\.{v:02x}"),
                3 if v < 0x200 => format!("\\{v:03o}"),
                2 | 3 if v < 0x10000 => format!("\\:{v:04X}"),
                _ => format!("\\|{v:06x}"),
            }
        },
        2 => format!("\\[{}]", s.pick(&NAMES[..]).0),
        // unknown or misspelt names
        3 => {
            let n = damaged_name(s);
            let b = if s.chance(1, 4) { "\\\\" } else { "\\" };
            format!("{b}[{n}]")
        },
        // broken names
        4 => match s.below(6) {
            0 => format!("\\[{}", s.pick(&NAMES[..]).0),
            1 => format!("\\{}]", s.pick(&NAMES[..]).0),
            2 => format!("\\[{}", damaged_name(s)),
            3 => s.ps(&["\\[]", "\\[", "\\[!]", "\\[alpha]", "\\[1]", "\\[[Alpha]]", "\\[ Alpha]"]).to_string(),
            4 => format!("\\{}]", damaged_name(s)),
            _ => format!("\\[{}{}", s.pick(&NAMES[..]).0, s.ps(&["!]", " ]", "é]", ":]", "\\]"])),
        },
        // numeric ones, perhaps too short
        5 => {
            let n = s.below(8);
            let h = hex(s, n);
            format!("\\{}{h}", s.ps(&[":", ".", "|"]))
        },
        6 => {
            let n = s.below(4);
            let d: String = (0..n).map(|_| *s.pick(&b"01234567789"[..]) as char).collect();
            if d.is_empty() {
                format!("\\{}", *s.pick(&b"ACDFGZacdeghiz89#$',-;=?{}~]"[..]) as char)
            } else {
                format!("\\{d}")
            }
        },
        7 if wh == Where::Code => s.ps(&["\\\n", " ", "$", "\\\\", "\\é", "`"]).to_string(),
        7 => s
            .ps(&["\\n", "\\t", "\\\"", "\\\\", "\\<", "\\>", "\\b", "\\f", "\\r", "\\\n", "\\\r\n", "\\(", "\\*", "\\ ", "\\é", "\\\t", "\\\x01"])
            .to_string(),
        _ if wh == Where::Code => "\n".into(),
        _ => s.ps(&["\n", "(*", "\\\\[Alpha]", "\t", ":", "]"]).to_string(),
    }
}

fn decide(text: String, o: opts::O, mut want: Vec<W>, min: usize, tags: &[&str]) -> Outcome {
    let key = format!("{} | {text:?}", o.show());
    if unclear(&text) {
        return Outcome::Discard("letters of other alphabets in a name");
    }
    let pos = tree::Pos::new(&text, o.tab);
    let r = match guard(|| parse_cst_seq(&text, &o.make())) {
        Ok(r) => r,
        Err(e) => return panicked(&e, &key),
    };
    for (i, _) in text.match_indices("\\\\[") {
        let n = name_at(&text, i + 3);
        if by_name(n).is_some_and(|(_, c)| strange(c)) {
            return Outcome::Discard("the name of an odd character behind a backslash");
        }
    }
    if want.iter().filter(|w| w.sev == "Fatal").count() > 10 {
        return Outcome::Discard("more than ten fatal ones");
    }
    let all: Vec<&Issue> = r.fatal_issues.iter().chain(r.non_fatal_issues.iter()).collect();
    let got = match reported(&text, &pos, &all, tags) {
        Ok(g) => g,
        Err(e) => return fail("an issue that does not say what it is about", &key, e),
    };
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    want.dedup();
    if got != want {
        let miss: Vec<&W> = want.iter().filter(|w| !got.contains(w)).collect();
        let over: Vec<&W> = got.iter().filter(|w| !want.contains(w)).collect();
        let sig = match (miss.first(), over.first()) {
            (Some(m), Some(o)) if m.tag == o.tag && m.at == o.at => format!("{} reported otherwise", m.tag),
            (Some(m), _) => format!("{} not reported", m.tag),
            (None, Some(o)) => format!("{} reported for nothing", o.tag),
            (None, None) => "an issue reported twice".into(),
        };
        return fail(sig, &key, format!("expected and not reported: {miss:?}\nreported and not expected: {over:?}"));
    }
    let mut labels = vec![];
    for t in HOT {
        if want.iter().any(|w| w.tag == *t) {
            labels.push(*t);
        }
    }
    pass(&key, want.len() >= min, labels)
}

fn strings(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let mut text = String::new();
    let mut want = vec![];
    let n = s.range(1, 3);
    for i in 0..n {
        let comment = s.chance(1, 5);
        let wh = if comment { Where::Comment } else { Where::String };
        text.push_str(if comment { "(*" } else { "\"" });
        let from = text.len();
        let mut content = String::new();
        for _ in 0..s.range(1, 8) {
            content.push_str(&piece(s, wh));
        }
        content.push_str(s.ps(&["", "z", " z", ".", "]"]));
        if comment {
            content = content.replace("(*", "").replace("*)", "");
        } else {
            // The string must end where it is meant to.
            content = content.replace("\\\"", "\0Q").replace('"', "").replace("\0Q", "\\\"");
            let probe = format!("{content}\"");
            let lex = Lex { t: &probe };
            let mut at = 0;
            while at < content.len() {
                at = lex.decode(at).2;
            }
            if at != content.len() {
                content.push('z');
            }
        }
        text.push_str(&content);
        let to = text.len();
        text.push_str(if comment { " *)" } else { "\"" });
        if text[from..].contains('\u{feff}') {
            return Outcome::Discard("byte order mark");
        }
        scan(&text, from, to, wh, o.enc == 0, &mut want);
        if i + 1 < n {
            text.push_str(s.ps(&[" ", "\n", ", ", " + ", "<>"]));
        }
    }
    decide(text, o, want, 2, HOT)
}

fn code(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let mut text = String::new();
    let mut want = vec![];
    for _ in 0..s.range(1, 10) {
        text.push_str(&piece(s, Where::Code));
    }
    text.push_str(s.ps(&["", "z", " z", "\n"]));
    if text.contains('\u{feff}') || text.contains("::") || text.contains("<<") || text.contains(">>") || text.contains("(*") {
        return Outcome::Discard("another context");
    }
    // Slots, tags, files, strings and comments written with escapes.
    let lex = Lex { t: &text };
    let mut at = 0;
    while at < text.len() {
        let (c, e, end) = lex.decode(at);
        if matches!(c, C::Ch('#' | '"') | C::Meta(b'"'))
            || (e != Esc::None && matches!(c, C::Ch(':' | '<' | '>' | '(' | '*')))
        {
            return Outcome::Discard("another context");
        }
        at = end;
    }
    scan(&text, 0, text.len(), Where::Code, o.enc == 0, &mut want);
    decide(text, o, want, 1, HOT)
}

fn leaves(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let text = if s.chance(1, 2) {
        let mut t = String::new();
        for _ in 0..s.range(1, 10) {
            match s.below(6) {
                0 => t.push_str(s.ps(&["+", ",", "[", "]", "f[", "(", ")", "_", "#", "/@", "{", "}"])),
                1 => {
                    let c = char_for(s);
                    t.push(c)
                },
                _ => t.push_str(&piece(s, Where::Code)),
            }
        }
        t
    } else {
        any_text(s, TextCfg { max_frags: 16 })
    };
    let key = format!("{} | {text:?}", o.show());
    let r = match guard(|| parse_cst_seq(&text, &o.make())) {
        Ok(r) => r,
        Err(e) => return panicked(&e, &key),
    };
    let cst = tree::from_cst_seq(&r.syntax);
    let mut skip = None;
    let mut ls = vec![];
    for n in &cst {
        n.walk(&mut |n| {
            if n.label.contains("MissingCloser") || n.label.contains("Unterminated") {
                skip = Some("left open");
            }
        });
        ls.extend(n.leaves());
    }
    if ls.iter().map(|l| l.text.len()).sum::<usize>() != text.len() {
        skip = Some("cut");
    }
    if let Some(w) = skip {
        return Outcome::Discard(w);
    }
    let pos = tree::Pos::new(&text, o.tab);
    let mut want = vec![];
    let mut at = 0;
    for (k, l) in ls.iter().enumerate() {
        let start = at;
        at += l.text.len();
        let lex = Lex { t: &text };
        let w = |tag, conf, at: (usize, usize), c: char, escaped| W {
            at,
            tag,
            sev: "Warning".into(),
            conf,
            acts: meant(c, escaped).into_iter().map(|(kind, text)| A { at, kind, text }).collect(),
        };
        match l.tok.unwrap() {
            TK::Whitespace => {
                let (c, e, _) = lex.next(start);
                if let C::Ch(c) = c {
                    if strange_space(c) {
                        want.push(w("UnexpectedSpaceCharacter", if c.is_ascii() { 0.95 } else { 0.85 }, (start, at), c, e != Esc::None));
                    }
                }
            },
            TK::ToplevelNewline | TK::InternalNewline => {
                let (c, e, _) = lex.next(start);
                if let C::Ch(c) = c {
                    if !c.is_ascii() {
                        want.push(w("UnexpectedNewlineCharacter", 0.85, (start, at), c, e != Esc::None));
                    }
                }
            },
            // names of symbols, slots and messages
            TK::Symbol | TK::Error_ExpectedLetterlike | TK::String
                if l.tok != Some(TK::String)
                    || (lex.ch(start) != Some('"') && k > 0 && matches!(ls[k - 1].tok, Some(TK::Hash | TK::ColonColon))) =>
            {
                let mut p = start;
                while p < at {
                    let (c, e, end) = lex.next(p);
                    if let C::Ch(c) = c {
                        if c != '$' && letterlike(c) {
                            if c.is_ascii_control() {
                                want.push(w("UnexpectedLetterlikeCharacter", 0.85, (p, end), c, e != Esc::None));
                            } else if !c.is_ascii() && USUAL.binary_search(&(c as u32)).is_err() {
                                want.push(w("UnexpectedLetterlikeCharacter", 0.80, (p, end), c, e != Esc::None));
                            }
                        }
                    }
                    if end == p {
                        break;
                    }
                    p = end;
                }
            },
            _ => {},
        }
    }
    let _ = (Class::Letter, S::Warning);
    decide_leaves(LEAVES, &text, pos, &r.fatal_issues, &r.non_fatal_issues, want, key)
}

const LEAVES: &[&str] = &["UnexpectedSpaceCharacter", "UnexpectedNewlineCharacter", "UnexpectedLetterlikeCharacter"];

fn decide_leaves(tags: &[&'static str], text: &str, pos: tree::Pos, a: &[Issue], b: &[Issue], mut want: Vec<W>, key: String) -> Outcome {
    let all: Vec<&Issue> = a.iter().chain(b.iter()).collect();
    let got = match reported(text, &pos, &all, tags) {
        Ok(g) => g,
        Err(e) => return fail("an issue that does not say what it is about", &key, e),
    };
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if got != want {
        let miss: Vec<&W> = want.iter().filter(|w| !got.contains(w)).collect();
        let over: Vec<&W> = got.iter().filter(|w| !want.contains(w)).collect();
        let sig = match (miss.first(), over.first()) {
            (Some(m), _) => format!("{} not reported", m.tag),
            (None, Some(o)) => format!("{} reported for nothing", o.tag),
            (None, None) => "an issue reported twice".into(),
        };
        return fail(sig, &key, format!("expected and not reported: {miss:?}\nreported and not expected: {over:?}"));
    }
    let mut labels = vec![];
    for t in tags {
        if want.iter().any(|w| w.tag == *t) {
            labels.push(*t);
        }
    }
    pass(&key, !want.is_empty(), labels)
}

/// Every carriage return that stands alone is reported once, with a place that touches it.
fn returns(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let base = any_text(s, TextCfg { max_frags: 12 });
    let mut text = String::new();
    for c in base.chars() {
        if s.chance(1, 12) {
            text.push_str(s.ps(&["\r", "\r\n", "\r\r", "\\\r", "\n\r"]));
        }
        text.push(c);
    }
    if s.chance(1, 3) {
        text.push('\r');
    }
    let key = format!("{} | {text:?}", o.show());
    let r = match guard(|| parse_cst_seq(&text, &o.make())) {
        Ok(r) => r,
        Err(e) => return panicked(&e, &key),
    };
    let pos = tree::Pos::new(&text, o.tab);
    let b = text.as_bytes();
    let want: Vec<usize> = (0..b.len()).filter(|&i| b[i] == b'\r' && b.get(i + 1) != Some(&b'\n')).collect();
    let mut got = vec![];
    for i in r.fatal_issues.iter().chain(&r.non_fatal_issues) {
        if i.tag != T::UnexpectedCarriageReturn {
            continue;
        }
        if i.sev != S::Warning || !i.actions.is_empty() {
            return fail("a carriage return reported otherwise", &key, format!("{i:?}"));
        }
        let at = match &i.src {
            Source::Span(sp) => (pos.offset_of(sp.start()), pos.offset_of(sp.end())),
            x => return fail("a carriage return without a place", &key, format!("{x:?}")),
        };
        // at the return, over it, or right behind it
        match at {
            (Some(a), Some(e)) => got.push((a, e)),
            _ => return fail("a carriage return reported outside the text", &key, format!("{i:?}")),
        }
    }
    got.sort();
    let touches = |&(a, e): &(usize, usize), w: usize| (a == w || a == w + 1) && e >= a && e <= w + 1;
    // what stands behind <<, # and :: is read by the rules of file names, slots and tags,
    // a continuation by those of the token it is in
    let cst = tree::from_cst_seq(&r.syntax);
    let leaves: Vec<_> = cst.iter().flat_map(|n| n.leaves()).collect();
    let loose = leaves.iter().map(|l| l.text.len()).sum::<usize>() != text.len()
        || leaves.iter().any(|l| {
            matches!(
                l.tok,
                Some(TK::LessLess | TK::GreaterGreater | TK::GreaterGreaterGreater | TK::Hash | TK::HashHash | TK::ColonColon)
            )
        });
    let must = |w: usize| !loose && (w == 0 || b[w - 1] != b'\\');
    // both are in order, and each return has at most one report
    let mut k = 0;
    for &w in &want {
        if k < got.len() && touches(&got[k], w) {
            k += 1;
        } else if must(w) {
            return fail("a carriage return not reported", &key, format!("carriage returns alone at {want:?}, reported at {got:?}"));
        }
    }
    if k < got.len() {
        return fail("a carriage return reported for nothing", &key, format!("carriage returns alone at {want:?}, reported at {got:?}"));
    }
    pass(&key, want.iter().any(|&w| must(w)) && b.windows(2).any(|w| w == b"\r\n"), vec![])
}

/// Letters of other alphabets in tags.
fn tags(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let mut text = String::new();
    let mut want = vec![];
    for _ in 0..s.range(1, 3) {
        text.push_str(s.ps(&["a", "f[x]", "\\[Beta]", "\u{3b2}", "ab1", "(c)"]));
        for _ in 0..s.range(1, 3) {
            text.push_str(s.ps(&["::", "::", "\\:003a:"]));
            for k in 0..s.range(1, 6) {
                match s.below(5) {
                    0 => text.push_str(s.ps(&["b", "Z", "usage", "$"])),
                    1 if k > 0 => text.push_str(s.ps(&["0", "9", "\\.31"])),
                    1 | 2 => text.push_str(s.ps(&["x", "\\.61", "\\:0041", "$a", "\\044"])),
                    _ => {
                        let c = char::from_u32(*s.pick(&USUAL[..])).filter(|&c| c < '\u{10000}').unwrap_or('\u{3b1}');
                        let v = c as u32;
                        let p = match s.below(4) {
                            0 => c.to_string(),
                            1 if v < 0x100 => format!("\\.{v:02x}"),
                            1 | 2 if v < 0x10000 => format!("\\:{v:04x}"),
                            _ => format!("\\|{v:06X}"),
                        };
                        let at = (text.len(), text.len() + p.len());
                        text.push_str(&p);
                        if letterlike(c) && !c.is_ascii() {
                            want.push(W { at, tag: "UnexpectedCharacter", sev: "Warning".into(), conf: 0.85, acts: vec![] });
                        }
                    },
                }
            }
        }
        let end = s.ps(&["\n", " ", ";", ",", " = 1\n", "\u{3b2}\n"]);
        text.push_str(end);
        if end.len() == 3 {
            // still the tag
            let e = text.len() - 1;
            want.push(W { at: (e - 2, e), tag: "UnexpectedCharacter", sev: "Warning".into(), conf: 0.85, acts: vec![] });
        }
    }
    let key = format!("{} | {text:?}", o.show());
    let r = match guard(|| parse_cst_seq(&text, &o.make())) {
        Ok(r) => r,
        Err(e) => return panicked(&e, &key),
    };
    let pos = tree::Pos::new(&text, o.tab);
    decide_leaves(&["UnexpectedCharacter"], &text, pos, &r.fatal_issues, &r.non_fatal_issues, want, key)
}
