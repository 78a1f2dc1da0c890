//! P23, P24: issues and tracked places.

use super::*;
use crate::opts;
use crate::reflex::{Lex, C};
use crate::textgen::{any_text, TextCfg};
use crate::tree;
use std::collections::BTreeSet;
use wolfram_parser::issue::{CodeAction, CodeActionKind, Issue, IssueTag, Severity};
use wolfram_parser::source::{Location, Source, Span};
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P23",
            assumptions: &["severities and code actions as documented in issue.rs"],
            subs: vec![
                Sub {
                    name: "placed",
                    quick: 120_000,
                    thorough: 6_000_000,
                    rule: "any text and options; every issue and code action lies in the text, fatal ones apart from the others, at most ten of them, none twice; non-trivial: at least one issue",
                    f: placed,
                },
                Sub {
                    name: "many",
                    quick: 40_000,
                    thorough: 2_000_000,
                    rule: "up to 30 (now and then 400) lines of malformed escapes and bytes; the fatal issues are the first ten of those the lines have on their own, the others all of them; non-trivial: more than ten fatal ones",
                    f: many,
                },
                Sub {
                    name: "encoding",
                    quick: 120_000,
                    thorough: 6_000_000,
                    rule: "any text with characters outside ASCII; each is reported exactly where it stands, and exactly if it is reported when alone in a string; non-trivial: at least two such characters",
                    f: encoding,
                },
                Sub {
                    name: "fixes",
                    quick: 120_000,
                    thorough: 6_000_000,
                    rule: "any text; each code action that only respells or respaces is applied, which keeps the abstract syntax and removes the issue; non-trivial: at least one action applied",
                    f: fixes,
                },
            ],
        },
        Property {
            id: "P24",
            assumptions: &["the meaning of TrackedSourceLocations as documented in tokenizer.rs"],
            subs: vec![Sub {
                name: "tracked",
                quick: 150_000,
                thorough: 8_000_000,
                rule: "any text, dense in line continuations and strings and comments over several lines; the tracked places against those computed from the leaves; non-trivial: at least one place is tracked",
                f: tracked,
            }],
        },
    ]
}

fn texty(s: &mut Src) -> String {
    let mut t = String::new();
    for _ in 0..s.range(1, 4) {
        match s.below(3) {
            0 => t.push_str(&any_text(s, TextCfg { max_frags: 5 })),
            1 => t.push_str(s.ps(&[
                "a-->b", "a--=1", "a++=1", "#2.a", "1.2`-3", "a_..b", "a_.b", "1.2.3", "1..", "\\[Foo]", "\\[Alpa]", "\"\\[Foo]\"",
                "#a$b", "#\"a\"", "a::b$c", "\u{2192}", "\u{a0}", "\u{2028}", "\u{201c}x\u{201d}", "\\:03g", "\\.", "\\[", "\\|12345", "\\[Alpha", "\r",
                "\u{feff}", "\x07", "\x7f", "\u{f74c}", "é", "\"\u{e9}\\t\"", "(* \u{3b1} *)", "a\u{3b1}b", "\\[RawWedge]", "\\\\", "\\x", "!!a", "\\[RightArrow]", "\u{fe00}",
                "1.5`+2", "1..2", "_..", "x--->y", "{a\u{f523}b}",
            ])),
            _ => t.push_str(s.ps(&[" ", "\n", "a", "+", "(", ")", "[", "]", "\"", "\t", ";"])),
        }
    }
    t
}

fn loc_in(pos: &tree::Pos, l: Location) -> Option<usize> {
    pos.offset_of(l)
}

fn span_in(pos: &tree::Pos, s: &Span) -> Option<(usize, usize)> {
    let (a, b) = (loc_in(pos, s.start())?, loc_in(pos, s.end())?);
    (a <= b).then_some((a, b))
}

fn placed(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let text = texty(s);
    let key = format!("{} | {text:?}", o.show());
    let pos = tree::Pos::new(&text, o.tab);
    let r = parse_cst_seq(&text, &o.make());
    let all: Vec<&Issue> = r.fatal_issues.iter().chain(r.non_fatal_issues.iter()).collect();
    if r.fatal_issues.len() > 10 {
        return fail("more than ten fatal issues", &key, "");
    }
    for (v, fatal) in [(&r.fatal_issues, true), (&r.non_fatal_issues, false)] {
        for (i, x) in v.iter().enumerate() {
            if (x.sev == Severity::Fatal) != fatal {
                return fail("an issue is in the wrong list", &key, format!("{x:?}"));
            }
            if v[..i].contains(x) {
                return fail("an issue is reported twice", &key, format!("{x:?}"));
            }
        }
    }
    for x in &all {
        let Source::Span(sp) = &x.src else {
            return fail("an issue without a position", &key, format!("{x:?}"));
        };
        if span_in(&pos, sp).is_none() {
            return fail(format!("a {:?} issue lies outside the text", x.tag), &key, format!("{x:?}"));
        }
        for a in &x.actions {
            if span_in(&pos, &a.src).is_none() {
                return fail(format!("an action of a {:?} issue lies outside the text", x.tag), &key, format!("{x:?}"));
            }
        }
        if !(0.0..=1.0).contains(&x.val) {
            return fail("a confidence level is not between 0 and 1", &key, format!("{x:?}"));
        }
    }
    pass(&key, !all.is_empty(), vec![])
}

fn many(s: &mut Src) -> Outcome {
    let most = if s.chance(1, 200) { 400 } else { 30 };
    let lines: Vec<&[u8]> = (0..s.range(2, most))
        .map(|_| {
            *s.pick(&[
                &b"\\:12g"[..], b"\\.q", b"\\[Foo", b"\\|12345g", b"a\xff", b"\xed\xa0\x80", b"\xe2\x82 ", b"\xf0\x9f\x98", b"\"\\:zz\"",
                b"(*\xc3*)", b"\\09", b"\\[Foo]", b"a", b"a--=1", b"\xce\xb1", b"1.2.3", b"\\[Alpha]\xfe\xfe",
            ])
        })
        .collect();
    let o = opts::O { first: 0, ..opts::any(s) };
    let o = opts::O { conv: wolfram_parser::source::SourceConvention::LineColumn, ..o };
    let text = lines.join(&b'\n');
    let key = format!("{} | {}", o.show(), show_bytes(&text));
    let p = o.make();
    let at = |x: &Issue, down: u32| match &x.src {
        Source::Span(sp) => {
            let k = tree::loc_key(sp.start());
            format!("{:?} {}:{} {}", x.tag, k.0 + down, k.1, x.msg)
        },
        _ => "?".into(),
    };
    let (r, alone) = match guard(|| {
        (
            parse_bytes_cst_seq(&text, &p),
            lines
                .iter()
                .map(|l| {
                    let r = parse_bytes_cst_seq(l, &p);
                    (r.fatal_issues, r.non_fatal_issues)
                })
                .collect::<Vec<_>>(),
        )
    }) {
        Ok(v) => v,
        Err(e) => return panicked(&e, &key),
    };
    let list = |k: bool| -> Vec<String> {
        alone
            .iter()
            .enumerate()
            .flat_map(|(i, v)| (if k { &v.0 } else { &v.1 }).iter().map(move |x| (i as u32, x)))
            .map(|(i, x)| at(x, i))
            .collect()
    };
    let fatal = list(true);
    let want: Vec<String> = fatal.iter().take(10).cloned().collect();
    let got: Vec<String> = r.fatal_issues.iter().map(|x| at(x, 0)).collect();
    if got != want {
        return fail("not the first ten fatal issues", &key, format!("{got:?}, due {want:?}"));
    }
    let (got, want): (Vec<String>, _) = (r.non_fatal_issues.iter().map(|x| at(x, 0)).collect(), list(false));
    if got != want {
        return fail("not all of the other issues", &key, format!("{got:?}, due {want:?}"));
    }
    pass(&key, fatal.len() > 10, vec![])
}

fn tags_at(text: &str, o: &opts::O) -> Vec<(IssueTag, usize, usize)> {
    let pos = tree::Pos::new(text, o.tab);
    let r = parse_cst_seq(text, &o.make());
    let mut v: Vec<_> = r
        .non_fatal_issues
        .iter()
        .filter_map(|x| {
            let Source::Span(sp) = &x.src else { return None };
            let (a, b) = span_in(&pos, sp)?;
            Some((x.tag, a, b))
        })
        .collect();
    v.sort_by_key(|x| (x.1, x.2, format!("{:?}", x.0)));
    v
}

fn encoding(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let mut text = texty(s);
    for _ in 0..s.below(3) {
        let c = crate::textgen::any_char(s);
        let mut at = s.below(text.len() as u32 + 1) as usize;
        while !text.is_char_boundary(at) {
            at -= 1;
        }
        text.insert(at, c);
    }
    let key = format!("{} | {text:?}", o.show());
    if text.contains('\u{feff}') {
        return Outcome::Discard("byte order mark");
    }
    let is = |t: IssueTag| t == IssueTag::NonASCIICharacter;
    let got: Vec<(usize, usize)> = tags_at(&text, &o).iter().filter(|x| is(x.0)).map(|x| (x.1, x.2)).collect();
    let mut want = vec![];
    let mut n = 0;
    for (i, c) in text.char_indices() {
        if c.is_ascii() {
            continue;
        }
        n += 1;
        if tags_at(&format!("\"{c}\""), &o).iter().any(|x| is(x.0)) {
            want.push((i, i + c.len_utf8()));
        }
    }
    if got != want {
        return fail("characters outside ASCII are reported elsewhere", &key, format!("{got:?}, not {want:?}"));
    }
    pass(&key, n >= 2, vec![])
}

fn apply(text: &str, pos: &tree::Pos, a: &CodeAction) -> Option<String> {
    let (b, e) = span_in(pos, &a.src)?;
    Some(match &a.kind {
        CodeActionKind::ReplaceText { replacement_text } => format!("{}{replacement_text}{}", &text[..b], &text[e..]),
        CodeActionKind::InsertText { insertion_text } => format!("{}{insertion_text}{}", &text[..b], &text[b..]),
        CodeActionKind::DeleteText => format!("{}{}", &text[..b], &text[e..]),
    })
}

fn shape(text: &str, p: &ParseOptions) -> String {
    let r = parse_ast_seq(text, p);
    fn norm(n: &tree::N, o: &mut String) {
        o.push_str(&n.label);
        let lex = Lex { t: &n.text };
        let mut i = 0;
        o.push('"');
        loop {
            let (c, _, e) = lex.next(i);
            match c {
                C::Eof => break,
                c => o.push_str(&format!("{c:?} ")),
            }
            i = e;
        }
        o.push('"');
        if !n.kids.is_empty() {
            o.push('[');
            for k in &n.kids {
                norm(k, o);
                o.push(',');
            }
            o.push(']');
        }
    }
    let mut o = String::new();
    for a in &r.syntax.0 {
        norm(&tree::from_ast(a), &mut o);
        o.push(';');
    }
    o
}

/// Actions that offer another spelling of what the text already says: the
/// rest are guesses at what was meant and may change the meaning.
fn respells(text: &str, pos: &tree::Pos, x: &Issue, a: &CodeAction) -> bool {
    let Some((b, _)) = span_in(pos, &a.src) else { return false };
    match (&a.kind, x.tag) {
        (CodeActionKind::ReplaceText { replacement_text }, IssueTag::NonASCIICharacter) => {
            replacement_text.len() > 1 && replacement_text.starts_with('\\') && !text[..b].ends_with('\\')
        },
        (CodeActionKind::InsertText { insertion_text }, IssueTag::Ambiguous | IssueTag::UnexpectedDot) => insertion_text == " ",
        (CodeActionKind::InsertText { .. }, IssueTag::UnexpectedImplicitTimes) => {
            let r = text[b..].as_bytes();
            r.len() > 1 && r[0] == b'.' && r[1].is_ascii_digit()
        },
        _ => false,
    }
}

fn suspicious(s: &mut Src) -> String {
    let mut t = String::new();
    let n = s.range(1, 6);
    for i in 0..n {
        if i > 0 {
            t.push_str(s.ps(&["; ", " + ", "*", ";\n", " ", " -> ", "(* \u{e9} *)", "\\\n", ", ", " == ", "@"]));
        }
        let x = match s.below(4) {
            0 => s.ps(&[
                "a-->b", "a--=1", "a++=1", "a---b", "a--->b", "a+++b", "1.2`-3", "1.2`+3", "1.2``-3", "1`-2", "a_..b", "a_.b", "_..", "__.", "a_.5", "x_ .5", "_.5", "1.2.3", "0.5.5", "1...", "x_.._", "a_...",
                "16^^1.a.2", "1..2", "a!!", "a/.5", "a/.5b", "a->.5", "a!=b", "a!==b", "a>=b", "a=!b", "a&&!b", "1.2`3.4", "a=-1", "a&b", "a%%%",
            ]).to_string(),
            1 => {
                let c = crate::textgen::any_char(s);
                match s.below(3) {
                    0 => format!("\"{c}\""),
                    1 => format!("a{c}b"),
                    _ => format!("(*{c}*)x"),
                }
            },
            2 => s.ps(&["\u{3b1}", "a\u{3b1}b", "\u{2192}", "x \u{f523} y", "x\u{2227}y", "\"\u{201c}\"", "\u{221a}x", "\u{e9}", "x\u{a0}y", "\"\u{1f600}\""]).to_string(),
            _ => s.ps(&["x", "1", "\"s\"", "f[x]", "{1, 2}", "%"]).to_string(),
        };
        match s.below(5) {
            0 => t.push_str(&format!("f[{x}]")),
            1 => t.push_str(&format!("({x})")),
            2 => t.push_str(&format!("{{{x}, {x}}}")),
            _ => t.push_str(&x),
        }
    }
    t
}

fn fixes(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let text = if s.chance(1, 3) { texty(s) } else { suspicious(s) };
    let key = format!("{} | {text:?}", o.show());
    // Words read in these contexts are kept as they are spelt.
    if text.contains('#') || text.contains("::") || text.contains("<<") || text.contains(">>") {
        return Outcome::Discard("tags, slots and files");
    }
    if text.contains('\u{feff}') {
        return Outcome::Discard("byte order mark");
    }
    let pos = tree::Pos::new(&text, o.tab);
    let p = o.make();
    let r = parse_cst_seq(&text, &p);
    if r.non_fatal_issues.iter().all(|x| x.actions.is_empty()) {
        return pass(&key, false, vec![]);
    }
    if tree::from_cst_seq(&r.syntax).iter().any(|n| n.has_error()) {
        return Outcome::Discard("malformed");
    }
    let before = shape(&text, &p);
    let count = |v: &[Issue], tag: IssueTag| v.iter().filter(|x| x.tag == tag).count();
    let mut labels = vec![];
    for x in &r.non_fatal_issues {
        for a in &x.actions {
            if !respells(&text, &pos, x, a) {
                continue;
            }
            let Some(t) = apply(&text, &pos, a) else { continue };
            if shape(&t, &p) != before {
                return fail(
                    format!("applying a code action of a {:?} issue changes what is read", x.tag),
                    &key,
                    format!("{a:?} gives {t:?}"),
                );
            }
            let again = parse_cst_seq(&t, &p);
            if count(&again.non_fatal_issues, x.tag) >= count(&r.non_fatal_issues, x.tag) {
                return fail(
                    format!("applying a code action of a {:?} issue leaves the issue", x.tag),
                    &key,
                    format!("{a:?} gives {t:?}"),
                );
            }
            labels.push(match x.tag {
                IssueTag::NonASCIICharacter => "NonASCIICharacter",
                IssueTag::Ambiguous => "Ambiguous",
                IssueTag::UnexpectedDot => "UnexpectedDot",
                _ => "UnexpectedImplicitTimes",
            });
        }
    }
    let n = labels.len();
    pass(&key, n > 0, labels)
}

fn tracked(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let mut text = String::new();
    for _ in 0..s.range(1, 6) {
        match s.below(3) {
            0 => text.push_str(&any_text(s, TextCfg { max_frags: 3 })),
            1 => text.push_str(s.ps(&["\\\n", "\\\r\n", "\\\r", "\\\n  ", "\\\n\t", "\"a\\\n b\"", "\"\n\"", "\"\t\"", "(*\n*)", "(*\t*)", "(*\\\n*)", "\"\\\n\t\"", "\"\\\\\n\"", "(*(\n*)", "\"\\t\\n\"", "\"\\\"\n\"", "a\\\nb", "1\\\n2", "a:\\\n=b"])),
            _ => text.push_str(s.ps(&["a", "1", " ", "+", ".", "\"", "[", "]", "=", "#", "::", "\n"])),
        }
    }
    if s.chance(1, 150) {
        // Hundreds of places in one text.
        text.clear();
        for _ in 0..s.range(20, 400) {
            text.push_str(s.ps(&["a \\\n + b", "\"a\\\n b\"", "\"\n\"", "\"\t\"", "(*\n*)", "(*\t*)", "\"\\\n\t\"", "\"\\\\\n\"", "f[x,\\\n1]"]));
            text.push('\n');
        }
    }
    let key = format!("{} | {text:?}", o.show());
    if text.contains("<<") || text.contains(">>") {
        return Outcome::Discard("files");
    }
    let r = parse_cst_seq(&text, &o.make());
    let mut want: [BTreeSet<String>; 4] = Default::default();
    let mut bad = false;
    let mut len = 0;
    // Reading a token may look past a continuation and go back: the token
    // before a continuation may be marked as well.
    let mut may = BTreeSet::new();
    let mut last = String::new();
    r.syntax.visit(&mut |c| {
        let cst::Cst::Token(t) = c else { return };
        let k = format!("{:?}", t.tok);
        bad |= k.contains("Untermin") || k == "Error_UnhandledCharacter";
        let txt = tree::tok_text(&t.input);
        len += txt.len();
        let lex = Lex { t: &txt };
        let loc = format!("{:?}", t.src.start());
        if matches!(lex.decode(0).0, C::Cont(..)) && !last.is_empty() {
            may.insert(std::mem::take(&mut last));
        }
        if !txt.is_empty() {
            last = loc.clone();
        }
        let string = k == "String" && txt.contains('"');
        let mut i = 0;
        if k == "Comment" {
            let at = txt.find("(*").unwrap_or(0);
            if at > 0 {
                want[0].insert(loc.clone());
            }
            let txt = &txt[at..];
            if txt.contains(|c| matches!(c, '\n' | '\r')) {
                want[2].insert(loc.clone());
            }
            if txt.contains('\t') {
                want[3].insert(loc.clone());
            }
            return;
        }
        let mut inside = false;
        loop {
            let (c, _, e) = lex.decode(i);
            match c {
                C::Eof => break,
                C::Cont(..) => {
                    if inside { want[1].insert(loc.clone()); } else { want[0].insert(loc.clone()); }
                },
                C::Ch('\n' | '\r') | C::CrLf if inside => { want[2].insert(loc.clone()); },
                C::Ch('\t') if inside => { want[3].insert(loc.clone()); },
                C::Ch('"') if string => inside = true,
                _ => {},
            }
            i = e;
        }
    });
    tree::from_cst_seq(&r.syntax).iter().for_each(|n| n.walk(&mut |n| bad |= n.label.contains("Missing") || n.label.contains("Untermin")));
    if bad {
        return Outcome::Discard("malformed");
    }
    // A line continuation with nothing after it belongs to the end of the text.
    if len < text.len() {
        let pos = tree::Pos::new(&text, o.tab);
        if let (C::Cont(..), Some(l)) = (Lex { t: &text }.decode(len).0, pos.loc(len, o.conv)) {
            want[0].insert(format!("{l:?}"));
            may.insert(last);
        }
    }
    let set = |v: &std::collections::HashSet<Location>| v.iter().map(|l| format!("{l:?}")).collect::<BTreeSet<_>>();
    let got = [
        set(&r.tracked.simple_line_continuations),
        set(&r.tracked.complex_line_continuations),
        set(&r.tracked.embedded_newlines),
        set(&r.tracked.embedded_tabs),
    ];
    for (i, n) in ["simple line continuations", "complex line continuations", "embedded newlines", "embedded tabs"].iter().enumerate() {
        let extra = |l: &String| !want[i].contains(l) && !(i == 0 && may.contains(l));
        if !want[i].is_subset(&got[i]) || got[i].iter().any(extra) {
            return fail(format!("{n} differ"), &key, format!("{:?}, not {:?}", got[i], want[i]));
        }
    }
    pass(&key, want.iter().any(|w| !w.is_empty()), vec![])
}
