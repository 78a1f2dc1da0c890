//! P21, P22: what is kept of constructs that are never closed, and tokens whose
//! form depends on the operator before them.

use super::*;
use crate::opts;
use crate::reflex::Lex;
use crate::textgen::{any_text, TextCfg};
use crate::tree::{self, N};
use wolfram_parser::cst::CstSeq;
use wolfram_parser::source::SourceConvention;
use wolfram_parser::tokenize::TokenInput;
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P21",
            assumptions: &["the line forms error.rs documents as the start of a new statement"],
            subs: vec![Sub {
                name: "cut",
                quick: 150_000,
                thorough: 8_000_000,
                rule: "text, an opening quote, comment opener or bracket, then lines that do, nearly do or do not look like a new statement; what the tree and the token list keep against a reference; non-trivial: something is left unclosed and at least one line follows",
                f: cut,
            }],
        },
        Property {
            id: "P22",
            assumptions: &["the forms of tags, file names, slots and Out the language documents"],
            subs: vec![Sub {
                name: "context",
                quick: 300_000,
                thorough: 15_000_000,
                rule: "any text, dense in ::, <<, >>, >>>, #, ## and %; the leaf behind each of them against a reference; non-trivial: at least one of them has something behind it",
                f: context,
            }],
        },
    ]
}

//======================================================================
// P21
//======================================================================

/// Lines and whether they look like a new statement.
const LINES: &[(&str, bool)] = &[
    ("x = 1", true),
    ("x=1", true),
    ("a`b := c", true),
    ("$x  :=  2", true),
    ("f[x_] := x", true),
    ("f[x_] = x", true),
    ("f [ x_, y_ ] := {", true),
    ("f[x, g[y] = 2", true),
    ("Begin[\"`Private`\"]", true),
    ("BeginPackage[\"A`\"]", true),
    ("Needs[\"A`\"]", true),
    ("End[]", true),
    ("EndPackage[]", true),
    ("Clear[a, b]", true),
    ("ClearAll[a]", true),
    ("SetOptions[f, a -> b]", true),
    ("SetAttributes[f, Listable]", true),
    ("System`Private`NewContextPath[{}]", true),
    ("System`Private`RestoreContextPath[]", true),
    ("Protect[f]", true),
    ("Unprotect[f]", true),
    ("Package[\"A`\"]", true),
    ("PackageImport[\"A`\"]", true),
    ("PackageScope[\"a\"]", true),
    ("PackageExport[\"a\"]", true),
    ("Get[\"a\"]", true),
    ("SetDelayed[a, b]", true),
    ("UpSetDelayed[a, b]", true),
    ("TagSetDelayed[a, b, c]", true),
    ("] := Module[{},", true),
    ("] = 3", true),
    ("]:=3", true),
    ("(* ::Section:: *)", true),
    ("(*::Package::*)", true),
    ("(*:a*) b", true),
    ("", false),
    ("", false),
    ("  ", false),
    ("\t", false),
    (" x = 1", false),
    ("\tf[x_] := x", false),
    ("x == 1", false),
    ("x === 1", false),
    ("x", false),
    ("x + 1,", false),
    ("f[x, y]", false),
    ("f[x == y]", false),
    ("f[\"=\"]", false),
    ("1 = 2", false),
    ("x_ = 2", false),
    ("x ^= 2", false),
    ("x += 2", false),
    ("{a, b} = 2", false),
    ("] == 3", false),
    ("] + 3", false),
    ("[ = 3", false),
    ("Begin", false),
    ("begin[]", false),
    ("Begins[]", false),
    (" End[]", false),
    ("System`Begin[a]", false),
    ("(* note *)", false),
    ("(* a := b *)", false),
    ("x (* c *) = 1", false),
    ("*)", false),
    (":: Section", false),
    ("f @ x", false),
    ("é + 1", false),
    ("\u{3b1}[x_] := 1", true),
    ("\u{3b1} = 1", true),
];

fn new_statement(line: &str) -> Option<bool> {
    let lex = Lex { t: line };
    let mut v: Vec<(String, &str)> = vec![];
    let mut o = 0;
    loop {
        let t = lex.token(o);
        if t.kind == "EndOfFile" {
            break;
        }
        let end = t.end?;
        let trivia = t.kind == "Whitespace" || t.kind.ends_with("Newline");
        if !trivia || o == 0 {
            v.push((t.kind, &line[o..end]));
        }
        o = end;
    }
    let k = |i: usize| v.get(i).map_or("", |t| t.0.as_str());
    let set = |k: &str| k == "Equal" || k == "ColonEqual";
    const DIRECTIVES: &[&str] = &[
        "BeginPackage", "Begin", "Needs", "End", "EndPackage", "Clear", "ClearAll", "SetOptions", "SetAttributes",
        "System`Private`NewContextPath", "System`Private`RestoreContextPath", "Protect", "Unprotect", "Package",
        "PackageImport", "PackageScope", "PackageExport", "Get", "SetDelayed", "UpSetDelayed", "TagSetDelayed",
    ];
    Some(match k(0) {
        "Symbol" if k(1) == "OpenSquare" => DIRECTIVES.contains(&v[0].1) || v[2..].iter().any(|t| set(&t.0)),
        "Symbol" | "CloseSquare" => set(k(1)),
        "Comment" => v[0].1.trim_start_matches("(*").trim_start().starts_with(':'),
        _ => false,
    })
}

/// Up to where a construct that starts at `a` and is never closed is kept:
/// without and with the newline at the end.
fn kept(text: &str, a: usize) -> Option<(usize, usize)> {
    let mut lines = vec![];
    let mut start = 0;
    while start < text.len() {
        let rest = &text[start..];
        let n = rest.find(|c| matches!(c, '\n' | '\r')).unwrap_or(rest.len());
        let nl = if rest[n..].starts_with("\r\n") { 2 } else { usize::from(n < rest.len()) };
        lines.push((start, start + n, start + n + nl));
        start += n + nl;
    }
    let first = lines.iter().position(|l| l.0 <= a && a < l.2.max(l.0 + 1))?;
    let mut last = first;
    for (i, l) in lines.iter().enumerate().skip(first + 1) {
        let t = &text[l.0..l.1];
        if t.starts_with('\u{feff}') {
            return None;
        }
        if new_statement(t)? {
            break;
        }
        last = i;
    }
    while last > first && lines[last].0 == lines[last].1 {
        last -= 1;
    }
    Some((lines[last].1, lines[last].2))
}

fn cut(s: &mut Src) -> Outcome {
    for (l, want) in LINES {
        debug_assert_eq!(new_statement(l), Some(*want), "{l:?}");
    }
    let o = opts::positions(s);
    let mut text = String::new();
    let nl = |s: &mut Src| *s.pick(&["\n", "\n", "\n", "\r\n", "\r"]);
    if s.chance(1, 2) {
        for _ in 0..s.range(1, 2) {
            if s.chance(1, 2) {
                text.push_str(s.pick(LINES).0);
            } else {
                text.push_str(&any_text(s, TextCfg { max_frags: 3 }));
            }
            text.push_str(nl(s));
        }
    }
    text.push_str(s.ps(&["", "", "x = ", "a + ", "\t", "é ", "{b, ", "f", "<|", "a;"]));
    text.push_str(s.ps(&[
        "{", "(", "[", "f[", "<|", "\"", "(*", "a[[", "\u{2329}", "\u{3016}", "\\(", "::[", "<< \"", "a::\"", "#\"", "\\[LeftDoubleBracket]", "<< a[",
    ]));
    let n = s.below(7);
    for i in 0..n {
        if i > 0 || s.chance(2, 3) {
            text.push_str(nl(s));
        }
        match s.below(8) {
            0 => text.push_str(&any_text(s, TextCfg { max_frags: 4 })),
            1 => text.push_str(s.ps(&["\"", "(*", "{", "*)", "}", "]", "(", "\"a\nb\"", "(* a\nx = 1 *)", "|>", "\\"])),
            _ => text.push_str(s.pick(LINES).0),
        }
    }
    if s.chance(1, 3) {
        text.push_str(nl(s));
    }
    let key = format!("{} | {text:?}", o.show());
    if text.contains('\u{feff}') {
        return Outcome::Discard("byte order mark");
    }
    let p = o.make();
    let ci = o.conv == SourceConvention::CharacterIndex;
    let mut seen = vec![];

    // the token list
    let NodeSeq(toks) = tokenize(&text, &p);
    for t in &toks {
        let k = format!("{:?}", t.tok);
        if !k.starts_with("Error_Unterminated") || k.ends_with("FileString") {
            continue;
        }
        let a = offset_in(text.as_bytes(), t.input.as_bytes()).unwrap();
        let Some((e, n)) = kept(&text, a) else { return Outcome::Discard("a line the rules leave open") };
        let want = if ci { n } else { e };
        if a + t.input.as_bytes().len() != want {
            return fail("an unterminated token of the token list is cut elsewhere", &key, format!("{:?} should end at {want}", tree::from_token(t)));
        }
        seen.push("token");
    }

    // the tree
    let r = parse_cst_seq(&text, &p);
    let leaves = leaves(&r.syntax, &text);
    let mut open = None;
    let tops = tree::from_cst_seq(&r.syntax);
    let mut node: Option<&N> = tops.last();
    while let Some(n) = node {
        if n.label.contains("MissingCloser") || (n.label.contains("Error_Unterminated") && !n.label.contains("FileString")) {
            open = n.leaves().first().copied().cloned();
            break;
        }
        node = n.kids.last();
    }
    if let Some(first) = open {
        let pos = tree::Pos::new(&text, o.tab);
        let a = first.span.and_then(|s| pos.offset_of(s.start())).unwrap();
        let Some((_, n)) = kept(&text, a) else { return Outcome::Discard("a line the rules leave open") };
        let last = leaves.iter().rev().find(|l| l.len > 0).unwrap();
        let end = last.off + last.len;
        let by = Lex { t: &text };
        if last.kind.starts_with("Error_Unterminated") && !last.kind.ends_with("FileString") {
            let Some((e, n)) = kept(&text, last.off) else { return Outcome::Discard("a line the rules leave open") };
            let want = if ci { n } else { e };
            if end != want {
                return fail("an unterminated token is cut elsewhere", &key, format!("{} at {} ends at {end}, not {want}", last.kind, last.off));
            }
            seen.push("token");
        } else if end < n && by.next(end).2 < n {
            return fail("an unclosed group lost text", &key, format!("it ends at {end}, not {n}: {}", tree::show_seq_spans(&tops)));
        } else {
            seen.push("group");
        }
        if last.off >= n {
            return fail("an unclosed group took text of the next statement", &key, format!("it ends at {end}, not {n}: {}", tree::show_seq_spans(&tops)));
        }
        if end < text.len() {
            seen.push("cut");
        }
    }
    pass(&key, !seen.is_empty() && n > 0, seen)
}

//======================================================================
// P22
//======================================================================

struct Leaf {
    kind: String,
    off: usize,
    len: usize,
    /// The node it is a child of.
    parent: String,
}

fn leaves<I: TokenInput>(seq: &CstSeq<I>, text: &str) -> Vec<Leaf> {
    let mut offs = vec![];
    seq.visit(&mut |c| {
        if let cst::Cst::Token(t) = c {
            offs.push((format!("Token:{:?}", t.tok), offset_in(text.as_bytes(), t.input.as_bytes()).expect("a slice of the text"), t.input.as_bytes().len()));
        }
    });
    let mut parents = vec![];
    fn go(n: &N, parent: &str, o: &mut Vec<(String, String)>) {
        if n.tok.is_some() {
            o.push((n.label.clone(), parent.to_string()));
        }
        for k in &n.kids {
            go(k, &n.label, o);
        }
    }
    for n in tree::from_cst_seq(seq) {
        go(&n, "", &mut parents);
    }
    assert_eq!(offs.len(), parents.len());
    offs.into_iter()
        .zip(parents)
        .map(|((k, off, len), (k2, parent))| {
            assert_eq!(k, k2);
            Leaf { kind: k["Token:".len()..].to_string(), off, len, parent }
        })
        .collect()
}

fn context(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let mut text = String::new();
    if s.chance(1, 3) {
        text = any_text(s, TextCfg { max_frags: 6 });
    }
    for _ in 0..s.range(1, 5) {
        text.push_str(s.ps(&["", "", "a", "f[", "{", " ", "\n", "1", "(", "a+", ";", "\\\n"]));
        text.push_str(s.ps(&["::", "<<", ">>", ">>>", "#", "##", "%", "%%", "\\:0023", "\\[RawColon]:"]));
        text.push_str(s.ps(&["", "", "", " ", "\t", "\n", "  \n ", "\\\n", "\\\r\n  ", "(*c*)", "\r", "\u{a0}"]));
        for _ in 0..s.below(4) {
            match s.below(10) {
                0 => text.push_str(&any_text(s, TextCfg { max_frags: 2 })),
                1 => text.push_str(s.ps(&["\"", "\"a b\"", "\"a\\\"b\"", "\"\n\"", "\\[RawDoubleQuote]"])),
                2 => text.push_str(s.ps(&["[", "]", "[a]", "[[b]c]", "[ ]", "[\u{a0}]", "[\\\n]", "[\"]", "[(*]"])),
                3 => text.push_str(s.ps(&["1", "0", "12", "007", "1.5", "2..", "1`", "3*^4", "2^^1", "\\.31", "\u{661}"])),
                4 => text.push_str(s.ps(&["$", "`", "a`b", "`a", "a`", "``", "a`1"])),
                5 => text.push_str(s.ps(&["é", "\\[Alpha]", "\\:03b1", "\\[EAcute]", "\u{f74e}", "\\[Foo]", "\\[Equal]", "\u{1f600}"])),
                6 => text.push_str(s.ps(&["/", ".", "\\", "!", "-", "_", ":", "*", "~", "?", "/a/b.wl", "C:\\x", "a-b_c", "~/x"])),
                7 => text.push_str(s.ps(&[";", ",", ")", "}", "|", "@", "&", "+", "=", "'", "^", "<", ">", "#", "%", "::"])),
                _ => text.push_str(s.ps(&["a", "b1", "Abc", "x", "file"])),
            }
        }
    }
    let key = format!("{} | {text:?}", o.show());
    let p = o.make();
    let r = parse_cst_seq(&text, &p);
    let leaves = leaves(&r.syntax, &text);
    let lex = Lex { t: &text };
    let mut seen = vec![];
    for (i, l) in leaves.iter().enumerate() {
        let end = l.off + l.len;
        let file = matches!(l.kind.as_str(), "LessLess" | "GreaterGreater" | "GreaterGreaterGreater");
        let mut j = i + 1;
        if file {
            while leaves.get(j).map_or(false, |l| l.kind == "Whitespace" || l.kind.ends_with("Newline")) {
                j += 1;
            }
        }
        let Some(next) = leaves.get(j) else { continue };
        let (want, compound) = match l.kind.as_str() {
            "ColonColon" => match lex.tag(end) {
                Some(t) => (Some(t), None),
                None => continue,
            },
            "LessLess" | "GreaterGreater" | "GreaterGreaterGreater" => (Some(lex.file(next.off)), None),
            "Hash" => (lex.slot(end), Some("Compound:Slot")),
            "HashHash" => (lex.index(end), Some("Compound:SlotSequence")),
            "Percent" => (lex.index(end), Some("Compound:Out")),
            _ => continue,
        };
        let flat = l.parent.contains("MissingCloser");
        if let (Some(c), false) = (compound, flat) {
            if (l.parent == c) != want.is_some() {
                return fail(format!("{} is read wrongly", l.kind), &key, format!("{} at {} in {}", l.kind, l.off, l.parent));
            }
        }
        let Some(want) = want else {
            seen.push("alone");
            continue;
        };
        if file && next.off < end {
            return fail("a file name overlaps its operator", &key, "");
        }
        if file {
            // nothing but blanks and newlines may be skipped
            let gap = &text[end..next.off];
            if !gap.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r')) {
                return fail("more than blanks skipped before a file name", &key, format!("{gap:?}"));
            }
        }
        let unterminated = want.kind.starts_with("Error_Unterminated");
        let wanted = if file { next.off } else { end };
        if next.kind != want.kind || next.off != wanted || (!unterminated && want.end != Some(next.off + next.len)) {
            return fail(
                format!("the leaf behind {} is wrong", l.kind),
                &key,
                format!("{} at {}: {} {}..{} instead of {} {}..{:?}", l.kind, l.off, next.kind, next.off, next.off + next.len, want.kind, wanted, want.end),
            );
        }
        seen.push(if file { "file" } else if compound.is_some() { "slot" } else { "tag" });
    }
    let n = seen.iter().filter(|k| **k != "alone").count();
    seen.sort();
    seen.dedup();
    pass(&key, n > 0, seen)
}
