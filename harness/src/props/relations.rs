//! P14-P16: relations between parses: the same text again, through other entry
//! points, after other texts, behind other text, under other options.

use super::*;
use crate::opts;
use crate::textgen::{any_text, TextCfg};
use crate::tree::{self, N};
use crate::wf::{self, RefParser, WfCfg};
use std::collections::BTreeSet;
use wolfram_parser::abstract_cst::{abstract_cst, aggregate_cst, aggregate_cst_seq};
use wolfram_parser::issue::{CodeActionKind, Issue};
use wolfram_parser::source::{LineColumn, Location, Source, Span};
use wolfram_parser::tokenize::TokenInput;
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P14",
            assumptions: &["the entry points are documented as the same parser on different input and output forms"],
            subs: vec![
                Sub {
                    name: "entries",
                    quick: 120_000,
                    thorough: 6_000_000,
                    rule: "any text and options through every entry point: text and bytes, sequence and single node, abstract syntax and abstraction of the concrete tree; all agree in trees, positions, issues, tracked places and encoding flag; non-trivial: at least two tree nodes below the top",
                    f: entries,
                },
                Sub {
                    name: "history",
                    quick: 60_000,
                    thorough: 3_000_000,
                    rule: "any text and options, parsed first, again after one to four parses of other texts under other options, and on a fresh thread after such parses; all results are equal; non-trivial: the other options differ and the text has an operator",
                    f: history,
                },
            ],
        },
        Property {
            id: "P15",
            assumptions: &["a newline ends a complete top-level expression"],
            subs: vec![
                Sub {
                    name: "append",
                    quick: 120_000,
                    thorough: 6_000_000,
                    rule: "one or more lines of well-formed program, then any text; the whole parses to the lines' nodes, the newline, and the text's nodes moved to where the text stands: concrete and abstract trees, positions, issues, tracked places; non-trivial: the text has an operator node or an error",
                    f: append,
                },
                Sub {
                    name: "lines",
                    quick: 120_000,
                    thorough: 6_000_000,
                    rule: "any two texts, the first of which leaves nothing open, joined by a newline; the same relation; non-trivial: both texts have an operator node or an error",
                    f: lines,
                },
            ],
        },
        Property {
            id: "P20",
            assumptions: &["the documentation of FirstLineBehavior"],
            subs: vec![Sub {
                name: "firstline",
                quick: 150_000,
                thorough: 6_000_000,
                rule: "any text behind a #! line, behind something that nearly is one, or alone, under each first line behaviour; trees, positions, issues, tracked places and tokens are those of what is behind the line, moved there; non-trivial: a line is skipped and something structured follows, or the text nearly starts with #!",
                f: shebang,
            }],
        },
        Property {
            id: "P16",
            assumptions: &["the documentation of ParseOptions says what each option is for"],
            subs: vec![
                Sub {
                    name: "options",
                    quick: 150_000,
                    thorough: 6_000_000,
                    rule: "any text under two drawn option sets that do not skip a first line; trees equal but for positions, positions corresponding, quirks without effect on the concrete tree, the encoding mode without effect on any tree; non-trivial: the sets differ and the text has an operator node",
                    f: options,
                },
            ],
        },
    ]
}

/// Everything a parse returns, as text.
#[derive(PartialEq, Clone)]
pub(super) struct All {
    tree: Vec<N>,
    spans: String,
    issues: Vec<String>,
    fatal: usize,
    tracked: [BTreeSet<String>; 4],
    unsafe_enc: String,
}

pub(super) fn loc_str(l: &Location, by: &Shift) -> String {
    let (a, b) = tree::loc_key(by.loc(*l));
    format!("{a}:{b}")
}

/// How far a text is moved: lines and characters.
#[derive(Clone, Copy, Default)]
pub(super) struct Shift {
    lines: u32,
    chars: u32,
}

impl Shift {
    fn loc(&self, l: Location) -> Location {
        match l {
            Location::LineColumn(LineColumn(a, b)) => tree::lc(a.get() + self.lines, b.get()),
            Location::CharacterIndex(i) => Location::CharacterIndex(i + self.chars),
        }
    }
    fn span(&self, s: &Span) -> String {
        format!("{}-{}", loc_str(&s.start(), self), loc_str(&s.end(), self))
    }
    fn source(&self, s: &Source) -> String {
        match s {
            Source::Span(s) => self.span(s),
            other => format!("{other:?}"),
        }
    }
    fn issue(&self, i: &Issue) -> String {
        let mut o = format!(
            "{} {:?} {:?} {} {} {}",
            i.make_sym.as_str(), i.tag, i.sev, i.msg, self.source(&i.src), i.val
        );
        for a in &i.actions {
            let k = match &a.kind {
                CodeActionKind::ReplaceText { replacement_text } => format!("replace {replacement_text}"),
                CodeActionKind::InsertText { insertion_text } => format!("insert {insertion_text}"),
                CodeActionKind::DeleteText => "delete".to_string(),
            };
            o.push_str(&format!(" [{} {k} {}]", a.label, self.span(&a.src)));
        }
        o.push_str(&format!(" {:?}", i.additional_descriptions));
        for s in &i.additional_sources {
            o.push_str(&self.source(s));
        }
        o
    }
    fn tree(&self, n: &N, o: &mut String) {
        o.push_str(&n.label);
        o.push_str(&format!("{:?}", n.text));
        if let Some(s) = &n.span {
            o.push('@');
            o.push_str(&self.span(s));
        }
        if !n.kids.is_empty() {
            o.push('[');
            for k in &n.kids {
                self.tree(k, o);
                o.push(',');
            }
            o.push(']');
        }
    }
    fn seq(&self, v: &[N]) -> Vec<String> {
        v.iter()
            .map(|n| {
                let mut o = String::new();
                self.tree(n, &mut o);
                o
            })
            .collect()
    }
    fn tracked(&self, t: [&std::collections::HashSet<Location>; 4]) -> [BTreeSet<String>; 4] {
        t.map(|v| v.iter().map(|l| loc_str(l, self)).collect())
    }
}

macro_rules! all {
    ($r:expr, $tree:expr, $by:expr) => {{
        let r = &$r;
        let by: Shift = $by;
        let tree: Vec<N> = $tree;
        All {
            spans: by.seq(&tree).join(" ; "),
            tree,
            issues: r.fatal_issues.iter().chain(r.non_fatal_issues.iter()).map(|i| by.issue(i)).collect(),
            fatal: r.fatal_issues.len(),
            tracked: by.tracked([
                &r.tracked.simple_line_continuations,
                &r.tracked.complex_line_continuations,
                &r.tracked.embedded_newlines,
                &r.tracked.embedded_tabs,
            ]),
            unsafe_enc: format!("{:?}", r.unsafe_character_encoding),
        }
    }};
}

pub(super) fn cst_all(b: &[u8], o: &ParseOptions) -> All {
    let r = parse_bytes_cst_seq(b, o);
    all!(r, tree::from_cst_seq(&r.syntax), Shift::default())
}

pub(super) fn ast_all(b: &[u8], o: &ParseOptions) -> All {
    let r = parse_bytes_ast_seq(b, o);
    all!(r, r.syntax.0.iter().map(tree::from_ast).collect(), Shift::default())
}

pub(super) fn differ(a: &All, b: &All) -> Option<&'static str> {
    if a.spans != b.spans {
        Some("trees")
    } else if a.issues != b.issues || a.fatal != b.fatal {
        Some("issues")
    } else if a.tracked != b.tracked {
        Some("tracked places")
    } else if a.unsafe_enc != b.unsafe_enc {
        Some("encoding flag")
    } else {
        None
    }
}

pub(super) fn detail(a: &All, b: &All) -> String {
    format!(
        "{}\n{:?}\n{:?} {}\n  versus\n{}\n{:?}\n{:?} {}",
        a.spans, a.issues, a.tracked, a.unsafe_enc, b.spans, b.issues, b.tracked, b.unsafe_enc
    )
}

pub(super) fn any_program(s: &mut Src) -> String {
    if s.chance(1, 3) {
        let items = wf::items(s, WfCfg { max_items: 14, ..WfCfg::default() });
        wf::render(s, &items, true)
    } else {
        any_text(s, TextCfg { max_frags: 12 })
    }
}

//======================================================================
// P14
//======================================================================

fn entries(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let text = any_program(s);
    let key = format!("{} | {text:?}", o.show());
    let p = o.make();
    let b = text.as_bytes();

    let cst = cst_all(b, &p);
    let ast = ast_all(b, &p);
    let str_cst = {
        let r = parse_cst_seq(&text, &p);
        all!(r, tree::from_cst_seq(&r.syntax), Shift::default())
    };
    let str_ast = {
        let r = parse_ast_seq(&text, &p);
        all!(r, r.syntax.0.iter().map(tree::from_ast).collect(), Shift::default())
    };
    for (a, b, what) in [(&cst, &str_cst, "cst"), (&ast, &str_ast, "ast")] {
        if let Some(d) = differ(a, b) {
            return fail(format!("text and bytes differ in {d} ({what})"), &key, detail(a, b));
        }
    }
    // the abstract parse is the abstraction of the concrete parse
    let by_hand: Vec<N> = {
        let NodeSeq(v) = aggregate_cst_seq(parse_cst_seq(&text, &p).syntax);
        v.into_iter().map(|c| tree::from_ast(&abstract_cst(c, o.quirk()))).collect()
    };
    let same = All {
        spans: Shift::default().seq(&by_hand).join(" ; "),
        tree: by_hand,
        ..cst.clone()
    };
    if let Some(d) = differ(&ast, &same) {
        return fail(format!("abstract parse and abstraction differ in {d}"), &key, detail(&ast, &same));
    }
    // aggregation node by node
    let one_by_one: Vec<N> = {
        let NodeSeq(v) = parse_cst_seq(&text, &p).syntax;
        v.into_iter()
            .filter_map(aggregate_cst)
            .map(|c| tree::from_ast(&abstract_cst(c, o.quirk())))
            .collect()
    };
    if Shift::default().seq(&one_by_one).join(" ; ") != ast.spans {
        return fail("aggregation of the sequence and of its nodes differ", &key, ast.spans);
    }
    // single node entry points
    if cst.tree.len() == 1 {
        let a = {
            let r = parse_cst(&text, &p);
            all!(r, vec![tree::from_cst(&r.syntax)], Shift::default())
        };
        let b = {
            let r = parse_bytes_cst(text.as_bytes(), &p);
            all!(r, vec![tree::from_cst(&r.syntax)], Shift::default())
        };
        for x in [&a, &b] {
            if let Some(d) = differ(x, &cst) {
                return fail(format!("single node and sequence differ in {d}"), &key, detail(x, &cst));
            }
        }
    }
    if ast.tree.len() == 1 && cst.tree.len() == 1 {
        let a = {
            let r = parse_ast(&text, &p);
            all!(r, vec![tree::from_ast(&r.syntax)], Shift::default())
        };
        let b = {
            let r = parse_bytes_ast(text.as_bytes(), &p);
            all!(r, vec![tree::from_ast(&r.syntax)], Shift::default())
        };
        for x in [&a, &b] {
            if let Some(d) = differ(x, &ast) {
                return fail(format!("single abstract node and sequence differ in {d}"), &key, detail(x, &ast));
            }
        }
    }
    // tokens
    let NodeSeq(t) = tokenize(&text, &p);
    if let Ok(NodeSeq(u)) = tokenize_bytes(b, &p) {
        let show = |v: &[tokenize::Token<tokenize::TokenStr>]| {
            v.iter()
                .map(|t| format!("{:?} {:?} {}", t.tok, t.input.as_bytes(), tree::span_str(&t.src)))
                .collect::<Vec<_>>()
        };
        if show(&t) != show(&u) {
            return fail("tokens of text and bytes differ", &key, format!("{:?} {:?}", show(&t), show(&u)));
        }
        if safe_string(b, &p) != Ok(std::str::from_utf8(b).unwrap()) && o.first == 0 {
            return fail("safe string differs from the text", &key, "");
        }
    }
    let big = cst.tree.iter().any(|n| n.kids.len() >= 2);
    pass(&key, big, vec![])
}

fn history(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let text = any_program(s);
    let n = s.below(4) + 1;
    let others: Vec<(opts::O, String)> = (0..n).map(|_| (opts::any(s), any_program(s))).collect();
    let thread = s.chance(1, 8);
    let key = format!("{} | {text:?} | after {:?}", o.show(), others.iter().map(|x| (x.0.show(), &x.1)).collect::<Vec<_>>());
    let p = o.make();
    let run = |text: &str, p: &ParseOptions| {
        (cst_all(text.as_bytes(), p), ast_all(text.as_bytes(), p), format!("{:?}", tokenize(text, p)))
    };
    let first = run(&text, &p);
    for (oo, t) in &others {
        let pp = oo.make();
        match t.len() % 4 {
            0 => drop(parse_cst_seq(t, &pp)),
            1 => drop(tokenize(t, &pp)),
            _ => drop(parse_ast_seq(t, &pp)),
        }
    }
    let mut again = vec![("again", run(&text, &p))];
    if thread {
        let others = others.clone();
        let text = text.clone();
        let r = std::thread::spawn(move || {
            for (oo, t) in &others {
                let _ = parse_ast_seq(t, &oo.make());
            }
            let p = o.make();
            (
                cst_all(text.as_bytes(), &p),
                ast_all(text.as_bytes(), &p),
                format!("{:?}", tokenize(&text, &p)),
            )
        })
        .join();
        match r {
            Ok(v) => again.push(("on another thread", v)),
            Err(_) => return fail("panic on another thread", &key, ""),
        }
    }
    for (what, x) in &again {
        for (a, b) in [(&x.0, &first.0), (&x.1, &first.1)] {
            if let Some(d) = differ(a, b) {
                return fail(format!("{d} differ when parsed {what}"), &key, detail(a, b));
            }
        }
        if x.2 != first.2 {
            return fail(format!("tokens differ when read {what}"), &key, "");
        }
    }
    let big = first.0.tree.iter().any(|n| n.kids.len() >= 2) && others.iter().any(|x| x.0 != o);
    pass(&key, big, if thread { vec!["fresh thread"] } else { vec![] })
}

//======================================================================
// P15
//======================================================================

fn append(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let n = s.below(2) + 1;
    let mut a = String::new();
    for i in 0..n {
        let items = wf::items(s, WfCfg { max_items: 10, ..WfCfg::default() });
        if let Err(e) = RefParser::parse(&items) {
            return Outcome::Discard(e);
        }
        if i > 0 {
            a.push_str(s.ps(&["\n", "\r\n", "\n\n"]));
        }
        a.push_str(&wf::render(s, &items, true));
    }
    let b = any_program(s);
    joined(s, o, a, b, true)
}

fn lines(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let a = any_text(s, TextCfg { max_frags: 8 });
    // now and then the same once more
    let b = if s.chance(1, 5) { a.clone() } else { any_program(s) };
    joined(s, o, a, b, false)
}

fn count(a: &str) -> Shift {
    let c: Vec<char> = a.chars().collect();
    let mut l = 0;
    for i in 0..c.len() {
        if c[i] == '\n' || (c[i] == '\r' && c.get(i + 1) != Some(&'\n')) {
            l += 1;
        }
    }
    Shift { lines: l, chars: c.len() as u32 }
}

/// Does a text leave something open at its end, so that what follows belongs
/// to it?
fn open_ended(a: &str, v: &[N]) -> bool {
    let mut open = false;
    for n in v {
        n.walk(&mut |k| {
            // anything unterminated; anything that still wanted an operand
            open |= k.label.contains("Untermin")
                || k.label.contains("MissingCloser")
                || (k.label.contains("Error_")
                    && !["Error_UnhandledCharacter", "Error_Number", "Error_UnexpectedCloser", "Error_UnsafeCharacterEncoding", "Error_UnexpectedCharacter"]
                        .iter()
                        .any(|e| k.label.contains(e)))
                // `a ~ f` waits for its second tilde, `a /: b` for its `=`
                || k.label.starts_with("SyntaxError")
        });
    }
    // a malformed escape may go on
    open |= v.last().and_then(|n| n.leaves().last().copied()).is_some_and(|l| l.label.contains("Error_"));
    // a line continuation that waits for the next token is in no token yet
    let held: usize = v.iter().flat_map(|n| n.leaves()).map(|l| l.text.len()).sum();
    // an unfinished escape, an open line ending
    open |= held != a.len();
    open || a.trim_end().ends_with('\\') || a.ends_with('\r') || a.ends_with('\u{feff}')
}

fn joined(s: &mut Src, o: opts::O, a: String, b: String, wellformed: bool) -> Outcome {
    let nl = s.ps(&["\n", "\r\n"]);
    let key = format!("{} | {a:?} then {nl:?} then {b:?}", o.show());
    if b.starts_with('\u{feff}') || (nl.starts_with('\n') && a.ends_with('\r')) {
        return Outcome::Discard("byte order mark or split line ending");
    }
    let p = o.make();
    let ca = cst_all(a.as_bytes(), &p);
    if !wellformed && open_ended(&a, &ca.tree) {
        return Outcome::Discard("left open");
    }
    if a.is_empty() {
        return Outcome::Discard("empty");
    }
    let mut waits = false;
    for n in &ca.tree {
        // an integral sign takes a differential from a later line
        n.walk(&mut |k| waits |= k.label.starts_with("Prefix:") && k.label.ends_with("Integral"));
    }
    if waits {
        return Outcome::Discard("an integral sign waits for its differential");
    }
    let aa = ast_all(a.as_bytes(), &p);
    let by = count(&format!("{a}{nl}"));
    let (cb, ab) = {
        let r = parse_cst_seq(&b, &p);
        let q = parse_ast_seq(&b, &p);
        (
            all!(r, tree::from_cst_seq(&r.syntax), by),
            all!(q, q.syntax.0.iter().map(tree::from_ast).collect(), by),
        )
    };
    let whole = format!("{a}{nl}{b}");
    let cw = cst_all(whole.as_bytes(), &p);
    let aw = ast_all(whole.as_bytes(), &p);

    let pos = tree::Pos::new(&whole, o.tab);
    let (x, y) = (pos.loc(a.len(), o.conv).unwrap(), pos.loc(a.len() + nl.len(), o.conv).unwrap());
    let newline = format!(
        "Token:ToplevelNewline{:?}@{}-{}",
        nl,
        loc_str(&x, &Shift::default()),
        loc_str(&y, &Shift::default())
    );
    let want = join(&[&ca.spans, &newline, &cb.spans]);
    if cw.spans != want {
        return fail("concrete trees differ", &key, format!("{}\n  versus\n{want}", cw.spans));
    }
    let want = join(&[&aa.spans, &ab.spans]);
    if aw.spans != want {
        return fail("abstract trees differ", &key, format!("{}\n  versus\n{want}", aw.spans));
    }
    if ca.fatal + cb.fatal <= 10 {
        let mut want: Vec<_> = ca.issues.iter().chain(cb.issues.iter()).collect();
        let mut got: Vec<_> = cw.issues.iter().collect();
        want.sort();
        got.sort();
        if want != got {
            return fail("issues differ", &key, format!("{got:?}\n  versus\n{want:?}"));
        }
    }
    for i in 0..4 {
        let want: BTreeSet<_> = ca.tracked[i].union(&cb.tracked[i]).cloned().collect();
        if want != cw.tracked[i] {
            return fail("tracked places differ", &key, format!("{:?}\n  versus\n{want:?}", cw.tracked[i]));
        }
    }
    let big = |v: &All| v.tree.iter().any(|n| n.kids.len() >= 2 || n.has_error());
    pass(&key, big(&cb) && (wellformed || big(&ca)), vec![])
}

//======================================================================
// P20
//======================================================================

fn shebang(s: &mut Src) -> Outcome {
    let o = opts::O { first: s.weighted(&[1, 3, 3]) as u8, ..opts::any(s) };
    let mut text = String::new();
    let rest = any_program(s);
    let mut skipped = 0;
    match s.below(4) {
        // a first line to skip
        0 | 1 => {
            text.push_str("#!");
            for _ in 0..s.below(5) {
                let t = any_text(s, TextCfg { max_frags: 2 });
                text.extend(t.chars().filter(|c| !matches!(c, '\n' | '\r' | '\u{feff}')));
                text.push_str(s.ps(&["", "/usr/bin/env wolframscript", "\"", "(*", "\\", " ", "\t", "é", "#!", "*)", "[", "\u{2028}", "\\[NewLine]"]));
            }
            let nl = s.ps(&["\n", "\r\n", "\r", ""]);
            text.push_str(nl);
            if nl.is_empty() || (nl == "\r" && rest.starts_with('\n')) || rest.starts_with('\u{feff}') {
                skipped = text.len();
            } else {
                skipped = text.len();
                text.push_str(&rest);
            }
        },
        // nearly one
        2 => {
            text.push_str(s.ps(&["#", "# !", " #!", "\n#!", "!#", "##!", "\\[NumberSign]!", "#1 !", "#a", "!", "#\\\n!", "\\.23!"]));
            text.push_str(&rest);
        },
        _ => text.push_str(&rest),
    }
    if !text.starts_with("#!") || o.first == 0 {
        skipped = 0;
    } else if skipped == 0 {
        let c = text.find(|c| matches!(c, '\n' | '\r')).unwrap_or(text.len());
        skipped = c + if text[c..].starts_with("\r\n") { 2 } else { usize::from(c < text.len()) };
    }
    let rest = text[skipped..].to_string();
    let key = format!("{} | {text:?}", o.show());
    if skipped > 0 && rest.starts_with('\u{feff}') {
        return Outcome::Discard("byte order mark after the first line");
    }
    let p = o.make();
    let plain = opts::O { first: 0, ..o }.make();
    let by = count(&text[..skipped]);
    let (cr, ar) = {
        let r = parse_cst_seq(&rest, &plain);
        let q = parse_ast_seq(&rest, &plain);
        (
            all!(r, tree::from_cst_seq(&r.syntax), by),
            all!(q, q.syntax.0.iter().map(tree::from_ast).collect(), by),
        )
    };
    let (cw, aw) = (cst_all(text.as_bytes(), &p), ast_all(text.as_bytes(), &p));
    // The encoding of the first line may be complained about, it is part of the file.
    let (mut cw, mut aw) = (cw, aw);
    for (a, b) in [(&mut cw, &cr), (&mut aw, &ar)] {
        if skipped > 0 {
            let n = a.issues.len();
            let late = n.saturating_sub(b.issues.len());
            let early: Vec<String> = a.issues.iter().filter(|i| !b.issues.contains(i)).cloned().collect();
            if early.len() == late && early.iter().all(|i| i.starts_with("CodeParser`EncodingIssue")) {
                a.issues.retain(|i| !early.contains(i));
                a.fatal = b.fatal;
            }
        }
    }
    for (a, b, what) in [(&cw, &cr, "concrete"), (&aw, &ar, "abstract")] {
        if let Some(d) = differ(a, b) {
            return fail(format!("{what} parse behind the first line differs in {d}"), &key, detail(a, b));
        }
    }
    let toks = |t: &str, p: &ParseOptions, by: Shift| -> Vec<String> {
        tokenize(t, p).0.iter().map(|t| format!("{:?} {:?} {}", t.tok, t.input.as_bytes(), by.span(&t.src))).collect()
    };
    let (a, b) = (toks(&text, &p, Shift::default()), toks(&rest, &plain, by));
    if a != b {
        return fail("tokens behind the first line differ", &key, format!("{a:?}\n  versus\n{b:?}"));
    }
    let seen = skipped > 0 && cw.tree.iter().any(|n| n.kids.len() >= 2 || n.has_error());
    let near = skipped == 0 && text.starts_with(|c| matches!(c, '#' | '!' | ' ' | '\n' | '\\'));
    pass(&key, seen || near, vec![if skipped > 0 { "skipped" } else { "kept" }])
}

fn join(v: &[&str]) -> String {
    v.iter().filter(|x| !x.is_empty()).copied().collect::<Vec<_>>().join(" ; ")
}

//======================================================================
// P16
//======================================================================

fn no_spans(v: &[N]) -> Vec<String> {
    v.iter().map(|n| n.show()).collect()
}

/// Spans of all nodes, in order.
fn spans(v: &[N]) -> Vec<Option<Span>> {
    let mut o = vec![];
    for n in v {
        n.walk(&mut |k| o.push(k.span));
    }
    o
}

fn options(s: &mut Src) -> Outcome {
    let o1 = opts::O { first: 0, ..opts::any(s) };
    let mut o2 = opts::O { first: 0, ..opts::any(s) };
    if s.chance(1, 2) {
        // one difference only
        match s.below(4) {
            0 => o2 = opts::O { conv: o2.conv, ..o1 },
            1 => o2 = opts::O { tab: o2.tab, ..o1 },
            2 => o2 = opts::O { enc: o2.enc, ..o1 },
            _ => o2 = opts::O { quirks: o2.quirks, ..o1 },
        }
    }
    let text = if s.chance(1, 4) { any_text(s, TextCfg { max_frags: 10 }) } else { any_program(s) };
    let key = format!("{} and {} | {text:?}", o1.show(), o2.show());
    let (p1, p2) = (o1.make(), o2.make());
    let (c1, c2) = (cst_all(text.as_bytes(), &p1), cst_all(text.as_bytes(), &p2));
    let (a1, a2) = (ast_all(text.as_bytes(), &p1), ast_all(text.as_bytes(), &p2));
    let cut = c1.tree.iter().any(|n| {
        let mut u = false;
        n.walk(&mut |k| u |= k.label.contains("Untermin") || k.label.contains("MissingCloser"));
        u
    });
    if cut && o1.conv != o2.conv {
        return Outcome::Discard("where a cut construct ends depends on the convention");
    }
    if no_spans(&c1.tree) != no_spans(&c2.tree) {
        return fail("concrete trees differ", &key, detail(&c1, &c2));
    }
    if o1.quirks == o2.quirks && no_spans(&a1.tree) != no_spans(&a2.tree) {
        return fail("abstract trees differ", &key, detail(&a1, &a2));
    }
    // the same places
    let (m1, m2) = (tree::Pos::new(&text, o1.tab), tree::Pos::new(&text, o2.tab));
    let place = |m: &tree::Pos, l: Location| m.offset_of(l);
    let mut pairs: Vec<_> = spans(&c1.tree).into_iter().zip(spans(&c2.tree)).collect();
    if o1.quirks == o2.quirks {
        pairs.extend(spans(&a1.tree).into_iter().zip(spans(&a2.tree)));
    }
    // several columns may be the same offset only for tabs; positions that are
    // no character boundary are left to P04 and P05
    for (x, y) in pairs {
        let (x, y) = match (x, y) {
            (Some(x), Some(y)) => (x, y),
            (None, None) => continue,
            _ => return fail("a position is missing", &key, detail(&c1, &c2)),
        };
        for (p, q) in [(x.start(), y.start()), (x.end(), y.end())] {
            let (i, j) = (place(&m1, p), place(&m2, q));
            if i.is_none() || i != j {
                return fail("positions differ", &key, format!("{p:?} {q:?} {i:?} {j:?}"));
            }
        }
    }
    // issues: the same ones; that a character is not ASCII is reported in one mode only
    let same = o1.enc == o2.enc;
    let show = |v: &All| -> Vec<String> {
        v.issues.iter().filter(|i| same || !i.contains("NonASCIICharacter")).map(|i| strip_places(i)).collect()
    };
    if show(&c1) != show(&c2) {
        return fail("issues differ", &key, detail(&c1, &c2));
    }
    for i in 0..4 {
        if c1.tracked[i].len() != c2.tracked[i].len() {
            return fail("tracked places differ", &key, detail(&c1, &c2));
        }
    }
    let big = c1.tree.iter().any(|n| n.kids.len() >= 2);
    pass(&key, big && o1 != o2, vec![])
}

/// An issue without the numbers of its positions.
fn strip_places(i: &str) -> String {
    i.chars().filter(|c| !c.is_ascii_digit()).collect()
}
