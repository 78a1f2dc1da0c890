//! P17-P19: the LibraryLink crate, through a stand-in link in memory.
//!
//! The expected expressions are built here, from the parser's own results, by
//! the rules of the node forms the Wolfram Language side documents.

use super::*;
use crate::opts;
use crate::textgen::{any_bytes, any_text, TextCfg};
use crate::wf::{self, WfCfg};
use codeparser_wll as lib;
use wolfram_expr::{Expr, ExprKind, Number, Symbol};
use wolfram_library_link::kernel;
use wolfram_library_link::wstp::{self, Link, Tok};
use wolfram_parser::abstract_cst::{abstract_cst, aggregate_cst, aggregate_cst_seq};
use wolfram_parser::ast::{Ast, AstMetadata};
use wolfram_parser::cst::*;
use wolfram_parser::issue::{CodeActionKind, Issue};
use wolfram_parser::source::{BoxPosition, Location, Source, SourceConvention, Span};
use wolfram_parser::tokenize::{Token, TokenInput, TokenKind};
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P17",
            assumptions: &["the link is a stand-in kept in memory: a queue of tokens with WSTP's put and get calls"],
            subs: vec![
                Sub {
                    name: "bytes",
                    quick: 40_000,
                    thorough: 2_000_000,
                    rule: "any bytes and options, as a ConcreteParseBytes call; the answer is one expression, the one the parse result is documented to be sent as; non-trivial: an operator node, an issue or an encoding flag",
                    f: bytes,
                },
                Sub {
                    name: "tokens",
                    quick: 40_000,
                    thorough: 2_000_000,
                    rule: "any bytes and options, as a TokenizeBytes call; non-trivial: at least two tokens or an encoding flag",
                    f: tokens,
                },
                Sub {
                    name: "leaf",
                    quick: 60_000,
                    thorough: 3_000_000,
                    rule: "any bytes and options, as a ConcreteParseLeaf call in each stringify mode, a SafeString call, and TokenIsEmpty calls for the kinds of its tokens; non-trivial: not a plain symbol",
                    f: leaf,
                },
                Sub {
                    name: "files",
                    quick: 4_000,
                    thorough: 100_000,
                    rule: "any bytes in a scratch file, as ConcreteParseFile and TokenizeFile calls, with and without permission to read it; with permission the answer is that of the bytes call, without there is none; non-trivial: not empty",
                    f: files,
                },
                Sub {
                    name: "abort",
                    quick: 10_000,
                    thorough: 400_000,
                    rule: "any program, with an abort after any number of questions; the answer is the full one with some nodes replaced by $Aborted, all of them after the first; non-trivial: aborted",
                    f: abort,
                },
            ],
        },
        Property {
            id: "P18",
            assumptions: &["the link is a stand-in kept in memory: a queue of tokens with WSTP's put and get calls"],
            subs: vec![
                Sub {
                    name: "roundtrip",
                    quick: 30_000,
                    thorough: 1_500_000,
                    rule: "any text and options; its concrete or aggregated tree in a container with its issues and tracked places, as a RoundTripTest call; the answer is the argument; non-trivial: an operator node",
                    f: roundtrip,
                },
                Sub {
                    name: "abstract",
                    quick: 30_000,
                    thorough: 1_500_000,
                    rule: "any text and options; each node of its aggregated tree, as an Abstract call under any quirks; the answer is the abstract syntax of the text under these quirks; non-trivial: an operator node",
                    f: abstract_,
                },
            ],
        },
        Property {
            id: "P19",
            assumptions: &[
                "the link is a stand-in kept in memory: a queue of tokens with WSTP's put and get calls",
                "a box tree is laid out as ConcreteParseBox does: an operator node is a RowBox, its children at {1, i} below it, a pattern or slot is one string, an implied token stands before or after its neighbour",
            ],
            subs: vec![
                Sub {
                    name: "roundtrip",
                    quick: 30_000,
                    thorough: 1_500_000,
                    rule: "a well-formed program's tree laid out in boxes, with boxes and box trivia in it, in a Box or Cell container, as a RoundTripTest call; the answer is the argument, each node at its box position; non-trivial: an operator node",
                    f: box_roundtrip,
                },
                Sub {
                    name: "abstract",
                    quick: 30_000,
                    thorough: 1_500_000,
                    rule: "a well-formed program's aggregated tree laid out in boxes, with gaps where trivia stood, as an Abstract call under any quirks; the answer is the abstract syntax of the text, each leaf at its box position and each node at its own or at none; non-trivial: an operator node",
                    f: box_abstract,
                },
                Sub {
                    name: "forms",
                    quick: 20_000,
                    thorough: 1_000_000,
                    rule: "SubscriptBox and SuperscriptBox of one to three parts, among them bracketed parts and derivative tags, whole and malformed; Part brackets and derivative tags are kept with their contents abstracted, and all else is abstracted part by part; non-trivial: a bracketed part or a tag",
                    f: box_forms,
                },
            ],
        },
    ]
}

//
// Building expressions
//

fn sy(s: &str) -> Expr {
    Expr::symbol(Symbol::new(s))
}
fn st(s: &str) -> Expr {
    Expr::string(s)
}
fn int(i: i64) -> Expr {
    Expr::from(i)
}
fn f(h: &str, v: Vec<Expr>) -> Expr {
    Expr::normal(Symbol::new(h), v)
}
fn list(v: Vec<Expr>) -> Expr {
    f("System`List", v)
}
fn rule(k: Expr, v: Expr) -> Expr {
    f("System`Rule", vec![k, v])
}
fn assoc(v: Vec<Expr>) -> Expr {
    f("System`Association", v)
}
fn cp(h: &str, v: Vec<Expr>) -> Expr {
    f(&format!("CodeParser`{h}"), v)
}

/// `CodeParser_GroupSquare` is ``CodeParser`GroupSquare``, `Plus` is ``System`Plus``.
fn name(d: impl std::fmt::Debug) -> Expr {
    let d = format!("{d:?}");
    if d.contains('_') {
        sy(&d.replace('_', "`"))
    } else {
        sy(&format!("System`{d}"))
    }
}

fn kind(k: TokenKind) -> Expr {
    let d = format!("{k:?}");
    match d.as_str() {
        "EndOfFile" | "Symbol" | "String" | "Integer" | "Real" | "Rational" | "Whitespace" => {
            sy(&format!("System`{d}"))
        },
        "ToplevelNewline" | "InternalNewline" => sy("Token`Newline"),
        d => sy(&format!("Token`{}", d.replace('_', "`"))),
    }
}

fn loc(l: Location) -> Expr {
    match l {
        Location::LineColumn(lc) => list(vec![int(lc.line().get().into()), int(lc.column().get().into())]),
        Location::CharacterIndex(i) => list(vec![int(0), int(i.into())]),
    }
}

fn span(s: Span) -> Expr {
    range(s.start(), s.end())
}

fn range(a: Location, b: Location) -> Expr {
    match (a, b) {
        (Location::CharacterIndex(a), Location::CharacterIndex(b)) => {
            list(vec![int(a.into()), int(b as i64 - 1)])
        },
        (a, b) => list(vec![loc(a), loc(b)]),
    }
}

fn source(s: &Source) -> Option<Expr> {
    let path = |v: &[usize]| list(v.iter().map(|i| int(*i as i64)).collect());
    match s {
        Source::Span(s) => Some(span(*s)),
        Source::Unknown => None,
        Source::Box(BoxPosition::At(v)) => Some(path(v)),
        Source::Box(BoxPosition::Before(v)) => Some(f("CodeParser`Before", vec![path(v)])),
        Source::Box(BoxPosition::After(v)) => Some(f("CodeParser`After", vec![path(v)])),
        Source::Box(BoxPosition::Spanning { .. }) => None,
    }
}

fn data(s: Option<Expr>) -> Expr {
    assoc(s.into_iter().map(|s| rule(sy("CodeParser`Source"), s)).collect())
}

fn token<I: TokenInput>(t: &Token<I>) -> Expr {
    let err = format!("{:?}", t.tok).starts_with("Error_");
    cp(
        if err { "ErrorNode" } else { "LeafNode" },
        vec![
            kind(t.tok),
            st(std::str::from_utf8(t.input.as_bytes()).unwrap_or("<not UTF-8>")),
            data(Some(span(t.src))),
        ],
    )
}

fn leaf_spans<I: TokenInput>(c: &[&Cst<I>], o: &mut Vec<Span>) {
    for c in c {
        c.visit(&mut |n| {
            if let Cst::Token(t) = n {
                o.push(t.src)
            }
        });
    }
}

fn around(v: &[Span]) -> Option<Expr> {
    match (v.first(), v.last()) {
        (Some(a), Some(b)) => Some(range(a.start(), b.end())),
        _ => None,
    }
}

fn op<I: TokenInput, O: std::fmt::Debug>(head: &str, n: &OperatorNode<I, Span, O>) -> Expr {
    let mut v = vec![];
    leaf_spans(&n.children.0.iter().collect::<Vec<_>>(), &mut v);
    cp(head, vec![name(&n.op), list(n.children.0.iter().map(cst).collect()), data(around(&v))])
}

fn cst<I: TokenInput>(c: &Cst<I>) -> Expr {
    match c {
        Cst::Token(t) => token(t),
        Cst::Call(CallNode { head, body }) => {
            let mut v = vec![];
            leaf_spans(&[c], &mut v);
            let h = match head {
                CallHead::Concrete(h) => list(h.0.iter().map(cst).collect()),
                CallHead::Aggregate(h) => cst(h),
            };
            let b = match body {
                CallBody::Group(GroupNode(o)) => op("GroupNode", o),
                CallBody::GroupMissingCloser(GroupMissingCloserNode(o)) => op("GroupMissingCloserNode", o),
            };
            cp("CallNode", vec![h, b, data(around(&v))])
        },
        Cst::SyntaxError(SyntaxErrorNode { err, children }) => {
            let mut v = vec![];
            leaf_spans(&[c], &mut v);
            cp(
                "SyntaxErrorNode",
                vec![
                    sy(&format!("SyntaxError`{err:?}")),
                    list(children.0.iter().map(cst).collect()),
                    data(around(&v)),
                ],
            )
        },
        Cst::Prefix(PrefixNode(o)) => op("PrefixNode", o),
        Cst::Infix(InfixNode(o)) => op("InfixNode", o),
        Cst::Postfix(PostfixNode(o)) => op("PostfixNode", o),
        Cst::Binary(BinaryNode(o)) => op("BinaryNode", o),
        Cst::Ternary(TernaryNode(o)) => op("TernaryNode", o),
        Cst::PrefixBinary(PrefixBinaryNode(o)) => op("PrefixBinaryNode", o),
        Cst::Compound(CompoundNode(o)) => op("CompoundNode", o),
        Cst::Group(GroupNode(o)) => op("GroupNode", o),
        Cst::GroupMissingCloser(GroupMissingCloserNode(o)) => op("GroupMissingCloserNode", o),
        Cst::GroupMissingOpener(GroupMissingOpenerNode(o)) => op("GroupMissingOpenerNode", o),
        Cst::Box(_) | Cst::Code(_) => sy("Text`NeverGivesBoxes"),
    }
}

fn issue(i: &Issue) -> Expr {
    let mut v = vec![];
    if let Some(s) = source(&i.src) {
        v.push(rule(sy("CodeParser`Source"), s));
    }
    v.push(rule(
        sy("System`ConfidenceLevel"),
        Expr::number(wolfram_expr::Number::Real(wolfram_expr::F64::new(i.val).unwrap())),
    ));
    if !i.actions.is_empty() {
        let a = i.actions.iter().map(|a| {
            let (k, t) = match &a.kind {
                CodeActionKind::ReplaceText { replacement_text: t } => ("ReplaceText", Some(("ReplacementText", t))),
                CodeActionKind::InsertText { insertion_text: t } => ("InsertText", Some(("InsertionText", t))),
                CodeActionKind::DeleteText => ("DeleteText", None),
            };
            let mut d = vec![rule(sy("CodeParser`Source"), span(a.src))];
            if let Some((k, t)) = t {
                d.push(rule(st(k), st(t)));
            }
            cp("CodeAction", vec![st(&a.label), sy(&format!("CodeParser`{k}")), assoc(d)])
        });
        v.push(rule(sy("CodeParser`CodeActions"), list(a.collect())));
    }
    if !i.additional_descriptions.is_empty() {
        v.push(rule(
            st("AdditionalDescriptions"),
            list(i.additional_descriptions.iter().map(|d| st(d)).collect()),
        ));
    }
    if !i.additional_sources.is_empty() {
        v.push(rule(
            st("AdditionalSources"),
            list(i.additional_sources.iter().filter_map(source).collect()),
        ));
    }
    f(
        i.make_sym.as_str(),
        vec![st(&format!("{:?}", i.tag)), st(&i.msg), st(&format!("{:?}", i.sev)), assoc(v)],
    )
}

fn missing(flag: UnsafeCharacterEncoding) -> Expr {
    f("System`Missing", vec![st(&format!("UnsafeCharacterEncoding_{flag:?}"))])
}

fn places<N>(r: &ParseResult<N>) -> Vec<Expr> {
    let t = &r.tracked;
    [
        &t.simple_line_continuations,
        &t.complex_line_continuations,
        &t.embedded_newlines,
        &t.embedded_tabs,
    ]
    .iter()
    .map(|s| list(s.iter().map(|l| loc(*l)).collect()))
    .collect()
}

fn result<N>(r: &ParseResult<N>, nodes: Expr) -> Expr {
    let nodes = match r.unsafe_character_encoding {
        Some(fl) => list(vec![missing(fl)]),
        None => nodes,
    };
    let issues = if r.fatal_issues.is_empty() { &r.non_fatal_issues } else { &r.fatal_issues };
    let mut v = vec![nodes, list(issues.iter().map(issue).collect())];
    v.extend(places(r));
    list(v)
}

//
// Comparing expressions: rules of an association and the last four lists of a
// parse result come in no particular order.
//

fn is(e: &Expr, sym: &str) -> bool {
    matches!(e.kind(), ExprKind::Symbol(s) if s.as_str() == sym)
}

/// The kernel splices associations in an association into it.
fn rules(v: &[Expr], o: &mut Vec<String>) {
    for k in v {
        match k.try_as_normal() {
            Some(n) if is(n.head(), "System`Association") => rules(n.elements(), o),
            _ => o.push(show(k)),
        }
    }
}

fn canon(e: &Expr, o: &mut String) {
    match e.kind() {
        ExprKind::Normal(n) => {
            canon(n.head(), o);
            o.push('[');
            let mut v: Vec<String> = vec![];
            if is(n.head(), "System`Association") {
                rules(n.elements(), &mut v);
                v.sort();
            } else {
                v.extend(n.elements().iter().map(show));
            }
            o.push_str(&v.join(", "));
            o.push(']');
        },
        ExprKind::Symbol(s) => {
            let s = s.as_str();
            o.push_str(s.strip_prefix("System`").or(s.strip_prefix("CodeParser`")).unwrap_or(s));
            if s.starts_with("CodeParser`") {
                o.push('\'');
            }
        },
        ExprKind::String(s) => o.push_str(&format!("{s:?}")),
        ExprKind::Integer(i) => o.push_str(&i.to_string()),
        ExprKind::Real(x) => o.push_str(&format!("{:?}", **x)),
    }
}

fn show(e: &Expr) -> String {
    let mut o = String::new();
    canon(e, &mut o);
    o
}

/// A parse result, its four sets of places in order.
fn show_result(e: &Expr) -> String {
    let Some(n) = e.try_as_normal() else { return show(e) };
    if n.elements().len() != 6 {
        return show(e);
    }
    let mut o = format!("{}[\n", show(n.head()));
    for (i, k) in n.elements().iter().enumerate() {
        match (i, k.try_as_normal()) {
            (2..=5, Some(k)) => {
                let mut v: Vec<String> = k.elements().iter().map(show).collect();
                v.sort();
                o.push_str(&format!("{}[{}]\n", show(k.head()), v.join(", ")));
            },
            _ => {
                o.push_str(&show(k));
                o.push('\n');
            },
        }
    }
    o + "]"
}

//
// Calls
//

fn b(v: &[u8]) -> Vec<Tok> {
    vec![Tok::Fun(1), Tok::Sym("ByteArray".into()), Tok::Bytes(v.to_vec())]
}
fn i(n: i64) -> Vec<Tok> {
    vec![Tok::Int(n)]
}
fn e(x: &Expr) -> Vec<Tok> {
    let mut v = vec![];
    wstp::tokens(x, &mut v);
    v
}
fn conv(o: &opts::O) -> i64 {
    (o.conv == SourceConvention::CharacterIndex) as i64
}
fn quirks(s: &mut Src, q: [bool; 3]) -> Expr {
    let dflt = [true, false, false];
    let names = ["InfixBinaryAt", "FlattenTimes", "OldAtAtAt"];
    let mut v = vec![];
    for k in 0..3 {
        if q[k] != dflt[k] || s.chance(1, 2) {
            v.push(rule(st(names[k]), sy(if q[k] { "System`True" } else { "System`False" })));
        }
    }
    if s.chance(1, 2) {
        v.reverse();
    }
    assoc(v)
}

/// Makes a call and reads the answer; a library function that panics answers
/// with a failure.
fn call(fun: impl FnOnce(&mut Link), args: Vec<Vec<Tok>>) -> Result<Expr, String> {
    let mut l = Link::call(args);
    guard(|| fun(&mut l)).map_err(|p| format!("panicked: {p}"))?;
    l.answer()
}

fn judge(what: &str, got: Result<Expr, String>, want: &Expr, key: &str) -> Option<Outcome> {
    match got {
        Err(p) => Some(fail(
            format!("{what}: {}", if p.starts_with("panicked") { strip_loc(&p) } else { "no single answer".into() }),
            key,
            p,
        )),
        Ok(g) => {
            let (g, w) = (show_result(&g), show_result(want));
            (g != w).then(|| fail(format!("{what}: differs"), key, format!("sent\n{g}\nexpected\n{w}")))
        },
    }
}

fn some_bytes(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[5, 3, 3]) {
        0 => any_text(s, TextCfg::default()).into_bytes(),
        1 => any_bytes(s, TextCfg::default()),
        _ => program(s).into_bytes(),
    }
}

fn program(s: &mut Src) -> String {
    let it = wf::items(s, WfCfg::default());
    wf::render(s, &it, true)
}

/// Options as far as the call passes them on.
fn link_opts(s: &mut Src) -> opts::O {
    let mut o = opts::any(s);
    o.enc = 0;
    o
}

fn args6(s: &mut Src, first: Vec<Tok>, o: &opts::O) -> Vec<Vec<Tok>> {
    let q = quirks(s, o.quirks);
    vec![i(0), first, i(conv(o)), i(o.tab.into()), i(o.first.into()), e(&q)]
}

fn bytes(s: &mut Src) -> Outcome {
    kernel::set_abort(None);
    let o = link_opts(s);
    let t = some_bytes(s);
    let key = format!("{} {}", o.show(), show_bytes(&t));
    let args = args6(s, b(&t), &o);
    let r = match guard(|| parse_bytes_cst_seq(&t, &o.make())) {
        Ok(r) => r,
        Err(_) => return Outcome::Discard("the parser itself panicked"),
    };
    let want = result(&r, list(r.syntax.0.iter().map(cst).collect()));
    if let Some(x) = judge("ConcreteParseBytes", call(lib::ConcreteParseBytes_LibraryLink, args), &want, &key) {
        return x;
    }
    let issues = !r.fatal_issues.is_empty() || !r.non_fatal_issues.is_empty();
    pass(
        &key,
        issues || r.unsafe_character_encoding.is_some() || r.syntax.0.iter().any(|c| !matches!(c, Cst::Token(_))),
        if r.unsafe_character_encoding.is_some() {
            vec!["bad encoding"]
        } else if issues {
            vec!["issues"]
        } else {
            vec!["clean"]
        },
    )
}

fn want_tokens(t: &[u8], o: &opts::O) -> Option<(Expr, usize)> {
    let opts = o.make();
    let r = guard(|| tokenize_bytes(t, &opts)).ok()?;
    Some(match &r {
        Ok(v) => (list(v.0.iter().map(token).collect()), v.0.len()),
        Err(fl) => (list(vec![missing(*fl)]), 2),
    })
}

fn tokens(s: &mut Src) -> Outcome {
    kernel::set_abort(None);
    let o = link_opts(s);
    let t = some_bytes(s);
    let key = format!("{} {}", o.show(), show_bytes(&t));
    let args = args6(s, b(&t), &o);
    let Some((want, n)) = want_tokens(&t, &o) else { return Outcome::Discard("the parser itself panicked") };
    if let Some(x) = judge("TokenizeBytes", call(lib::TokenizeBytes_LibraryLink, args), &want, &key) {
        return x;
    }
    pass(&key, n > 1, vec![])
}

fn leaf(s: &mut Src) -> Outcome {
    kernel::set_abort(None);
    let o = opts::any(s);
    let t = match s.below(3) {
        0 => {
            let mut x = String::new();
            crate::textgen::leaf(s, &mut x);
            if s.chance(1, 3) {
                crate::textgen::leaf(s, &mut x);
            }
            x.into_bytes()
        },
        _ => some_bytes(s),
    };
    let mode = s.below(3);
    let key = format!("{} mode={mode} {}", o.show(), show_bytes(&t));
    let q = quirks(s, o.quirks);
    let m = match mode {
        0 => StringifyMode::Normal,
        1 => StringifyMode::Tag,
        _ => StringifyMode::File,
    };
    let r = match guard(|| parse_to_token(&t, &o.make(), m)) {
        Ok(r) => r,
        Err(_) => return Outcome::Discard("the parser itself panicked"),
    };
    let want = result(&r, list(r.syntax.0.iter().map(token).collect()));
    let args = vec![
        i(0),
        b(&t),
        i(mode.into()),
        i(conv(&o)),
        i(o.tab.into()),
        i(o.first.into()),
        i(o.enc.into()),
        e(&q),
    ];
    if let Some(x) = judge("ConcreteParseLeaf", call(lib::ConcreteParseLeaf_LibraryLink, args), &want, &key) {
        return x;
    }
    let want = match safe_string(&t, &ParseOptions::default()) {
        Ok(_) => st(std::str::from_utf8(&t).unwrap_or("<not UTF-8>")),
        Err(fl) => missing(fl),
    };
    if let Some(x) = judge("SafeString", call(lib::SafeString_LibraryLink, vec![i(0), b(&t)]), &want, &key) {
        return x;
    }
    // The empty kinds are those of the tokens that have no text.
    let k = r.syntax.0[0].tok;
    let mut kinds = vec![(k, r.syntax.0[0].input.as_bytes().is_empty())];
    if let Ok(r) = guard(|| parse_bytes_cst_seq(&t, &o.make())) {
        r.syntax.visit(&mut |c| {
            if let Cst::Token(t) = c {
                kinds.push((t.tok, t.input.as_bytes().is_empty()));
            }
        });
    }
    kinds.sort_by_key(|k| format!("{k:?}"));
    kinds.dedup();
    for (k, empty) in kinds {
        // A line continuation at the end of input belongs to the end of input.
        let empty = empty || k == TokenKind::EndOfFile;
        let want = sy(if empty { "System`True" } else { "System`False" });
        if let Some(x) = judge("TokenIsEmpty", call(lib::TokenIsEmpty_LibraryLink, vec![e(&kind(k))]), &want, &format!("{key}: {k:?}")) {
            return x;
        }
    }
    pass(&key, k != TokenKind::Symbol, vec![["normal", "tag", "file"][mode as usize]])
}

fn scratch() -> std::path::PathBuf {
    thread_local!(static P: std::cell::OnceCell<std::path::PathBuf> = const { std::cell::OnceCell::new() });
    P.with(|p| {
        p.get_or_init(|| {
            use std::sync::atomic::{AtomicU32, Ordering};
            static N: AtomicU32 = AtomicU32::new(0);
            let d = std::path::PathBuf::from(if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" });
            d.join(format!("wlcheck-{}-{}.wl", std::process::id(), N.fetch_add(1, Ordering::Relaxed)))
        })
        .clone()
    })
}

fn files(s: &mut Src) -> Outcome {
    kernel::set_abort(None);
    let o = link_opts(s);
    let t = some_bytes(s);
    let permitted = s.chance(3, 4);
    let key = format!("{} permitted={permitted} {}", o.show(), show_bytes(&t));
    let p = scratch();
    let path = p.to_string_lossy().into_owned();
    if std::fs::write(&p, &t).is_err() {
        return Outcome::Discard("the parser itself panicked");
    }
    kernel::set_readable(if permitted { vec![path.clone()] } else { vec![path.clone() + "x"] });
    let pa = vec![Tok::Str(path)];
    let args = args6(s, pa.clone(), &o);
    let args2 = args6(s, pa, &o);
    let got = call(lib::ConcreteParseFile_LibraryLink, args);
    let got2 = call(lib::TokenizeFile_LibraryLink, args2);
    let _ = std::fs::remove_file(&p);
    kernel::set_readable(vec![]);
    if !permitted {
        for (w, g) in [("ConcreteParseFile", got), ("TokenizeFile", got2)] {
            if let Ok(x) = g {
                return fail(format!("{w}: read a file without permission"), &key, show(&x));
            }
        }
        return pass(&key, true, vec!["refused"]);
    }
    let r = match guard(|| parse_bytes_cst_seq(&t, &o.make())) {
        Ok(r) => r,
        Err(_) => return Outcome::Discard("the parser itself panicked"),
    };
    let want = result(&r, list(r.syntax.0.iter().map(cst).collect()));
    let Some((want2, _)) = want_tokens(&t, &o) else { return Outcome::Discard("the parser itself panicked") };
    if let Some(x) = judge("ConcreteParseFile", got, &want, &key) {
        return x;
    }
    if let Some(x) = judge("TokenizeFile", got2, &want2, &key) {
        return x;
    }
    pass(&key, !t.is_empty(), vec!["read"])
}

/// Whether `got` is `full` but for nodes replaced by `$Aborted`: their number,
/// or nothing when it is not. After the first one no node may be whole again.
fn cut(got: &Expr, full: &Expr, seen: &mut u32, broken: &mut bool) -> bool {
    if is(got, "System`$Aborted") {
        *seen += 1;
        return true;
    }
    match (got.kind(), full.kind()) {
        (ExprKind::Normal(a), ExprKind::Normal(b)) => {
            let before = *seen;
            let same = a.elements().len() == b.elements().len()
                && cut(a.head(), b.head(), seen, broken)
                && a.elements().iter().zip(b.elements()).all(|(x, y)| cut(x, y, seen, broken));
            let h = show(a.head());
            if h.ends_with("Node'") && before > 0 && *seen == before && h != "GroupNode'" && h != "GroupMissingCloserNode'" {
                *broken = true;
            }
            same
        },
        _ => got == full,
    }
}

fn abort(s: &mut Src) -> Outcome {
    let o = link_opts(s);
    let t = if s.chance(1, 3) { any_text(s, TextCfg::default()) } else { program(s) };
    let after = s.below(12) as u64;
    let key = format!("{} after={after} {t:?}", o.show());
    let args = args6(s, b(t.as_bytes()), &o);
    kernel::set_abort(None);
    let full = match call(lib::ConcreteParseBytes_LibraryLink, args.clone()) {
        Ok(x) => x,
        Err(_) => return Outcome::Discard("the parser itself panicked"),
    };
    let total = kernel::asked();
    kernel::set_abort(Some(after));
    let got = call(lib::ConcreteParseBytes_LibraryLink, args);
    kernel::set_abort(None);
    let got = match got {
        Ok(x) => x,
        Err(p) => return fail("abort: no single answer", &key, p),
    };
    let (mut n, mut broken) = (0, false);
    let (Some(g), Some(w)) = (got.try_as_normal(), full.try_as_normal()) else {
        return fail("abort: not a result", &key, show(&got));
    };
    if g.elements().len() != 6 || w.elements().len() != 6 {
        return fail("abort: not a result", &key, show(&got));
    }
    if !cut(&g.elements()[0], &w.elements()[0], &mut n, &mut broken) || broken || (after < total && n == 0) || (after >= total && n > 0) {
        return fail("abort: not the answer cut short", &key, format!("{}\nfull\n{}", show(&got), show(&full)));
    }
    pass(&key, n > 0, vec![])
}

//
// Trees sent to the library
//

fn containers(s: &mut Src) -> Expr {
    sy(s.ps(&["System`String", "System`File", "System`Byte"]))
}

/// Puts a `CodeNode` (code that is kept as an expression, which the kernel side
/// builds) for the symbols `pick` chooses, with the same place.
fn coded(x: &Expr, pick: &mut dyn FnMut(&str) -> Option<(Expr, Expr)>) -> Expr {
    let Some(n) = x.try_as_normal() else { return x.clone() };
    let v = n.elements();
    if is(n.head(), "CodeParser`LeafNode") && v.len() == 3 && is(&v[0], "System`Symbol") {
        if let Some((a, b)) = v[1].try_as_str().and_then(|t| pick(t)) {
            return cp("CodeNode", vec![a, b, v[2].clone()]);
        }
        return x.clone();
    }
    let v: Vec<Expr> = v.iter().map(|k| coded(k, pick)).collect();
    Expr::normal(coded(n.head(), pick), v)
}

fn numbers(x: &Expr, to: &dyn Fn(&Number) -> Number) -> Expr {
    if let Some(n) = x.try_as_normal() {
        return Expr::normal(numbers(n.head(), to), n.elements().iter().map(|k| numbers(k, to)).collect::<Vec<_>>());
    }
    match x.try_as_number() {
        Some(n) => Expr::number(to(&n)),
        None => x.clone(),
    }
}

fn some_code(s: &mut Src) -> (Expr, Expr) {
    let one = |s: &mut Src| match s.below(7) {
        0 => sy("System`Evaluated"),
        1 => sy("System`Null"),
        2 => st(s.ps(&["", "a\n", "\\[Alpha]", "é"])),
        3 => int(s.below(1000) as i64 - 500),
        4 => f("System`f", vec![st("x"), sy("Global`y"), int(2)]),
        5 => list(vec![]),
        _ => f("System`Hold", vec![f("System`Plus", vec![int(1), int(1)])]),
    };
    (one(s), one(s))
}

const CODED: &[&str] = &[
    "zzCode", "a + zzCode", "f[zzCode, b]", "{zzCode, {1, zzCode}}", "zzCode -> a", "(zzCode)", "-zzCode", "zzCode!",
    "a[[zzCode]]", "zzCode @@ c", "a zzCode b", "a; zzCode;", "zzCode // f", "a < zzCode <= c", "zzCode ;; 2",
    "<|a -> zzCode|>", "zzCode'", "a = zzCode", "zzCode /; b", "f /@ zzCode", "zzCode.a.b", "a - zzCode / b", "zzCode &",
];

fn roundtrip(s: &mut Src) -> Outcome {
    kernel::set_abort(None);
    let o = opts::any(s);
    let t = if s.chance(1, 2) { any_text(s, TextCfg::default()) } else { program(s) };
    let key = format!("{} {t:?}", o.show());
    let mut r = match guard(|| parse_cst_seq(&t, &o.make())) {
        Ok(r) => r,
        Err(_) => return Outcome::Discard("the parser itself panicked"),
    };
    if s.chance(1, 4) {
        // Groups without closers and, as in boxes, without openers.
        r.syntax.0 = r.syntax.0.into_iter().map(|c| super::values::boxed(s, c, 0)).collect();
    }
    let nontrivial = r.syntax.0.iter().any(|c| !matches!(c, Cst::Token(_)));
    let nodes = match (&r.unsafe_character_encoding, s.below(12)) {
        (Some(fl), _) => list(vec![missing(*fl)]),
        (None, 0) => list(vec![f("System`Missing", vec![st("EmptyInput")])]),
        (None, 1..=6) => list(r.syntax.0.iter().map(cst).collect()),
        _ => {
            let a = match guard(|| aggregate_cst_seq(r.syntax.clone())) {
                Ok(a) => a,
                Err(_) => return Outcome::Discard("the parser itself panicked"),
            };
            list(a.0.iter().map(cst).collect())
        },
    };
    let mut m = vec![];
    let issues: Vec<Expr> = r.fatal_issues.iter().chain(&r.non_fatal_issues).map(issue).collect();
    if !issues.is_empty() && s.chance(7, 8) {
        m.push(rule(sy("CodeParser`SyntaxIssues"), list(issues)));
    }
    for (p, k) in places(&r).into_iter().zip([
        "SimpleLineContinuations",
        "ComplexLineContinuations",
        "EmbeddedNewlines",
        "EmbeddedTabs",
    ]) {
        if s.chance(1, 3) || (!p.try_as_normal().unwrap().elements().is_empty() && s.chance(7, 8)) {
            m.push(rule(st(k), p));
        }
    }
    if s.chance(1, 2) {
        if let Some((a, z)) = r.syntax.0.first().zip(r.syntax.0.last()) {
            m.push(rule(sy("CodeParser`Source"), range(a.get_source().start(), z.get_source().end())));
        }
    }
    if s.chance(1, 4) {
        m.push(rule(st("FileName"), st("a \\b.wl")));
    }
    if s.chance(1, 8) {
        m.push(rule(st("AdditionalDescriptions"), list(vec![st("a"), st("b\n")])));
    }
    if s.chance(1, 8) {
        m.push(rule(sy("System`ConfidenceLevel"), Expr::number(wolfram_expr::Number::Real(wolfram_expr::F64::new(0.5).unwrap()))));
    }
    let n = m.len();
    if n > 1 {
        m.rotate_left(s.below(n as u32) as usize);
    }
    let nodes = if s.chance(1, 6) {
        coded(&nodes, &mut |_| if s.chance(1, 2) { Some(some_code(s)) } else { None })
    } else {
        nodes
    };
    let mut c = cp("ContainerNode", vec![containers(s), nodes, assoc(m)]);
    if s.chance(1, 12) {
        // The same container, far down a long file.
        let far = [255i64, 4096, 65_535, 1 << 20, (1 << 24) - 1, 1 << 28, (1 << 31) - 100][s.below(7) as usize];
        c = numbers(&c, &|n| match n {
            Number::Integer(i) => Number::Integer(i + far),
            r => *r,
        });
    }
    let mut arg = c.clone();
    if s.chance(1, 4) {
        // A confidence of 1 may come as an integer.
        arg = numbers(&arg, &|n| match n {
            Number::Real(r) if **r == 1.0 => Number::Integer(1),
            n => *n,
        });
    }
    if let Some(x) = judge("RoundTripTest", call(lib::RoundTripTest_LibraryLink, vec![e(&arg)]), &c, &key) {
        return x;
    }
    pass(&key, nontrivial, vec![])
}

//
// Abstract syntax
//

fn ast_data(d: &AstMetadata) -> Expr {
    let mut v = vec![];
    if let Some(s) = source(&d.source) {
        v.push(rule(sy("CodeParser`Source"), s));
    }
    if !d.issues.is_empty() {
        v.push(rule(sy("CodeParser`AbstractSyntaxIssues"), list(d.issues.iter().map(issue).collect())));
    }
    assoc(v)
}

fn asts(v: &[Ast]) -> Expr {
    list(v.iter().map(ast).collect())
}

fn ast(a: &Ast) -> Expr {
    match a {
        Ast::Leaf { kind: k, input, data } => {
            cp("LeafNode", vec![kind(*k), st(input.as_str()), ast_data(data)])
        },
        Ast::Error { kind: k, input, data } => {
            cp("ErrorNode", vec![kind(*k), st(input.as_str()), ast_data(data)])
        },
        Ast::Call { head, args, data } => cp("CallNode", vec![ast(head), asts(args), ast_data(data)]),
        Ast::CallMissingCloser { head, args, data } => {
            cp("CallMissingCloserNode", vec![ast(head), asts(args), ast_data(data)])
        },
        Ast::SyntaxError { kind: k, children, data } => cp(
            "SyntaxErrorNode",
            vec![sy(&format!("SyntaxError`{k:?}")), asts(children), ast_data(data)],
        ),
        Ast::AbstractSyntaxError { kind: k, args, data } => cp(
            "AbstractSyntaxErrorNode",
            vec![sy(&format!("AbstractSyntaxError`{k:?}")), asts(args), ast_data(data)],
        ),
        Ast::Box { kind: k, args, data } => {
            cp("BoxNode", vec![sy(&format!("System`{}", k.as_str())), asts(args), ast_data(data)])
        },
        Ast::Code { first, second, data } => cp("CodeNode", vec![first.clone(), second.clone(), ast_data(data)]),
        Ast::Group { kind: k, children, data } => {
            let (a, b, c) = &**children;
            cp("GroupNode", vec![name(k), list(vec![ast(a), ast(b), ast(c)]), ast_data(data)])
        },
        Ast::GroupMissingCloser { kind: k, children, data } => {
            cp("GroupMissingCloserNode", vec![name(k), asts(children), ast_data(data)])
        },
        Ast::GroupMissingOpener { kind: k, children, data } => {
            cp("GroupMissingOpenerNode", vec![name(k), asts(children), ast_data(data)])
        },
        Ast::PrefixNode_PrefixLinearSyntaxBang(c, data) => cp(
            "PrefixNode",
            vec![sy("CodeParser`PrefixLinearSyntaxBang"), asts(&c[..]), ast_data(data)],
        ),
        Ast::TagBox_GroupParen { .. } => sy("Text`NeverGivesBoxes"),
    }
}

fn abstract_(s: &mut Src) -> Outcome {
    kernel::set_abort(None);
    let o = opts::any(s);
    let code = s.chance(1, 8).then(|| some_code(s));
    let t = if code.is_some() {
        let n = s.below(3) as usize;
        let mut t = s.ps(CODED).to_string();
        for _ in 0..n {
            t = s.ps(CODED).replacen("zzCode", &format!("({t})"), 1);
        }
        t
    } else if s.chance(1, 2) { any_text(s, TextCfg::default()) } else { program(s) };
    let key = format!("{} {t:?}", o.show());
    let r = match guard(|| parse_cst_seq(&t, &o.make())) {
        Ok(r) => r,
        Err(_) => return Outcome::Discard("the parser itself panicked"),
    };
    let nontrivial = r.syntax.0.iter().any(|c| !matches!(c, Cst::Token(_)));
    let q = quirks(s, o.quirks);
    let k = containers(s);
    let openers = code.is_none() && s.chance(1, 4);
    for mut c in r.syntax.0 {
        if openers {
            c = super::values::boxed(s, c, 0);
        }
        let Ok(Some(agg)) = guard(|| aggregate_cst(c)) else { continue };
        let arg = cst(&agg);
        let Ok(want) = guard(|| ast(&abstract_cst(agg, o.quirk()))) else { continue };
        let mut pick = |t: &str| if t == "zzCode" { code.clone() } else { None };
        let (arg, want) = (coded(&arg, &mut pick), coded(&want, &mut pick));
        let got = call(lib::Abstract_LibraryLink, vec![e(&arg), e(&q), e(&k)]);
        if let Some(x) = judge("Abstract", got, &want, &key) {
            return x;
        }
    }
    pass(&key, nontrivial, vec![])
}

//
// Box trees
//

#[derive(Clone, PartialEq, Debug)]
enum At {
    In(Vec<usize>),
    Before(Vec<usize>),
    After(Vec<usize>),
    /// Some consecutive boxes of a row, which has no position in this form.
    Nowhere,
}

impl At {
    fn expr(&self) -> Option<Expr> {
        let path = |v: &[usize]| list(v.iter().map(|i| int(*i as i64)).collect());
        match self {
            At::In(v) => Some(path(v)),
            At::Before(v) => Some(f("System`Before", vec![path(v)])),
            At::After(v) => Some(f("System`After", vec![path(v)])),
            At::Nowhere => None,
        }
    }
}

fn below(p: &[usize], k: &[usize]) -> Vec<usize> {
    let mut v = p.to_vec();
    v.extend(k);
    v
}

/// What is followed by how many quotes.
fn quotes<I: TokenInput>(c: &Cst<I>) -> Option<(&Cst<I>, usize)> {
    match c {
        Cst::Postfix(PostfixNode(n)) if format!("{:?}", n.op) == "Derivative" => {
            let x = n.children.0.first()?;
            Some(quotes(x).map_or((x, 1), |(y, k)| (y, k + 1)))
        },
        _ => None,
    }
}

/// Lays a text tree out in boxes.
struct Boxes<'s> {
    s: &'s mut Src,
    /// How often a box of trivia stands between two children.
    trivia: u32,
    /// Whether that box is in the tree, or was taken out of it.
    keep: bool,
    /// Trees to put in boxes, which symbols in comma lists may become.
    inner: Vec<Cst<wolfram_parser::tokenize::TokenString>>,
    /// Where the nodes of the text went.
    places: Vec<(String, At)>,
    gaps: u32,
    /// Whether rows of quotes are one box.
    multi: bool,
    /// How many rows of quotes are one box.
    quoted: u32,
    /// Where there are boxes instead of symbols: their kinds and contents.
    boxed: Vec<(String, &'static str, Vec<usize>)>,
}

const BOXES: &[&str] = &[
    "FractionBox", "SqrtBox", "SuperscriptBox", "SubscriptBox", "OverscriptBox", "SubsuperscriptBox", "TagBox",
    "StyleBox", "TemplateBox", "InterpretationBox", "NamespaceBox", "GraphicsBox", "FrameBox", "PanelBox",
];

impl<'s> Boxes<'s> {
    /// The next index in a row, trivia before it going to `o`.
    fn next(&mut self, p: &[usize], i: &mut usize, o: &mut Vec<Expr>) -> Vec<usize> {
        while self.trivia > 0 && self.s.chance(self.trivia, 12) {
            *i += 1;
            self.gaps += 1;
            if self.keep {
                let (k, t) = *self.s.pick(&[
                    ("Token`Boxes`MultiWhitespace", "  "),
                    ("Token`Newline", "\n"),
                    ("System`Whitespace", " "),
                ]);
                let at = below(p, &[1, *i]);
                o.push(cp("LeafNode", vec![sy(k), st(t), data(At::In(at).expr())]));
            }
        }
        *i += 1;
        below(p, &[1, *i])
    }

    fn row<I: TokenInput>(&mut self, v: &[Cst<I>], p: &[usize], i: &mut usize, o: &mut Vec<Expr>, boxes: bool) {
        for c in v {
            match c {
                Cst::Token(t) if t.input.as_bytes().is_empty() => {
                    let at = if *i > 0 { At::After(below(p, &[1, *i])) } else { At::Before(below(p, &[1, 1])) };
                    o.push(self.token(t, at));
                },
                _ => {
                    let q = self.next(p, i, o);
                    match c {
                        Cst::Token(t) if boxes && t.tok == TokenKind::Symbol && !self.inner.is_empty() && self.s.chance(1, 2) => {
                            let b = self.boxed(t, &q);
                            o.push(b);
                        },
                        _ => o.push(self.node(c, &q)),
                    }
                },
            }
        }
    }

    /// A box in place of this token.
    fn boxed<I: TokenInput>(&mut self, t: &Token<I>, p: &[usize]) -> Expr {
        let k = self.s.ps(BOXES);
        // Boxes have the number of arguments the front end gives them.
        let n = match k {
            "SqrtBox" => 1,
            "FractionBox" | "SuperscriptBox" | "SubscriptBox" | "OverscriptBox" => 2,
            "SubsuperscriptBox" => 3,
            _ => self.s.range(1, 3) as usize,
        };
        let which: Vec<usize> = (0..n).map(|_| self.s.below(self.inner.len() as u32) as usize).collect();
        let inner = std::mem::take(&mut self.inner);
        // The places of these have nothing to do with those of the text.
        let places = std::mem::take(&mut self.places);
        let mut v = vec![];
        for (i, w) in which.iter().enumerate() {
            v.push(self.node(&inner[*w], &below(p, &[i + 1])));
        }
        self.inner = inner;
        self.places = places;
        self.places.push((show(&span(t.src)), At::In(p.to_vec())));
        self.boxed.push((show(&span(t.src)), k, which));
        cp("BoxNode", vec![sy(&format!("System`{k}")), list(v), data(At::In(p.to_vec()).expr())])
    }

    fn token<I: TokenInput>(&mut self, t: &Token<I>, at: At) -> Expr {
        let err = format!("{:?}", t.tok).starts_with("Error_");
        let d = data(at.expr());
        self.places.push((show(&span(t.src)), at));
        cp(if err { "ErrorNode" } else { "LeafNode" }, vec![kind(t.tok), st(t.input.as_str()), d])
    }

    fn op<I: TokenInput, O: std::fmt::Debug>(&mut self, head: &str, n: &OperatorNode<I, Span, O>, p: &[usize]) -> Expr {
        let mut o = vec![];
        let boxes = ["CodeParser_Comma", "List"].contains(&format!("{:?}", n.op).as_str());
        self.row(&n.children.0, p, &mut 0, &mut o, boxes);
        self.finish(n, p, true);
        cp(head, vec![name(&n.op), list(o), data(At::In(p.to_vec()).expr())])
    }

    fn finish<I: TokenInput, O>(&mut self, n: &OperatorNode<I, Span, O>, p: &[usize], whole: bool) {
        let mut v = vec![];
        leaf_spans(&n.children.0.iter().collect::<Vec<_>>(), &mut v);
        if let Some(r) = around(&v) {
            self.places.push((show(&r), if whole { At::In(p.to_vec()) } else { At::Nowhere }));
        }
    }

    /// Everything in one string.
    fn flat<I: TokenInput>(&mut self, c: &Cst<I>, p: &[usize]) -> Expr {
        match c {
            Cst::Compound(CompoundNode(n)) => {
                let k = n.children.0.iter().map(|c| self.flat(c, p)).collect();
                self.finish(n, p, true);
                cp("CompoundNode", vec![name(&n.op), list(k), data(At::In(p.to_vec()).expr())])
            },
            Cst::Token(t) => self.token(t, At::In(p.to_vec())),
            c => self.node(c, p),
        }
    }

    fn node<I: TokenInput>(&mut self, c: &Cst<I>, p: &[usize]) -> Expr {
        match c {
            Cst::Token(t) => self.token(t, At::In(p.to_vec())),
            Cst::Call(CallNode { head, body }) => {
                let (mut i, mut h, mut o) = (0, vec![], vec![]);
                let concrete = match head {
                    CallHead::Concrete(n) => {
                        self.row(&n.0, p, &mut i, &mut h, false);
                        true
                    },
                    CallHead::Aggregate(n) => {
                        self.row(std::slice::from_ref(&**n), p, &mut i, &mut h, !self.keep);
                        false
                    },
                };
                let (hd, k, n) = match body {
                    CallBody::Group(GroupNode(n)) => ("GroupNode", name(&n.op), &n.children),
                    CallBody::GroupMissingCloser(GroupMissingCloserNode(n)) => {
                        ("GroupMissingCloserNode", name(&n.op), &n.children)
                    },
                };
                self.row(&n.0, p, &mut i, &mut o, false);
                let mut v = vec![];
                leaf_spans(&[c], &mut v);
                if let Some(r) = around(&v) {
                    self.places.push((show(&r), At::In(p.to_vec())));
                }
                let h = if concrete || self.keep { list(h) } else { h.pop().unwrap() };
                cp("CallNode", vec![h, cp(hd, vec![k, list(o), data(None)]), data(At::In(p.to_vec()).expr())])
            },
            Cst::SyntaxError(SyntaxErrorNode { err, children }) => {
                let mut o = vec![];
                // The library holds on to the position such a node has in the text.
                let t = std::mem::take(&mut self.trivia);
                self.row(&children.0, p, &mut 0, &mut o, false);
                self.trivia = t;
                cp("SyntaxErrorNode", vec![sy(&format!("SyntaxError`{err:?}")), list(o), data(At::In(p.to_vec()).expr())])
            },
            Cst::Compound(_) => self.flat(c, p),
            Cst::Prefix(PrefixNode(o)) => self.op("PrefixNode", o, p),
            Cst::Infix(InfixNode(o)) => self.op("InfixNode", o, p),
            Cst::Postfix(PostfixNode(n)) => {
                if let (false, Some((x, k))) = (self.keep || !self.multi, quotes(c)) {
                    let mut o = vec![];
                    let mut i = 0;
                    self.row(std::slice::from_ref(x), p, &mut i, &mut o, false);
                    let at = self.next(p, &mut i, &mut o);
                    o.push(cp("LeafNode", vec![sy("Token`Boxes`MultiSingleQuote"), st(&"'".repeat(k)), data(At::In(at).expr())]));
                    self.finish(n, p, true);
                    self.quoted += 1;
                    return cp("PostfixNode", vec![name(&n.op), list(o), data(At::In(p.to_vec()).expr())]);
                }
                self.op("PostfixNode", n, p)
            },
            Cst::Binary(BinaryNode(o)) => self.op("BinaryNode", o, p),
            Cst::Ternary(TernaryNode(o)) => self.op("TernaryNode", o, p),
            Cst::PrefixBinary(PrefixBinaryNode(o)) => self.op("PrefixBinaryNode", o, p),
            Cst::Group(GroupNode(o)) => self.op("GroupNode", o, p),
            Cst::GroupMissingCloser(GroupMissingCloserNode(o)) => self.op("GroupMissingCloserNode", o, p),
            Cst::GroupMissingOpener(GroupMissingOpenerNode(o)) => self.op("GroupMissingOpenerNode", o, p),
            Cst::Box(_) | Cst::Code(_) => sy("Text`NeverGivesBoxes"),
        }
    }
}

/// Trees to put in boxes.
fn some_inner(s: &mut Src) -> Vec<Cst<wolfram_parser::tokenize::TokenString>> {
    let mut v = vec![];
    for _ in 0..s.below(3) {
        let it = wf::items(s, WfCfg { max_items: 6, ..WfCfg::default() });
        let t = wf::render_plain(&it);
        if let Ok(r) = guard(|| parse_cst_seq(&t, &ParseOptions::default())) {
            v.extend(aggregate_cst_seq(r.syntax).0.into_iter().map(|c| c.into_owned_input()));
        }
    }
    v
}

/// A program, often one with places for boxes.
fn box_program(s: &mut Src) -> String {
    let t = program(s);
    match s.below(6) {
        0 => format!("{{a, {t}, b}}"),
        1 => format!("f[a, {t}]"),
        2 => format!("{{{{a, b}}, {{{t}}}}}"),
        3 => {
            let (o, c) = *s.pick(&[("[", "]"), ("[[", "]]"), ("\\[LeftDoubleBracket]", "\\[RightDoubleBracket]")]);
            format!("{}g{}{o}{t}{c}{}", s.ps(&["", "", "-", "a b", "{x, "]), "'".repeat(s.below(4) as usize), s.ps(&["", "", "[y]", "''", "}"]))
        },
        _ => t,
    }
}

fn quirky(s: &mut Src) -> opts::O {
    let q = [!s.chance(1, 3), s.chance(1, 3), s.chance(1, 3)];
    opts::O { quirks: q, ..opts::O::plain() }
}

fn box_roundtrip(s: &mut Src) -> Outcome {
    kernel::set_abort(None);
    let o = quirky(s);
    let t = box_program(s);
    let r = match guard(|| parse_cst_seq(&t, &o.make())) {
        Ok(r) => r,
        Err(_) => return Outcome::Discard("the parser itself panicked"),
    };
    let agg = aggregate_cst_seq(r.syntax);
    let nontrivial = agg.0.iter().any(|c| !matches!(c, Cst::Token(_)));
    let kind = sy(s.ps(&["System`Box", "System`Cell"]));
    let trivia = s.below(3);
    let multi = false;
    let mut bx = Boxes { trivia, keep: true, inner: some_inner(s), places: vec![], gaps: 0, multi, quoted: 0, boxed: vec![], s };
    let nodes: Vec<Expr> = agg.0.iter().enumerate().map(|(i, c)| bx.node(c, &[i + 1])).collect();
    let key = format!("gaps={} {t:?}", bx.gaps);
    let c = cp("ContainerNode", vec![kind, list(nodes), assoc(vec![])]);
    if let Some(x) = judge("RoundTripTest", call(lib::RoundTripTest_LibraryLink, vec![e(&c)]), &c, &key) {
        return x;
    }
    pass(&key, nontrivial, vec![])
}

struct Laid<'a> {
    places: &'a [(String, At)],
    gaps: bool,
    boxed: &'a [(String, &'static str, Vec<usize>)],
    /// The abstract syntax of what is in the boxes.
    inner: &'a [Expr],
}

impl<'a> Laid<'a> {
    fn boxed(&self, text: &Expr) -> Option<(&'static str, &'a [usize])> {
        let n = text.try_as_normal().filter(|n| is(n.head(), "CodeParser`LeafNode") && n.elements().len() == 3)?;
        let d = show(&n.elements()[2]);
        self.boxed
            .iter()
            .find(|(s, ..)| d == format!("Association[Rule[Source', {s}]]"))
            .map(|(_, k, v)| (*k, v.as_slice()))
    }
}

/// Boxes that may be called.
const CALLED: &[&str] = &[
    "TemplateBox", "InterpretationBox", "SubscriptBox", "SuperscriptBox", "StyleBox", "NamespaceBox", "OverscriptBox",
    "SubsuperscriptBox",
];

/// The issues in the metadata of a node.
fn found(data: &Expr) -> Vec<String> {
    let mut o = vec![];
    let Some(d) = data.try_as_normal().filter(|d| is(d.head(), "System`Association")) else { return o };
    for r in d.elements() {
        let Some(r) = r.try_as_normal().filter(|r| r.elements().len() == 2) else { continue };
        if !is(&r.elements()[0], "CodeParser`AbstractSyntaxIssues") {
            continue;
        }
        for i in r.elements()[1].try_as_normal().map_or(&[][..], |l| l.elements()) {
            let Some(i) = i.try_as_normal().filter(|i| i.elements().len() == 4) else {
                o.push(show(i));
                continue;
            };
            let conf = i.elements()[3].try_as_normal().map_or(&[][..], |d| d.elements()).iter().find_map(|r| {
                let r = r.try_as_normal().filter(|r| r.elements().len() == 2)?;
                is(&r.elements()[0], "System`ConfidenceLevel").then(|| show(&r.elements()[1]))
            });
            let t = |e: &Expr| e.try_as_str().unwrap_or("?").to_owned();
            o.push(format!("{} {} {}", t(&i.elements()[0]), t(&i.elements()[2]), conf.unwrap_or_default()));
        }
    }
    o
}

/// Compares the abstract syntax of boxes with that of text.
fn same_ast(got: &Expr, text: &Expr, bx: &Laid) -> Result<(), String> {
    if let Some((k, v)) = bx.boxed(text) {
        let (head, body) = match got.try_as_normal() {
            Some(g) if is(g.head(), "CodeParser`BoxNode") && g.elements().len() == 3 => (&g.elements()[0], &g.elements()[1]),
            _ => return Err(format!("{} is not a {k}", show(got))),
        };
        let kids = body.try_as_normal().map_or(&[][..], |b| b.elements());
        if !is(head, &format!("System`{k}")) || kids.len() != v.len() {
            return Err(format!("{} is not a {k} of {} boxes", show(got), v.len()));
        }
        for (x, y) in kids.iter().zip(v) {
            same_ast(x, &bx.inner[*y], &Laid { places: &[], gaps: true, boxed: &[], inner: &[] })?;
        }
        return same_ast(&got.try_as_normal().unwrap().elements()[2], &text.try_as_normal().unwrap().elements()[2], bx);
    }
    let (places, gaps) = (bx.places, bx.gaps);
    match (got.try_as_normal(), text.try_as_normal()) {
        (Some(a), Some(b)) if is(a.head(), "System`Association") && is(b.head(), "System`Association") => {
            let src = |n: &wolfram_expr::Normal| {
                n.elements().iter().find_map(|r| {
                    let r = r.try_as_normal()?;
                    is(&r.elements()[0], "CodeParser`Source").then(|| r.elements()[1].clone())
                })
            };
            let (x, y) = (src(a), src(b));
            let y = y.map(|y| show(&y));
            let want: Vec<&At> = places.iter().filter(|(k, _)| Some(k) == y.as_ref()).map(|(_, v)| v).collect();
            match (&x, &y) {
                (Some(x), None) => Err(format!("a node without a position is at {}", show(x))),
                (Some(x), Some(y)) if !want.is_empty() => {
                    if want.iter().any(|w| w.expr().as_ref() == Some(x)) {
                        Ok(())
                    } else {
                        Err(format!("the node of {y} is at {}, not at {want:?}", show(x)))
                    }
                },
                (None, Some(y)) if !gaps && !want.is_empty() && !want.iter().any(|w| **w == At::Nowhere) => {
                    Err(format!("the node of {y} has lost its position {want:?}"))
                },
                _ => Ok(()),
            }
        },
        (Some(a), Some(b)) => {
            if let (Some(x), Some(y)) = (a.elements().last(), b.elements().last()) {
                let (x, mut y) = (found(x), found(y));
                if is(b.head(), "CodeParser`CallNode") {
                    let first = b.elements().get(1).and_then(|v| v.try_as_normal()?.elements().first());
                    let made = b.elements()[0] == cp("LeafNode", vec![sy("System`Symbol"), st("Part"), assoc(vec![])]);
                    let k = bx.boxed(&b.elements()[0]).or_else(|| first.filter(|_| made).and_then(|f| bx.boxed(f)));
                    if k.is_some_and(|(k, _)| !CALLED.contains(&k)) && y.is_empty() {
                        y.push("StrangeCall Error 0.95".into());
                    }
                }
                if x != y {
                    return Err(format!("of {} is said {x:?}, not {y:?}", show(got)));
                }
            }
            if a.elements().len() != b.elements().len() {
                return Err(format!("{} is not {}", show(got), show(text)));
            }
            same_ast(a.head(), b.head(), bx)?;
            for (x, y) in a.elements().iter().zip(b.elements()) {
                same_ast(x, y, bx)?;
            }
            Ok(())
        },
        _ if got == text => Ok(()),
        _ => Err(format!("{} is not {}", show(got), show(text))),
    }
}

fn box_abstract(s: &mut Src) -> Outcome {
    kernel::set_abort(None);
    let o = quirky(s);
    let t = box_program(s);
    let r = match guard(|| parse_cst_seq(&t, &o.make())) {
        Ok(r) => r,
        Err(_) => return Outcome::Discard("the parser itself panicked"),
    };
    let agg = aggregate_cst_seq(r.syntax);
    let nontrivial = agg.0.iter().any(|c| !matches!(c, Cst::Token(_)));
    let k = sy(s.ps(&["System`Box", "System`Cell"]));
    let q = quirks(s, o.quirks);
    let trivia = s.below(3);
    let (mut gaps, mut boxes, mut quoted) = (0, 0, 0);
    let multi = s.chance(1, 2);
    let inner = some_inner(s);
    let mut want_inner = vec![];
    for c in &inner {
        match guard(|| ast(&abstract_cst(c.clone(), o.quirk()))) {
            Ok(a) => want_inner.push(a),
            Err(_) => return Outcome::Discard("the parser itself panicked"),
        }
    }
    for (i, c) in agg.0.iter().enumerate() {
        let mut bx = Boxes { trivia, keep: false, inner: inner.clone(), places: vec![], gaps: 0, multi, quoted: 0, boxed: vec![], s };
        let arg = bx.node(c, &[i + 1]);
        quoted += bx.quoted;
        let (places, boxed, g) = (std::mem::take(&mut bx.places), std::mem::take(&mut bx.boxed), bx.gaps);
        gaps += g;
        boxes += boxed.len();
        let key = format!("{} gaps={g} {t:?}", o.show());
        let Ok(want) = guard(|| ast(&abstract_cst(c.clone(), o.quirk()))) else { continue };
        match call(lib::Abstract_LibraryLink, vec![e(&arg), e(&q), e(&k)]) {
            Err(p) => return fail(format!("box abstraction: {}", strip_loc(&p)), &key, p),
            Ok(got) => {
                if let Err(m) = same_ast(&got, &want, &Laid { places: &places, gaps: g > 0, boxed: &boxed, inner: &want_inner }) {
                    return fail("box abstraction differs", &key, format!("{m}\nboxes {}\nsent {}\ntext {}", show(&arg), show(&got), show(&want)));
                }
            },
        }
    }
    pass(&format!("{} gaps={gaps} {t:?}", o.show()), nontrivial, vec![if gaps > 0 { "gaps" } else { "tight" }, if boxes > 0 { "boxes" } else { "rows only" }, if quoted > 0 { "quotes" } else { "no quotes" }])
}

/// The tree of a text that is one expression.
fn one(t: &str) -> Option<Cst<wolfram_parser::tokenize::TokenString>> {
    let r = guard(|| parse_cst_seq(t, &ParseOptions::default())).ok()?;
    let v = aggregate_cst_seq(r.syntax);
    <[_; 1]>::try_from(v.0).ok().map(|[c]| c.into_owned_input())
}

fn box_forms(s: &mut Src) -> Outcome {
    kernel::set_abort(None);
    let quirk = opts::O::plain();
    let sub = s.chance(1, 2);
    let body = |s: &mut Src| -> String {
        match s.below(4) {
            0 => String::new(),
            1 => s.ps(&["a", "1", "a, b", "-1", "x_", "a;;b"]).to_owned(),
            _ => wf::render_plain(&wf::items(s, WfCfg { max_items: 5, ..WfCfg::default() })),
        }
    };
    // A part of the box: what is sent and what is expected.
    let node = |s: &mut Src, t: &str, p: &[usize]| -> Option<(Expr, Expr)> {
        let c = one(t)?;
        let mut bx = Boxes { trivia: 0, keep: false, inner: vec![], places: vec![], gaps: 0, multi: false, quoted: 0, boxed: vec![], s };
        let sent = bx.node(&c, p);
        Some((sent, guard(|| ast(&abstract_cst(c.clone(), quirk.quirk()))).ok()?))
    };
    let n = if s.chance(1, 6) { *s.pick(&[1, 3]) } else { 2 };
    let (mut sent, mut want, mut shown) = (vec![], vec![], vec![]);
    let mut label = "plain";
    for i in 0..n {
        let p = [i + 1];
        if i != 1 || s.chance(1, 6) {
            let b = body(s);
            let Some((x, y)) = node(s, &b, &p) else { return Outcome::Discard("not one expression") };
            sent.push(x);
            want.push(y);
            shown.push(b);
            continue;
        }
        // Brackets around some contents; only whole ones of the right kind are kept.
        let b = body(s);
        let group = |o: &str, c: &str, k: &str, v: Option<Expr>| -> Expr {
            let leaf = |t: &str, k: &str| cp("LeafNode", vec![sy(k), st(t), data(None)]);
            let ot = if o == "[" { "Token`OpenSquare" } else if o == "(" { "Token`OpenParen" } else { "Token`LongName`LeftDoubleBracket" };
            let ct = if o == "[" { "Token`CloseSquare" } else if o == "(" { "Token`CloseParen" } else { "Token`LongName`RightDoubleBracket" };
            let mut l = vec![leaf(o, ot)];
            l.extend(v);
            l.push(leaf(c, ct));
            cp("GroupNode", vec![sy(&format!("CodeParser`{k}")), list(l), data(None)])
        };
        let inner = node(s, &b, &[2, 1, 2]);
        if !b.is_empty() && inner.is_none() {
            return Outcome::Discard("not one expression");
        }
        let (x, y) = (inner.as_ref().map(|i| i.0.clone()), inner.map(|i| i.1));
        let double = ("\\[LeftDoubleBracket]", "\\[RightDoubleBracket]");
        let general = |t: &str| one(t).and_then(|c| guard(|| ast(&abstract_cst(c, quirk.quirk()))).ok());
        if sub {
            let (t, g, w) = match s.below(3) {
                0 => (format!("[{b}]"), group("[", "]", "GroupSquare", x), None),
                1 => (
                    format!("[[{b}]]"),
                    group("[", "]", "GroupSquare", Some(group("[", "]", "GroupSquare", x))),
                    y.map(|y| group("[", "]", "GroupSquare", Some(group("[", "]", "GroupSquare", Some(y))))),
                ),
                _ => (
                    format!("{}{b}{}", double.0, double.1),
                    group(double.0, double.1, "GroupDoubleBracket", x),
                    y.map(|y| group(double.0, double.1, "GroupDoubleBracket", Some(y))),
                ),
            };
            label = if w.is_some() { "part" } else { "malformed" };
            let Some(w) = w.or_else(|| general(&t)) else { return Outcome::Discard("not one expression") };
            sent.push(g);
            want.push(w);
            shown.push(t);
        } else {
            let g = group("(", ")", "GroupParen", x);
            let code = |h: &str, d: &str| cp("CodeNode", vec![sy(&format!("System`{h}")), sy(&format!("System`{d}")), data(At::In(vec![2, 2]).expr())]);
            let tag = |v: Vec<Expr>| cp("BoxNode", vec![sy("System`TagBox"), list(v), data(At::In(vec![2]).expr())]);
            let t = format!("({b})");
            let (head, der) = if s.chance(1, 5) { *s.pick(&[("Evaluated", "Foo"), ("Null", "Derivative")]) } else { ("Evaluated", "Derivative") };
            let extra = s.chance(1, 8);
            let c = code(head, der);
            let kept = head == "Evaluated" && der == "Derivative" && !extra;
            let (mut v, mut w) = (vec![g, c.clone()], vec![]);
            match y {
                Some(y) if kept => {
                    label = "derivative";
                    w.push(group("(", ")", "GroupParen", Some(y)));
                },
                _ => {
                    label = "malformed";
                    let Some(y) = general(&t) else { return Outcome::Discard("not one expression") };
                    w.push(y);
                },
            }
            w.push(c);
            if extra {
                let Some((x, y)) = node(s, "z", &[2, 3]) else { return Outcome::Discard("not one expression") };
                v.push(x);
                w.push(y);
            }
            sent.push(tag(v));
            want.push(tag(w));
            shown.push(format!("{t} {head} {der} {extra}"));
        }
    }
    let k = if sub { "SubscriptBox" } else { "SuperscriptBox" };
    let made = |v: Vec<Expr>| cp("BoxNode", vec![sy(&format!("System`{k}")), list(v), data(At::In(vec![]).expr())]);
    // What is kept leaves out parts behind it; such boxes have none.
    if n == 3 && ["part", "derivative"].contains(&label) {
        return Outcome::Discard("parts behind what is kept");
    }
    let (arg, want) = (made(sent), made(want));
    let key = format!("{k} {shown:?}");
    let q = quirks(s, quirk.quirks);
    let kind = sy(s.ps(&["System`Box", "System`Cell"]));
    match call(lib::Abstract_LibraryLink, vec![e(&arg), e(&q), e(&kind)]) {
        Err(p) => fail(format!("box abstraction: {}", strip_loc(&p)), &key, p),
        Ok(got) => match same_ast(&got, &want, &Laid { places: &[], gaps: true, boxed: &[], inner: &[] }) {
            Err(m) => fail("box abstraction differs", &key, format!("{m}\nboxes {}\nsent {}\nwant {}", show(&arg), show(&got), show(&want))),
            Ok(()) => pass(&key, label != "plain", vec![label]),
        },
    }
}
