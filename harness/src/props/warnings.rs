//! P28: what is flagged as suspicious.

use super::relations::any_program;
use super::*;
use crate::opts;
use crate::tree::{self, span_str, N};
use wolfram_parser::ast::Ast;
use wolfram_parser::issue::{Issue, IssueTag, Severity};
use wolfram_parser::source::*;
use wolfram_parser::tokenize::TokenKind as TK;
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P28",
        assumptions: &["the severities and confidence levels of abstract_call_node.rs, which are those of the Wolfram Language implementation it was ported from"],
        subs: vec![
            Sub {
                name: "calls",
                quick: 400_000,
                thorough: 12_000_000,
                rule: "programs without errors, dense in calls of all kinds of heads; the issues of the abstract syntax against those computed from the concrete tree; non-trivial: at least one call, chain of tags or !!",
                f: calls,
            },
            Sub {
                name: "tokens",
                quick: 800_000,
                thorough: 20_000_000,
                rule: "operators, numbers, blanks and slots strung together; issues about ambiguous neighbours against those computed from the leaves; non-trivial: at least one such issue",
                f: tokens,
            },
        ],
    }]
}

#[derive(Clone, PartialEq, PartialOrd, Debug)]
struct Want {
    host: String,
    tag: &'static str,
    sev: String,
    src: String,
    more: Vec<String>,
    conf: f64,
    described: usize,
}

fn issue(host: String, i: &Issue) -> Want {
    let Issue { make_sym: _, tag, sev, src, val, additional_sources, additional_descriptions, .. } = i;
    let s = |s: &Source| match s {
        Source::Span(s) => span_str(s),
        s => format!("{s:?}"),
    };
    Want {
        host,
        tag: tag.as_str(),
        sev: format!("{sev:?}"),
        src: s(src),
        more: additional_sources.iter().map(s).collect(),
        conf: f64::from(*val),
        described: additional_descriptions.len(),
    }
}

fn reported(a: &Ast, v: &mut Vec<Want>) {
    let d = tree::ast_meta(a);
    let host = match &d.source {
        Source::Span(s) => span_str(s),
        _ => "?".into(),
    };
    for i in &d.issues {
        v.push(issue(host.clone(), i));
    }
    match a {
        Ast::Leaf { .. } | Ast::Error { .. } | Ast::Code { .. } => {},
        Ast::Call { head, args, .. } | Ast::CallMissingCloser { head, args, .. } => {
            reported(head, v);
            args.iter().for_each(|a| reported(a, v));
        },
        Ast::SyntaxError { children, .. }
        | Ast::GroupMissingCloser { children, .. }
        | Ast::GroupMissingOpener { children, .. } => children.iter().for_each(|a| reported(a, v)),
        Ast::AbstractSyntaxError { args, .. } | Ast::Box { args, .. } => args.iter().for_each(|a| reported(a, v)),
        Ast::Group { children, .. } => {
            reported(&children.0, v);
            reported(&children.1, v);
            reported(&children.2, v);
        },
        Ast::TagBox_GroupParen { group, .. } => {
            reported(&group.0, v);
            reported(&group.1, v);
            reported(&group.2, v);
        },
        Ast::PrefixNode_PrefixLinearSyntaxBang(k, _) => k.iter().for_each(|a| reported(a, v)),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Head {
    SlotSequence,
    /// what is usually called
    Usual,
    Text,
    Out,
    Linear,
    PatternTest,
    Compound,
    Bracketed,
    OtherGroup,
    Function,
    Transpose,
    Other,
}

fn head(n: &N) -> Head {
    if let Some(t) = n.tok {
        return match t {
            TK::HashHash => Head::SlotSequence,
            TK::Symbol | TK::Hash | TK::Under | TK::UnderUnder | TK::UnderUnderUnder => Head::Usual,
            TK::String => Head::Text,
            TK::Percent | TK::PercentPercent => Head::Out,
            TK::LinearSyntaxBlob => Head::Linear,
            _ => Head::Other,
        };
    }
    match n.label.as_str() {
        "Compound:SlotSequence" => Head::SlotSequence,
        "Call"
        | "Compound:Blank"
        | "Compound:BlankSequence"
        | "Compound:BlankNullSequence"
        | "Compound:CodeParser_PatternBlank"
        | "Compound:CodeParser_PatternBlankSequence"
        | "Compound:CodeParser_PatternBlankNullSequence"
        | "Compound:Slot" => Head::Usual,
        "Compound:Out" => Head::Out,
        "Prefix:CodeParser_PrefixLinearSyntaxBang" => Head::Linear,
        "Binary:PatternTest" => Head::PatternTest,
        "Infix:CompoundExpression" => Head::Compound,
        "Group:CodeParser_GroupParen" | "Group:List" | "Group:Association" => Head::Bracketed,
        "Postfix:Function" | "Postfix:Derivative" => Head::Function,
        "Postfix:Transpose" => Head::Transpose,
        l if l.starts_with("Group:") => Head::OtherGroup,
        _ => Head::Other,
    }
}

fn at(n: &N) -> String {
    n.span.map_or("?".into(), |s| span_str(&s))
}

/// The issues the nodes of an aggregated concrete tree without errors call for.
fn wanted(n: &N, v: &mut Vec<Want>) {
    for k in &n.kids {
        wanted(k, v);
    }
    let mut flag = |tag, sev: Severity, src: String, more: Vec<String>, conf: f64, described| {
        v.push(Want { host: at(n), tag, sev: format!("{sev:?}"), src, more, conf, described })
    };
    match n.label.as_str() {
        "Prefix:CodeParser_PrefixNot2" => {
            flag("PrefixNotNot", Severity::Warning, at(&n.kids[0]), vec![], 1.0, 0)
        },
        "Infix:MessageName" if n.kids.len() > 5 => {
            flag("SyntaxUndocumentedMessageName", Severity::Error, at(n), vec![], 1.0, 0)
        },
        "Call" => {
            let [h, body] = &n.kids[..] else { return };
            let (first, last) = (at(&body.kids[0]), at(body.kids.last().unwrap()));
            let h_at = at(h);
            let h = head(h);
            let part = body.label == "CallGroup:CodeParser_GroupDoubleBracket"
                || body.label == "CallGroup:CodeParser_GroupSquare"
                    && body.kids.len() == 3
                    && body.kids[1].label == "Group:CodeParser_GroupSquare";
            let mut call = |tag, sev, conf| flag(tag, sev, first.clone(), vec![last.clone()], conf, 0);
            let strange = "StrangeCall";
            match body.label.as_str() {
                _ if part => match h {
                    Head::SlotSequence => call("StrangeCallSlotSequence", Severity::Error, 1.0),
                    Head::Usual | Head::Out | Head::Bracketed | Head::Transpose => {},
                    Head::Linear | Head::Compound => call(strange, Severity::Remark, 0.95),
                    Head::OtherGroup => call(strange, Severity::Warning, 0.95),
                    Head::Text | Head::PatternTest | Head::Function | Head::Other => {
                        call(strange, Severity::Error, 0.95)
                    },
                },
                "CallGroup:CodeParser_GroupSquare" => match h {
                    Head::SlotSequence => call("StrangeCallSlotSequence", Severity::Error, 1.0),
                    Head::Usual | Head::Text | Head::Out | Head::PatternTest | Head::Bracketed | Head::Function => {},
                    Head::Compound | Head::OtherGroup => call(strange, Severity::Warning, 0.95),
                    Head::Linear | Head::Transpose | Head::Other => call(strange, Severity::Error, 0.95),
                },
                "CallGroup:CodeParser_GroupTypeSpecifier" => {
                    if h != Head::Text {
                        flag(strange, Severity::Error, h_at, vec![], 0.95, 1);
                    }
                },
                _ => {},
            }
        },
        _ => {},
    }
}

const HEADS: &[&str] = &[
    "f", "\"s\"", "#", "#2", "##", "##2", "#a", "%", "%%", "%3", "_", "__", "___", "_f", "__f", "___f", "x_", "x__",
    "x___", "x_f", "x_.", "1", "1.5", "(a)", "(a;b)", "{a}", "<|a|>", "f'", "f''", "x_?g", "a!", "a\\[Transpose]",
    "a\\[ConjugateTranspose]", "\\[LeftAngleBracket]a\\[RightAngleBracket]", "\\[LeftFloor]a\\[RightFloor]",
    "\\!\\(x\\)", "\\(x\\)", "f[x]", "f[[1]]", "(a&)", "a++", "x::y", "a`b", "_.", "()", "(-a)", "\\[Pi]",
];
const BODIES: &[&str] = &[
    "[x]", "[]", "[[1]]", "[ [1] ]", "[[1, 2]]", "[[a], b]", "[[]]", "::[x]", "\\[LeftDoubleBracket]1\\[RightDoubleBracket]",
    "\\[LeftDoubleBracket]\\[RightDoubleBracket]", "[(*c*)[1]]", "[x, y]", " [x]", "[[1;;2]]", "[\n[1]\n]",
];

fn calls(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let text = if s.chance(1, 3) {
        any_program(s)
    } else {
        let mut t = String::new();
        for i in 0..s.below(4) + 1 {
            if i > 0 {
                t.push_str(s.ps(&["+", ", ", " ", ";", "\n", "@", "->", "!!", "/@", "?", "//"]));
            }
            match s.below(12) {
                0 => t.push_str(s.ps(&["!!", "!!!", "!", "-"])),
                1 => {
                    t.push('a');
                    for _ in 0..s.below(5) {
                        t.push_str(s.ps(&["::b", "::\"c\"", "::c"]));
                    }
                    continue;
                },
                _ => {},
            }
            let open = s.ps(&["", "", "", "{", "f[", "("]);
            t.push_str(open);
            t.push_str(s.ps(HEADS));
            for _ in 0..s.below(3) {
                t.push_str(s.ps(BODIES));
            }
            t.push_str(match open {
                "{" => "}",
                "f[" => "]",
                "(" => ")",
                _ => "",
            });
        }
        if s.chance(1, 3) {
            format!("{{{t}}}")
        } else {
            t
        }
    };
    let key = format!("{} | {text:?}", o.show());
    let p = o.make();
    let (agg, ast) = match guard(|| {
        let c = parse_cst_seq(&text, &p).syntax;
        (
            tree::from_cst_seq(&abstract_cst::aggregate_cst_seq(c)),
            parse_ast_seq(&text, &p).syntax,
        )
    }) {
        Ok(v) => v,
        Err(e) => return panicked(&e, &key),
    };
    if agg.iter().any(|n| n.has_error()) {
        return Outcome::Discard("text has errors");
    }
    let (mut got, mut want) = (vec![], vec![]);
    ast.0.iter().for_each(|a| reported(a, &mut got));
    agg.iter().for_each(|n| wanted(n, &mut want));
    let ord = |a: &Want, b: &Want| a.partial_cmp(b).unwrap();
    got.sort_by(ord);
    want.sort_by(ord);
    if got != want {
        let x = got.iter().find(|x| !want.contains(x));
        let y = want.iter().find(|y| !got.contains(y));
        return fail("the issues of the abstract syntax differ", &key, format!("reported {x:?}, due {y:?}"));
    }
    let mut n = !want.is_empty();
    for t in &agg {
        t.walk(&mut |k| n |= k.label == "Call");
    }
    let mut labels = vec![];
    if !want.is_empty() {
        labels.push("flagged");
    }
    pass(&key, n, labels)
}

const PIECES: &[&str] = &[
    "a", "b", "1", "0", "12", "1.", ".5", "0.5", "12.25", ".", "..", "...", "=", "==", "!", "!=", "<", "-", "--", ">", "->",
    "|", "||", "|>", "<|", "/", "/.", "//", "+", "++", "_", "_.", "__", "x_", "%", "%%", "#", "##", "#1", "%2", "#a", "#a$",
    "#a`b", "#\"n\"", "#$", "#$a`b$", "#`a", "#a`b`c$1$", "#a`", "#`$`", " ", " ", "\n", "[", "]", "{", "}", "(", ")", ",", ";", "&", "1`", "1`+2", "1`-3.", "2.5`+.5", "1``+2",
    "1`2", "*", "@", "?", "~", "(**)",
];

/// A number with some of base, fraction, precision with a sign, exponent.
fn number(s: &mut Src) -> String {
    let mut t = String::new();
    if s.chance(1, 2) {
        t.push_str(s.ps(&["2^^", "8^^", "10^^", "11^^", "16^^", "36^^"]));
    }
    t.push_str(s.ps(&["1", "10", "0", "101"]));
    t.push_str(s.ps(&["", ".", ".1", ".01"]));
    if s.chance(3, 4) {
        t.push_str(s.ps(&["`", "`", "``"]));
        t.push_str(s.ps(&["", "+", "-", "+", "-"]));
        t.push_str(s.ps(&["5", "12", "3.5", "2.", ".5", "0"]));
    }
    t.push_str(s.ps(&["", "", "", "*^2", "*^-3", "*^+1"]));
    t
}

/// The place n characters behind one that is given as line:column or index.
fn shifted(p: &str, n: usize) -> String {
    match p.rsplit_once(':') {
        Some((l, c)) => format!("{l}:{}", c.parse::<usize>().unwrap_or(0) + n),
        None => format!("{}", p.parse::<usize>().unwrap_or(0) + n),
    }
}

fn tokens(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let mut text = String::new();
    for _ in 0..s.below(10) + 2 {
        if s.chance(1, 12) {
            text.push_str(&number(s));
        } else {
            text.push_str(s.ps(PIECES));
        }
    }
    let key = format!("{} | {text:?}", o.show());
    let p = o.make();
    let r = match guard(|| parse_cst_seq(&text, &p)) {
        Ok(r) => r,
        Err(e) => return panicked(&e, &key),
    };
    let trees = tree::from_cst_seq(&r.syntax);
    let mut bad = false;
    for t in &trees {
        t.walk(&mut |k| bad |= k.label.contains("MissingCloser") || k.label.contains("Untermin"));
    }
    if bad {
        return Outcome::Discard("left open");
    }
    let leaves: Vec<&N> = trees.iter().flat_map(|t| t.leaves()).filter(|l| !l.text.is_empty()).collect();
    if leaves.iter().any(|l| matches!(l.tok, Some(TK::LessLess | TK::GreaterGreater | TK::GreaterGreaterGreater | TK::ColonColon))) {
        return Outcome::Discard("file or tag");
    }
    let place = |l: &N| at(l).split("..").next().unwrap().to_string();
    // (tag, severity, confidence in hundredths, start)
    let mut want: Vec<(&str, Severity, u32, String)> = vec![];
    let mut slot: Vec<&N> = vec![];
    let mut open_numbers = vec![];
    for (i, l) in leaves.iter().enumerate() {
        let Some(t) = l.tok else { continue };
        let rest: String = leaves[i + 1..].iter().map(|l| l.text.as_str()).collect();
        let next = leaves.get(i + 1).map(|l| place(l));
        let behind = if i > 0 { leaves[i - 1].tok } else { None };
        let mut due = |tag, sev, conf| want.push((tag, sev, conf, next.clone().unwrap()));
        let mut ambiguous = || due("Ambiguous", Severity::Formatting, 100);
        let starts = |c: &str| rest.starts_with(c);
        match t {
            TK::Equal if starts("!") => ambiguous(),
            TK::Less if starts("-") => ambiguous(),
            TK::Bar if starts("-") => ambiguous(),
            TK::Slash if starts(".") && rest[1..].starts_with(|c: char| c.is_ascii_digit()) => ambiguous(),
            TK::MinusMinus | TK::PlusPlus | TK::BarGreater if starts("=") => ambiguous(),
            TK::MinusMinus if starts(">") => want.push(("Ambiguous", Severity::Error, 95, place(l))),
            TK::Error_UnexpectedCloser if l.text == "|>" && starts("=") => ambiguous(),
            TK::UnderDot if starts(".") => due("UnexpectedDot", Severity::Error, 95),
            TK::Integer if matches!(behind, Some(TK::Hash | TK::HashHash | TK::Percent)) => {
                if starts(".") {
                    ambiguous();
                }
            },
            TK::Integer | TK::Real | TK::Rational | TK::Error_Number => {
                if l.text.bytes().all(|b| b.is_ascii_digit() || b == b'.') {
                    let frac = l.text.find('.').map_or(0, |k| l.text.len() - k - 1);
                    if frac > 0 && starts(".") {
                        due("UnexpectedImplicitTimes", Severity::Error, 99);
                    } else if frac == 0 && !l.text.contains('.') && starts("..") {
                        ambiguous();
                    }
                } else {
                    // precision marks are looked at below
                    open_numbers.push(i);
                }
                if let Some(k) = l.text.find('`') {
                    let after = &l.text[k + 1..];
                    if after.starts_with(['+', '-']) {
                        want.push(("UnexpectedSign", Severity::Warning, 95, shifted(&place(l), k + 1)));
                    }
                }
            },
            _ => {},
        }
        if behind == Some(TK::Hash) && matches!(t, TK::Symbol | TK::String | TK::Error_ExpectedLetterlike) && (l.text.starts_with('"') || l.text.contains(['$', '`'])) {
            slot.push(l);
            let p = place(l);
            let mut flag = |a: usize, b: usize| {
                want.push(("UndocumentedSlotSyntax", Severity::Warning, 33, format!("{}..{}", shifted(&p, a), shifted(&p, b))))
            };
            if l.text.starts_with('"') {
                flag(0, 1);
            } else {
                for (k, c) in l.text.bytes().enumerate() {
                    match c {
                        b'$' => flag(k, k + 1),
                        // the whole name so far is said to hold the mark
                        b'`' => flag(0, k + 1),
                        _ => {},
                    }
                }
            }
        }
    }
    if !open_numbers.is_empty() {
        // what is ambiguous behind a precision mark is left open
        for i in &open_numbers {
            let rest: String = leaves[i + 1..].iter().map(|l| l.text.as_str()).collect();
            if rest.starts_with(['.', '+', '-', '`']) {
                return Outcome::Discard("precision mark and sign or dot");
            }
        }
    }
    let start = |i: &Issue| match &i.src {
        Source::Span(s) => span_str(s).split("..").next().unwrap().to_string(),
        _ => "?".into(),
    };
    let mut got = vec![];
    for i in r.non_fatal_issues.iter().chain(&r.fatal_issues) {
        let t = match i.tag {
            IssueTag::Ambiguous => "Ambiguous",
            IssueTag::UnexpectedDot => "UnexpectedDot",
            IssueTag::UnexpectedImplicitTimes => "UnexpectedImplicitTimes",
            IssueTag::UnexpectedSign => "UnexpectedSign",
            IssueTag::UndocumentedSlotSyntax => {
                let Source::Span(p) = &i.src else { return fail("slot syntax flagged at no place", &key, format!("{:?}", i.src)) };
                got.push(("UndocumentedSlotSyntax", i.sev, (f64::from(i.val) * 100.0).round() as u32, span_str(p)));
                continue;
            },
            _ => continue,
        };
        got.push((t, i.sev, (f64::from(i.val) * 100.0).round() as u32, start(i)));
    }
    let ord = |a: &(&str, Severity, u32, String), b: &(&str, Severity, u32, String)| {
        (a.0, format!("{:?}", a.1), a.2, &a.3).cmp(&(b.0, format!("{:?}", b.1), b.2, &b.3))
    };
    got.sort_by(ord);
    want.sort_by(ord);
    if got != want {
        let x = got.iter().find(|x| !want.contains(x));
        let y = want.iter().find(|y| !got.contains(y));
        return fail("the flagged places differ", &key, format!("reported {x:?}, due {y:?}"));
    }
    pass(&key, !want.is_empty() || !slot.is_empty(), vec![])
}
