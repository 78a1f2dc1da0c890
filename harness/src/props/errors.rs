//! P12: errors are signalled, and only errors.

use super::*;
use crate::opts;
use crate::textgen::{any_text, TextCfg};
use crate::tree;
use crate::wf::{self, Item, RefParser, WfCfg, R};
use wolfram_parser::tokenize::TokenKind as TK;
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P12",
        assumptions: &["the grammar of the reference parser (P06) decides what is well-formed"],
        subs: vec![
            Sub {
                name: "wellformed",
                quick: 250_000,
                thorough: 12_000_000,
                rule: "random well-formed programs, with trivia; no error node or token in the concrete tree, no fatal issue, and none in the abstract tree (but for the documented ones); non-trivial: at least 4 items",
                f: wellformed,
            },
            Sub {
                name: "damaged",
                quick: 400_000,
                thorough: 20_000_000,
                rule: "a well-formed program with one or two items deleted, inserted, replaced or swapped; an error in the tree exactly when the reference parser rejects it, and in the abstract tree too; non-trivial: rejected",
                f: damaged,
            },
            Sub {
                name: "brackets",
                quick: 200_000,
                thorough: 10_000_000,
                rule: "any text; when the brackets among its leaves do not match, concrete and abstract tree hold an error; an error in the concrete tree is one in the abstract tree too; non-trivial: brackets do not match, or the tree has an error",
                f: brackets,
            },
        ],
    },
    Property {
        id: "P29",
        assumptions: &["which characters open and close brackets, and the names of the groups, are those of a table in the check; text in which a bracket is still open at the end is left to P21"],
        subs: vec![
            Sub {
                name: "nesting",
                quick: 400_000,
                thorough: 16_000_000,
                rule: "brackets of all kinds, matched and not, among operators, operands and trivia; the groups of the tree against those a stack of open brackets gives for its leaves; non-trivial: a bracket that matches nothing, or one ended by the closer of an outer one",
                f: nesting,
            },
            Sub {
                name: "any",
                quick: 200_000,
                thorough: 8_000_000,
                rule: "any text; the groups of the tree against those a stack of open brackets gives for its leaves; non-trivial: at least one group",
                f: nesting_any,
            },
        ],
    }]
}

/// `a ? b ? c` and parentheses that do not hold one expression are errors of
/// the abstract syntax.
fn abstract_errors(r: &R) -> bool {
    match r {
        R::Leaf(_) => false,
        R::Node(l, k) => {
            (l == "Binary:PatternTest" && matches!(k.first(), Some(R::Node(x, _)) if x == "Binary:PatternTest"))
                || (l == "Group:GroupParen"
                    && !(k.len() == 3 && !matches!(&k[1], R::Node(x, _) if x == "Infix:Comma")))
                || k.iter().any(abstract_errors)
        },
    }
}

struct Seen {
    cst: Vec<tree::N>,
    ast: Vec<tree::N>,
    fatal: Vec<String>,
}

fn look(text: &str, o: &opts::O) -> Result<Seen, String> {
    let popts = o.make();
    guard(|| {
        let c = parse_cst_seq(text, &popts);
        let NodeSeq(cst) = &c.syntax;
        let NodeSeq(ast) = parse_ast_seq(text, &popts).syntax;
        Seen {
            cst: cst.iter().map(tree::from_cst).collect(),
            ast: ast.iter().map(tree::from_ast).collect(),
            fatal: c.fatal_issues.iter().map(|i| format!("{:?}", i.tag)).collect(),
        }
    })
}

fn any_error(v: &[tree::N]) -> bool {
    v.iter().any(|n| n.has_error())
}

/// Errors other than an empty place between commas, which means Null.
fn hard_error(v: &[tree::N]) -> bool {
    let mut yes = false;
    for n in v {
        n.walk(&mut |k| yes |= tree::is_error_label(&k.label) && !k.label.ends_with("ImplicitNull"));
    }
    yes
}

fn wellformed(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let items = wf::items(s, WfCfg::default());
    let r = match RefParser::parse(&items) {
        Ok(r) => r,
        Err(e) => return Outcome::Discard(e),
    };
    let conts = s.chance(1, 4);
    let text = wf::render(s, &items, conts);
    let key = format!("{} | {text}", o.show());
    let seen = match look(&text, &o) {
        Ok(v) => v,
        Err(e) => return panicked(&e, &key),
    };
    if any_error(&seen.cst) {
        return fail("error in the tree of a well-formed program", &key, tree::show_seq(&seen.cst));
    }
    if !seen.fatal.is_empty() {
        return fail("fatal issue for a well-formed program", &key, format!("{:?}", seen.fatal));
    }
    if any_error(&seen.ast) != abstract_errors(&r) {
        return fail("error in the abstract tree of a well-formed program", &key, tree::show_seq(&seen.ast));
    }
    pass(&key, items.len() >= 4, vec![])
}

fn damaged(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let mut items = wf::items(s, WfCfg { max_items: 14, ..WfCfg::default() });
    if let Err(e) = RefParser::parse(&items) {
        return Outcome::Discard(e);
    }
    let n = s.below(2) + 1;
    for _ in 0..n {
        let len = items.len() as u32;
        let i = s.below(len + 1) as usize;
        match s.below(4) {
            0 if i < items.len() && len > 1 => {
                items.remove(i);
            },
            1 if i < items.len() => items[i] = piece(s),
            2 if i + 1 < items.len() => items.swap(i, i + 1),
            _ => items.insert(i, piece(s)),
        }
    }
    let text = wf::render_plain(&items);
    let key = format!("{} | {text}", o.show());
    if items.windows(2).any(|w| matches!(w, [Item::CallOpen(_), Item::CallOpen(_)])) {
        return Outcome::Discard("[ [ may be a part");
    }
    if items.windows(2).any(|w| matches!(w, [Item::Op("="), Item::Op(".")])) {
        return Outcome::Discard("= . is an operator");
    }
    if !repair_closers(&mut items) {
        return Outcome::Discard("]] is two closers");
    }
    let verdict = RefParser::parse(&items);
    if verdict == Err(": without symbol") {
        // an error or an optional, depending on what is there instead
        return Outcome::Discard(": without symbol");
    }
    let seen = match look(&text, &o) {
        Ok(v) => v,
        Err(e) => return panicked(&e, &key),
    };
    let err = any_error(&seen.cst);
    let signalled = err || any_error(&seen.ast);
    if (err && verdict.is_ok()) || (!signalled && verdict.is_err()) {
        return fail(
            if err { "error in the tree of a well-formed program" } else { "malformed program without error" },
            &key,
            format!("reference {:?}; tree {}", verdict.map(|r| r.show()), tree::show_seq(&seen.cst)),
        );
    }
    if hard_error(&seen.cst) && !any_error(&seen.ast) {
        return fail("error lost in abstraction", &key, tree::show_seq(&seen.ast));
    }
    pass(&key, signalled, vec![])
}

/// Let closers that are written alike close whatever they can. False if `[[`
/// and `]]` do not close each other, because they are two tokens each.
fn repair_closers(items: &mut [Item]) -> bool {
    let mut stack = vec![];
    let mut ok = true;
    for it in items {
        match it {
            Item::Open(_) | Item::CallOpen(_) => stack.push(it.clone()),
            Item::CallClose(k) => match stack.pop() {
                Some(Item::CallOpen(j)) if wf::CALLS[j].1 == wf::CALLS[*k].1 => *k = j,
                Some(Item::CallOpen(j)) => {
                    ok &= wf::CALLS[j].0 != "[[" && wf::CALLS[*k].1 != "]]"
                },
                _ => ok &= wf::CALLS[*k].1 != "]]",
            },
            Item::Close(_) => {
                if let Some(Item::CallOpen(j)) = stack.pop() {
                    ok &= wf::CALLS[j].0 != "[[";
                }
            },
            _ => {},
        }
    }
    ok && !stack.iter().any(|i| matches!(i, Item::CallOpen(j) if wf::CALLS[*j].0 == "[["))
}

fn piece(s: &mut Src) -> Item {
    match s.below(4) {
        0 => Item::Open(s.below(wf::GROUPS.len() as u32) as usize),
        1 => Item::Close(s.below(wf::GROUPS.len() as u32) as usize),
        2 => Item::Op(s.pick(&crate::optable::OPS[..]).text),
        _ => match s.below(3) {
            0 => Item::CallOpen(s.below(2) as usize),
            1 => Item::CallClose(s.below(2) as usize),
            _ => Item::Comma(","),
        },
    }
}

/// The closer of an opener.
fn closer(t: TK) -> Option<TK> {
    Some(match t {
        TK::OpenSquare | TK::ColonColonOpenSquare => TK::CloseSquare,
        TK::OpenCurly => TK::CloseCurly,
        TK::OpenParen => TK::CloseParen,
        TK::LessBar => TK::BarGreater,
        TK::LongName_LeftDoubleBracket => TK::LongName_RightDoubleBracket,
        TK::LongName_LeftAngleBracket => TK::LongName_RightAngleBracket,
        TK::LongName_LeftCeiling => TK::LongName_RightCeiling,
        TK::LongName_LeftFloor => TK::LongName_RightFloor,
        TK::LongName_LeftBracketingBar => TK::LongName_RightBracketingBar,
        TK::LongName_LeftDoubleBracketingBar => TK::LongName_RightDoubleBracketingBar,
        TK::LongName_LeftAssociation => TK::LongName_RightAssociation,
        TK::LongName_OpenCurlyQuote => TK::LongName_CloseCurlyQuote,
        TK::LongName_OpenCurlyDoubleQuote => TK::LongName_CloseCurlyDoubleQuote,
        _ => return None,
    })
}

fn brackets(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let text = any_text(s, TextCfg { max_frags: 20 });
    let key = format!("{} | {text:?}", o.show());
    let seen = match look(&text, &o) {
        Ok(v) => v,
        Err(e) => return panicked(&e, &key),
    };
    let mut stack = vec![];
    let mut ok = true;
    for n in &seen.cst {
        for lf in n.leaves() {
            let Some(t) = lf.tok else { continue };
            if let Some(c) = closer(t) {
                stack.push(c);
            } else if t.isCloser() && stack.pop() != Some(t) {
                ok = false;
            }
        }
    }
    ok &= stack.is_empty();
    let err = any_error(&seen.cst);
    if !ok && !err {
        return fail("unmatched brackets without error", &key, tree::show_seq(&seen.cst));
    }
    if hard_error(&seen.cst) && !any_error(&seen.ast) {
        return fail("error lost in abstraction", &key, format!("{}\n{}", tree::show_seq(&seen.cst), tree::show_seq(&seen.ast)));
    }
    pass(&key, err || !ok, vec![])
}

const OPENERS: &[(&str, &str)] = &[
    ("{", "}"),
    ("(", ")"),
    ("[", "]"),
    ("f[", "]"),
    ("f[[", "]]"),
    ("f::[", "]"),
    ("::[", "]"),
    ("<|", "|>"),
    ("f\\[LeftDoubleBracket]", "\\[RightDoubleBracket]"),
    ("\\[LeftDoubleBracket]", "\u{301b}"),
    ("\\[LeftAngleBracket]", "\\[RightAngleBracket]"),
    ("\\[LeftCeiling]", "\\[RightCeiling]"),
    ("\u{230a}", "\u{230b}"),
    ("\\[LeftFloor]", "\\[RightFloor]"),
    ("\\[LeftBracketingBar]", "\\[RightBracketingBar]"),
    ("\\[LeftDoubleBracketingBar]", "\\[RightDoubleBracketingBar]"),
    ("\\[LeftAssociation]", "\\[RightAssociation]"),
    ("\\[OpenCurlyQuote]", "\\[CloseCurlyQuote]"),
    ("\\[OpenCurlyDoubleQuote]", "\\[CloseCurlyDoubleQuote]"),
];

fn bracket_soup(s: &mut Src) -> String {
    let mut o = String::new();
    let mut open: Vec<&str> = vec![];
    // A few kinds only, so that they meet each other.
    let kinds: Vec<usize> = (0..s.range(1, 4))
        .map(|_| if s.chance(1, 2) { s.below(4) as usize } else { s.below(OPENERS.len() as u32) as usize })
        .collect();
    let n = s.range(1, 40);
    for _ in 0..n {
        match s.weighted(&[6, 4, 1, 4, 3, 2, 2]) {
            0 => {
                let (a, b) = OPENERS[*s.pick(&kinds)];
                o.push_str(a);
                open.push(b);
            },
            1 => {
                if let Some(b) = open.pop() {
                    o.push_str(b);
                }
            },
            2 => {
                // The closer of something further out, or of nothing.
                if !open.is_empty() && s.chance(2, 3) {
                    let k = s.below(open.len() as u32) as usize;
                    o.push_str(open[k]);
                    open.truncate(k);
                } else {
                    o.push_str(OPENERS[*s.pick(&kinds)].1);
                }
            },
            3 => o.push_str(s.ps(&["a", "1", "\"s\"", "_", "#", "x_", "2.5", "%"])),
            4 => o.push_str(s.ps(&[",", ",", " + ", "*", "->", ";", " ;; ", "@", "/@", "=", "==", "!", "~", ":", "/;", "&", "-", "?", "'", "++", "::"])),
            5 => o.push_str(s.ps(&[" ", " ", "\n", "(* c *)", "(* ( { *)", "\t", "\\\n"])),
            _ => o.push_str(s.ps(&["\"} ) ]\"", "a b", "\\[Integral] x \\[DifferentialD] x ", "\\(x ) \\)", "\\!", "\\:1234", "a:b:c", "u_:v", "x = .", "a /: b := c"])),
        }
    }
    if s.chance(9, 10) {
        while let Some(b) = open.pop() {
            o.push_str(b);
        }
    }
    if s.chance(1, 3) {
        o.push_str(s.ps(&["\n1", " + 2", "b", " ", "]", "\n}"]));
    }
    o
}

fn nesting(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let text = bracket_soup(s);
    nested(text, o, false)
}

fn nesting_any(s: &mut Src) -> Outcome {
    let o = opts::O { first: 0, ..opts::any(s) };
    let text = any_text(s, TextCfg { max_frags: 20 });
    nested(text, o, true)
}

fn group_name(t: TK) -> &'static str {
    match t {
        TK::OpenSquare => "CodeParser_GroupSquare",
        TK::ColonColonOpenSquare => "CodeParser_GroupTypeSpecifier",
        TK::OpenCurly => "List",
        TK::OpenParen => "CodeParser_GroupParen",
        TK::LessBar | TK::LongName_LeftAssociation => "Association",
        TK::LongName_LeftDoubleBracket => "CodeParser_GroupDoubleBracket",
        TK::LongName_LeftAngleBracket => "AngleBracket",
        TK::LongName_LeftCeiling => "Ceiling",
        TK::LongName_LeftFloor => "Floor",
        TK::LongName_LeftBracketingBar => "BracketingBar",
        TK::LongName_LeftDoubleBracketingBar => "DoubleBracketingBar",
        TK::LongName_OpenCurlyQuote => "CurlyQuote",
        TK::LongName_OpenCurlyDoubleQuote => "CurlyDoubleQuote",
        _ => "?",
    }
}

/// Index of first and last leaf, and the label without `Call`.
type Group = (usize, usize, String);

fn groups(n: &tree::N, i: &mut usize, out: &mut Vec<Group>) {
    if n.tok.is_some() {
        *i += 1;
        return;
    }
    let start = *i;
    for k in &n.kids {
        groups(k, i, out);
    }
    let l = n.label.strip_prefix("Call").unwrap_or(&n.label);
    if l.starts_with("Group") {
        out.push((start, i.wrapping_sub(1), l.to_string()));
    }
}

fn nested(text: String, o: opts::O, any: bool) -> Outcome {
    let key = format!("{} | {text:?}", o.show());
    let seen = match look(&text, &o) {
        Ok(v) => v,
        Err(e) => return panicked(&e, &key),
    };
    let mut got = vec![];
    let mut i = 0;
    for n in &seen.cst {
        groups(n, &mut i, &mut got);
    }
    let mut want: Vec<Group> = vec![];
    let mut open: Vec<(usize, TK)> = vec![];
    let mut i = 0;
    let mut last = 0; // the last leaf that is not trivia
    let (mut loose, mut cut) = (0, 0);
    for n in &seen.cst {
        for lf in n.leaves() {
            let t = lf.tok.unwrap();
            let c = if t == TK::Error_UnexpectedCloser {
                match guard(|| tokenize(&lf.text, &opts::O::plain().make()).0.first().map(|t| t.tok)) {
                    Ok(Some(k)) => k,
                    Ok(None) => return fail("an unexpected closer without text", &key, tree::show_seq(&seen.cst)),
                    Err(e) => return panicked(&e, &key),
                }
            } else {
                t
            };
            if closer(t).is_some() {
                open.push((i, t));
            } else if c.isCloser() {
                match open.iter().rposition(|(_, t)| closer(*t) == Some(c)) {
                    Some(k) => {
                        if t == TK::Error_UnexpectedCloser {
                            return fail("a closer with an open bracket called unexpected", &key, tree::show_seq(&seen.cst));
                        }
                        while open.len() > k + 1 {
                            let (a, t) = open.pop().unwrap();
                            want.push((a, last, format!("GroupMissingCloser:{}", group_name(t))));
                            cut += 1;
                        }
                        let (a, t) = open.pop().unwrap();
                        want.push((a, i, format!("Group:{}", group_name(t))));
                    },
                    None => {
                        loose += 1;
                        if t != TK::Error_UnexpectedCloser {
                            return fail("a closer of nothing not called unexpected", &key, tree::show_seq(&seen.cst));
                        }
                    },
                }
            } else if t == TK::Error_UnexpectedCloser {
                return fail("not a closer, but called one", &key, tree::show_seq(&seen.cst));
            }
            if !t.isTrivia() {
                last = i;
            }
            i += 1;
        }
    }
    if !open.is_empty() {
        return Outcome::Discard("left open");
    }
    if got != want {
        return fail(
            "groups other than the brackets say",
            &key,
            format!("expected {want:?}\ngot      {got:?}\n{}", tree::show_seq(&seen.cst)),
        );
    }
    let mut labels = vec![];
    if loose > 0 {
        labels.push("closer of nothing");
    }
    if cut > 0 {
        labels.push("closed from outside");
    }
    if cut > 2 {
        labels.push("several closed from outside");
    }
    pass(&key, if any { !want.is_empty() } else { loose + cut > 0 }, labels)
}
