//! P13: what the concrete syntax means.

use super::*;
use crate::opts::{self, O};
use crate::reflex::{Lex, C};
use crate::tree;
use crate::wf::{self, AtomKind, Item, RefParser, WfCfg, R};
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P13",
        assumptions: &["the meaning of each operator as documented for the Wolfram Language (FullForm)"],
        subs: vec![
            Sub {
                name: "reference",
                quick: 1_000_000,
                thorough: 50_000_000,
                rule: "random well-formed programs under random quirk settings, their abstract syntax against a reference translation into nested calls; non-trivial: at least two operator nodes",
                f: reference,
            },
            Sub {
                name: "fullform",
                quick: 400_000,
                thorough: 20_000_000,
                rule: "the abstract syntax of a random well-formed program, written out in FullForm and parsed again, is the same abstract syntax; non-trivial: at least two calls",
                f: fullform,
            },
            Sub {
                name: "unclosed",
                quick: 150_000,
                thorough: 10_000_000,
                rule: "a group around one to three groups or calls that are never closed; the abstract syntax is that of the text with calls in their place, with the calls marked as not closed; non-trivial: the unclosed constructs hold at least two arguments or calls",
                f: unclosed,
            },
            Sub {
                name: "names",
                quick: 150_000,
                thorough: 8_000_000,
                rule: "message tags, slot names and file names, quoted or not, with letters of all kinds, escapes and backslashes in them; the string in the abstract syntax stands for the same characters; non-trivial: a name that is not quoted and has a backslash or a character outside ASCII",
                f: names,
            },
        ],
    }]
}

/// The characters a piece of text stands for, escapes read as in a string.
fn meant(t: &str) -> Vec<char> {
    let lex = Lex { t };
    let mut v = vec![];
    let mut at = 0;
    while at < t.len() {
        let (c, _, e) = lex.decode(at);
        match c {
            C::Ch(c) => v.push(c),
            C::Meta(b) => v.push(b as char),
            C::Cont(..) => {},
            _ => v.push('\u{fffd}'),
        }
        at = e;
    }
    v
}

fn names(s: &mut Src) -> Outcome {
    const LETTERS: &[&str] = &[
        "a", "Bc", "x1", "$", "\u{e9}", "\u{3b1}", "\u{f74d}", "\u{301}", "\u{200e}", "\\[Alpha]", "\\:03b1", "\\.e9", "\\351", "\\|0003b1", "\\[Pi]", "\\:0041", "\\101", "\\[FormalA]", "\\\n",
        "\u{1f600}", "\u{4e2d}",
    ];
    const FILES: &[&str] = &[
        "a", "b1", "/", ".", "..", "\\", "\\n", "\\[Alpha]", "\\:03b1", "*", "~", "-", "_", "?", "!", "`", "$", "[x]", "[\u{e9}]", "[\u{f74d}\u{301}]", "[\"]", "[a\\b]", "[[y]\u{1}]", ":", "\\\\", "\\t",
    ];
    let quoted = |s: &mut Src| {
        let mut t = String::from("\"");
        for _ in 0..s.below(5) {
            t.push_str(s.ps(&["a", " ", "\\\"", "\\\\", "\\n", "\u{e9}", "\\[Alpha]", "\t", "\u{f74d}", "'", "::"]));
        }
        t + "\""
    };
    let some = |s: &mut Src, from: &[&'static str]| {
        if s.chance(1, 4) {
            let c = if s.chance(1, 4) && !from.contains(&"/") { "\\\n" } else { "" };
            return format!("{c}{}", quoted(s));
        }
        (0..s.range(1, 5)).map(|_| s.ps(from)).collect()
    };
    let mut text = String::new();
    let kind = s.below(4);
    match kind {
        0 => {
            text.push_str("f");
            for _ in 0..s.range(1, 4) {
                text.push_str("::");
                text.push_str(&some(s, LETTERS));
            }
        },
        1 => {
            text.push('#');
            text.push_str(&some(s, LETTERS));
        },
        2 => {
            text.push_str(s.ps(&["<<", "<< ", "<<\t"]));
            text.push_str(&some(s, FILES));
        },
        _ => {
            text.push_str(s.ps(&["f>>", "f >>> ", "f>> "]));
            text.push_str(&some(s, FILES));
        },
    }
    text.push_str(s.ps(&["", "\n", " "]));
    let o = opts::any(s);
    let o = O { first: 0, ..o };
    let key = format!("{} | {text:?}", o.show());
    let p = o.make();
    let (cst, ast) = match guard(|| {
        let c = tree::from_cst_seq(&parse_cst_seq(&text, &p).syntax);
        let a: Vec<tree::N> = parse_ast_seq(&text, &p).syntax.0.iter().map(tree::from_ast).collect();
        (c, a)
    }) {
        Ok(v) => v,
        Err(e) => return panicked(&e, &key),
    };
    let strings = |v: &[tree::N]| -> Vec<String> {
        let mut o = vec![];
        for n in v {
            n.walk(&mut |n| {
                if n.tok == Some(wolfram_parser::tokenize::TokenKind::String) {
                    o.push(n.text.clone());
                }
            });
        }
        o
    };
    let (names, given) = (strings(&cst), strings(&ast));
    if names.is_empty() || cst.iter().any(|n| n.has_error()) {
        return Outcome::Discard("not a name");
    }
    if names.len() != given.len() {
        return fail("a name is lost", &key, format!("{names:?} {given:?}"));
    }
    let mut hard = false;
    for (n, g) in names.iter().zip(&given) {
        let quoted = if kind < 2 { n.ends_with('"') } else { n.starts_with('"') };
        let mut want = match (quoted, kind) {
            (false, 2 | 3) => n.chars().collect(),
            _ => meant(n),
        };
        if !quoted {
            want.insert(0, '"');
            want.push('"');
            hard |= n.contains(|c: char| c == '\\' || !c.is_ascii());
        }
        // Exactly one string literal.
        let lit = Lex { t: g }.token(0);
        if lit.kind != "String" || lit.end != Some(g.len()) || meant(g) != want {
            return fail("the string of a name is not the name", &key, format!("{n:?} became {g:?}"));
        }
    }
    pass(&key, hard, vec![])
}

#[derive(Clone, Debug, PartialEq)]
enum A {
    L(&'static str, String),
    C(Box<A>, Vec<A>),
    E(&'static str, Vec<A>),
}
use A::*;

impl A {
    fn show(&self, o: &mut String) {
        let all = |v: &[A], o: &mut String, mut first: bool| {
            for x in v {
                if !first {
                    o.push_str(", ");
                }
                first = false;
                x.show(o);
            }
        };
        match self {
            L(k, t) => o.push_str(&format!("{k}{t:?}")),
            C(h, v) => {
                o.push_str("Call[");
                h.show(o);
                all(v, o, false);
                o.push(']');
            },
            E(k, v) => {
                o.push_str(&format!("AbstractSyntaxError:{k}["));
                all(v, o, true);
                o.push(']');
            },
        }
    }
}

fn sym(t: &str) -> A {
    L("Symbol", t.into())
}
fn int(t: &str) -> A {
    L("Integer", t.into())
}
fn string(t: &str) -> A {
    if t.starts_with('"') {
        L("String", t.into())
    } else {
        L("String", format!("\"{t}\""))
    }
}
fn call(h: &str, v: Vec<A>) -> A {
    C(Box::new(sym(h)), v)
}

struct Q {
    at: bool,
    flatten: bool,
    apply: bool,
}

/// Integer, Real or Rational, by the rules of the language: a point or a
/// precision mark makes a Real, a negative exponent alone a Rational.
fn number_kind(t: &str) -> &'static str {
    let mantissa = t.split("*^").next().unwrap();
    let digits = mantissa.split("^^").last().unwrap();
    if digits.contains('.') || digits.contains('`') {
        "Real"
    } else if t.contains("*^-") {
        "Rational"
    } else {
        "Integer"
    }
}

fn is_number(t: &str) -> bool {
    t.starts_with(|c: char| c.is_ascii_digit() || c == '.') && t != "."
}

fn leaf(t: &str) -> A {
    match t {
        "_" => call("Blank", vec![]),
        "__" => call("BlankSequence", vec![]),
        "___" => call("BlankNullSequence", vec![]),
        "_." => call("Optional", vec![call("Blank", vec![])]),
        "#" => call("Slot", vec![int("1")]),
        "##" => call("SlotSequence", vec![int("1")]),
        "%" => call("Out", vec![]),
        "Fake_ImplicitOne" => int("1"),
        "Fake_ImplicitAll" => sym("All"),
        "Fake_ImplicitNull" | "Error_PrefixImplicitNull()" | "Error_InfixImplicitNull()" => sym("Null"),
        "\\[Pi]" => sym("Pi"),
        "\\[Infinity]" | "\u{221e}" => sym("Infinity"),
        "\\[Degree]" => sym("Degree"),
        "\\[ExponentialE]" => sym("E"),
        "\\[ImaginaryI]" | "\\[ImaginaryJ]" => sym("I"),
        _ if t.starts_with("%%") => call("Out", vec![int(&format!("-{}", t.len()))]),
        _ if t.starts_with('"') => string(t),
        _ if is_number(t) => L(number_kind(t), t.into()),
        _ => sym(t),
    }
}

fn label(r: &R) -> &str {
    match r {
        R::Leaf(_) => "",
        R::Node(l, _) => l,
    }
}
fn text(r: &R) -> &str {
    match r {
        R::Leaf(t) => t,
        _ => "",
    }
}
fn kids(r: &R) -> &[R] {
    match r {
        R::Leaf(_) => &[],
        R::Node(_, k) => k,
    }
}
fn is_node(r: &R, l: &str) -> bool {
    label(r) == l
}

/// The node itself, or what `Op @ x` stands for as an operand of `Op`.
fn unat<'a>(r: &'a R, op: &str, q: &Q) -> &'a R {
    if q.at && is_node(r, "Binary:BinaryAt") {
        let k = kids(r);
        if text(&k[0]) == op && text(&k[1]) == "@" {
            return &k[2];
        }
    }
    r
}

fn inner_number(r: &R) -> Option<&str> {
    match r {
        R::Leaf(t) if is_number(t) && number_kind(t) != "Rational" => Some(t),
        R::Node(l, k) if l == "Group:GroupParen" && k.len() == 3 => inner_number(&k[1]),
        _ => None,
    }
}

fn zero(r: &R) -> bool {
    match r {
        R::Leaf(t) => t == "0",
        R::Node(l, k) if l == "Group:GroupParen" => k.len() == 3 && zero(&k[1]),
        R::Node(l, k) if l == "Prefix:Minus" => zero(&k[1]),
        _ => false,
    }
}

fn negated_number(t: &str) -> A {
    if t == "0" {
        int("0")
    } else {
        L(number_kind(t), format!("-{t}"))
    }
}

fn negate(r: &R, q: &Q) -> A {
    if let Some(t) = inner_number(r) {
        return negated_number(t);
    }
    if zero(r) {
        return int("0");
    }
    let mut v = vec![int("-1")];
    let ops: Vec<&R> = if is_node(r, "Infix:Times") {
        operands(r)
    } else {
        vec![r]
    };
    v.extend(factors(&ops, true, q));
    call("Times", v)
}

fn operands(r: &R) -> Vec<&R> {
    kids(r).iter().step_by(2).collect()
}

/// Factors of a product.
fn factors(ops: &[&R], quirk: bool, q: &Q) -> Vec<A> {
    let mut v = vec![];
    for r in ops {
        factor(r, quirk, q, &mut v);
    }
    v
}
fn factor(r: &R, quirk: bool, q: &Q, v: &mut Vec<A>) {
    let k = kids(r);
    match label(r) {
        "Prefix:Minus" => {
            if let Some(t) = inner_number(&k[1]) {
                v.push(negated_number(t));
            } else if q.flatten {
                v.push(int("-1"));
                factor(&k[1], quirk, q, v);
            } else {
                v.push(ab(r, q));
            }
        },
        "Infix:Times" => {
            for x in operands(r) {
                factor(x, quirk, q, v);
            }
        },
        "Binary:Divide" if q.flatten => {
            factor(&k[0], quirk, q, v);
            v.push(call("Power", vec![ab(&k[2], q), int("-1")]));
        },
        _ => v.push(ab(if quirk { unat(r, "Times", q) } else { r }, q)),
    }
}

fn strip_plus(r: &R) -> &R {
    if is_node(r, "Prefix:Plus") {
        strip_plus(&kids(r)[1])
    } else {
        r
    }
}

/// The elements between brackets.
fn args(k: &[R], q: &Q) -> Vec<A> {
    let mut v = vec![];
    for x in &k[1..k.len() - 1] {
        if is_node(x, "Infix:Comma") {
            v.extend(operands(x).into_iter().map(|y| ab(y, q)));
        } else {
            v.push(ab(x, q));
        }
    }
    v
}

fn relation(t: &str) -> String {
    match t {
        "==" | "\\[Equal]" | "\\[LongEqual]" => "Equal".into(),
        "!=" | "\\[NotEqual]" => "Unequal".into(),
        "<" => "Less".into(),
        ">" => "Greater".into(),
        "<=" | "\\[LessSlantEqual]" => "LessEqual".into(),
        ">=" | "\\[GreaterSlantEqual]" => "GreaterEqual".into(),
        _ => t.trim_start_matches("\\[").trim_end_matches(']').into(),
    }
}

fn inequality(k: &[R], q: &Q) -> A {
    // Plain relations fit both kinds of chain; the first special one decides
    // which kind it is, and the other kind starts a new chain around it.
    fn finish(first: A, rest: Vec<(String, A)>, vector: bool) -> A {
        let op = rest[0].0.clone();
        if rest.iter().all(|x| x.0 == op) {
            let mut v = vec![first];
            v.extend(rest.into_iter().map(|x| x.1));
            if op.starts_with("Vector") {
                return call(&op, vec![call("List", v)]);
            }
            return call(&op, v);
        }
        let mut v = vec![first];
        for (o, x) in rest {
            v.push(sym(&o));
            v.push(x);
        }
        call(
            if vector {
                "Developer`VectorInequality"
            } else {
                "Inequality"
            },
            v,
        )
    }
    let mut first = ab(&k[0], q);
    let mut rest: Vec<(String, A)> = vec![];
    let mut kind: Option<bool> = None;
    for p in k[1..].chunks(2) {
        let op = relation(text(&p[0]));
        let x = ab(&p[1], q);
        let this = match op.as_str() {
            "Equal" | "Unequal" | "Less" | "Greater" | "LessEqual" | "GreaterEqual" => None,
            o => Some(o.starts_with("Vector")),
        };
        if let Some(t) = this {
            if kind == Some(!t) {
                first = finish(first, std::mem::take(&mut rest), !t);
            }
            kind = Some(t);
        }
        rest.push((op, x));
    }
    finish(first, rest, kind == Some(true))
}

/// The reference translation.
fn ab(r: &R, q: &Q) -> A {
    let (lab, k) = match r {
        R::Leaf(t) => return leaf(t),
        R::Node(l, k) => (l.as_str(), k.as_slice()),
    };
    let a = |i: usize| ab(&k[i], q);
    let (kind, name) = lab.split_once(':').unwrap_or((lab, ""));
    match (kind, name) {
        ("Compound", "Slot") => {
            let t = text(&k[1]);
            call(
                "Slot",
                vec![if t.starts_with(|c: char| c.is_ascii_digit()) {
                    int(t)
                } else {
                    string(t)
                }],
            )
        },
        ("Compound", "PatternOptionalDefault") => call(
            "Optional",
            vec![call("Pattern", vec![a(0), call("Blank", vec![])])],
        ),
        ("Compound", n) if n.starts_with("Pattern") => call("Pattern", vec![a(0), a(1)]),
        ("Compound", n) => call(n, vec![a(1)]),

        ("Prefix", "Minus") => negate(&k[1], q),
        ("Prefix", "Plus") => call("Plus", vec![ab(strip_plus(&k[1]), q)]),
        ("Prefix", "PrefixNot2") => call("Not", vec![call("Not", vec![a(1)])]),
        ("Prefix", "Get") => call("Get", vec![string(text(&k[1]))]),
        ("Prefix", "PrefixLinearSyntaxBang") => E("LinearSyntaxBang", vec![a(1)]),
        ("Prefix", n) => call(n, vec![a(1)]),

        ("Postfix", "HermitianConjugate") => call("ConjugateTranspose", vec![a(0)]),
        ("Postfix", "Derivative") => {
            let mut n = 1;
            let mut body = &k[0];
            while is_node(body, "Postfix:Derivative") {
                n += 1;
                body = &kids(body)[0];
            }
            C(
                Box::new(call("Derivative", vec![int(&n.to_string())])),
                vec![ab(body, q)],
            )
        },
        ("Postfix", n) => call(n, vec![a(0)]),

        ("Binary", "Divide") => {
            let mut v = factors(&[&k[0]], false, q);
            v.push(call("Power", vec![a(2), int("-1")]));
            call("Times", v)
        },
        ("Binary", "BinaryAt") => C(Box::new(a(0)), vec![a(2)]),
        ("Binary", "BinarySlashSlash") => C(Box::new(a(2)), vec![a(0)]),
        ("Binary", "MapApply") if q.apply => {
            call("Apply", vec![a(0), a(2), call("List", vec![int("1")])])
        },
        ("Binary", "Put" | "PutAppend") => call(name, vec![a(0), string(text(&k[2]))]),
        ("Binary", "Unset") => call("Unset", vec![a(0)]),
        ("Binary", "PatternTest") if is_node(&k[0], "Binary:PatternTest") => {
            E("NonAssociativePatternTest", vec![a(0), a(2)])
        },
        ("Binary", n) => call(n, vec![a(0), a(2)]),

        ("Infix", "InfixInequality") => inequality(k, q),
        ("Infix", "Plus") => {
            let mut v = vec![ab(strip_plus(unat(&k[0], "Plus", q)), q)];
            for p in k[1..].chunks(2) {
                v.push(match text(&p[0]) {
                    "-" | "\\[Minus]" => negate(&p[1], q),
                    _ => ab(strip_plus(unat(&p[1], "Plus", q)), q),
                });
            }
            call("Plus", v)
        },
        ("Infix", "Times") => call("Times", factors(&operands(r), true, q)),
        ("Infix", "MessageName") => {
            let mut v = vec![a(0)];
            v.extend(k[2..].iter().step_by(2).map(|x| string(text(x))));
            call("MessageName", v)
        },
        ("Infix", "SameQ" | "UnsameQ" | "CompoundExpression") => {
            call(name, operands(r).into_iter().map(|x| ab(x, q)).collect())
        },
        ("Infix", n) => {
            let mut v: Vec<A> = operands(r)
                .into_iter()
                .map(|x| ab(unat(x, n, q), q))
                .collect();
            if n == "Divisible" {
                v.reverse();
            }
            call(n, v)
        },

        ("Ternary", "TernaryTilde") => C(Box::new(a(2)), vec![a(0), a(4)]),
        ("Ternary", "TagUnset") => call("TagUnset", vec![a(0), a(2)]),
        ("Ternary", n) => call(n, vec![a(0), a(2), a(4)]),

        ("PrefixBinary", n) => {
            // \[Integral] f \[DifferentialD] x
            let var = match label(&k[2]) {
                "Prefix:DifferentialD" | "Prefix:CapitalDifferentialD" => ab(&kids(&k[2])[1], q),
                _ => a(2),
            };
            call(n, vec![a(1), var])
        },

        ("Group", "GroupParen") => {
            if k.len() == 3 && !is_node(&k[1], "Infix:Comma") {
                a(1)
            } else {
                E("OpenParen", args(k, q))
            }
        },
        ("Group", "GroupSquare") => E("OpenSquare", args(k, q)),
        ("Group", n) => call(n, args(k, q)),

        ("Call", _) => {
            let body = kids(&k[1]);
            let mut v = vec![a(0)];
            match label(&k[1]) {
                "CallGroup:GroupTypeSpecifier" => {
                    C(Box::new(call("TypeSpecifier", v)), args(body, q))
                },
                "CallGroup:GroupDoubleBracket" => {
                    v.extend(args(body, q));
                    call("Part", v)
                },
                _ if body.len() == 3 && is_node(&body[1], "Group:GroupSquare") => {
                    v.extend(args(kids(&body[1]), q));
                    call("Part", v)
                },
                _ => C(Box::new(v.remove(0)), args(body, q)),
            }
        },
        _ => panic!("no reference for {lab}"),
    }
}

/// Programs that use the names of their own operators as heads.
fn program(s: &mut Src) -> Vec<Item> {
    let empties = s.chance(1, 4);
    let items = wf::items(s, WfCfg { empties, ..WfCfg::default() });
    let names: Vec<&'static str> = items
        .iter()
        .filter_map(|i| match i {
            Item::Op(t) => wf::infix_name(t),
            Item::Comma(_) => Some("Comma"),
            _ => None,
        })
        .collect();
    if names.is_empty() || !s.chance(1, 3) {
        return items;
    }
    let mut v = vec![];
    for (i, it) in items.iter().enumerate() {
        let after_pattern = matches!(items.get(i + 1), Some(Item::Op(":")));
        if matches!(it, Item::Atom(..)) && !after_pattern && s.chance(1, 4) {
            let name = names[s.below(names.len() as u32) as usize];
            v.push(Item::Atom(AtomKind::Symbol, name));
            v.push(Item::Op(s.ps(&["@", "@", "@", "\\[InvisibleApplication]"])));
        }
        v.push(it.clone());
    }
    v
}

fn reference(s: &mut Src) -> Outcome {
    let mut o = O::plain();
    o.quirks = [s.chance(1, 2), s.chance(1, 3), s.chance(1, 3)];
    let q = Q {
        at: o.quirks[0],
        flatten: o.quirks[1],
        apply: o.quirks[2],
    };
    let items = program(s);
    let r = match RefParser::parse_with(&items, true) {
        Ok(r) => r,
        Err(e) => return Outcome::Discard(e),
    };
    let t = wf::render_plain(&items);
    let mut want = String::new();
    ab(&r, &q).show(&mut want);
    let NodeSeq(ast) = parse_ast_seq(&t, &o.make()).syntax;
    let got = ast
        .iter()
        .map(|a| tree::from_ast(a).show())
        .collect::<Vec<_>>()
        .join(" ; ");
    let key = format!("{:?} {t}", o.quirks);
    if got != want {
        return fail(
            "abstract syntax differs from the reference",
            &key,
            format!("expected {want}\n     got {got}"),
        );
    }
    pass(&key, want.matches("Call[").count() >= 2, vec![])
}

//======================================================================
// FullForm round trip
//======================================================================

/// FullForm of an abstract syntax tree; None if it has errors.
fn write_full(n: &tree::N, o: &mut String) -> Option<()> {
    if n.tok.is_some() {
        // numbers may carry a sign
        if n.text.starts_with('-') {
            o.push_str("( ");
            o.push_str(&n.text);
            o.push(')');
        } else {
            o.push_str(&n.text);
        }
        return Some(());
    }
    if n.label != "Call" {
        return None;
    }
    write_full(&n.kids[0], o)?;
    o.push('[');
    for (i, k) in n.kids[1..].iter().enumerate() {
        if i > 0 {
            o.push_str(", ");
        }
        write_full(k, o)?;
    }
    o.push(']');
    Some(())
}

fn fullform(s: &mut Src) -> Outcome {
    let o = O::plain().make();
    let items = program(s);
    if let Err(e) = RefParser::parse_with(&items, true) {
        return Outcome::Discard(e);
    }
    let t = wf::render_plain(&items);
    let NodeSeq(ast) = parse_ast_seq(&t, &o).syntax;
    let trees: Vec<_> = ast.iter().map(tree::from_ast).collect();
    let mut full = String::new();
    for n in &trees {
        if write_full(n, &mut full).is_none() {
            return Outcome::Discard("abstract syntax error");
        }
        full.push('\n');
    }
    let NodeSeq(again) = parse_ast_seq(&full, &o).syntax;
    let a = tree::show_seq(&trees);
    let b = again
        .iter()
        .map(|x| tree::from_ast(x).show())
        .collect::<Vec<_>>()
        .join(" ; ");
    if a != b {
        return fail(
            "FullForm means something else",
            &format!("{t}  =>  {full}"),
            format!("first  {a}\nsecond {b}"),
        );
    }
    pass(&t, a.matches("Call[").count() >= 2, vec![])
}

//======================================================================
// Groups and calls that an outer closer ends
//======================================================================

const HEADS: &[&str] = &["zzUnclosedA", "zzUnclosedB", "zzUnclosedC"];

/// What comes between the opener of the outer group and an unclosed one.
fn before(s: &mut Src) -> String {
    match s.below(8) {
        0 | 1 => String::new(),
        2 => format!("{}, ", arg(s)),
        3 => format!("{}, {}, ", arg(s), arg(s)),
        _ => format!(
            "x{} ",
            s.ps(&[" +", " -", " /", "", " *", " @", " @@", " ->", " =", " :=", " ;", ", -", ", !", " ~ y ~", " .", " /;", " |", " ==", " <", " //"])
        ),
    }
}

fn arg(s: &mut Src) -> String {
    for _ in 0..4 {
        let items = program(s);
        if RefParser::parse_with(&items, true).is_ok() {
            return wf::render_plain(&items);
        }
    }
    "a".into()
}

fn label_of(name: &str) -> String {
    match name {
        "GroupParen" => "CodeParser_GroupParen".into(),
        _ => name.into(),
    }
}

/// The abstract syntax with the stand-in calls replaced.
fn put_unclosed(n: &tree::N, kinds: &[usize]) -> tree::N {
    let mut n = n.clone();
    n.kids = n.kids.iter().map(|k| put_unclosed(k, kinds)).collect();
    if n.label != "Call" {
        return n;
    }
    let Some(i) = HEADS.iter().position(|h| n.kids[0].text == *h) else { return n };
    let tok = n.kids[0].tok;
    let plain = |label: &str, text: &str, kids: Vec<tree::N>| tree::N {
        label: label.into(),
        text: text.into(),
        tok: if kids.is_empty() && !text.is_empty() { tok } else { None },
        span: None,
        kids,
    };
    let symbol = |t: &str| plain("Leaf:Symbol", t, vec![]);
    let head = n.kids.remove(0);
    let args = std::mem::take(&mut n.kids);
    let g = wf::GROUPS.len();
    if kinds[i] < g {
        let l = label_of(wf::GROUPS[kinds[i]].2);
        return plain(&format!("GroupMissingCloser:{l}"), "", args);
    }
    let mut k = match wf::CALLS[kinds[i] - g].2 {
        "GroupSquare" => vec![head],
        "PART" => {
            return plain(
                "CallMissingCloser",
                "",
                vec![head, plain("GroupMissingCloser:CodeParser_GroupSquare", "", args)],
            )
        },
        "GroupTypeSpecifier" => vec![plain("Call", "", vec![symbol("TypeSpecifier"), head])],
        _ => vec![symbol("Part"), head],
    };
    k.extend(args);
    plain("CallMissingCloser", "", k)
}

fn unclosed(s: &mut Src) -> Outcome {
    let mut o = O::plain();
    o.quirks = [s.chance(1, 2), s.chance(1, 3), s.chance(1, 3)];
    let all = wf::GROUPS.len() + wf::CALLS.len();
    let of = |i: usize| {
        if i < wf::GROUPS.len() {
            wf::GROUPS[i]
        } else {
            wf::CALLS[i - wf::GROUPS.len()]
        }
    };
    let outer = s.below(all as u32) as usize;
    let depth = 1 + s.weighted(&[6, 3, 1]);
    let mut kinds = vec![];
    let (mut bad, mut good) = (String::new(), String::new());
    let head = if outer < wf::GROUPS.len() { "" } else { "h" };
    let front = if s.chance(1, 4) { format!("{} ;\n", arg(s)) } else { String::new() };
    for t in [&mut bad, &mut good] {
        t.push_str(&front);
        t.push_str(head);
        t.push_str(of(outer).0);
        t.push(' ');
    }
    let mut total = 0;
    for d in 0..depth {
        let k = s.below(all as u32) as usize;
        // the outer closer has to be another than the one that is missing
        if of(k).1.trim_end_matches(']').is_empty() && of(outer).1.trim_end_matches(']').is_empty()
            || of(k).2 == of(outer).2
        {
            return Outcome::Discard("the outer closer closes it");
        }
        kinds.push(k);
        let b = before(s);
        bad.push_str(&b);
        good.push_str(&b);
        if k >= wf::GROUPS.len() {
            bad.push_str(HEADS[d]);
        }
        bad.push_str(of(k).0);
        good.push_str(HEADS[d]);
        good.push('[');
        let last = d + 1 == depth;
        let n = s.weighted(&[1, 4, 3, 1]);
        for i in 0..n {
            let a = arg(s);
            let sep = if i + 1 < n || !last { ", " } else { "" };
            total += 1;
            for t in [&mut bad, &mut good] {
                t.push(' ');
                t.push_str(&a);
                t.push_str(sep);
            }
        }
        for t in [&mut bad, &mut good] {
            t.push(' ');
        }
    }
    good.push_str(&"]".repeat(depth));
    let behind = match s.below(4) {
        0 => " + y".to_string(),
        1 => format!("\n{}", arg(s)),
        _ => String::new(),
    };
    for t in [&mut bad, &mut good] {
        t.push(' ');
        t.push_str(of(outer).1);
        t.push_str(&behind);
    }
    let key = format!("{:?} {bad}", o.quirks);
    let tree_of = |t: &str| {
        let NodeSeq(v) = parse_ast_seq(t, &o.make()).syntax;
        v.iter().map(tree::from_ast).collect::<Vec<_>>()
    };
    let want: Vec<_> = tree_of(&good).iter().map(|n| put_unclosed(n, &kinds)).collect();
    let (want, got) = (tree::show_seq(&want), tree::show_seq(&tree_of(&bad)));
    if want != got {
        return fail(
            "abstract syntax of what is not closed differs",
            &key,
            format!("expected {want}\n     got {got}"),
        );
    }
    pass(&key, total >= 2 || depth > 1, vec![])
}
