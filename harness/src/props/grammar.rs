//! P06..: what the trees mean.

use super::*;
use crate::opts::{self, O};
use crate::optable::{Kind, OPS};
use crate::textgen::{any_text, TextCfg};
use wolfram_parser::tokenize::TokenKind;
use crate::tree;
use crate::wf::{self, RefParser, WfCfg};
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![
    Property {
        id: "P06",
        assumptions: &["precedences and associativities as in CodeParser/Data at the pinned commit"],
        subs: vec![
            Sub {
                name: "reference",
                quick: 1_200_000,
                thorough: 60_000_000,
                rule: "random well-formed operator sequences, one blank between tokens, against a reference precedence parser; non-trivial: at least two operator nodes, one inside the other",
                f: precedence,
            },
            Sub {
                name: "pairs",
                quick: 600_000,
                thorough: 10_000_000,
                rule: "short sequences of two or three operators drawn uniformly from all 327 and the special forms; non-trivial: all",
                f: pairs,
            },
        ],
    },
    Property {
        id: "P07",
        assumptions: &["newlines are only moved inside brackets, where they do not end an expression"],
        subs: vec![
            Sub {
                name: "trivia",
                quick: 300_000,
                thorough: 12_000_000,
                rule: "a random well-formed program written with one blank between tokens and with random blanks, tabs, comments, bracketed newlines and line continuations or nothing at all; non-trivial: 3 or more tokens",
                f: trivia_wf,
            },
            Sub {
                name: "respace",
                quick: 150_000,
                thorough: 6_000_000,
                rule: "any text that parses without error nodes, against the same text with its whitespace, comment and newline tokens replaced by others; non-trivial: 3 or more tokens replaced or 2 nodes",
                f: respace,
            },
            Sub {
                name: "parens",
                quick: 600_000,
                thorough: 24_000_000,
                rule: "a random well-formed program against the same with redundant parentheses around random operands; non-trivial: some parentheses added",
                f: parens,
            },
        ],
    },
    ]
}

/// Uniform over operators: two or three of them around plain operands.
fn pairs(s: &mut Src) -> Outcome {
    let mut v = vec![];
    let n = s.below(2) + 2;
    let names = ["a", "b", "c", "d", "x", "f", "abc", "x1"];
    let mut k = 0;
    let mut operand = |v: &mut Vec<wf::Item>| {
        v.push(wf::Item::Atom(wf::AtomKind::Symbol, names[k % 8]));
        k += 1;
    };
    let mut after = false;
    for _ in 0..n {
        let i = s.below(OPS.len() as u32 + 12);
        if let Some(op) = OPS.get(i as usize) {
            match op.kind {
                Kind::Prefix => {
                    if after {
                        // implied multiplication, or the infix reading
                    }
                    v.push(wf::Item::Op(op.text));
                    after = false;
                },
                Kind::Postfix => {
                    if !after {
                        operand(&mut v);
                    }
                    v.push(wf::Item::Op(op.text));
                    after = true;
                },
                _ => {
                    if !after {
                        operand(&mut v);
                    }
                    v.push(wf::Item::Op(op.text));
                    after = false;
                },
            }
        } else {
            if !after {
                operand(&mut v);
            }
            after = false;
            match i as usize - OPS.len() {
                0 => v.push(wf::Item::Op(";")),
                1 => v.push(wf::Item::Op(";;")),
                2 => {
                    v.push(wf::Item::Op("~"));
                    operand(&mut v);
                    v.push(wf::Item::Op("~"));
                },
                3 => {
                    v.push(wf::Item::Op("/:"));
                    operand(&mut v);
                    v.push(wf::Item::Op(":="));
                },
                4 => v.push(wf::Item::Op("=")),
                5 => v.push(wf::Item::Op(":=")),
                6 => {
                    v.push(wf::Item::Unset);
                    after = true;
                },
                7 => {
                    v.push(wf::Item::CallOpen(0));
                    operand(&mut v);
                    v.push(wf::Item::CallClose(0));
                    after = true;
                },
                8 => {
                    v.push(wf::Item::Tag("tag"));
                    after = true;
                },
                9 => {
                    v.push(wf::Item::File(">>", "file"));
                    after = true;
                },
                10 => {
                    // implied multiplication
                    operand(&mut v);
                    after = true;
                },
                _ => match v.last() {
                    Some(wf::Item::Atom(..)) => v.push(wf::Item::Op(":")),
                    _ => after = true,
                },
            }
        }
    }
    if !after {
        operand(&mut v);
    }
    compare_reference(&v)
}

fn precedence(s: &mut Src) -> Outcome {
    let empties = s.chance(1, 4);
    let items = wf::items(s, WfCfg { empties, ..WfCfg::default() });
    compare_reference(&items)
}

fn nontrivia(n: &tree::N) -> bool {
    !n.tok.map(|t| t.isTrivia()).unwrap_or(false)
}

fn compare_reference(items: &[wf::Item]) -> Outcome {
    let text = wf::render_plain(items);
    let want = match RefParser::parse_with(items, true) {
        Ok(r) => r,
        Err(e) => return Outcome::Discard(e),
    };
    let o = O::plain().make();
    let NodeSeq(cst) = parse_cst_seq(&text, &o).syntax;
    let got: Vec<_> = cst
        .iter()
        .map(tree::from_cst)
        .filter(nontrivia)
        .map(|n| wf::simplify(&n).show())
        .collect();
    let got = got.join(" ; ");
    let want = want.show();
    if got != want {
        return fail(
            "tree differs from the operator table",
            &text,
            format!("expected {want}\n     got {got}"),
        );
    }
    let nested = want.matches(':').count() >= 2 && items.len() > 3;
    pass(&text, nested, vec![])
}

//======================================================================
// P07
//======================================================================

/// Concrete structure without trivia, one entry per top level node.
fn structure(text: &str, o: &ParseOptions) -> Vec<String> {
    let NodeSeq(cst) = parse_cst_seq(text, o).syntax;
    cst.iter()
        .map(tree::from_cst)
        .filter(nontrivia)
        .map(|n| wf::simplify(&strip_conts(n)).show())
        .collect()
}

fn meaning(text: &str, o: &ParseOptions) -> Vec<String> {
    let NodeSeq(ast) = parse_ast_seq(text, o).syntax;
    ast.iter()
        .map(|a| strip_conts(tree::from_ast(a)).show())
        .collect()
}

/// Line continuations are part of the text of their token.
fn strip_conts(mut n: tree::N) -> tree::N {
    let conts = ["\\\n", "\\\r"];
    while let Some(i) = conts.iter().find_map(|c| n.text.find(c)) {
        let rest = n.text[i + 1..].trim_start().to_string();
        n.text.truncate(i);
        n.text.push_str(&rest);
    }
    n.kids = n.kids.into_iter().map(strip_conts).collect();
    n
}

fn same(
    what: &str,
    key: &str,
    a: Vec<String>,
    b: Vec<String>,
) -> Result<(), Outcome> {
    if a == b {
        return Ok(());
    }
    Err(fail(
        what,
        key,
        format!("first  {}\nsecond {}", a.join(" ; "), b.join(" ; ")),
    ))
}

fn quirky(s: &mut Src) -> O {
    let mut o = opts::positions(s);
    o.quirks = opts::any(s).quirks;
    o
}

fn trivia_wf(s: &mut Src) -> Outcome {
    let o = quirky(s).make();
    let conts = s.chance(1, 3);
    let items = wf::items(s, WfCfg::default());
    let a = wf::render_plain(&items);
    if let Err(e) = RefParser::parse(&items) {
        return Outcome::Discard(e);
    }
    let b = wf::render(s, &items, conts);
    let key = format!("{a}  <~>  {b}");
    if let Err(f) = same("tree depends on trivia", &key, structure(&a, &o), structure(&b, &o)) {
        return f;
    }
    if let Err(f) = same("meaning depends on trivia", &key, meaning(&a, &o), meaning(&b, &o)) {
        return f;
    }
    pass(&key, items.len() >= 3, vec![])
}

/// Replace trivia tokens of an error free text by equivalent ones.
fn respace(s: &mut Src) -> Outcome {
    let o = quirky(s);
    let op = o.make();
    let t = any_text(s, TextCfg { max_frags: 16 });
    s.literal = None;
    let NodeSeq(cst) = parse_cst_seq(&t, &op).syntax;
    let trees: Vec<_> = cst.iter().map(tree::from_cst).collect();
    if trees.iter().any(|n| n.has_error()) {
        return Outcome::Discard("text has errors");
    }
    let mut out = String::new();
    let mut replaced = 0;
    let mut total = 0;
    for n in &trees {
        for lf in n.leaves() {
            total += lf.text.len();
            let k = lf.tok.unwrap();
            let cont = lf.text.starts_with('\\');
            match k {
                TokenKind::Whitespace if !cont => {
                    out.push_str(s.ps(&[" ", "\t", "  ", " \t"]));
                    replaced += 1;
                },
                TokenKind::Comment if !cont => {
                    out.push_str(s.ps(&["(**)", "(* c *)", "(* (* *) *)", "(*\n*)", "(*\"*)"]));
                    replaced += 1;
                },
                TokenKind::ToplevelNewline | TokenKind::InternalNewline if !cont => {
                    out.push_str(s.ps(&["\n", "\r\n", "\r", "\n\n"]));
                    replaced += 1;
                },
                _ => out.push_str(&lf.text),
            }
        }
    }
    if total != t.len() {
        return Outcome::Discard("line continuation before the end");
    }
    let key = format!("{} | {t}  <~>  {out}", o.show());
    if let Err(f) = same("tree depends on trivia", &key, structure(&t, &op), structure(&out, &op)) {
        return f;
    }
    if let Err(f) = same("meaning depends on trivia", &key, meaning(&t, &op), meaning(&out, &op)) {
        return f;
    }
    pass(&key, replaced >= 1 && t.len() > 4, vec![])
}

fn parens(s: &mut Src) -> Outcome {
    let mut o = quirky(s);
    // flatten_times looks at how products are grouped
    o.quirks[1] = false;
    let items = wf::items(s, WfCfg::default());
    if items.iter().any(|i| matches!(i.text().as_str(), "Plus" | "Times")) {
        // the quirk reads Plus @ a + b as Plus[a, b]
        o.quirks[0] = false;
    }
    let o = o.make();
    let a = wf::render_plain(&items);
    let r = match RefParser::parse(&items) {
        Ok(r) => r,
        Err(e) => return Outcome::Discard(e),
    };
    if items.iter().any(|i| i.text().contains("DifferentialD")) {
        // ends an operand depending on the operator around it, so that a
        // parenthesis before it is not redundant
        return Outcome::Discard("differential");
    }
    let mut b = String::new();
    let rate = s.below(4) + 1;
    let added = wf::parenthesize(s, &r, rate, &mut b);
    let key = format!("{a}  <~>  {b}");
    if let Err(f) = same("meaning depends on parentheses", &key, meaning(&a, &o), meaning(&b, &o)) {
        return f;
    }
    pass(&key, added > 0, vec![])
}
