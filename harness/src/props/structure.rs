//! P02..P05: how the input text is represented in tokens and trees.

use super::*;
use crate::opts;
use crate::textgen::{any_text, TextCfg};
use crate::tree::{self, loc_key, span_str, Pos, N};
use wolfram_parser::cst::Cst;
use wolfram_parser::source::Span;
use wolfram_parser::tokenize::{Token, TokenInput, TokenKind, TokenStr};
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P02",
            assumptions: &["input is valid UTF-8; malformed bytes are P09"],
            subs: vec![Sub {
                name: "partition",
                quick: 250_000,
                thorough: 12_000_000,
                rule: "any text under random options; tokens are compared as slices of the input; non-trivial: at least 3 tokens",
                f: token_partition,
            }],
        },
        Property {
            id: "P03",
            assumptions: &["input is valid UTF-8; malformed bytes are P09"],
            subs: vec![Sub {
                name: "lossless",
                quick: 250_000,
                thorough: 12_000_000,
                rule: "any text under random options; leaves of the concrete tree are compared as slices of the input; non-trivial: at least one operator, group or call node",
                f: cst_lossless,
            }],
        },
        Property {
            id: "P04",
            assumptions: &["input is valid UTF-8"],
            subs: vec![
                Sub {
                    name: "tokens",
                    quick: 150_000,
                    thorough: 8_000_000,
                    rule: "any text, both conventions, six tab widths; every token of the token list against the position model; non-trivial: text has a newline, tab or non-ASCII character",
                    f: token_positions,
                },
                Sub {
                    name: "tree",
                    quick: 150_000,
                    thorough: 8_000_000,
                    rule: "same, for every leaf of the concrete tree and every tracked location",
                    f: tree_positions,
                },
                Sub {
                    name: "far",
                    quick: 800,
                    thorough: 20_000,
                    rule: "same for text 255 to 66000 lines down or columns to the right; non-trivial: all",
                    f: far_positions,
                },
            ],
        },
        Property {
            id: "P05",
            assumptions: &["input is valid UTF-8"],
            subs: vec![Sub {
                name: "nesting",
                quick: 200_000,
                thorough: 10_000_000,
                rule: "any text, both conventions; spans of every concrete and abstract node; non-trivial: some node has depth 2 or more",
                f: span_nesting,
            },
            Sub {
                name: "places",
                quick: 100_000,
                thorough: 5_000_000,
                rule: "any text, both conventions; the positions of abstract nodes against those of the concrete leaves; non-trivial: two or more positioned leaves",
                f: places,
            }],
        },
    ]
}

fn tshow<I: TokenInput>(t: &Token<I>) -> String {
    format!("{:?} {:?} {}", t.tok, tree::tok_text(&t.input), t.src)
}

//======================================================================
// P02
//======================================================================

fn token_partition(s: &mut Src) -> Outcome {
    let mut o = opts::any(s);
    o.first = 0;
    let t = any_text(s, TextCfg::default());
    let key = format!("{} | {}", o.show(), t);
    let op = o.make();
    let input = t.as_bytes();
    let toks: Vec<_> = iter::tokens(&t, &op).collect();
    let mut at = 0;
    for k in &toks {
        let b = k.input.as_bytes();
        match offset_in(input, b) {
            Some(x) if x == at => {},
            x => {
                return fail(
                    "token does not start where the previous one ended",
                    &key,
                    format!("token {} starts at {:?}, expected {}", tshow(k), x, at),
                )
            },
        }
        if b.is_empty() {
            return fail("empty token", &key, tshow(k));
        }
        at += b.len();
    }
    if at != input.len() && !only_continuations(&t[at..]) {
        return fail(
            "text after the last token",
            &key,
            format!("tokens end at {at} of {}", input.len()),
        );
    }
    // The list API returns the same tokens; only an unterminated token may be
    // cut short.
    let NodeSeq(list) = tokenize(&t, &op);
    if list.len() != toks.len() {
        return fail(
            "tokenize() and tokens() have different lengths",
            &key,
            format!("{} and {}", list.len(), toks.len()),
        );
    }
    let mut cut = false;
    for (a, b) in list.iter().zip(&toks) {
        let same_start = a.input.as_bytes().as_ptr() == b.input.as_bytes().as_ptr();
        let prefix = b.input.as_bytes().starts_with(a.input.as_bytes());
        let equal = a.input.as_bytes() == b.input.as_bytes();
        cut |= !equal;
        if a.tok != b.tok
            || !same_start
            || !prefix
            || (!equal && !b.tok.isUnterminated())
            || a.input.as_bytes().is_empty()
        {
            return fail(
                "tokenize() and tokens() differ",
                &key,
                format!("{} and {}", tshow(a), tshow(b)),
            );
        }
    }
    let mut labels = vec![];
    if cut {
        labels.push("unterminated token cut");
    }
    if toks.iter().any(|k| k.tok.isError()) {
        labels.push("error token");
    }
    pass(&key, toks.len() >= 3, labels)
}

//======================================================================
// P03
//======================================================================

pub struct Leaf<'a, 'i> {
    pub tok: &'a Token<TokenStr<'i>>,
    pub off: usize,
    /// Inside a group with a missing closer, or an unterminated token.
    pub in_unterminated: bool,
}

fn collect<'a, 'i>(
    c: &'a Cst<TokenStr<'i>>,
    input: &'i [u8],
    unterminated: bool,
    out: &mut Vec<Leaf<'a, 'i>>,
) -> Result<(), String> {
    use wolfram_parser::cst::*;
    let mut seq = |k: &'a NodeSeq<Cst<TokenStr<'i>>>, u: bool| -> Result<(), String> {
        for x in &k.0 {
            collect(x, input, u, out)?;
        }
        Ok(())
    };
    match c {
        Cst::Token(t) => {
            let Some(off) = offset_in(input, t.input.as_bytes()) else {
                return Err(format!("{} is not a slice of the input", tshow(t)));
            };
            out.push(Leaf {
                tok: t,
                off,
                in_unterminated: unterminated || t.tok.isUnterminated(),
            });
            Ok(())
        },
        Cst::Call(CallNode { head, body }) => {
            match head {
                CallHead::Concrete(h) => seq(h, unterminated)?,
                CallHead::Aggregate(_) => return Err("aggregate call in concrete tree".into()),
            }
            match body {
                CallBody::Group(GroupNode(o)) => seq(&o.children, unterminated),
                CallBody::GroupMissingCloser(GroupMissingCloserNode(o)) => {
                    seq(&o.children, true)
                },
            }
        },
        Cst::SyntaxError(SyntaxErrorNode { children, .. }) => seq(children, unterminated),
        Cst::Prefix(PrefixNode(o)) => seq(&o.children, unterminated),
        Cst::Infix(InfixNode(o)) => seq(&o.children, unterminated),
        Cst::Postfix(PostfixNode(o)) => seq(&o.children, unterminated),
        Cst::Binary(BinaryNode(o)) => seq(&o.children, unterminated),
        Cst::Ternary(TernaryNode(o)) => seq(&o.children, unterminated),
        Cst::PrefixBinary(PrefixBinaryNode(o)) => seq(&o.children, unterminated),
        Cst::Compound(CompoundNode(o)) => seq(&o.children, unterminated),
        Cst::Group(GroupNode(o)) => seq(&o.children, unterminated),
        Cst::GroupMissingCloser(GroupMissingCloserNode(o)) => seq(&o.children, true),
        Cst::GroupMissingOpener(GroupMissingOpenerNode(o)) => seq(&o.children, unterminated),
        Cst::Box(b) => seq(&b.children, unterminated),
        Cst::Code(_) => Err("code node in concrete tree".into()),
    }
}

fn cst_lossless(s: &mut Src) -> Outcome {
    let mut o = opts::any(s);
    o.first = 0;
    let t = any_text(s, TextCfg::default());
    let key = format!("{} | {}", o.show(), t);
    let r = parse_cst_seq(&t, &o.make());
    let mut leaves = vec![];
    for c in &r.syntax.0 {
        if let Err(e) = collect(c, t.as_bytes(), false, &mut leaves) {
            return fail("leaf is not a piece of the input", &key, e);
        }
    }
    let mut at = 0;
    let mut cut = false;
    let mut last_open = false;
    for l in &leaves {
        let len = l.tok.input.as_bytes().len();
        if cut && len > 0 {
            return fail(
                "text lost in the middle of the tree",
                &key,
                format!("{} follows a gap", tshow(l.tok)),
            );
        }
        if l.off != at {
            if len == 0 && l.off > at && last_open {
                // a zero width token at the real end of an unterminated group
                cut = true;
                continue;
            }
            return fail(
                "leaf does not start where the previous one ended",
                &key,
                format!("{} at {}, expected {}", tshow(l.tok), l.off, at),
            );
        }
        if len == 0 && !zero_width_ok(l.tok.tok) {
            return fail("empty leaf that stands for no missing operand or operator", &key, tshow(l.tok));
        }
        if len > 0 {
            last_open = l.in_unterminated;
        }
        at += len;
    }
    let complete = at == t.len() || only_continuations(&t[at..]);
    if !complete && !last_open {
        return fail(
            "text lost although nothing is unterminated",
            &key,
            format!(
                "leaves end at byte {at} of {}: {}",
                t.len(),
                tree::show_seq(&tree::from_cst_seq(&r.syntax))
            ),
        );
    }
    let nontrivial = r.syntax.0.iter().any(|c| !matches!(c, Cst::Token(_)));
    pass(
        &key,
        nontrivial,
        vec![if complete { "complete" } else { "cut after unterminated construct" }],
    )
}

fn escaped_blank(t: &str) -> Option<&str> {
    for p in ["\\:00", "\\.", "\\|0000"] {
        if let Some(x) = t.strip_prefix(p) {
            for h in ["20", "09", "0b", "0c", "0B", "0C"] {
                if let Some(y) = x.strip_prefix(h) {
                    return Some(y);
                }
            }
        }
    }
    ["\\040", "\\011", "\\013", "\\014"]
        .iter()
        .find_map(|p| t.strip_prefix(p))
}

/// Line continuations directly before the end of input belong to no token.
fn only_continuations(t: &str) -> bool {
    let mut r = t;
    while let Some(x) = r.strip_prefix('\\') {
        let Some(x) = x
            .strip_prefix("\r\n")
            .or_else(|| x.strip_prefix('\n'))
            .or_else(|| x.strip_prefix('\r'))
        else {
            return false;
        };
        // with the indentation of the continued line, however it is written
        r = x;
        loop {
            let y = r.trim_start_matches(|c| matches!(c, ' ' | '\t' | '\x0b' | '\x0c'));
            let y = ["\\[RawTab]", "\\[RawSpace]", "\\[SpaceKey]"]
                .iter()
                .find_map(|p| y.strip_prefix(p))
                .or_else(|| escaped_blank(y))
                .unwrap_or(y);
            if y.len() == r.len() {
                break;
            }
            r = y;
        }
    }
    r.is_empty()
}

fn zero_width_ok(k: TokenKind) -> bool {
    let n = format!("{k:?}");
    n.starts_with("Fake_") || n.starts_with("Error_Expected") || n == "Error_PrefixImplicitNull" || n == "Error_InfixImplicitNull"
}

//======================================================================
// P04
//======================================================================

fn check_token_pos(
    k: &Token<TokenStr>,
    input: &[u8],
    pos: &Pos,
    o: &opts::O,
) -> Result<(), String> {
    let b = k.input.as_bytes();
    let Some(off) = offset_in(input, b) else {
        return Err(format!("{} is not a slice of the input", tshow(k)));
    };
    let (Some(a), Some(z)) = (pos.loc(off, o.conv), pos.loc(off + b.len(), o.conv)) else {
        return Err(format!("{} does not lie on character boundaries", tshow(k)));
    };
    if k.src.start() != a || k.src.end() != z {
        return Err(format!(
            "{:?} {:?}: {} but the text is at {:?}..{:?}",
            k.tok,
            tree::tok_text(&k.input),
            span_str(&k.src),
            a,
            z
        ));
    }
    Ok(())
}

fn pos_nontrivial(t: &str) -> bool {
    t.chars().any(|c| c == '\n' || c == '\r' || c == '\t' || !c.is_ascii())
}

fn token_positions(s: &mut Src) -> Outcome {
    let o = opts::positions(s);
    let t = any_text(s, TextCfg::default());
    let key = format!("{} | {}", o.show(), t);
    let op = o.make();
    let pos = Pos::new(&t, o.tab);
    let NodeSeq(list) = tokenize(&t, &op);
    let mut cut = false;
    for k in list.iter().chain(iter::tokens(&t, &op).collect::<Vec<_>>().iter()) {
        if let Err(e) = check_token_pos(k, t.as_bytes(), &pos, &o) {
            return fail(
                format!("token span is not where its text is ({})", unterm(k.tok)),
                &key,
                e,
            );
        }
        cut |= k.tok.isUnterminated();
    }
    pass(&key, pos_nontrivial(&t), if cut { vec!["unterminated"] } else { vec![] })
}

fn far_positions(s: &mut Src) -> Outcome {
    let o = opts::positions(s);
    let t = any_text(s, TextCfg { max_frags: 7, ..TextCfg::default() });
    let n = match s.below(4) {
        0 => s.range(240, 1100),
        1 => s.range(32_700, 32_800),
        _ => s.range(65_500, 66_000),
    } as usize;
    let (what, far) = match s.below(6) {
        0 => ("newlines", "\n".repeat(n)),
        1 => ("CRLFs", "\r\n".repeat(n)),
        2 => ("blanks", " ".repeat(n)),
        3 => ("letters", "a".repeat(n)),
        4 => ("newlines in a comment", format!("(*{}*)", "\n".repeat(n))),
        _ => ("alphas in a comment", format!("(*{}*)", "\u{3b1}".repeat(n))),
    };
    let key = format!("{} | {n} {what} | {t}", o.show());
    let t = far + &t;
    let op = o.make();
    let pos = Pos::new(&t, o.tab);
    let r = parse_cst_seq(&t, &op);
    let mut leaves = vec![];
    for c in &r.syntax.0 {
        if let Err(e) = collect(c, t.as_bytes(), false, &mut leaves) {
            return fail("leaf is not a piece of the input", &key, e);
        }
    }
    let NodeSeq(list) = tokenize(&t, &op);
    for k in leaves.iter().map(|l| l.tok).chain(list.iter()) {
        if let Err(e) = check_token_pos(k, t.as_bytes(), &pos, &o) {
            return fail("span is not where its text is, far from the start", &key, e);
        }
    }
    pass(&key, true, vec![])
}

fn unterm(k: TokenKind) -> &'static str {
    if k.isUnterminated() {
        "unterminated"
    } else {
        "ordinary"
    }
}

fn tree_positions(s: &mut Src) -> Outcome {
    let o = opts::positions(s);
    let t = any_text(s, TextCfg::default());
    let key = format!("{} | {}", o.show(), t);
    let pos = Pos::new(&t, o.tab);
    let r = parse_cst_seq(&t, &o.make());
    let mut leaves = vec![];
    for c in &r.syntax.0 {
        if let Err(e) = collect(c, t.as_bytes(), false, &mut leaves) {
            return fail("leaf is not a piece of the input", &key, e);
        }
    }
    for l in &leaves {
        if let Err(e) = check_token_pos(l.tok, t.as_bytes(), &pos, &o) {
            return fail(
                format!("leaf span is not where its text is ({})", unterm(l.tok.tok)),
                &key,
                e,
            );
        }
    }
    pass(&key, pos_nontrivial(&t), vec![])
}

//======================================================================
// P05
//======================================================================

fn key_of(s: &Span) -> ((u32, u32), (u32, u32)) {
    (loc_key(s.start()), loc_key(s.end()))
}

fn nested(n: &N, ast: bool) -> Result<u32, String> {
    let mut depth = 0;
    let mut prev_end = (0, 0);
    let mut first = None;
    let mut last = None;
    for k in &n.kids {
        depth = depth.max(nested(k, ast)? + 1);
        let (Some(p), Some(c)) = (&n.span, &k.span) else { continue };
        let (p, c) = (key_of(p), key_of(c));
        if c.0 < p.0 || c.1 > p.1 {
            return Err(format!(
                "{} at {} is not inside its parent {} at {}",
                k.show(),
                k.span.unwrap(),
                n.show(),
                n.span.unwrap()
            ));
        }
        if !ast {
            if c.0 < prev_end {
                return Err(format!(
                    "{} at {} overlaps its left sibling",
                    k.show(),
                    k.span.unwrap()
                ));
            }
            prev_end = c.1;
        }
        first.get_or_insert(c.0);
        last = Some(c.1);
    }
    if !ast && n.tok.is_none() {
        let p = key_of(&n.span.unwrap());
        if first != Some(p.0) || last != Some(p.1) {
            return Err(format!(
                "{} at {} does not span its children exactly",
                n.show(),
                n.span.unwrap()
            ));
        }
    }
    if let Some(sp) = &n.span {
        let k = key_of(sp);
        if k.0 > k.1 {
            return Err(format!("{} at {} is reversed", n.show(), sp));
        }
    }
    Ok(depth)
}

fn span_nesting(s: &mut Src) -> Outcome {
    let o = opts::positions(s);
    let t = any_text(s, TextCfg::default());
    let key = format!("{} | {}", o.show(), t);
    let op = o.make();
    let r = parse_cst_seq(&t, &op);
    let ns = tree::from_cst_seq(&r.syntax);
    let mut depth = 0;
    let mut prev = (0, 0);
    for n in &ns {
        match nested(n, false) {
            Ok(d) => depth = depth.max(d),
            Err(e) => return fail("concrete spans are not nested", &key, e),
        }
        let k = key_of(&n.span.unwrap());
        if k.0 < prev {
            return fail("top level nodes overlap", &key, n.show_spans());
        }
        prev = k.1;
    }
    let r2 = parse_ast_seq(&t, &op);
    let asts: Vec<N> = r2.syntax.0.iter().map(tree::from_ast).collect();
    for a in &asts {
        if let Err(e) = nested(a, true) {
            return fail("abstract spans are not nested", &key, e);
        }
    }
    // top level abstract nodes stand for the top level concrete ones
    let tops: Vec<Span> = ns
        .iter()
        .filter(|n| !n.tok.map_or(false, |k| k.isTrivia()))
        .map(|n| n.span.unwrap())
        .collect();
    if tops.len() != asts.len() {
        return fail(
            "abstract and concrete syntax have different numbers of top level nodes",
            &key,
            format!("{} and {}", asts.len(), tops.len()),
        );
    }
    for (a, c) in asts.iter().zip(&tops) {
        let Some(sp) = &a.span else {
            return fail("top level abstract node without a position", &key, a.show());
        };
        let (x, y) = (key_of(sp), key_of(c));
        if x != y && !(x.0 >= y.0 && x.1 <= y.1) {
            return fail(
                "abstract node is not where its concrete node is",
                &key,
                format!("{} and {}", a.show_spans(), span_str(c)),
            );
        }
    }
    pass(&key, depth >= 2, vec![])
}

/// Nodes that may become part of the node around them.
const MERGED: &[&str] = &[
    "Group:CodeParser_GroupParen", "Group:CodeParser_GroupSquare", "Prefix:DifferentialD", "Prefix:CapitalDifferentialD",
    "Infix:CodeParser_Comma", "Infix:Times", "Binary:Divide", "Prefix:Minus", "Prefix:Plus", "Binary:CodeParser_BinaryAt", "Postfix:Derivative",
];

/// Where the pieces of the abstract tree lie.
fn places(s: &mut Src) -> Outcome {
    let o = opts::positions(s);
    let t = if s.chance(1, 2) { any_text(s, TextCfg::default()) } else { let i = crate::wf::items(s, Default::default()); crate::wf::render(s, &i, true) };
    let key = format!("{} | {}", o.show(), t);
    let op = o.make();
    let r = parse_cst_seq(&t, &op);
    let ns = tree::from_cst_seq(&r.syntax);
    let mut signed = vec![];
    let mut minus = vec![];
    let mut nodes = std::collections::BTreeSet::new();
    let mut all = std::collections::BTreeMap::new();
    let (mut starts, mut ends) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
    for n in &ns {
        n.walk(&mut |n| {
            let k = key_of(&n.span.unwrap());
            nodes.insert(k);
            if n.label == "Infix:Plus" {
                // a - b holds the product of -1 and b, at - b.
                let kids: Vec<_> = n.kids.iter().filter(|k| !k.tok.map_or(false, |t| t.isTrivia())).collect();
                for w in kids.windows(2).filter(|w| matches!(w[0].tok, Some(TokenKind::Minus | TokenKind::LongName_Minus))) {
                    let k = (key_of(&w[0].span.unwrap()).0, key_of(&w[1].span.unwrap()).1);
                    nodes.insert(k);
                    minus.push(k);
                }
            }
            starts.insert(k.0);
            ends.insert(k.1);
            if n.tok.is_some() {
                all.insert(k, n);
            }
            if n.label == "Binary:CodeParser_BinaryAt" {
                // Plus@a + b may be one sum (a quirk).
                signed.push(key_of(&n.kids[0].span.unwrap()));
            }
        });
    }
    let asts: Vec<N> = parse_ast_seq(&t, &op).syntax.0.iter().map(tree::from_ast).collect();
    let broken = ns.iter().chain(&asts).any(|n| n.has_error());
    let mut seen = std::collections::BTreeMap::new();
    let mut bad = None;
    let mut n_leaves = 0;
    for a in &asts {
        a.walk(&mut |n| {
            if bad.is_some() {
                return;
            }
            if let Some(sp) = n.span {
                let k = key_of(&sp);
                if !starts.contains(&k.0) || !ends.contains(&k.1) {
                    bad = Some(("an abstract node lies across concrete ones", n.show_spans()));
                }
                if n.tok.is_none() && !broken && !nodes.contains(&k) {
                    bad = Some(("an abstract call lies at no node", n.show_spans()));
                }
                if n.tok.is_some() {
                    n_leaves += 1;
                    *seen.entry(k).or_insert(0) += 1;
                    if n.text.starts_with('-') || n.text == "0" {
                        signed.push(k);
                    }
                    if let Some(c) = all.get(&k) {
                        let special = ["Pi", "Degree", "Infinity", "E", "I"].contains(&n.text.as_str());
                        let implied = ["1", "All", "Null"].contains(&n.text.as_str());
                        let ok = c.text == n.text
                            || (c.text.is_empty() && implied)
                            || (c.tok == Some(TokenKind::Symbol) && special)
                            || (c.tok == Some(TokenKind::String) && n.text.starts_with('"'));
                        if !ok {
                            bad = Some(("an abstract leaf lies at another text", format!("{} {}", n.show_spans(), c.text)));
                        }
                    } else if !n.text.starts_with('-') && n.text != "0" {
                            bad = Some(("an abstract leaf lies nowhere", format!("{}", n.show_spans())));
                    }
                }
            }
        });
    }
    for a in &asts {
        if let Some(d) = apart(a, a.span) {
            bad.get_or_insert(("abstract siblings overlap", d));
        }
    }
    if let Some((m, d)) = bad {
        return fail(m, &key, d);
    }
    if !broken {
        for (k, n) in &all {
            let atom = matches!(
                n.tok,
                Some(TokenKind::Symbol | TokenKind::Integer | TokenKind::Real | TokenKind::Rational | TokenKind::String | TokenKind::LinearSyntaxBlob)
            );
            if !atom || seen.get(k) == Some(&1) || signed.iter().any(|s: &((u32, u32), (u32, u32))| s.0 <= k.0 && k.1 <= s.1) {
                continue;
            }
            return fail(
                "an atom is not once in the abstract tree",
                &key,
                format!("{} {:?}\n{}", n.show_spans(), seen.get(k), asts.iter().map(|a| a.show_spans()).collect::<Vec<_>>().join("\n")),
            );
        }
    }
    if !broken {
        let mut at = std::collections::BTreeSet::new();
        asts.iter().for_each(|a| a.walk(&mut |n| at.extend(n.span.iter().map(key_of))));
        if let Some(k) = minus.iter().find(|k| !at.contains(k)) {
            return fail("no abstract node at a subtracted operand", &key, format!("{k:?}\n{}", asts.iter().map(|a| a.show_spans()).collect::<Vec<_>>().join("\n")));
        }
        let mut lost = None;
        ns.iter().for_each(|n| {
            n.walk(&mut |n| {
                if n.tok.is_none() && !at.contains(&key_of(&n.span.unwrap())) && !n.label.starts_with("CallGroup") && !MERGED.contains(&n.label.as_str()) {
                    lost.get_or_insert(n);
                }
            })
        });
        if let Some(n) = lost {
            return fail(format!("a node has no abstract node at its place {}", n.label), &key, format!("{}\n{}", n.show_spans(), asts.iter().map(|a| a.show_spans()).collect::<Vec<_>>().join("\n")));
        }
    }
    pass(&key, n_leaves > 1, vec![])
}

/// Siblings lie apart, but that operands of a chain may lie at the whole chain.
fn apart(n: &N, whole: Option<Span>) -> Option<String> {
    let whole = n.span.or(whole);
    let mut spans: Vec<_> = n.kids.iter().filter_map(|k| k.span).filter(|k| Some(*k) != whole).map(|k| key_of(&k)).collect();
    spans.sort();
    if spans.windows(2).any(|w| w[1].0 < w[0].1) {
        return Some(n.show_spans());
    }
    n.kids.iter().find_map(|k| apart(k, whole))
}
