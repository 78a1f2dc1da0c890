//! P25: positions; P26: traversal and printing of trees.

use super::*;
use crate::opts;
use crate::textgen::{any_bytes, any_text, TextCfg};
use crate::tree::{self, N};
use std::num::NonZeroU32;
use wolfram_parser::abstract_cst::aggregate_cst_seq;
use wolfram_parser::cst::*;
use wolfram_parser::fmt_as_expr::FmtAsExpr;
use wolfram_parser::source::*;
use wolfram_parser::tokenize::{TokenInput, TokenKind};
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "P25",
            assumptions: &["span ends count as inside, as the documented examples and the tests of intersection() say"],
            subs: vec![
                Sub {
                    name: "algebra",
                    quick: 400_000,
                    thorough: 20_000_000,
                    rule: "pairs of spans of both conventions, mostly close together; contains, overlaps, order and Display against the set of places covered; non-trivial: the spans overlap without being equal",
                    f: algebra,
                },
                Sub {
                    name: "boxes",
                    quick: 100_000,
                    thorough: 2_000_000,
                    rule: "places of boxes of all kinds are printed and read back; the place between two boxes is the stretch of the innermost row that holds both; non-trivial: two different boxes below one row",
                    f: boxes,
                },
                Sub {
                    name: "nesting",
                    quick: 60_000,
                    thorough: 3_000_000,
                    rule: "two nodes of the tree of any text; their spans overlap if one is inside the other, and contain the places of everything in them; non-trivial: neither is a leaf",
                    f: nesting,
                },
            ],
        },
        Property {
            id: "P26",
            assumptions: &["token text is printed between quotes, escaped or not (a FIXME of fmt_as_expr.rs), and a list may end in a comma"],
            subs: vec![
                Sub {
                    name: "visit",
                    quick: 60_000,
                    thorough: 3_000_000,
                    rule: "the tree of any text, as read, aggregated, and with boxes and groups without openers put in; visit, visit_mut, map_visit and into_owned_input against a walk of our own; non-trivial: at least ten nodes",
                    f: visit,
                },
                Sub {
                    name: "print",
                    quick: 60_000,
                    thorough: 3_000_000,
                    rule: "the tree of any text, printed with FmtAsExpr and read back against the tree; non-trivial: at least ten nodes",
                    f: print,
                },
            ],
        },
    ]
}

fn coord(s: &mut Src) -> u32 {
    match s.below(12) {
        0 => u32::MAX - s.below(3),
        1 => s.range(90, 110),
        2 => 1 << s.below(32),
        _ => s.range(1, 5),
    }
}

fn lc(s: &mut Src) -> (u32, u32) {
    (coord(s), coord(s))
}

fn mk(p: (u32, u32)) -> LineColumn {
    LineColumn(NonZeroU32::new(p.0).unwrap(), NonZeroU32::new(p.1).unwrap())
}

fn algebra(s: &mut Src) -> Outcome {
    let chars = s.chance(1, 3);
    let mut pair = |s: &mut Src| {
        let (a, b) = if chars { ((coord(s), 0), (coord(s), 0)) } else { (lc(s), lc(s)) };
        if a <= b { (a, b) } else { (b, a) }
    };
    let (a, b) = (pair(s), pair(s));
    let c = if chars { (coord(s), 0) } else { lc(s) };
    let key = format!("{a:?} {b:?} {c:?} {}", if chars { "characters" } else { "lines" });
    let span = |p: ((u32, u32), (u32, u32))| {
        if chars {
            Span::from_character_span(p.0 .0, p.1 .0)
        } else {
            Span::line_column(mk(p.0), mk(p.1))
        }
    };
    let loc = |p: (u32, u32)| if chars { Location::CharacterIndex(p.0) } else { Location::LineColumn(mk(p)) };
    let (x, y) = (span(a), span(b));
    if x.start() != loc(a.0) || x.end() != loc(a.1) || x.start_end() != (loc(a.0), loc(a.1)) {
        return fail("a span does not keep its ends", &key, format!("{x:?}"));
    }
    let want = a.0.max(b.0) <= a.1.min(b.1);
    for (n, g) in [("overlaps", x.overlaps(y)), ("overlaps, turned round,", y.overlaps(x))] {
        if g != want {
            return fail(format!("{n} is wrong"), &key, format!("{g}"));
        }
    }
    if !chars {
        let (SpanKind::LineColumnSpan(lx), SpanKind::LineColumnSpan(ly)) = (x.kind(), y.kind()) else {
            return fail("a span changes its kind", &key, "");
        };
        if lx.contains(mk(c)) != (a.0 <= c && c <= a.1) {
            return fail("contains is wrong", &key, format!("{}", lx.contains(mk(c))));
        }
        if lx.overlaps(ly) != want {
            return fail("LineColumnSpan::overlaps is wrong", &key, "");
        }
        if Span::from(lx) != x {
            return fail("a span differs after conversion", &key, "");
        }
        let show = if a.0 .0 == a.1 .0 {
            format!("{}:{}-{}", a.0 .0, a.0 .1, a.1 .1)
        } else {
            format!("{}:{}-{}:{}", a.0 .0, a.0 .1, a.1 .0, a.1 .1)
        };
        if format!("{x}") != show {
            return fail("a span is shown otherwise", &key, format!("{x}"));
        }
        if mk(c).line().get() != c.0 || mk(c).column().get() != c.1 {
            return fail("a place does not keep its line and column", &key, "");
        }
        if mk(a.0).partial_cmp(&mk(c)) != Some(a.0.cmp(&c)) {
            return fail("places are ordered otherwise", &key, "");
        }
        if !Span::at(loc(c)).overlaps(Span::at(loc(c))) {
            return fail("a place does not overlap itself", &key, "");
        }
    } else {
        let SpanKind::CharacterSpan(k) = x.kind() else {
            return fail("a span changes its kind", &key, "");
        };
        if Span::from(k) != x {
            return fail("a span differs after conversion", &key, "");
        }
        if loc(c).partial_cmp(&Location::LineColumn(mk((1, 1)))).is_some() {
            return fail("places of different conventions are ordered", &key, "");
        }
    }
    if loc(a.0).partial_cmp(&loc(c)) != Some(a.0.cmp(&c)) {
        return fail("locations are ordered otherwise", &key, "");
    }
    let shown = if chars { format!("{}", c.0) } else { format!("{}:{}", c.0, c.1) };
    if format!("{}", loc(c)) != shown {
        return fail("a place is shown otherwise", &key, format!("{}", loc(c)));
    }
    if chars && format!("{x}") != format!("{}..{}", a.0 .0, a.1 .0) {
        return fail("a span is shown otherwise", &key, format!("{x}"));
    }
    if format!("{}", Source::Span(x)) != format!("{x}") {
        return fail("a source is shown otherwise than its span", &key, format!("{}", Source::Span(x)));
    }
    if x.partial_cmp(&y) != Some(a.0.cmp(&b.0)) || Source::Span(x).partial_cmp(&Source::Span(y)) != Some(a.0.cmp(&b.0)) {
        return fail("spans are not ordered by where they start", &key, "");
    }
    let at = Span::at(loc(c));
    if at.start() != loc(c) || at.end() != loc(c) {
        return fail("Span::at is not at its place", &key, format!("{at:?}"));
    }
    pass(&key, want && a != b, vec![])
}

fn path(s: &mut Src, least: u32) -> Vec<usize> {
    (0..s.range(least, 5)).map(|_| if s.chance(1, 8) { s.range(90, 1100) as usize } else { s.range(1, 4) as usize }).collect()
}

fn read_path(t: &str) -> Option<Vec<usize>> {
    if t.is_empty() {
        return Some(vec![]);
    }
    t.split(", ").map(|x| x.parse().ok()).collect()
}

/// A printed place of a box, read back.
fn read_box(t: &str) -> Option<BoxPosition> {
    let list = |t: &str| read_path(t.strip_prefix('{')?.strip_suffix('}')?);
    if let Some(x) = t.strip_prefix("Before[") {
        return Some(BoxPosition::Before(list(x.strip_suffix(']')?)?));
    }
    if let Some(x) = t.strip_prefix("After[") {
        return Some(BoxPosition::After(list(x.strip_suffix(']')?)?));
    }
    let x = t.strip_prefix('{')?.strip_suffix('}')?;
    match x.split_once(" ;; ") {
        None => Some(BoxPosition::At(read_path(x)?)),
        Some((l, r)) => {
            let mut index = read_path(l)?;
            let first = index.pop()?;
            Some(BoxPosition::Spanning { index, span: (first, r.parse().ok()?) })
        },
    }
}

fn boxes(s: &mut Src) -> Outcome {
    // a row, and two boxes somewhere in it
    let row = path(s, 1);
    let (i, j) = (s.range(1, 6) as usize, s.range(1, 12) as usize);
    let (i, j) = (i.min(j), i.max(j));
    let part = |s: &mut Src, k: usize, first: bool| {
        let mut v = row.clone();
        v.push(k);
        v.extend(path(s, 0));
        match s.below(4) {
            0 => BoxPosition::Before(v),
            1 => BoxPosition::After(v),
            2 if v.len() > row.len() + 1 => {
                let n = v.pop().unwrap();
                BoxPosition::Spanning { index: v, span: if first { (n, n + 2) } else { (1, n) } }
            },
            _ => BoxPosition::At(v),
        }
    };
    let (a, b) = (part(s, i, true), part(s, j, false));
    let key = format!("{a:?} {b:?}");
    for x in [&a, &b] {
        let t = x.to_string();
        if read_box(&t).as_ref() != Some(x) || Source::Box(x.clone()).to_string() != t {
            return fail("a place of a box is shown otherwise", &key, t);
        }
    }
    let same = match guard(|| BoxPosition::between(&a, &a)) {
        Ok(x) => x,
        Err(e) => return panicked(&e, &key),
    };
    if same != Some(a.clone()) {
        return fail("the place from a box to itself is another", &key, format!("{same:?}"));
    }
    if i == j {
        return pass(&key, false, vec![]);
    }
    let got = match guard(|| BoxPosition::between(&a, &b)) {
        Ok(x) => x,
        Err(e) => return panicked(&e, &key),
    };
    let stretch = Some(BoxPosition::Spanning { index: row.clone(), span: (i, j) });
    // a stretch from the first box on is that of the whole row
    let whole = Some(BoxPosition::At(row[..row.len() - 1].to_vec()));
    if got != stretch && !(i == 1 && got == whole) {
        return fail("the place between two boxes is another", &key, format!("{got:?}"));
    }
    pass(&key, true, vec![])
}

fn nesting(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let text = any_text(s, TextCfg { max_frags: 12 });
    let key0 = format!("{} | {text:?}", o.show());
    let r = parse_cst_seq(&text, &o.make());
    let ns = tree::from_cst_seq(&r.syntax);
    let mut all: Vec<&N> = vec![];
    for n in &ns {
        n.walk(&mut |n| all.push(n));
    }
    if all.is_empty() {
        return Outcome::Discard("no nodes");
    }
    let i = s.below(all.len() as u32) as usize;
    let n = all[i];
    let Some(sp) = n.span else { return Outcome::Discard("no span") };
    let key = format!("{key0} | node {i}");
    let mut bad = None;
    let mut kids = 0;
    n.walk(&mut |m| {
        kids += 1;
        let Some(q) = m.span else { return };
        if !sp.overlaps(q) || !q.overlaps(sp) {
            bad = Some(format!("{q} is not said to overlap {sp}"));
        }
        if let (SpanKind::LineColumnSpan(a), SpanKind::LineColumnSpan(b)) = (sp.kind(), q.kind()) {
            if !a.contains(b.start) || !a.contains(b.end) {
                bad = Some(format!("{b} is not said to be in {a}"));
            }
        }
    });
    if let Some(b) = bad {
        return fail("the span of a node does not cover what is in it", &key, b);
    }
    pass(&key, kids > 2, vec![])
}

fn plain<I: TokenInput>(c: &Cst<I>) -> String {
    tree::from_cst(c).show_spans()
}

fn seq<I: TokenInput>(c: &CstSeq<I>) -> String {
    tree::show_seq_spans(&tree::from_cst_seq(c))
}

/// Our own walk: a node, then what is in it, in order.
fn walk(n: &N, o: &mut Vec<String>) {
    if !n.label.starts_with("CallGroup") {
        o.push(n.show_spans());
    }
    for k in &n.kids {
        walk(k, o);
    }
}

fn renamed(n: &mut N) {
    if n.label == "Token:Symbol" {
        n.label = "Token:Integer".into();
    }
    n.kids.iter_mut().for_each(renamed);
}

fn check_visit<I: TokenInput + Clone + std::fmt::Debug + PartialEq>(t: &CstSeq<I>, key: &str) -> Result<usize, Outcome> {
    let ns = tree::from_cst_seq(t);
    let mut want = vec![];
    ns.iter().for_each(|n| walk(n, &mut want));
    let mut got = vec![];
    t.visit(&mut |c| got.push(plain(c)));
    if got != want {
        return Err(fail("visit does not visit every node once, in order", key, format!("{got:?}\nnot\n{want:?}")));
    }
    let mut m = t.clone();
    let mut got = vec![];
    m.visit_mut(&mut |c| got.push(plain(c)));
    if got != want {
        return Err(fail("visit_mut does not visit every node once, in order", key, format!("{got:?}\nnot\n{want:?}")));
    }
    if seq(&m) != seq(t) {
        return Err(fail("visit_mut changes a tree by itself", key, seq(&m)));
    }
    let mut got = vec![];
    let same = t.clone().map_visit(&mut |c| {
        got.push(plain(&c));
        c
    });
    if got != want {
        return Err(fail("map_visit does not visit every node once, in order", key, format!("{got:?}\nnot\n{want:?}")));
    }
    if same != *t {
        return Err(fail("map_visit changes a tree by itself", key, seq(&same)));
    }
    // Every symbol becomes an integer, and nothing else changes.
    let mut r = ns.clone();
    r.iter_mut().for_each(renamed);
    let r = tree::show_seq_spans(&r);
    let change = |c: &mut Cst<I>| {
        if let Cst::Token(t) = c {
            if t.tok == TokenKind::Symbol {
                t.tok = TokenKind::Integer;
            }
        }
    };
    m.visit_mut(&mut |c| change(c));
    let n = t.clone().map_visit(&mut |mut c| {
        change(&mut c);
        c
    });
    for (what, got) in [("visit_mut", seq(&m)), ("map_visit", seq(&n))] {
        if got != r {
            return Err(fail(format!("changes made with {what} are lost"), key, format!("{got}\nnot\n{r}")));
        }
    }
    let owned = wolfram_parser::NodeSeq(t.clone().0.into_iter().map(|c| c.into_owned_input()).collect());
    if seq(&owned) != seq(t) {
        return Err(fail("into_owned_input changes the tree", key, seq(&owned)));
    }
    Ok(want.len())
}

/// Puts boxes and groups without openers in a tree: the parser of text makes
/// neither, the parser of boxes does.
pub fn boxed<I: TokenInput>(s: &mut Src, c: Cst<I>, boxes: u32) -> Cst<I> {
    fn op<I: TokenInput, O>(s: &mut Src, n: OperatorNode<I, Span, O>, boxes: u32) -> OperatorNode<I, Span, O> {
        OperatorNode { op: n.op, children: all(s, n.children, boxes) }
    }
    fn all<I: TokenInput>(s: &mut Src, c: CstSeq<I>, boxes: u32) -> CstSeq<I> {
        NodeSeq(c.0.into_iter().map(|c| boxed(s, c, boxes)).collect())
    }
    let span = tree::from_cst(&c).span;
    let c = match c {
        Cst::Token(t) => Cst::Token(t),
        Cst::Prefix(PrefixNode(o)) => Cst::Prefix(PrefixNode(op(s, o, boxes))),
        Cst::Infix(InfixNode(o)) => Cst::Infix(InfixNode(op(s, o, boxes))),
        Cst::Postfix(PostfixNode(o)) => Cst::Postfix(PostfixNode(op(s, o, boxes))),
        Cst::Binary(BinaryNode(o)) => Cst::Binary(BinaryNode(op(s, o, boxes))),
        Cst::Ternary(TernaryNode(o)) => Cst::Ternary(TernaryNode(op(s, o, boxes))),
        Cst::PrefixBinary(PrefixBinaryNode(o)) => Cst::PrefixBinary(PrefixBinaryNode(op(s, o, boxes))),
        Cst::Compound(CompoundNode(o)) => Cst::Compound(CompoundNode(op(s, o, boxes))),
        Cst::Group(GroupNode(o)) | Cst::GroupMissingCloser(GroupMissingCloserNode(o)) => {
            let o = op(s, o, boxes);
            match s.below(3) {
                0 => Cst::Group(GroupNode(o)),
                1 => Cst::GroupMissingCloser(GroupMissingCloserNode(o)),
                _ => Cst::GroupMissingOpener(GroupMissingOpenerNode(o)),
            }
        },
        Cst::SyntaxError(SyntaxErrorNode { err, children }) => {
            Cst::SyntaxError(SyntaxErrorNode { err, children: all(s, children, boxes) })
        },
        Cst::Call(CallNode { head, body }) => {
            let head = match head {
                CallHead::Concrete(h) => CallHead::Concrete(all(s, h, boxes)),
                CallHead::Aggregate(h) => CallHead::Aggregate(Box::new(boxed(s, *h, boxes))),
            };
            let body = match body {
                CallBody::Group(GroupNode(o)) => CallBody::Group(GroupNode(op(s, o, boxes))),
                CallBody::GroupMissingCloser(GroupMissingCloserNode(o)) => {
                    CallBody::GroupMissingCloser(GroupMissingCloserNode(op(s, o, boxes)))
                },
            };
            Cst::Call(CallNode { head, body })
        },
        c => c,
    };
    match span {
        Some(src) if s.chance(boxes, 8) => {
            let kind = match s.below(3) {
                0 => BoxKind::RowBox,
                1 => BoxKind::SuperscriptBox,
                _ => BoxKind::TagBox,
            };
            Cst::Box(BoxNode { kind, children: NodeSeq(vec![c]), src })
        },
        _ => c,
    }
}

fn visit(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let text = any_text(s, TextCfg { max_frags: 10 });
    let key = format!("{} | {text:?}", o.show());
    let r = parse_cst_seq(&text, &o.make());
    let n = match check_visit(&r.syntax, &key) {
        Ok(n) => n,
        Err(e) => return e,
    };
    let agg = aggregate_cst_seq(r.syntax.clone());
    if let Err(e) = check_visit(&agg, &format!("aggregated | {key}")) {
        return e;
    }
    if s.chance(1, 2) {
        let NodeSeq(ns) = if s.chance(1, 2) { r.syntax } else { agg };
        let b = NodeSeq(ns.into_iter().map(|c| boxed(s, c, 1)).collect());
        if let Err(e) = check_visit(&b, &format!("boxed {} | {key}", seq(&b))) {
            return e;
        }
    }
    pass(&key, n >= 10, vec![])
}

struct Rd<'a>(&'a str);

impl<'a> Rd<'a> {
    fn eat(&mut self, t: &str) -> Result<(), String> {
        match self.0.strip_prefix(t) {
            Some(r) => {
                self.0 = r;
                Ok(())
            },
            None => Err(format!("expected {t:?} before {:?}", self.0.chars().take(60).collect::<String>())),
        }
    }
    fn space(&mut self) {
        self.0 = self.0.trim_start_matches(' ');
    }
    fn comma(&mut self) -> Result<(), String> {
        self.space();
        self.eat(",")?;
        self.space();
        Ok(())
    }
    fn symbol(&mut self) -> &'a str {
        let n = self.0.find(|c: char| !c.is_ascii_alphanumeric() && c != '`' && c != '$').unwrap_or(self.0.len());
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn list(&mut self, ns: &[N]) -> Result<(), String> {
        self.eat("System`List[")?;
        for (i, n) in ns.iter().enumerate() {
            if i > 0 {
                self.comma()?;
            }
            self.node(n)?;
        }
        self.space();
        if !ns.is_empty() && self.0.starts_with(',') {
            self.comma()?;
        }
        self.eat("]")
    }
    fn span(&mut self, n: &N) -> Result<(), String> {
        let Some(sp) = n.span else { return Err("no span".into()) };
        let SpanKind::LineColumnSpan(LineColumnSpan { start, end }) = sp.kind() else { return Err("no lines".into()) };
        self.eat(&format!(
            "{{{{{}, {}}}, {{{}, {}}}}}",
            start.line(),
            start.column(),
            end.line(),
            end.column()
        ))
    }
    fn node(&mut self, n: &N) -> Result<(), String> {
        let (kind, op) = n.label.split_once(':').unwrap_or((&n.label, ""));
        let head = match kind {
            "Token" if op.starts_with("Error_") => "ErrorNode".to_string(),
            "Token" => "LeafNode".into(),
            "CallGroup" => "GroupNode".into(),
            "CallGroupMissingCloser" => "GroupMissingCloserNode".into(),
            k => format!("{k}Node"),
        };
        self.eat(&format!("CodeParser`{head}["))?;
        if kind == "Call" {
            let (body, h) = n.kids.split_last().ok_or("a call without a body")?;
            if self.0.starts_with("System`List[") {
                self.list(h)?;
            } else if h.len() == 1 {
                self.node(&h[0])?;
            } else {
                return Err("the head is not a list".into());
            }
            self.comma()?;
            self.node(body)?;
        } else {
            let s = self.symbol();
            // `CodeParser_GroupSquare` is ``CodeParser`GroupSquare``, `Plus` is ``System`Plus``.
            let want = match (kind, op) {
                ("Token", "EndOfFile" | "Symbol" | "String" | "Integer" | "Real" | "Rational" | "Whitespace") => format!("System`{op}"),
                ("Token", "ToplevelNewline" | "InternalNewline") => "Token`Newline".into(),
                ("Token", _) => format!("Token`{}", op.replace('_', "`")),
                ("SyntaxError", _) => format!("SyntaxError`{op}"),
                _ if op.contains('_') => op.replace('_', "`"),
                _ => format!("System`{op}"),
            };
            if s != want {
                return Err(format!("{s} printed for {}", n.label));
            }
            self.comma()?;
            if kind == "Token" {
                let esc = n.text.replace('\\', "\\\\").replace('"', "\\\"");
                let raw = format!("\"{}\", {{", n.text);
                if self.0.starts_with(&raw) {
                    self.eat(&format!("\"{}\"", n.text))?;
                } else {
                    self.eat(&format!("\"{esc}\""))?;
                }
            } else {
                self.list(&n.kids)?;
            }
        }
        self.comma()?;
        self.span(n)?;
        self.eat("]")
    }
}

fn print(s: &mut Src) -> Outcome {
    let o = opts::O { conv: SourceConvention::LineColumn, ..opts::any(s) };
    let text = if s.chance(1, 5) {
        any_bytes(s, TextCfg { max_frags: 10 })
    } else {
        any_text(s, TextCfg { max_frags: 10 }).into_bytes()
    };
    let key = format!("{} | {:?}", o.show(), String::from_utf8_lossy(&text));
    let r = parse_bytes_cst_seq(&text, &o.make());
    let mut count = 0;
    for (what, t) in [("", r.syntax.clone()), ("aggregated: ", aggregate_cst_seq(r.syntax.clone()))] {
        let ns = tree::from_cst_seq(&t);
        let out = format!("{}", FmtAsExpr(&t));
        let mut rd = Rd(&out);
        let e = rd.list(&ns).and_then(|_| if rd.0.is_empty() { Ok(()) } else { Err(format!("{:?} is left", rd.0)) });
        if let Err(e) = e {
            return fail("the printed tree differs", &key, format!("{what}{e} in {out}"));
        }
        count = 0;
        ns.iter().for_each(|n| n.walk(&mut |_| count += 1));
    }
    let Ok(toks) = tokenize_bytes(&text, &o.make()) else {
        return pass(&key, count >= 10, vec!["not UTF-8"]);
    };
    let ns: Vec<N> = toks.0.iter().map(tree::from_token).collect();
    let out = format!("{}", FmtAsExpr(&toks));
    let mut rd = Rd(&out);
    if let Err(e) = rd.list(&ns) {
        return fail("the printed tokens differ", &key, format!("{e} in {out}"));
    }
    pass(&key, count >= 10, vec![])
}
