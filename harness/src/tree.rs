//! A uniform view of concrete and abstract syntax trees, plus the source
//! position model the parser's spans are compared with.

use wolfram_parser::ast::{Ast, AstMetadata};
use wolfram_parser::cst::*;
use wolfram_parser::source::{Location, Source, SourceConvention, Span};
use wolfram_parser::tokenize::{Token, TokenInput, TokenKind};

/// One node of a tree, children in source order.
#[derive(Clone, Debug, PartialEq)]
pub struct N {
    /// Variant and operator, e.g. `Infix:Plus`, `Token:Symbol`.
    pub label: String,
    /// Source text, for tokens.
    pub text: String,
    pub tok: Option<TokenKind>,
    pub span: Option<Span>,
    pub kids: Vec<N>,
}

pub type TStr<'i> = wolfram_parser::tokenize::TokenStr<'i>;

pub fn tok_text<I: TokenInput>(t: &I) -> String {
    String::from_utf8_lossy(t.as_bytes()).into_owned()
}

pub fn from_token<I: TokenInput>(t: &Token<I>) -> N {
    N {
        label: format!("Token:{:?}", t.tok),
        text: tok_text(&t.input),
        tok: Some(t.tok),
        span: Some(t.src),
        kids: vec![],
    }
}

fn op<I: TokenInput, O: std::fmt::Debug>(
    kind: &str,
    node: &OperatorNode<I, Span, O>,
    span: Span,
) -> N {
    N {
        label: format!("{kind}:{:?}", node.op),
        text: String::new(),
        tok: None,
        span: Some(span),
        kids: node.children.0.iter().map(from_cst).collect(),
    }
}

pub fn from_cst<I: TokenInput>(c: &Cst<I>) -> N {
    let span = c.get_source();
    match c {
        Cst::Token(t) => from_token(t),
        Cst::Call(CallNode { head, body }) => {
            let mut kids: Vec<N> = match head {
                CallHead::Concrete(h) => h.0.iter().map(from_cst).collect(),
                CallHead::Aggregate(h) => vec![from_cst(h)],
            };
            let b = match body {
                CallBody::Group(GroupNode(o)) => op("CallGroup", o, body.get_source()),
                CallBody::GroupMissingCloser(GroupMissingCloserNode(o)) => {
                    op("CallGroupMissingCloser", o, body.get_source())
                },
            };
            kids.push(b);
            N {
                label: "Call".into(),
                text: String::new(),
                tok: None,
                span: Some(span),
                kids,
            }
        },
        Cst::SyntaxError(SyntaxErrorNode { err, children }) => N {
            label: format!("SyntaxError:{err:?}"),
            text: String::new(),
            tok: None,
            span: Some(span),
            kids: children.0.iter().map(from_cst).collect(),
        },
        Cst::Prefix(PrefixNode(o)) => op("Prefix", o, span),
        Cst::Infix(InfixNode(o)) => op("Infix", o, span),
        Cst::Postfix(PostfixNode(o)) => op("Postfix", o, span),
        Cst::Binary(BinaryNode(o)) => op("Binary", o, span),
        Cst::Ternary(TernaryNode(o)) => op("Ternary", o, span),
        Cst::PrefixBinary(PrefixBinaryNode(o)) => op("PrefixBinary", o, span),
        Cst::Compound(CompoundNode(o)) => op("Compound", o, span),
        Cst::Group(GroupNode(o)) => op("Group", o, span),
        Cst::GroupMissingCloser(GroupMissingCloserNode(o)) => {
            op("GroupMissingCloser", o, span)
        },
        Cst::GroupMissingOpener(GroupMissingOpenerNode(o)) => {
            op("GroupMissingOpener", o, span)
        },
        Cst::Box(b) => N {
            label: format!("Box:{:?}", b.kind),
            text: String::new(),
            tok: None,
            span: Some(span),
            kids: b.children.0.iter().map(from_cst).collect(),
        },
        Cst::Code(_) => N {
            label: "Code".into(),
            text: String::new(),
            tok: None,
            span: Some(span),
            kids: vec![],
        },
    }
}

pub fn from_cst_seq<I: TokenInput>(seq: &CstSeq<I>) -> Vec<N> {
    seq.0.iter().map(from_cst).collect()
}

pub fn ast_meta(a: &Ast) -> &AstMetadata {
    match a {
        Ast::Leaf { data, .. }
        | Ast::Error { data, .. }
        | Ast::Call { data, .. }
        | Ast::CallMissingCloser { data, .. }
        | Ast::SyntaxError { data, .. }
        | Ast::AbstractSyntaxError { data, .. }
        | Ast::Box { data, .. }
        | Ast::Code { data, .. }
        | Ast::Group { data, .. }
        | Ast::GroupMissingCloser { data, .. }
        | Ast::GroupMissingOpener { data, .. }
        | Ast::TagBox_GroupParen { data, .. } => data,
        Ast::PrefixNode_PrefixLinearSyntaxBang(_, data) => data,
    }
}

pub fn from_ast(a: &Ast) -> N {
    let span = match &ast_meta(a).source {
        Source::Span(s) => Some(*s),
        _ => None,
    };
    let leaf = |label: String, text: String, tok| N {
        label,
        text,
        tok,
        span,
        kids: vec![],
    };
    let node = |label: String, kids: Vec<N>| N {
        label,
        text: String::new(),
        tok: None,
        span,
        kids,
    };
    let all = |v: &[Ast]| v.iter().map(from_ast).collect::<Vec<N>>();
    match a {
        Ast::Leaf { kind, input, .. } => leaf(
            format!("Leaf:{kind:?}"),
            tok_text(input),
            Some(*kind),
        ),
        Ast::Error { kind, input, .. } => leaf(
            format!("Error:{kind:?}"),
            tok_text(input),
            Some(*kind),
        ),
        Ast::Call { head, args, .. } => {
            let mut k = vec![from_ast(head)];
            k.extend(all(args));
            node("Call".into(), k)
        },
        Ast::CallMissingCloser { head, args, .. } => {
            let mut k = vec![from_ast(head)];
            k.extend(all(args));
            node("CallMissingCloser".into(), k)
        },
        Ast::SyntaxError { kind, children, .. } => {
            node(format!("SyntaxError:{kind:?}"), all(children))
        },
        Ast::AbstractSyntaxError { kind, args, .. } => {
            node(format!("AbstractSyntaxError:{kind:?}"), all(args))
        },
        Ast::Box { kind, args, .. } => node(format!("Box:{kind:?}"), all(args)),
        Ast::Code { .. } => node("Code".into(), vec![]),
        Ast::Group { kind, children, .. } => node(
            format!("Group:{kind:?}"),
            vec![
                from_ast(&children.0),
                from_ast(&children.1),
                from_ast(&children.2),
            ],
        ),
        Ast::GroupMissingCloser { kind, children, .. } => {
            node(format!("GroupMissingCloser:{kind:?}"), all(children))
        },
        Ast::GroupMissingOpener { kind, children, .. } => {
            node(format!("GroupMissingOpener:{kind:?}"), all(children))
        },
        Ast::TagBox_GroupParen { group, .. } => node(
            "TagBox_GroupParen".into(),
            vec![from_ast(&group.0), from_ast(&group.1), from_ast(&group.2)],
        ),
        Ast::PrefixNode_PrefixLinearSyntaxBang(kids, _) => {
            node("PrefixLinearSyntaxBang".into(), all(&kids[..]))
        },
    }
}

impl N {
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a N)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
    pub fn leaves(&self) -> Vec<&N> {
        let mut v = vec![];
        self.walk(&mut |n| {
            if n.tok.is_some() {
                v.push(n)
            }
        });
        v
    }
    /// Structure and text without positions.
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.show_into(&mut o, false);
        o
    }
    pub fn show_spans(&self) -> String {
        let mut o = String::new();
        self.show_into(&mut o, true);
        o
    }
    fn show_into(&self, o: &mut String, spans: bool) {
        if self.tok.is_some() {
            o.push_str(self.label.rsplit(':').next().unwrap());
            o.push_str(&format!("{:?}", self.text));
        } else {
            o.push_str(&self.label);
        }
        if spans {
            if let Some(s) = self.span {
                o.push_str(&format!("@{s}"));
            } else {
                o.push_str("@?");
            }
        }
        if self.tok.is_none() {
            o.push('[');
            for (i, k) in self.kids.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                k.show_into(o, spans);
            }
            o.push(']');
        }
    }
    pub fn has_error(&self) -> bool {
        let mut e = false;
        self.walk(&mut |n| {
            if is_error_label(&n.label) {
                e = true;
            }
        });
        e
    }
}

pub fn is_error_label(l: &str) -> bool {
    l.starts_with("SyntaxError:")
        || l.contains("MissingCloser")
        || l.contains("MissingOpener")
        || l.starts_with("Token:Error_")
        || l.starts_with("Error:")
        || l.starts_with("Leaf:Error_")
        || l.starts_with("AbstractSyntaxError")
}

pub fn show_seq(ns: &[N]) -> String {
    ns.iter().map(|n| n.show()).collect::<Vec<_>>().join(" ; ")
}
pub fn show_seq_spans(ns: &[N]) -> String {
    ns.iter()
        .map(|n| n.show_spans())
        .collect::<Vec<_>>()
        .join(" ; ")
}

//======================================================================
// Positions
//======================================================================

/// Independent model of source positions, for every character boundary.
pub struct Pos {
    /// (line, column, char index), by byte offset; only boundaries are set.
    at: Vec<Option<(u32, u32, u32)>>,
}

impl Pos {
    pub fn new(input: &str, tab: u32) -> Pos {
        let mut at = vec![None; input.len() + 1];
        let (mut line, mut col, mut idx) = (1u32, 1u32, 1u32);
        let bytes = input.as_bytes();
        for (o, c) in input.char_indices() {
            at[o] = Some((line, col, idx));
            idx += 1;
            match c {
                '\n' => {
                    line += 1;
                    col = 1;
                },
                '\r' => {
                    if bytes.get(o + 1) == Some(&b'\n') {
                        // the pair is one line break; the boundary between
                        // the two characters stays on the old line
                        col += 1;
                    } else {
                        line += 1;
                        col = 1;
                    }
                },
                '\t' => {
                    // columns 1, 1+tab, 1+2*tab, ... are tab stops
                    let mut next = col + 1;
                    while (next - 1) % tab != 0 {
                        next += 1;
                    }
                    col = next;
                },
                _ => col += 1,
            }
        }
        at[input.len()] = Some((line, col, idx));
        Pos { at }
    }
    pub fn loc(&self, off: usize, conv: SourceConvention) -> Option<Location> {
        let (l, c, i) = (*self.at.get(off)?)?;
        Some(match conv {
            SourceConvention::LineColumn => lc(l, c),
            SourceConvention::CharacterIndex => Location::CharacterIndex(i),
        })
    }
    pub fn span(&self, a: usize, b: usize, conv: SourceConvention) -> String {
        format!(
            "{:?}..{:?}",
            self.loc(a, conv).unwrap(),
            self.loc(b, conv).unwrap()
        )
    }
    /// Byte offset of a location, if it is one of a character boundary.
    pub fn offset_of(&self, l: Location) -> Option<usize> {
        // the last match: the boundary inside \r\n never collides
        self.at.iter().position(|p| match (p, l) {
            (Some((a, b, _)), Location::LineColumn(x)) => {
                *a == x.0.get() && *b == x.1.get()
            },
            (Some((_, _, i)), Location::CharacterIndex(j)) => *i == j,
            _ => false,
        })
    }
    pub fn end(&self, conv: SourceConvention) -> Location {
        self.loc(self.at.len() - 1, conv).unwrap()
    }
}

pub fn lc(l: u32, c: u32) -> Location {
    use std::num::NonZeroU32;
    Location::LineColumn(wolfram_parser::source::LineColumn(
        NonZeroU32::new(l).unwrap(),
        NonZeroU32::new(c).unwrap(),
    ))
}

pub fn span_str(s: &Span) -> String {
    format!("{:?}..{:?}", s.start(), s.end())
}

pub fn source_str(s: &wolfram_parser::source::Source) -> String {
    use wolfram_parser::source::Source;
    match s {
        Source::Span(s) => span_str(s),
        s => format!("{s:?}"),
    }
}

/// Total order key of a location.
pub fn loc_key(l: Location) -> (u32, u32) {
    match l {
        Location::LineColumn(x) => (x.0.get(), x.1.get()),
        Location::CharacterIndex(i) => (0, i),
    }
}
