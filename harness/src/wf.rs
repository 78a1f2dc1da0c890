//! Well-formed programs as item sequences, a renderer that places trivia
//! between the items, and a reference parser for them: a small operator
//! precedence parser driven by the frozen operator table.

use crate::engine::Src;
use crate::optable::{Kind, Op, LEVELS, OPS};
use crate::tree::N;
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AtomKind {
    Symbol,
    Number,
    Str,
    /// `x_`, `x__h` ...: may stand left of `:`
    Pattern,
    /// `_`, `#1`, `%` ...
    Other,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    /// Source text, and the tree it denotes.
    Atom(AtomKind, &'static str),
    Op(&'static str),
    /// Index into GROUPS.
    Open(usize),
    Close(usize),
    /// Index into CALLS.
    CallOpen(usize),
    CallClose(usize),
    Comma(&'static str),
    /// `::tag`
    Tag(&'static str),
    /// `>> file`, `>>> file`, `<< file`
    File(&'static str, &'static str),
    /// `=` followed by `.`
    Unset,
}

pub const GROUPS: &[(&str, &str, &str)] = &[
    ("(", ")", "GroupParen"),
    ("{", "}", "List"),
    ("<|", "|>", "Association"),
    ("\\[LeftAssociation]", "\\[RightAssociation]", "Association"),
    ("\\[LeftAngleBracket]", "\\[RightAngleBracket]", "AngleBracket"),
    ("\\[LeftCeiling]", "\\[RightCeiling]", "Ceiling"),
    ("\\[LeftFloor]", "\\[RightFloor]", "Floor"),
    ("\\[LeftBracketingBar]", "\\[RightBracketingBar]", "BracketingBar"),
    (
        "\\[LeftDoubleBracketingBar]",
        "\\[RightDoubleBracketingBar]",
        "DoubleBracketingBar",
    ),
    ("\\[OpenCurlyQuote]", "\\[CloseCurlyQuote]", "CurlyQuote"),
    (
        "\\[OpenCurlyDoubleQuote]",
        "\\[CloseCurlyDoubleQuote]",
        "CurlyDoubleQuote",
    ),
];

pub const CALLS: &[(&str, &str, &str)] = &[
    ("[", "]", "GroupSquare"),
    ("[[", "]]", "PART"),
    ("::[", "]", "GroupTypeSpecifier"),
    (
        "\\[LeftDoubleBracket]",
        "\\[RightDoubleBracket]",
        "GroupDoubleBracket",
    ),
];

/// Text and tree of the atoms that are not one token.
pub const COMPOUNDS: &[(AtomKind, &str, &str)] = &[
    (AtomKind::Pattern, "x_", "Compound:PatternBlank[x, _]"),
    (AtomKind::Pattern, "y__", "Compound:PatternBlankSequence[y, __]"),
    (AtomKind::Pattern, "z___", "Compound:PatternBlankNullSequence[z, ___]"),
    (
        AtomKind::Pattern,
        "x_h",
        "Compound:PatternBlank[x, Compound:Blank[_, h]]",
    ),
    (
        AtomKind::Pattern,
        "x__h",
        "Compound:PatternBlankSequence[x, Compound:BlankSequence[__, h]]",
    ),
    (
        AtomKind::Pattern,
        "x___h",
        "Compound:PatternBlankNullSequence[x, Compound:BlankNullSequence[___, h]]",
    ),
    (AtomKind::Pattern, "_", "_"),
    (AtomKind::Pattern, "__", "__"),
    (AtomKind::Pattern, "___", "___"),
    (AtomKind::Pattern, "_h", "Compound:Blank[_, h]"),
    (AtomKind::Pattern, "__h", "Compound:BlankSequence[__, h]"),
    (AtomKind::Pattern, "___h", "Compound:BlankNullSequence[___, h]"),
    (AtomKind::Other, "_.", "_."),
    (AtomKind::Other, "x_.", "Compound:PatternOptionalDefault[x, _.]"),
    (AtomKind::Other, "#", "#"),
    (AtomKind::Other, "#1", "Compound:Slot[#, 1]"),
    (AtomKind::Other, "#12", "Compound:Slot[#, 12]"),
    (AtomKind::Other, "#name", "Compound:Slot[#, name]"),
    (AtomKind::Other, "#\"str\"", "Compound:Slot[#, \"str\"]"),
    (AtomKind::Other, "##", "##"),
    (AtomKind::Other, "##2", "Compound:SlotSequence[##, 2]"),
    (AtomKind::Other, "%", "%"),
    (AtomKind::Other, "%%", "%%"),
    (AtomKind::Other, "%%%", "%%%"),
    (AtomKind::Other, "%5", "Compound:Out[%, 5]"),
    (AtomKind::Other, "%%%%%%%", "%%%%%%%"),
    (AtomKind::Other, "%120", "Compound:Out[%, 120]"),
    (AtomKind::Other, "#0", "Compound:Slot[#, 0]"),
    (AtomKind::Other, "##10", "Compound:SlotSequence[##, 10]"),
    (AtomKind::Pattern, "c`x_c`h", "Compound:PatternBlank[c`x, Compound:Blank[_, c`h]]"),
];

pub const ATOM_SYMBOLS: &[&str] = &[
    "a", "b", "c", "d", "f", "x", "abc", "$v", "ctx`s", "`loc", "x1", "Plus",
    "\\[Alpha]", "\u{3b1}\u{3b2}", "\\[CapitalGamma]k", "Times", "All", "Null",
    "\\[Pi]", "\\[Infinity]", "\u{221e}", "\\[Degree]", "\\[ExponentialE]",
    "\\[ImaginaryI]", "\\[ImaginaryJ]",
    "aaaaaaaaaaaaaaaaaaaab1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1b1", "a`b`c`d`e`f`g`h`i`j`k`l`m`n`o`p`q`r`s`t`u`v",
];
pub const ATOM_NUMBERS: &[&str] =
    &["0", "1", "42", "1.5", "3.", ".5", "1`", "2`5", "1``7", "16^^fF", "1.5*^-3",
    "1*^-3", "2*^3", "2^^1.1", "0.", "00", "10``20",
    "31415926535897932384626433832795028841971693993751058209749445923078164062862089986280348253421170679",
    "0.0000000000000000000000000000000000000000000000000000000000000000000000000001",
    "16^^0123456789abcdefABCDEF0123456789abcdefABCDEF0123456789abcdef", "1.5*^123456789012345678901234567890"];
pub const ATOM_STRINGS: &[&str] =
    &["\"\"", "\"s\"", "\"a + b\"", "\"\\\"q\\\"\"", "\"(* x *)\"", "\"\u{e9}\"",
    "\"lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum lorem ipsum \""];

pub const FILES: &[&str] = &["file", "a/b.wl", "ctx`", "\"q f\""];
pub const TAGS: &[&str] = &["tag", "usage", "\"str\"", "a1"];

pub const INTEGRALS: &[(&str, &str)] = &[
    ("\\[Integral]", "Integral"),
    ("\\[ContourIntegral]", "ContourIntegral"),
    ("\\[DoubleContourIntegral]", "DoubleContourIntegral"),
    ("\\[ClockwiseContourIntegral]", "ClockwiseContourIntegral"),
    (
        "\\[CounterClockwiseContourIntegral]",
        "CounterClockwiseContourIntegral",
    ),
];

impl Item {
    pub fn text(&self) -> String {
        match self {
            Item::Atom(_, t) => t.to_string(),
            Item::Op(t) => t.to_string(),
            Item::Open(i) => GROUPS[*i].0.into(),
            Item::Close(i) => GROUPS[*i].1.into(),
            Item::CallOpen(i) => CALLS[*i].0.into(),
            Item::CallClose(i) => CALLS[*i].1.into(),
            Item::Comma(t) => t.to_string(),
            Item::Tag(t) => format!("::{t}"),
            Item::File(o, f) => format!("{o} {f}"),
            Item::Unset => "=.".into(),
        }
    }
}

//======================================================================
// Table access
//======================================================================

struct Tab {
    prefix: HashMap<&'static str, &'static Op>,
    /// Binary, Infix and Postfix
    after: HashMap<&'static str, &'static Op>,
    prefix_only: Vec<&'static Op>,
    prefixes: Vec<&'static Op>,
    infixes: Vec<&'static Op>,
    ascii_infixes: Vec<&'static Op>,
    postfixes: Vec<&'static Op>,
    level: HashMap<&'static str, u32>,
}

fn tab() -> &'static Tab {
    static T: OnceLock<Tab> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tab {
            prefix: HashMap::new(),
            after: HashMap::new(),
            prefix_only: vec![],
            prefixes: vec![],
            infixes: vec![],
            ascii_infixes: vec![],
            postfixes: vec![],
            level: HashMap::new(),
        };
        for o in OPS.iter() {
            match o.kind {
                Kind::Prefix => {
                    t.prefix.insert(o.text, o);
                    t.prefixes.push(o);
                },
                Kind::Postfix => {
                    t.after.insert(o.text, o);
                    t.postfixes.push(o);
                },
                _ => {
                    t.after.insert(o.text, o);
                    t.infixes.push(o);
                    if !o.text.starts_with('\\') {
                        t.ascii_infixes.push(o);
                    }
                },
            }
        }
        for o in OPS.iter() {
            if o.kind == Kind::Prefix && !t.after.contains_key(o.text) {
                t.prefix_only.push(o);
            }
        }
        for (n, p, right) in LEVELS.iter() {
            // right associative levels get an odd number
            t.level.insert(n, p * 2 + u32::from(*right));
        }
        t
    })
}

fn lev(name: &str) -> u32 {
    *tab()
        .level
        .get(name)
        .unwrap_or_else(|| panic!("no level {name}"))
}

//======================================================================
// Generation
//======================================================================

pub fn atom(s: &mut Src) -> Item {
    match s.weighted(&[10, 4, 2, 4]) {
        0 => Item::Atom(AtomKind::Symbol, s.ps(ATOM_SYMBOLS)),
        1 => Item::Atom(AtomKind::Number, s.ps(ATOM_NUMBERS)),
        2 => Item::Atom(AtomKind::Str, s.ps(ATOM_STRINGS)),
        _ => {
            let c = s.pick(COMPOUNDS);
            Item::Atom(c.0, c.1)
        },
    }
}

#[derive(Clone, Copy)]
pub struct WfCfg {
    pub max_items: u32,
    /// `>>`, `<<`, `::` (the lexer changes mode after them)
    pub modes: bool,
    /// `\[Integral]`, `/:`, `:`, `~`, `;;`
    pub special: bool,
    /// nothing between commas
    pub empties: bool,
}
impl Default for WfCfg {
    fn default() -> Self {
        WfCfg {
            max_items: 24,
            modes: true,
            special: true,
            empties: false,
        }
    }
}

/// The operators and atoms a program prefers.
#[derive(Default)]
struct Style {
    infix: Vec<&'static str>,
    prefix: Vec<&'static str>,
    postfix: Vec<&'static str>,
    atoms: Vec<Item>,
    parens: bool,
}

/// Operators whose meaning depends on each other, and atoms they care about.
struct Family {
    infix: &'static [&'static str],
    prefix: &'static [&'static str],
    postfix: &'static [&'static str],
    atoms: &'static [(AtomKind, &'static str)],
}
const SYM: AtomKind = AtomKind::Symbol;
const NUM: AtomKind = AtomKind::Number;
const FAMILIES: &[Family] = &[
    Family {
        infix: &["+", "-", "*", "/", "^", "\\[Minus]", "\\[Times]", "\\[Divide]", "\\[ImplicitPlus]"],
        prefix: &["-", "+", "\\[Minus]"],
        postfix: &["!"],
        atoms: &[(NUM, "0"), (NUM, "1"), (NUM, "1.5"), (NUM, "0."), (SYM, "a"), (SYM, "b")],
    },
    Family {
        infix: &["==", "!=", "<", ">", "<=", ">=", "\\[Equal]", "\\[LessEqual]", "===", "=!=",
            "\\[VectorLess]", "\\[VectorGreaterEqual]", "\\[LessSlantEqual]", "\\[NotEqual]", "\\[LongEqual]"],
        prefix: &["!"],
        postfix: &[],
        atoms: &[(SYM, "a"), (SYM, "b"), (NUM, "1")],
    },
    Family {
        infix: &["@", "@@", "@@@", "/@", "//@", "//", "@*", "/*", "\\[InvisibleApplication]", "+", "*", "?"],
        prefix: &["-", "+"],
        postfix: &["&", "'", "++"],
        atoms: &[(SYM, "f"), (SYM, "Plus"), (SYM, "Times"), (SYM, "a"), (SYM, "Minus"), (NUM, "1")],
    },
    Family {
        infix: &["&&", "||", "\\[And]", "\\[Or]", "\\[Implies]", "\\[Xor]", "\\[Nand]", "=!="],
        prefix: &["!", "!!", "\\[Not]"],
        postfix: &["!", "!!"],
        atoms: &[(SYM, "a"), (SYM, "b")],
    },
    Family {
        infix: &["?", "|", "..", "/;", "->", ":>", "/.", "~~", "<>"],
        prefix: &["--", "++"],
        postfix: &["..", "...", "&", "'"],
        atoms: &[(SYM, "a"), (SYM, "f"), (NUM, "2")],
    },
    Family {
        infix: &["++", "--", "+", "-", ".", "**"],
        prefix: &["++", "--", "-", "+"],
        postfix: &["++", "--", "!", "!!"],
        atoms: &[(SYM, "a"), (NUM, "1"), (NUM, "0")],
    },
];

impl Style {
    fn draw(s: &mut Src) -> Style {
        let mut y = Style::default();
        match s.below(4) {
            // anything
            0 => {},
            // few operators
            1 => {
                for _ in 0..s.below(3) + 1 {
                    y.infix.push(pick_infix(s).text);
                }
            },
            2 => {
                for _ in 0..s.below(2) + 1 {
                    y.infix.push(pick_infix(s).text);
                }
                for _ in 0..s.below(2) + 1 {
                    y.prefix.push(s.pick(&tab().prefixes).text);
                }
                y.postfix.push(s.pick(&tab().postfixes).text);
                for _ in 0..s.below(3) + 1 {
                    y.atoms.push(atom(s));
                }
                y.parens = s.chance(1, 2);
            },
            _ => {
                let f = s.pick(FAMILIES);
                let some = |s: &mut Src, v: &[&'static str]| -> Vec<&'static str> {
                    let keep: Vec<_> = v.iter().copied().filter(|_| s.chance(1, 2)).collect();
                    if keep.is_empty() { v.to_vec() } else { keep }
                };
                y.infix = some(s, f.infix);
                y.infix.retain(|t| tab().after.contains_key(t));
                y.prefix = some(s, f.prefix);
                y.postfix = some(s, f.postfix);
                y.postfix.retain(|t| tab().after.get(t).map_or(false, |o| o.kind == Kind::Postfix));
                y.prefix.retain(|t| tab().prefix.contains_key(t));
                y.infix.retain(|t| tab().after.get(t).map_or(false, |o| o.kind != Kind::Postfix));
                y.atoms = f.atoms.iter().map(|&(k, t)| Item::Atom(k, t)).collect();
                y.parens = true;
            },
        }
        y
    }
    fn infix(&self, s: &mut Src) -> &'static str {
        if !self.infix.is_empty() && s.chance(3, 4) {
            *s.pick(&self.infix)
        } else {
            pick_infix(s).text
        }
    }
    fn atom(&self, s: &mut Src) -> Item {
        if !self.atoms.is_empty() && s.chance(7, 8) {
            s.pick(&self.atoms).clone()
        } else {
            atom(s)
        }
    }
}

/// A number mostly below this, now and then much above.
fn many(s: &mut Src, n: u32) -> u32 {
    if s.chance(1, 8) {
        s.range(n, 10 * n)
    } else {
        s.below(n)
    }
}

/// A mostly well-formed item sequence; the reference parser has the last word.
pub fn items(s: &mut Src, cfg: WfCfg) -> Vec<Item> {
    let max = (cfg.max_items * s.size / 100).max(4);
    let mut n = s.below(max) + 1;
    // now and then a long one
    if s.below(150) == 149 {
        n = s.range(60, 400);
    }
    let mut v: Vec<Item> = vec![];
    let mut stack: Vec<Item> = vec![];
    // most programs stick to few operators and atoms, so that those meet
    // which have something to do with each other
    let st_ = Style::draw(s);
    let atom = |s: &mut Src| st_.atom(s);
    // 0: operand expected, 1: after an operand, 2: after `;` or `;;`,
    // 3: operand expected after an implicit multiplication
    let mut st = 0;
    let mut left = n as i32;
    loop {
        left -= 1;
        match st {
            0 | 3 => {
                let atom_only = left <= 0;
                let w: [u32; 6] = if atom_only {
                    [1, 0, 0, 0, 0, 0]
                } else {
                    [
                        12,
                        3,
                        4,
                        if cfg.special && st == 0 { 1 } else { 0 },
                        u32::from(cfg.modes),
                        u32::from(cfg.special),
                    ]
                };
                match s.weighted(&w) {
                    0 => {
                        v.push(atom(s));
                        st = 1;
                    },
                    1 => {
                        let t = if st == 3 {
                            s.pick(&tab().prefix_only).text
                        } else if !st_.prefix.is_empty() && s.chance(7, 8) {
                            *s.pick(&st_.prefix)
                        } else {
                            s.pick(&tab().prefixes).text
                        };
                        v.push(Item::Op(t));
                        if s.chance(1, 16) {
                            for _ in 0..many(s, 12) {
                                v.push(Item::Op(t));
                            }
                        }
                        st = 0;
                    },
                    2 => {
                        let g = if st_.parens && s.chance(7, 8) {
                            0
                        } else {
                            s.weighted(&[10, 8, 3, 1, 1, 1, 1, 1, 1, 1, 1])
                        };
                        v.push(Item::Open(g));
                        if s.chance(1, 80) {
                            // far in
                            for _ in 0..many(s, 6) {
                                v.push(Item::Open(g));
                                stack.push(Item::Close(g));
                            }
                        }
                        if s.chance(1, 10) {
                            v.push(Item::Close(g));
                            st = 1;
                        } else {
                            stack.push(Item::Close(g));
                            st = 0;
                            if cfg.empties && s.chance(1, 10) {
                                v.push(Item::Comma(","));
                            }
                        }
                    },
                    3 => {
                        v.push(Item::Op(";;"));
                        st = 2;
                    },
                    4 => {
                        v.push(Item::File("<<", s.ps(FILES)));
                        st = 1;
                    },
                    _ => {
                        let i = s.weighted(&[5, 1, 1, 1, 1]);
                        v.push(Item::Op(INTEGRALS[i].0));
                        // most integrals get their differential
                        if s.chance(1, 2) {
                            v.push(atom(s));
                            v.push(Item::Op("\\[DifferentialD]"));
                        }
                        st = 0;
                    },
                }
            },
            _ => {
                if left <= 0 {
                    while let Some(c) = stack.pop() {
                        v.push(c);
                    }
                    break;
                }
                let in_group = !stack.is_empty();
                let sp = u32::from(cfg.special);
                let w = [
                    20,                              // 0 infix
                    4,                               // 1 postfix
                    if st == 1 { 5 } else { 0 },     // 2 implicit times
                    if st == 1 { 5 } else { 0 },     // 3 call
                    if in_group { 8 } else { 0 },    // 4 close
                    if in_group { 8 } else { 0 },    // 5 comma
                    2,                               // 6 ;
                    2 * sp,                          // 7 ;;
                    if st == 1 { 2 * sp } else { 0 }, // 8 ~
                    if st == 1 { sp } else { 0 },    // 9 /:
                    if st == 1 { 2 } else { 0 },     // 10 = := =.
                    if st == 1 && cfg.modes { 1 } else { 0 }, // 11 ::
                    if st == 1 && cfg.modes { 1 } else { 0 }, // 12 >>
                    if st == 1 { 2 * sp } else { 0 }, // 13 :
                    if st == 2 { 12 } else { 0 },    // 14 operand
                ];
                match s.weighted(&w) {
                    0 => {
                        let t = st_.infix(s);
                        if s.chance(1, 60) {
                            // a long chain
                            let a = atom(s);
                            for _ in 0..many(s, 12) {
                                v.push(Item::Op(t));
                                v.push(a.clone());
                            }
                        }
                        v.push(Item::Op(t));
                        st = 0;
                    },
                    1 => {
                        let t = if !st_.postfix.is_empty() && s.chance(7, 8) {
                            *s.pick(&st_.postfix)
                        } else {
                            s.pick(&tab().postfixes).text
                        };
                        let pre = tab().prefix.contains_key(t);
                        v.push(Item::Op(t));
                        st = if st == 2 && pre { 0 } else { 1 };
                        if st == 1 && s.chance(1, 12) {
                            for _ in 0..many(s, 12) {
                                v.push(Item::Op(t));
                            }
                        }
                    },
                    2 => {
                        if s.chance(1, 40) {
                            for _ in 0..many(s, 12) {
                                v.push(Item::Atom(AtomKind::Symbol, s.ps(&["a", "b"])));
                            }
                        }
                        st = 3
                    },
                    3 => {
                        if s.chance(1, 25) {
                            for _ in 0..many(s, 8) {
                                v.push(Item::CallOpen(0));
                                v.push(Item::CallClose(0));
                            }
                        }
                        let c = s.weighted(&[8, 3, 1, 1]);
                        v.push(Item::CallOpen(c));
                        if c != 1 && s.chance(1, 8) {
                            v.push(Item::CallClose(c));
                        } else {
                            stack.push(Item::CallClose(c));
                            st = 0;
                            if cfg.empties && s.chance(1, 10) {
                                v.push(Item::Comma(","));
                            }
                        }
                    },
                    4 => {
                        v.push(stack.pop().unwrap());
                        st = 1;
                    },
                    5 => {
                        let n = if cfg.empties && s.chance(1, 4) { s.below(3) + 2 } else { 1 };
                        for _ in 0..n {
                            v.push(Item::Comma(if s.chance(1, 8) { "\\[InvisibleComma]" } else { "," }));
                        }
                        if s.chance(1, 40) {
                            let a = atom(s);
                            for _ in 0..many(s, 20) {
                                v.push(a.clone());
                                v.push(Item::Comma(","));
                            }
                        }
                        st = 0;
                        if cfg.empties && s.chance(1, 8) {
                            v.push(stack.pop().unwrap());
                            st = 1;
                        }
                    },
                    6 => {
                        if s.chance(1, 25) {
                            let a = atom(s);
                            for _ in 0..many(s, 12) {
                                v.push(Item::Op(";"));
                                if s.chance(1, 2) {
                                    v.push(a.clone());
                                }
                            }
                        }
                        v.push(Item::Op(";"));
                        st = 2;
                    },
                    7 => {
                        v.push(Item::Op(";;"));
                        st = 2;
                    },
                    8 => {
                        v.push(Item::Op("~"));
                        v.push(Item::Atom(AtomKind::Symbol, s.ps(ATOM_SYMBOLS)));
                        if s.chance(1, 4) {
                            v.push(Item::CallOpen(0));
                            v.push(atom(s));
                            v.push(Item::CallClose(0));
                        }
                        v.push(Item::Op("~"));
                        st = 0;
                    },
                    9 => {
                        v.push(Item::Op("/:"));
                        v.push(atom(s));
                        if s.chance(1, 3) {
                            v.push(Item::Op(pick_infix(s).text));
                            v.push(atom(s));
                        }
                        match s.below(3) {
                            0 => {
                                v.push(Item::Op("="));
                                st = 0;
                            },
                            1 => {
                                v.push(Item::Op(":="));
                                st = 0;
                            },
                            _ => v.push(Item::Unset),
                        }
                    },
                    10 => match s.below(3) {
                        0 => {
                            v.push(Item::Op("="));
                            st = 0;
                        },
                        1 => {
                            v.push(Item::Op(":="));
                            st = 0;
                        },
                        _ => v.push(Item::Unset),
                    },
                    11 => {
                        for _ in 0..if s.chance(1, 4) { many(s, 5) + 1 } else { 1 } {
                            v.push(Item::Tag(s.ps(TAGS)));
                        }
                    },
                    12 => {
                        let o = s.ps(&[">>", ">>>"]);
                        v.push(Item::File(o, s.ps(FILES)));
                    },
                    13 => match v.last() {
                        Some(Item::Atom(AtomKind::Symbol | AtomKind::Pattern, _)) => {
                            v.push(Item::Op(":"));
                            st = 0;
                        },
                        _ => {
                            // x : pattern
                            v.push(Item::Op("+"));
                            v.push(Item::Atom(AtomKind::Symbol, "x"));
                            v.push(Item::Op(":"));
                            st = 0;
                        },
                    },
                    _ => st = 0,
                }
            },
        }
    }
    v
}

/// Name of the n-ary operator written this way.
pub fn infix_name(t: &str) -> Option<&'static str> {
    let o = tab().after.get(t)?;
    (o.kind == Kind::Infix).then(|| o.name.trim_start_matches("CodeParser_"))
}

fn pick_infix(s: &mut Src) -> &'static Op {
    if s.below(3) < 2 {
        *s.pick(&tab().ascii_infixes)
    } else {
        *s.pick(&tab().infixes)
    }
}

//======================================================================
// Reference tree
//======================================================================

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Leaf(String),
    Node(String, Vec<R>),
}

impl R {
    pub fn show(&self) -> String {
        match self {
            R::Leaf(t) => t.clone(),
            R::Node(l, k) => format!(
                "{l}[{}]",
                k.iter().map(R::show).collect::<Vec<_>>().join(", ")
            ),
        }
    }
}

fn l(t: &str) -> R {
    R::Leaf(t.to_string())
}
fn n(label: &str, k: Vec<R>) -> R {
    R::Node(label.to_string(), k)
}

/// The concrete tree without trivia, in the same form.
pub fn simplify(t: &N) -> R {
    if let Some(k) = t.tok {
        let kind = format!("{k:?}");
        if kind.starts_with("Fake_") {
            return R::Leaf(kind);
        }
        if kind.starts_with("Error_") {
            return R::Leaf(format!("{kind}({})", t.text));
        }
        return R::Leaf(t.text.clone());
    }
    R::Node(
        t.label.replace("CodeParser_", ""),
        t.kids
            .iter()
            .filter(|k| !k.tok.map(|t| t.isTrivia()).unwrap_or(false))
            .map(simplify)
            .collect(),
    )
}

//======================================================================
// Reference parser
//======================================================================

pub struct RefParser<'a> {
    items: &'a [Item],
    at: usize,
    /// precedence levels being parsed (odd: right associative), 0 for groups
    ctx: Vec<u32>,
    /// may there be nothing between commas (which stands for Null)?
    empties: bool,
}

type Res = Result<R, &'static str>;

fn op_label(o: &Op) -> String {
    let k = match o.kind {
        Kind::Binary => "Binary",
        Kind::Infix => "Infix",
        Kind::Postfix => "Postfix",
        Kind::Prefix => "Prefix",
    };
    format!("{k}:{}", o.name.replace("CodeParser_", ""))
}

fn plev(o: &Op) -> u32 {
    o.prec * 2 + u32::from(o.right)
}

impl<'a> RefParser<'a> {
    /// Parse a whole sequence as one expression.
    pub fn parse(items: &'a [Item]) -> Res {
        Self::parse_with(items, false)
    }
    pub fn parse_with(items: &'a [Item], empties: bool) -> Res {
        let mut p = RefParser {
            items,
            at: 0,
            ctx: vec![],
            empties,
        };
        let r = p.operand()?;
        if p.at != items.len() {
            return Err("left over items");
        }
        Ok(r)
    }
    fn cur(&self) -> Option<&'a Item> {
        self.items.get(self.at)
    }
    fn is_op(&self, t: &str) -> bool {
        matches!(self.cur(), Some(Item::Op(o)) if *o == t)
    }
    fn top(&self) -> u32 {
        self.ctx.last().copied().unwrap_or(0)
    }
    fn within(&mut self, lev: u32, f: impl FnOnce(&mut Self) -> Res) -> Res {
        self.ctx.push(lev);
        let r = f(self);
        self.ctx.pop();
        r
    }
    /// Can the current item begin an operand?
    fn begins(&self) -> bool {
        match self.cur() {
            Some(Item::Atom(..)) | Some(Item::Open(_)) => true,
            Some(Item::Op(o)) => {
                tab().prefix.contains_key(o)
                    || *o == ";;"
                    || INTEGRALS.iter().any(|i| i.0 == *o)
            },
            Some(Item::File(o, _)) => *o == "<<",
            _ => false,
        }
    }

    /// One operand and all operators that bind to it in this context.
    fn operand(&mut self) -> Res {
        let it = self.cur().ok_or("operand missing")?;
        self.at += 1;
        let first = match it {
            Item::Atom(_, t) => match COMPOUNDS.iter().find(|c| c.1 == *t) {
                Some(c) => parse_tree(c.2),
                None => l(t),
            },
            Item::Op(";;") => {
                self.within(lev("SemiSemi"), |p| p.span(l("Fake_ImplicitOne")))?
            },
            Item::Op(o) => {
                if let Some(i) = INTEGRALS.iter().find(|i| i.0 == *o) {
                    self.integral(i)?
                } else if let Some(op) = tab().prefix.get(o) {
                    let a = self.within(plev(op), |p| p.operand())?;
                    n(&op_label(op), vec![l(o), a])
                } else {
                    return Err("operator where an operand belongs");
                }
            },
            Item::Open(g) => {
                let (a, b, name) = GROUPS[*g];
                let mut k = vec![l(a)];
                self.group_body(&mut k, &Item::Close(*g))?;
                k.push(l(b));
                n(&format!("Group:{name}"), k)
            },
            Item::File(o, f) if *o == "<<" => n("Prefix:Get", vec![l(o), l(f)]),
            _ => return Err("no operand"),
        };
        self.climb(first)
    }

    fn group_body(&mut self, k: &mut Vec<R>, close: &Item) -> Result<(), &'static str> {
        if self.cur() == Some(close) {
            self.at += 1;
            return Ok(());
        }
        let r = self.within(0, |p| match p.cur() {
            Some(Item::Comma(_)) if p.empties => p.climb(l("Error_PrefixImplicitNull()")),
            _ => p.operand(),
        })?;
        if self.cur() != Some(close) {
            return Err("group not closed");
        }
        self.at += 1;
        k.push(r);
        Ok(())
    }

    fn integral(&mut self, i: &(&str, &str)) -> Res {
        let is_d = |p: &Self| {
            p.is_op("\\[DifferentialD]") || p.is_op("\\[CapitalDifferentialD]")
        };
        self.ctx.push(lev("Class`IntegrationOperators"));
        let r = (|| {
            let a = if is_d(self) {
                l("Fake_ImplicitOne")
            } else {
                self.operand()?
            };
            if is_d(self) {
                let b = self.operand()?;
                let name = if i.1 == "Integral" { "Integrate" } else { i.1 };
                Ok(n(&format!("PrefixBinary:{name}"), vec![l(i.0), a, b]))
            } else {
                Ok(n(&format!("Prefix:{}", i.1), vec![l(i.0), a]))
            }
        })();
        self.ctx.pop();
        r
    }

    /// Level of the item as an operator after an operand, None if it ends the
    /// expression; Err(()) stands for an implied multiplication.
    fn level_after(&self, node: &R) -> Option<(u32, bool)> {
        let times = lev("Fake`ImplicitTimes");
        Some(match self.cur()? {
            Item::Op(o) => match *o {
                ";" => (lev("Semi"), false),
                ";;" => {
                    let is_span = matches!(node, R::Node(x, _)
                        if x == "Binary:Span" || x == "Ternary:Span");
                    if is_span {
                        (times, true)
                    } else {
                        (lev("SemiSemi"), false)
                    }
                },
                "~" => (lev("Tilde"), false),
                "/:" => (lev("SlashColon"), false),
                "=" => (lev("Equal"), false),
                ":=" => (lev("ColonEqual"), false),
                ":" => {
                    let pat = lev("Fake`PatternColon");
                    let mut inside = false;
                    for c in self.ctx.iter().rev() {
                        if *c > pat {
                            continue;
                        }
                        inside = *c == pat;
                        break;
                    }
                    if inside {
                        (lev("Fake`OptionalColon"), false)
                    } else {
                        (lev("Highest"), false)
                    }
                },
                "\\[DifferentialD]" | "\\[CapitalDifferentialD]" => {
                    if self.top() == lev("Class`IntegrationOperators") {
                        return None;
                    }
                    (times, true)
                },
                o => match tab().after.get(o) {
                    Some(op) => (plev(op), false),
                    None => (times, true),
                },
            },
            Item::Atom(..) | Item::Open(_) => (times, true),
            Item::File(o, _) => match *o {
                "<<" => (times, true),
                ">>" => (lev("GreaterGreater"), false),
                _ => (lev("GreaterGreaterGreater"), false),
            },
            Item::CallOpen(_) => (lev("Call"), false),
            Item::Comma(_) => (lev("Comma"), false),
            Item::Tag(_) => (lev("ColonColon"), false),
            Item::Unset => (lev("Equal"), false),
            Item::Close(_) | Item::CallClose(_) => return None,
        })
    }

    fn climb(&mut self, mut node: R) -> Res {
        loop {
            let Some((level, implied)) = self.level_after(&node) else {
                return Ok(node);
            };
            // weaker than what we are inside of, or equal and not right
            // associative: leave it to the outer operator
            let top = self.top();
            if top > level || (top == level && level % 2 == 0) {
                return Ok(node);
            }
            self.ctx.push(level);
            let r = self.infix(node, implied);
            self.ctx.pop();
            node = r?;
        }
    }

    /// The context of the operator has been entered.
    fn infix(&mut self, lhs: R, implied: bool) -> Res {
        let it = self.cur().unwrap();
        if implied {
            let t = l("Fake_ImplicitTimes");
            let rhs = self.operand()?;
            return self.nary("Infix:Times", vec![lhs, t, rhs]);
        }
        self.at += 1;
        match it {
            Item::Op(";") => {
                let mut k = vec![lhs, l(";")];
                loop {
                    if self.is_op(";") {
                        k.push(l("Fake_ImplicitNull"));
                    } else if self.begins() {
                        k.push(self.operand()?);
                    } else {
                        k.push(l("Fake_ImplicitNull"));
                        break;
                    }
                    if self.is_op(";") {
                        self.at += 1;
                        k.push(l(";"));
                    } else {
                        break;
                    }
                }
                Ok(n("Infix:CompoundExpression", k))
            },
            Item::Op(";;") => self.span(lhs),
            Item::Op("~") => {
                let m = self.operand()?;
                if !self.is_op("~") {
                    return Err("~ without partner");
                }
                self.at += 1;
                let r = self.operand()?;
                Ok(n("Ternary:TernaryTilde", vec![lhs, l("~"), m, l("~"), r]))
            },
            Item::Op("/:") => {
                let m = self.operand()?;
                let it = self.cur();
                self.at += 1;
                // the assignment's own level from here on
                *self.ctx.last_mut().unwrap() = lev("Equal");
                match it {
                    Some(Item::Op("=")) => {
                        let r = self.operand()?;
                        Ok(n("Ternary:TagSet", vec![lhs, l("/:"), m, l("="), r]))
                    },
                    Some(Item::Op(":=")) => {
                        let r = self.operand()?;
                        Ok(n(
                            "Ternary:TagSetDelayed",
                            vec![lhs, l("/:"), m, l(":="), r],
                        ))
                    },
                    Some(Item::Unset) => Ok(n(
                        "Ternary:TagUnset",
                        vec![lhs, l("/:"), m, l("="), l(".")],
                    )),
                    _ => Err("/: without assignment"),
                }
            },
            Item::Op(":") => {
                let (label, lev_) = match &lhs {
                    R::Node(x, _) if x == "Binary:Pattern" => {
                        ("Binary:Optional", lev("Fake`OptionalColon"))
                    },
                    R::Node(x, _)
                        if x == "Compound:PatternBlank"
                            || x == "Compound:PatternBlankSequence"
                            || x == "Compound:PatternBlankNullSequence"
                            || x == "Compound:Blank"
                            || x == "Compound:BlankSequence"
                            || x == "Compound:BlankNullSequence" =>
                    {
                        ("Binary:Optional", lev("Fake`OptionalColon"))
                    },
                    R::Leaf(t) if matches!(t.as_str(), "_" | "__" | "___") => {
                        ("Binary:Optional", lev("Fake`OptionalColon"))
                    },
                    R::Leaf(t)
                        if ATOM_SYMBOLS.contains(&t.as_str()) =>
                    {
                        ("Binary:Pattern", lev("Fake`PatternColon"))
                    },
                    _ => return Err(": without symbol"),
                };
                *self.ctx.last_mut().unwrap() = lev_;
                let r = self.operand()?;
                Ok(n(label, vec![lhs, l(":"), r]))
            },
            Item::Op("=") => {
                let r = self.operand()?;
                Ok(n("Binary:Set", vec![lhs, l("="), r]))
            },
            Item::Op(":=") => {
                let r = self.operand()?;
                Ok(n("Binary:SetDelayed", vec![lhs, l(":="), r]))
            },
            Item::Unset => Ok(n("Binary:Unset", vec![lhs, l("="), l(".")])),
            Item::Op(o) => {
                let op = tab().after[o];
                match op.kind {
                    Kind::Postfix => Ok(n(&op_label(op), vec![lhs, l(o)])),
                    Kind::Binary => {
                        let r = self.operand()?;
                        Ok(n(&op_label(op), vec![lhs, l(o), r]))
                    },
                    _ => {
                        let r = self.operand()?;
                        self.nary(&op_label(op), vec![lhs, l(o), r])
                    },
                }
            },
            Item::CallOpen(c) => {
                let (a, b, name) = CALLS[*c];
                let mut k = vec![];
                self.group_body(&mut k, &Item::CallClose(*c))?;
                let body = if name == "PART" {
                    let mut inner = vec![l("[")];
                    inner.extend(k);
                    inner.push(l("]"));
                    n(
                        "CallGroup:GroupSquare",
                        vec![l("["), n("Group:GroupSquare", inner), l("]")],
                    )
                } else {
                    let mut all = vec![l(a)];
                    all.extend(k);
                    all.push(l(b));
                    n(&format!("CallGroup:{name}"), all)
                };
                Ok(n("Call", vec![lhs, body]))
            },
            Item::Comma(c) => {
                let mut k = vec![lhs, l(c)];
                loop {
                    let none = matches!(
                        self.cur(),
                        Some(Item::Comma(_) | Item::Close(_) | Item::CallClose(_))
                    );
                    k.push(if self.empties && none {
                        l("Error_InfixImplicitNull()")
                    } else {
                        self.operand()?
                    });
                    let Some(Item::Comma(c)) = self.cur() else { break };
                    self.at += 1;
                    k.push(l(c));
                }
                Ok(n("Infix:Comma", k))
            },
            Item::Tag(t) => {
                let mut k = vec![lhs, l("::"), l(t)];
                while let Some(Item::Tag(t)) = self.cur() {
                    self.at += 1;
                    k.push(l("::"));
                    k.push(l(t));
                }
                Ok(n("Infix:MessageName", k))
            },
            Item::File(o, f) => {
                let name = if *o == ">>" { "Put" } else { "PutAppend" };
                Ok(n(&format!("Binary:{name}"), vec![lhs, l(o), l(f)]))
            },
            _ => Err("not an infix item"),
        }
    }

    /// Further operands of the same n-ary operator.
    fn nary(&mut self, label: &str, mut k: Vec<R>) -> Res {
        loop {
            let node = k.last().unwrap();
            match self.level_after(node) {
                Some((_, true)) if label == "Infix:Times" => {
                    // an implied multiplication, unless the operand may still
                    // take it (it would have)
                    k.push(l("Fake_ImplicitTimes"));
                    k.push(self.operand()?);
                    continue;
                },
                Some((_, true)) | None => break,
                _ => {},
            }
            match self.cur() {
                Some(Item::Op(o))
                    if tab()
                        .after
                        .get(o)
                        .map(|op| op_label(op) == label)
                        .unwrap_or(false)
                        && !matches!(*o, ";" | ";;" | "~" | "/:" | "=" | ":=" | ":") =>
                {
                    self.at += 1;
                    k.push(l(o));
                    k.push(self.operand()?);
                },
                _ => break,
            }
        }
        Ok(n(label, k))
    }

    /// After `;;`, in its context.
    fn span(&mut self, lhs: R) -> Res {
        if !self.begins() {
            return Ok(n("Binary:Span", vec![lhs, l(";;"), l("Fake_ImplicitAll")]));
        }
        let second = if self.is_op(";;") {
            l("Fake_ImplicitAll")
        } else {
            self.operand()?
        };
        if self.is_op(";;") {
            // only a third part if one follows
            let save = self.at;
            self.at += 1;
            if self.begins() && !self.is_op(";;") {
                let third = self.operand()?;
                return Ok(n(
                    "Ternary:Span",
                    vec![lhs, l(";;"), second, l(";;"), third],
                ));
            }
            self.at = save;
        }
        Ok(n("Binary:Span", vec![lhs, l(";;"), second]))
    }
}

/// `A[b, C[d]]` notation, used by COMPOUNDS.
fn parse_tree(t: &str) -> R {
    fn go(b: &[u8], at: &mut usize) -> R {
        let st = *at;
        if b[*at] == b'"' {
            *at += 1;
            while b[*at] != b'"' {
                *at += 1;
            }
            *at += 1;
            return l(std::str::from_utf8(&b[st..*at]).unwrap());
        }
        while *at < b.len() && !b"[],".contains(&b[*at]) {
            *at += 1;
        }
        let name = std::str::from_utf8(&b[st..*at]).unwrap().to_string();
        if *at < b.len() && b[*at] == b'[' {
            *at += 1;
            let mut k = vec![];
            loop {
                k.push(go(b, at));
                if b[*at] == b']' {
                    *at += 1;
                    break;
                }
                *at += 2; // ", "
            }
            R::Node(name, k)
        } else {
            R::Leaf(name)
        }
    }
    let mut at = 0;
    go(t.as_bytes(), &mut at)
}

//======================================================================
// Rendering
//======================================================================

fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '$' || c == '`'
}

/// May the two items be written without anything between them?
pub fn glue(a: &Item, b: &Item) -> bool {
    let x = a.text();
    let y = b.text();
    let yc = y.chars().next().unwrap();
    let plain_atom = |i: &Item| {
        matches!(
            i,
            Item::Atom(AtomKind::Symbol | AtomKind::Str, _)
                | Item::Close(0 | 1)
                | Item::CallClose(0..=2)
        )
    };
    match (a, b) {
        // nothing may be glued to a tag or file name
        (Item::Tag(_) | Item::File(..), _) => false,
        (_, Item::Close(0 | 1) | Item::CallClose(0..=2)) => match a {
            Item::Op(_) => false,
            _ => true,
        },
        (_, Item::Comma(_)) => !matches!(a, Item::Op(_)),
        (Item::Comma(_), _) => true,
        (Item::Open(0 | 1) | Item::CallOpen(0 | 2), _) => {
            !matches!(b, Item::CallOpen(_)) && !(x == "(" && yc == '*')
        },
        (Item::CallOpen(1), _) => true,
        (_, Item::CallOpen(0 | 1)) => plain_atom(a),
        // operand, operator
        (_, Item::Op(_)) if plain_atom(a) => {
            !word(yc) && !matches!(yc, '.' | '_' | '"' | '#' | '*' | '\\' | '^')
        },
        // operator, operand that starts with a letter
        (Item::Op(o), Item::Atom(AtomKind::Symbol, t)) => {
            t.starts_with(|c: char| c.is_ascii_lowercase() && c != '`')
                && !o.ends_with(|c: char| word(c) || c == '_' || c == '#' || c == ':')
        },
        (Item::Op(o), Item::Open(1)) => o.ends_with(|c: char| !word(c)),
        _ => false,
    }
}

pub fn render_plain(items: &[Item]) -> String {
    items
        .iter()
        .map(|i| i.text())
        .collect::<Vec<_>>()
        .join(" ")
}

/// Trivia that never ends a line.
pub const INLINE: &[&str] = &[
    " ", "  ", "\t", "(**)", " (* c *) ", "(* (* n *) *)", "(* a\nb *)",
    "\u{a0}", "(*\"*)", "(* ] *)",
];
/// Trivia that ends a line: only inside brackets.
pub const NEWLINES: &[&str] =
    &["\n", "\r\n", "\r", "\n\n", " \n\t", "(*x*)\n", "\\[IndentingNewLine]", "\n(* ::T:: *)\n"];
/// Line continuations; they belong to the token after them.
pub const CONTS: &[&str] = &[" \\\n", " \\\r\n", " \\\n  "];

/// Render with random trivia; newlines only inside brackets.
pub fn render(s: &mut Src, items: &[Item], conts: bool) -> String {
    let mut o = String::new();
    let mut depth = 0;
    for (i, it) in items.iter().enumerate() {
        if i > 0 {
            let can_glue = glue(&items[i - 1], it);
            if matches!(items[i - 1], Item::Tag(_) | Item::File(..)) {
                // ends the tag or file name
                o.push(' ');
            }
            let w = [
                6,
                if can_glue { 8 } else { 0 },
                4,
                if depth > 0 { 3 } else { 0 },
                if conts && !matches!(it, Item::Tag(_)) { 1 } else { 0 },
            ];
            match s.weighted(&w) {
                0 => o.push(' '),
                1 => {},
                2 => {
                    for _ in 0..s.below(2) + 1 {
                        o.push_str(s.ps(INLINE));
                    }
                },
                3 => o.push_str(s.ps(NEWLINES)),
                _ => o.push_str(s.ps(CONTS)),
            }
        }
        match it {
            Item::Open(_) | Item::CallOpen(_) => depth += 1,
            Item::Close(_) | Item::CallClose(_) => depth -= 1,
            _ => {},
        }
        o.push_str(&it.text());
    }
    o
}

/// Write a reference tree back as text with parentheses around random
/// complete operands; returns how many pairs were added.
pub fn parenthesize(s: &mut Src, r: &R, rate: u32, o: &mut String) -> u32 {
    let mut added = 0;
    match r {
        R::Leaf(t) => {
            if !t.starts_with("Fake_") {
                o.push_str(t);
                o.push(' ');
            }
        },
        R::Node(label, kids) if label.starts_with("Compound:") => {
            // no blanks inside
            fn flat(r: &R, o: &mut String) {
                match r {
                    R::Leaf(t) => o.push_str(t),
                    R::Node(_, k) => k.iter().for_each(|x| flat(x, o)),
                }
            }
            let _ = kids;
            flat(r, o);
            o.push(' ');
        },
        R::Node(label, kids) if label == "Infix:MessageName" => {
            for (i, k) in kids.iter().enumerate() {
                added += if i == 0 {
                    operand_paren(s, k, rate, o)
                } else {
                    match k {
                        R::Leaf(t) if t == "::" => {
                            o.push_str("::");
                            0
                        },
                        _ => parenthesize(s, k, rate, o),
                    }
                };
            }
        },
        R::Node(label, kids) => {
            let kind = label.split(':').next().unwrap();
            for (i, k) in kids.iter().enumerate() {
                let operand = match kind {
                    "Infix" | "Binary" | "Ternary" => i % 2 == 0,
                    "Prefix" => i == 1,
                    "Postfix" => i == 0,
                    "Call" => i == 0,
                    "Group" | "CallGroup" => i == 1 && kids.len() == 3,
                    "PrefixBinary" => i == 1,
                    _ => false,
                };
                let never = matches!(
                    (label.as_str(), i),
                    ("Prefix:Get", _)
                        | ("Binary:Put", 2)
                        | ("Binary:PutAppend", 2)
                        | ("Binary:Unset", 2)
                        | ("Ternary:TagUnset", 4)
                        | ("Binary:Pattern", 0)
                        | ("Binary:Optional", 0)
                ) || match k {
                    // the second bracket of a Part, a comma list
                    R::Node(x, _) => {
                        x == "Infix:Comma"
                            || (kind == "CallGroup" && x == "Group:GroupSquare")
                            // f'' counts the primes, a ? b ? c is refused
                            || (label == "Postfix:Derivative" && x == label)
                            || (label == "Binary:PatternTest" && x == label)
                            // + a + b is one sum
                            || (label == "Infix:Plus" && x == "Prefix:Plus")
                            // a - b c takes the sign into the product
                            || (label == "Infix:Plus" && x == "Infix:Times")
                            || (label == "Prefix:Minus" && x == "Infix:Times")
                            || (label == "Prefix:Plus" && x == label)
                    },
                    R::Leaf(t) => t.starts_with("Fake_"),
                };
                added += if kind == "PrefixBinary" && i == 2 {
                    // has to begin with the differential
                    parenthesize(s, k, 0, o)
                } else if operand && !never {
                    operand_paren(s, k, rate, o)
                } else {
                    parenthesize(s, k, rate, o)
                };
            }
        },
    }
    added
}

fn operand_paren(s: &mut Src, k: &R, rate: u32, o: &mut String) -> u32 {
    // `;;` reads on depending on what follows, as does `;` at the end
    let open_ended = matches!(k, R::Node(label, kids)
        if label.ends_with(":Span")
            || matches!(kids.last(), Some(R::Leaf(t)) if t.starts_with("Fake_")));
    if s.below(4) < rate || (rate > 0 && open_ended) {
        o.push_str("( ");
        let n = parenthesize(s, k, rate, o);
        o.push_str(") ");
        n + 1
    } else {
        parenthesize(s, k, rate, o)
    }
}
