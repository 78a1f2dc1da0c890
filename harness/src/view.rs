//! What a parse gives, without positions. Also compiled
//! into the program without positions (P32).

use crate::tree;
use std::collections::BTreeSet;
use wolfram_parser::*;

pub fn view(t: &[u8], p: &ParseOptions) -> [String; 4] {
    let r = parse_bytes_cst_seq(t, p);
    let cst = tree::show_seq(&tree::from_cst_seq(&r.syntax));
    let issues: BTreeSet<String> = r
        .fatal_issues
        .iter()
        .chain(&r.non_fatal_issues)
        .map(|i| {
            let a: Vec<String> = i.actions.iter().map(|a| format!("{:?} {}", a.kind, a.label)).collect();
            format!("{:?} {:?} {} {} {a:?}", i.tag, i.sev, i.msg, i.val)
        })
        .collect();
    let ast = tree::show_seq(&parse_bytes_ast_seq(t, p).syntax.0.iter().map(tree::from_ast).collect::<Vec<_>>());
    let toks = match tokenize_bytes(t, p) {
        Ok(v) => v.0.iter().map(|t| format!("{:?}{:?}", t.tok, tree::tok_text(&t.input))).collect::<Vec<_>>().join(" "),
        Err(f) => format!("{f:?}"),
    };
    [cst, ast, toks, format!("{:?} {issues:?}", r.unsafe_character_encoding)]
}
