//! P32: the parser built without positions.

use super::*;
use crate::opts;
use crate::textgen::{any_bytes, any_text, TextCfg};
use crate::view::view;
use crate::wf::{self, WfCfg};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use wolfram_parser::source::SourceConvention;
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P32",
        assumptions: &["where an unclosed construct is cut is found by lines, and whether two brackets touch by positions: both are left out"],
        subs: vec![
            Sub {
                name: "programs",
                quick: 60_000,
                thorough: 4_000_000,
                rule: "well-formed programs in any layout; trees, abstract syntax, tokens and issues of the two builds; non-trivial: more than one node",
                f: programs,
            },
            Sub {
                name: "texts",
                quick: 60_000,
                thorough: 4_000_000,
                rule: "any text and any bytes that leave nothing open; likewise",
                f: texts,
            },
        ],
    }]
}

struct Other(Child);

impl Drop for Other {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

thread_local! {
    static OTHER: RefCell<Option<Other>> = RefCell::new(None);
}

fn start() -> Other {
    let exe = match std::env::var_os("WLNOSRC") {
        Some(p) => p.into(),
        // harness/target/release/wlcheck -> nosrc/target/release/wlnosrc
        None => std::env::current_exe().unwrap().ancestors().nth(4).unwrap().join("nosrc/target/release/wlnosrc"),
    };
    let c = Command::new("sh")
        .args(["-c", "ulimit -t 3600; exec \"$0\""])
        .arg(&exe)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("{exe:?} cannot be run: {e}"));
    Other(c)
}

/// What the build without positions makes of a text.
fn other(t: &[u8], o: &opts::O) -> Result<[String; 4], String> {
    OTHER.with(|c| {
        let mut c = c.borrow_mut();
        let p = c.get_or_insert_with(start);
        let mut head = vec![];
        head.extend((t.len() as u32).to_le_bytes());
        head.extend(o.tab.to_le_bytes());
        head.push(o.first);
        head.push((o.conv == SourceConvention::CharacterIndex) as u8);
        head.push(o.enc);
        head.push(o.quirks.iter().enumerate().map(|(i, q)| (*q as u8) << i).sum());
        head.extend(t);
        let mut go = || -> std::io::Result<Vec<u8>> {
            let w = p.0.stdin.as_mut().unwrap();
            w.write_all(&head)?;
            w.flush()?;
            let r = p.0.stdout.as_mut().unwrap();
            let mut n = [0; 4];
            r.read_exact(&mut n)?;
            let mut v = vec![0; u32::from_le_bytes(n) as usize];
            r.read_exact(&mut v)?;
            Ok(v)
        };
        match go() {
            Ok(v) => {
                let s = String::from_utf8_lossy(&v).into_owned();
                s.split('\0').map(String::from).collect::<Vec<_>>().try_into().map_err(|_| s)
            },
            Err(e) => {
                *c = None;
                Err(format!("ended: {e}"))
            },
        }
    })
}

/// Do two openers or closers of calls stand apart that may stand together?
fn apart(toks: &NodeSeq<tokenize::Token<tokenize::TokenStr>>) -> bool {
    use tokenize::TokenKind as K;
    let mut last = None;
    let mut gap = false;
    for t in &toks.0 {
        let k = t.tok;
        if matches!(k, K::Whitespace | K::ToplevelNewline | K::InternalNewline | K::Comment) {
            gap = true;
            continue;
        }
        if gap && matches!(k, K::OpenSquare | K::CloseSquare) && last == Some(k) {
            return true;
        }
        last = Some(k);
        gap = false;
    }
    false
}

fn same(t: &[u8], o: opts::O) -> Outcome {
    let key = format!("{} | {:?}", o.show(), String::from_utf8_lossy(t));
    let p = o.make();
    let (mine, apart, most) = match guard(|| {
        let toks = tokenize_bytes(t, &p);
        (view(t, &p), toks.map_or(false, |t| apart(&t)), parse_bytes_cst_seq(t, &p).fatal_issues.len() >= 10)
    }) {
        Ok(m) => m,
        Err(_) => return Outcome::Discard("the parser itself panicked"),
    };
    if mine[0].contains("MissingCloser") || mine[0].contains("Untermin") || mine[2].contains("Untermin") {
        return Outcome::Discard("left open");
    }
    if apart {
        return Outcome::Discard("brackets apart");
    }
    let theirs = match other(t, &o) {
        Ok(v) => v,
        Err(e) => return fail("without positions there is no answer", &key, e),
    };
    for (k, what) in ["trees", "abstract syntax", "tokens", "issues"].iter().enumerate() {
        // At most ten fatal issues are reported, and without positions many are the same.
        if k == 3 && most {
            continue;
        }
        if mine[k] != theirs[k] {
            return fail(format!("without positions, the {what} differ"), &key, format!("with    {}\nwithout {}", mine[k], theirs[k]));
        }
    }
    pass(&key, mine[0].contains('['), vec![])
}

fn programs(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let items = wf::items(s, WfCfg { max_items: 14, ..WfCfg::default() });
    let t = wf::render(s, &items, true);
    same(t.as_bytes(), o)
}

fn texts(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let t = if s.chance(1, 4) { any_bytes(s, TextCfg { max_frags: 10 }) } else { any_text(s, TextCfg { max_frags: 10 }).into_bytes() };
    same(&t, o)
}
