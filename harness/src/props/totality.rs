//! P01: every entry point answers on every input, within bounded work.

use super::*;
use crate::opts::{self, O};
use crate::textgen::{any_bytes, any_text, TextCfg};
use crate::tree::{self, N};
use wolfram_parser::abstract_cst::{abstract_cst, aggregate_cst_seq};
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P01",
        assumptions: &[
            "nesting depth of generated inputs is bounded (recursion uses the call stack)",
            "a call that reads more than 20000 bytes per input byte (plus 2 million) counts as not finishing",
        ],
        subs: vec![
            Sub {
                name: "text",
                quick: 90_000,
                thorough: 2_000_000,
                rule: "hostile and mutated program text (no byte order mark) under random options, through all &str entry points; non-trivial: at least 3 characters",
                f: text,
            },
            Sub {
                name: "bytes",
                quick: 60_000,
                thorough: 1_200_000,
                rule: "byte strings with malformed UTF-8 spliced in, under random options, through all byte entry points; non-trivial: not valid UTF-8 or has a BOM",
                f: bytes,
            },
            Sub {
                name: "dense",
                quick: 400_000,
                thorough: 6_000_000,
                rule: "short strings over a small alphabet of syntactically active pieces (brackets, quotes, comment marks, backslash, newlines, operators); non-trivial: at least 2 pieces",
                f: dense,
            },
            Sub {
                name: "large",
                quick: 1_500,
                thorough: 30_000,
                rule: "a few syntactically active pieces that do not nest repeated up to 32 kB, with something in front and behind, through the sequence entry points: at most 500 reads per byte, and processor time not more than three times that in proportion to an eighth of the text (only above 1.5 s, or 0.3 s for 4 kB); non-trivial: all",
                f: large,
            },
        ],
    }]
}

const BASE: u64 = 2_000_000;
const PER_BYTE: u64 = 20_000;

/// Runs every entry point; Err is (signature, detail).
pub fn drive(bytes: &[u8], o: &O) -> Result<usize, (String, String)> {
    let budget = BASE + PER_BYTE * bytes.len() as u64;
    let mut what = "";
    let mut run = |name: &'static str, f: &mut dyn FnMut()| -> Result<(), (String, String)> {
        what = name;
        wolfram_parser::wlverif::start(budget);
        let r = guard(|| f());
        wolfram_parser::wlverif::start(u64::MAX);
        r.map_err(|m| {
            (
                format!("{name} did not return: {}", strip_loc(&m)),
                format!("{name} panicked: {m}"),
            )
        })
    };
    let opts = o.make();
    let text = std::str::from_utf8(bytes).ok();

    let mut items = 0;
    let mut ast_items = 0;
    run("tokenize_bytes", &mut || {
        let _ = std::hint::black_box(tokenize_bytes(bytes, &opts));
    })?;
    run("parse_bytes_cst_seq", &mut || {
        let r = parse_bytes_cst_seq(bytes, &opts);
        items = r.syntax.0.len();
        let _ = r.tracked.to_nodes();
    })?;
    run("parse_bytes_ast_seq", &mut || {
        let r = parse_bytes_ast_seq(bytes, &opts);
        ast_items = r.syntax.0.len();
    })?;
    if items == 1 {
        run("parse_bytes_cst", &mut || {
            let _ = parse_bytes_cst(bytes, &opts);
        })?;
    }
    if ast_items == 1 {
        run("parse_bytes_ast", &mut || {
            let _ = parse_bytes_ast(bytes, &opts);
        })?;
    }
    run("safe_string", &mut || {
        let _ = safe_string(bytes, &opts);
    })?;
    for (name, mode) in [
        ("parse_to_token(Normal)", 0),
        ("parse_to_token(Tag)", 1),
        ("parse_to_token(File)", 2),
    ] {
        run(name, &mut || {
            let m = match mode {
                0 => StringifyMode::Normal,
                1 => StringifyMode::Tag,
                _ => StringifyMode::File,
            };
            let _ = parse_to_token(bytes, &opts, m);
        })?;
    }
    if let Some(t) = text {
        {
            run("tokenize", &mut || {
                let _ = tokenize(t, &opts);
            })?;
        }
        run("parse_cst_seq", &mut || {
            let r = parse_cst_seq(t, &opts);
            // the two stages of abstraction, under other quirks
            for q in 0..8u8 {
                let quirks = QuirkSettings {
                    infix_binary_at: q & 1 != 0,
                    flatten_times: q & 2 != 0,
                    old_at_at_at: q & 4 != 0,
                };
                if q != 1 && q != (t.len() % 8) as u8 {
                    continue;
                }
                for n in aggregate_cst_seq(r.syntax.clone()).0 {
                    let _ = abstract_cst(n, quirks);
                }
            }
        })?;
        if items == 1 {
            run("parse_cst", &mut || {
                let _ = parse_cst(t, &opts);
            })?;
        }
        if ast_items == 1 {
            run("parse_ast", &mut || {
                let _ = parse_ast(t, &opts);
            })?;
        }
        run("source_chars", &mut || {
            let n = iter::source_chars(t, &opts).count();
            assert!(n <= t.len());
        })?;
        run("wolfram_chars", &mut || {
            let n = iter::wolfram_chars(t, &opts).count();
            assert!(n <= t.len());
        })?;
        run("tokens", &mut || {
            let n = iter::tokens(t, &opts).count();
            assert!(n <= t.len());
        })?;
    }
    Ok(items)
}

fn text(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let t = any_text(s, TextCfg::default());
    let key = format!("{} | {}", o.show(), t);
    match drive(t.as_bytes(), &o) {
        Ok(n) => pass(
            &key,
            t.chars().count() >= 3,
            vec![if n > 1 { "several nodes" } else { "one node" }],
        ),
        Err((sig, d)) => fail(sig, &key, d),
    }
}

fn bytes(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let b = any_bytes(s, TextCfg { max_frags: 20 });
    let key = format!("{} | {}", o.show(), show_bytes(&b));
    let odd = std::str::from_utf8(&b).map_or(true, |t| t.contains('\u{feff}'));
    match drive(&b, &o) {
        Ok(_) => pass(&key, odd, vec![]),
        Err((sig, d)) => fail(sig, &key, d),
    }
}

const DENSE: &[&str] = &[
    "a", "1", " ", "\n", "[", "]", "(", ")", "{", "}", "\"", "(*", "*)", "\\",
    "+", "-", "=", ".", ":", ";", ",", "_", "#", "%", "!", "'", "&", "~", "/",
    "@", "<", ">", "|", "^", "?", "`", "*", "\t", "\r", "\r\n", "\\[", "\\:",
    "\\(", "\\)", "\\!", "\\\n", "\u{3b1}", "\u{f74e}", "<<", ">>", "::",
    "\\[Integral]", "\\[DifferentialD]", "\\[InvisibleApplication]", "0", "^^",
    "*^", "``", "x_", "=.", "/:", ";;", "\\.", "\\|", "d800", "41", "110000",
    "\u{301a}", "\u{301b}", "\\[LeftDoubleBracket]", "\\[Alpha]",
    "\u{1f600}", "\u{e000}", "\u{0}",
];

fn dense(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let n = s.below(7) + 1;
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(s.ps(DENSE));
    }
    let key = format!("{} | {}", o.show(), t);
    match drive(t.as_bytes(), &o) {
        Ok(_) => pass(&key, n >= 2, vec![]),
        Err((sig, d)) => fail(sig, &key, d),
    }
}

/// Seconds of processor time this thread used.
fn cpu() -> f64 {
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    }
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 + t.nsec as f64 * 1e-9
}

fn depth(n: &N) -> usize {
    n.kids.iter().map(depth).max().unwrap_or(0) + 1
}

/// Sizes in bytes, each eight times the one before; above the seconds given,
/// more than three times the time in proportion is too much.
const SIZES: [(usize, f64); 3] = [(500, 0.3), (4_000, 0.3), (32_000, 1.5)];

fn large(s: &mut Src) -> Outcome {
    let o = opts::any(s);
    let mut piece = String::new();
    for _ in 0..s.below(4) + 1 {
        piece.push_str(s.ps(DENSE));
    }
    let front = if s.chance(1, 2) { s.ps(DENSE) } else { "" };
    let behind = if s.chance(1, 2) { s.ps(DENSE) } else { "" };
    let key = format!("{} | {front:?} {piece:?}* {behind:?}", o.show());
    let opts = o.make();
    let times = |n: usize| format!("{front}{}{behind}", piece.repeat(n));
    let deep = |n| {
        let t = times(n);
        let c = tree::from_cst_seq(&parse_cst_seq(&t, &opts).syntax);
        // what is open at the end nests without showing it
        let mut open = false;
        for t in &c {
            t.walk(&mut |k| open |= k.label.contains("MissingCloser"));
        }
        if open {
            n
        } else {
            c.iter().map(depth).max().unwrap_or(0)
        }
    };
    match guard(|| deep(24) > deep(12)) {
        Err(e) => return panicked(&e, &key),
        Ok(true) => return Outcome::Discard("nests ever deeper"),
        _ => {},
    }
    let text: Vec<String> = SIZES.iter().map(|z| times(z.0 / piece.len() + 1)).collect();
    let cost = |t: &str, k: usize| {
        let b = t.as_bytes();
        wolfram_parser::wlverif::start(u64::MAX);
        let c = cpu();
        let r = guard(|| match k {
            0 => drop(tokenize_bytes(b, &opts)),
            1 => drop(parse_bytes_cst_seq(b, &opts)),
            _ => drop(parse_bytes_ast_seq(b, &opts)),
        });
        let c = cpu() - c;
        let n = wolfram_parser::wlverif::steps();
        wolfram_parser::wlverif::start(u64::MAX);
        r.map(|_| (n as f64 / b.len() as f64, c))
    };
    for (k, name) in ["tokenize_bytes", "parse_bytes_cst_seq", "parse_bytes_ast_seq"].into_iter().enumerate() {
        for z in 1..SIZES.len() {
            let (n, mut c) = match cost(&text[z], k) {
                Ok(v) => v,
                Err(e) => return fail(format!("{name} did not return: {}", strip_loc(&e)), &key, e),
            };
            if n > 500.0 {
                return fail(format!("{name} reads the input too often"), &key, format!("{n:.0} reads per byte"));
            }
            let floor = SIZES[z].1;
            let mut few = f64::MAX;
            for _ in 0..2 {
                if c < floor {
                    break;
                }
                few = few.min(cost(&text[z - 1], k).map_or(f64::MAX, |v| v.1));
                c = c.min(cost(&text[z], k).map_or(0.0, |v| v.1));
            }
            let grows = text[z].len() as f64 / text[z - 1].len() as f64 * 3.0;
            if c > floor && c > few * grows {
                return fail(
                    format!("{name} takes more than proportional time"),
                    &key,
                    format!("{few:.3} s for {} bytes, {c:.3} s for {}", text[z - 1].len(), text[z].len()),
                );
            }
        }
    }
    pass(&key, true, vec![])
}
