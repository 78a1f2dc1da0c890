//! P31: the command-line program.

use super::*;
use crate::textgen::{any_bytes, any_text, TextCfg};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};
use wolfram_parser::fmt_as_expr::FmtAsExpr;
use wolfram_parser::*;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "P31",
        assumptions: &["the program is crates/wolfram-parser/src/bin/main.rs, linked with the library as it is"],
        subs: vec![
            Sub {
                name: "file",
                quick: 8_000,
                thorough: 400_000,
                rule: "any bytes in a scratch file and any flags; what the program prints, against what the library answers; non-trivial: something is printed that is not empty",
                f: file,
            },
            Sub {
                name: "lines",
                quick: 8_000,
                thorough: 400_000,
                rule: "zero to six lines on standard input, the last with or without an end of line; a prompt and the answer for each, then a prompt and the end; non-trivial: at least two lines",
                f: lines,
            },
        ],
    }]
}

const MODES: &[&str] = &["", "-tokenize", "-leaf", "-safestring", "--cst", "--ast"];

/// The flags, in any order and with overridden ones, and what they come to.
fn flags(s: &mut Src) -> (Vec<String>, &'static str, bool, bool) {
    let (mut v, mut mode, mut print, mut times) = (vec![], "", true, false);
    for _ in 0..s.below(4) {
        match s.below(8) {
            0 => {
                v.push(s.ps(&["-n", "-check", "-syntaxq", "-syntaxQ"]).to_owned());
                print = false;
            },
            1 | 2 => {
                v.push("--flatten-times".to_owned());
                times = true;
            },
            _ => {
                let m = s.ps(MODES);
                if !m.is_empty() {
                    v.push(m.to_owned());
                    mode = m;
                }
            },
        }
    }
    (v, mode, print, times)
}

/// What the library answers; `None` if this mode has no answer.
fn answer(t: &[u8], mode: &str, print: bool, times: bool) -> Option<String> {
    let mut o = ParseOptions::default();
    o.quirk_settings.flatten_times = times;
    let a = match mode {
        "-tokenize" => format!("{}\n", FmtAsExpr(&tokenize_bytes(t, &o).ok()?)),
        "-leaf" => format!("{}\n", FmtAsExpr(&parse_to_token(t, &o, StringifyMode::Normal).syntax)),
        "-safestring" => format!("{}\n", safe_string(t, &o).ok()?),
        "--cst" => format!("{:#?}\n", parse_bytes_cst_seq(t, &o).syntax),
        "--ast" => format!("{:#?}\n", parse_bytes_ast_seq(t, &o).syntax),
        _ => format!("{}\n", FmtAsExpr(&parse_bytes_cst_seq(t, &o).syntax)),
    };
    Some(if print { a } else { String::new() })
}

/// Runs the program; its output and whether it ended well.
fn run(args: &[String], input: Vec<u8>, most: usize, limit: Duration) -> Result<(Vec<u8>, bool), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("wlmain");
    let mut c = Command::new(&exe)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("{}: {e}", exe.display()))?;
    let mut i = c.stdin.take().unwrap();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(&input);
    });
    let r = c.stdout.take().unwrap();
    let r = std::thread::spawn(move || {
        let mut v = vec![];
        // More than this is wrong, be it an endless loop.
        let _ = r.take(most as u64).read_to_end(&mut v);
        v
    });
    let t = Instant::now();
    let mut over = false;
    let ok = loop {
        match c.try_wait() {
            Ok(Some(s)) => break s.success() && !over,
            Ok(None) if t.elapsed() > limit => {
                over = true;
                let _ = c.kill();
            },
            Ok(None) => std::thread::sleep(Duration::from_micros(300)),
            Err(e) => return Err(e.to_string()),
        }
    };
    let _ = w.join();
    Ok((r.join().unwrap_or_default(), ok))
}

fn judge(args: &[String], input: Vec<u8>, want: &str, took: Duration, key: &str) -> Option<Outcome> {
    let (got, ok) = match run(args, input, want.len() + 4096, Duration::from_secs(90).min(Duration::from_secs(60) + 30 * took)) {
        Ok(r) => r,
        Err(m) => panic!("the program cannot be run: {m}"),
    };
    let got = String::from_utf8_lossy(&got).into_owned();
    if got != want {
        return Some(fail("the program does not print the answer", key, format!("printed  {got:?}\nanswer {want:?}")));
    }
    if !ok {
        return Some(fail("the program does not end well", key, "it printed the answer, and ended by a signal or with an error"));
    }
    None
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

fn file(s: &mut Src) -> Outcome {
    let (mut args, mode, print, times) = flags(s);
    let t = if s.chance(1, 3) { any_bytes(s, TextCfg { max_frags: 12 }) } else { any_text(s, TextCfg { max_frags: 12 }).into_bytes() };
    let mut t = t;
    if s.chance(1, 30) {
        // A file of several kilobytes.
        let l = s.ps(&["f[x] + 1;\n", "(* comment *)\r\n", "\"string \\n\" <> y\n\n", "x\t=\t{1, 2}\n", "a b c "]);
        let mut v = l.repeat(s.below(12_000) as usize / l.len() + 1).into_bytes();
        match s.below(3) {
            0 => v.append(&mut t),
            1 => v.splice(0..0, t).for_each(drop),
            _ => (),
        }
        t = v;
    }
    let key = format!("{args:?} {:?}", String::from_utf8_lossy(&t));
    let start = Instant::now();
    let want = match guard(|| answer(&t, mode, print, times)) {
        Ok(Some(w)) if w.len() > 500_000 => return Outcome::Discard("too much to print"),
        Ok(Some(w)) => w,
        Ok(None) => return Outcome::Discard("no answer in this mode"),
        Err(_) => return Outcome::Discard("the library itself panicked"),
    };
    let took = start.elapsed();
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let path = std::env::temp_dir().join(format!("wlcheck-p31-{}-{n}.wl", std::process::id()));
    std::fs::write(&path, &t).expect("scratch file");
    let at = s.below(args.len() as u32 + 1) as usize;
    args.splice(at..at, ["-file".to_owned(), path.display().to_string()]);
    let r = judge(&args, vec![], &want, took, &key);
    let _ = std::fs::remove_file(&path);
    r.unwrap_or_else(|| pass(&key, !want.trim().is_empty(), vec![if mode.is_empty() { "default" } else { mode }]))
}

fn lines(s: &mut Src) -> Outcome {
    let (args, mode, print, times) = flags(s);
    let mut input = String::new();
    let mut want = String::new();
    let n = s.below(7);
    let start = Instant::now();
    for i in 0..n {
        let t = any_text(s, TextCfg { max_frags: 6 }).replace('\n', " ");
        let last = i + 1 == n && s.chance(1, 3);
        if last && t.is_empty() {
            break;
        }
        input.push_str(&t);
        if !last {
            input.push_str(s.ps(&["\n", "\r\n", " \n"]));
        }
        match guard(|| answer(t.trim_end().as_bytes(), mode, print, times)) {
            Ok(Some(w)) => want.push_str(&format!(">>> {w}")),
            Ok(None) => return Outcome::Discard("no answer in this mode"),
            Err(_) => return Outcome::Discard("the library itself panicked"),
        }
    }
    if want.len() > 500_000 {
        return Outcome::Discard("too much to print");
    }
    want.push_str(">>> ");
    let key = format!("{args:?} {input:?}");
    judge(&args, input.into_bytes(), &want, start.elapsed(), &key).unwrap_or_else(|| pass(&key, n > 1, vec![if mode.is_empty() { "default" } else { mode }]))
}
