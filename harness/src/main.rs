mod charextra;
mod engine;
mod longnames;
mod optable;
mod opts;
mod props;
mod reflex;
mod textgen;
mod tree;
mod view;
mod wf;

use engine::*;
use std::collections::BTreeMap;
use std::time::Instant;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("show") {
        show(&args[2], args.get(3).map(|s| s.as_str()) == Some("CI"));
        return;
    }
    install_panic_hook();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = arg(&args, "--tier").unwrap_or_else(|| "quick".into());
    let seed: u64 = arg(&args, "--seed")
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let scale: f64 = arg(&args, "--scale")
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let verif = arg(&args, "--verif").unwrap_or_else(|| "/verif".into());
    let only = arg(&args, "--sub");
    let all = props::all();
    if id == "list" {
        for p in &all {
            for s in &p.subs {
                println!("{} {} {} {}", p.id, s.name, s.quick, s.thorough);
            }
        }
        return;
    }
    let Some(prop) = all.into_iter().find(|p| p.id == id) else {
        eprintln!("ERROR: unknown property {id}");
        std::process::exit(2);
    };

    if let Some(path) = arg(&args, "--replay") {
        std::process::exit(do_replay(&prop, &path));
    }

    if let Some(i) = arg(&args, "--case") {
        let sub = prop
            .subs
            .iter()
            .find(|s| Some(s.name) == only.as_deref())
            .expect("sub");
        run_case(prop.id, sub, seed, i.parse().unwrap());
        return;
    }
    match arg(&args, "--child") {
        Some(path) => share_progress(&path),
        None => std::process::exit(supervise(&args, &prop, &tier, seed, &verif)),
    }

    let known = load_known(&format!("{verif}/known_findings.txt"));
    let start = Instant::now();
    let threads = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(8)
        .clamp(1, 16);
    let cfg = RunCfg {
        seed,
        threads,
        scale,
        watchdog_s: 120,
    };
    let mut stats = Vec::new();
    let mut violations: Vec<(Failure, String)> = Vec::new();
    for (si, sub) in prop.subs.iter().enumerate() {
        progress(63).store(si as u64, std::sync::atomic::Ordering::SeqCst);
        if let Some(o) = &only {
            if o != sub.name {
                continue;
            }
        }
        let n = if tier == "quick" { sub.quick } else { sub.thorough };
        let n = ((n as f64) * cfg.scale).ceil() as u64;
        let t = Instant::now();
        let (st, fail) = run_sub(prop.id, sub, n, &cfg, &known);
        println!(
            "{} {}: {} cases, {} non-trivial ({} distinct), {:.1}s",
            prop.id,
            sub.name,
            st.evaluations,
            st.nontrivial,
            st.distinct.len(),
            t.elapsed().as_secs_f64()
        );
        for (d, c) in &st.discarded {
            println!("    discarded {d}: {c}");
        }
        if args.iter().any(|a| a == "--labels") {
            for (d, c) in &st.labels {
                println!("    label {d}: {c}");
            }
        }
        stats.push((sub.rule, st));
        if let Some(mut f) = fail {
            let is_known = |sig: &str| {
                known.iter().any(|k| {
                    k.property == prop.id && k.sub == sub.name && k.sig == sig
                })
            };
            shrink(sub, &mut f, &is_known);
            let dir = format!("{verif}/replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{}-{}.json", prop.id, sub.name);
            write_replay(&path, &prop, &f, seed);
            println!("FAILED {} {}: {}", prop.id, sub.name, f.sig);
            println!("  input: {}", json_str(&f.key));
            println!("  {}", f.detail.chars().take(2000).collect::<String>());
            violations.push((f, path));
        }
    }
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    for (_, st) in &stats {
        for (k, v) in &st.known_hits {
            *hits.entry(k.clone()).or_insert(0) += v;
        }
    }
    for k in known.iter().filter(|k| k.property == prop.id) {
        println!("KNOWN-FINDING: property={} {}", prop.id, k.what);
    }
    let wall = start.elapsed().as_secs_f64();
    write_evidence(&verif, &prop, &tier, seed, &stats, &violations, wall, &hits);
    for (_, path) in &violations {
        println!("VIOLATION property={} replay={}", prop.id, path);
    }
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}

/// Run the search in a child process. A child ended by a signal of its own
/// making (stack exhausted by unbounded recursion, abort) is a call that never
/// answered: the case is confirmed in a process of its own and reported.
fn supervise(args: &[String], prop: &Property, tier: &str, seed: u64, verif: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let dir = format!("{verif}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let table = format!("{dir}/.progress-{}", std::process::id());
    if std::fs::write(&table, [0u8; 512]).is_err() {
        eprintln!("ERROR: cannot write {table}");
        return 2;
    }
    let start = Instant::now();
    let status = std::process::Command::new(&exe)
        .args(&args[1..])
        .args(["--child", &table])
        .status();
    let t = std::fs::read(&table).unwrap_or_default();
    let _ = std::fs::remove_file(&table);
    let Ok(status) = status else {
        eprintln!("ERROR: cannot run {exe:?}");
        return 2;
    };
    let stuck = status.code() == Some(STUCK);
    if let Some(c) = status.code().filter(|_| !stuck) {
        return c;
    }
    let sig = status.signal().unwrap_or(0);
    if !stuck {
        eprintln!("search process ended by signal {sig}");
    }
    // SIGABRT (Rust's stack overflow), SIGSEGV, SIGBUS, SIGILL, SIGKILL (memory)
    if !(stuck || [6, 11, 7, 4, 9].contains(&sig)) || t.len() != 512 {
        return 3;
    }
    let slot = |i: usize| u64::from_le_bytes(t[8 * i..8 * i + 8].try_into().unwrap());
    let Some(sub) = prop.subs.get(slot(63) as usize) else { return 3 };
    let mut cases: Vec<u64> = match stuck {
        true => vec![slot(62)],
        false => (0..16).map(slot).filter(|i| *i > 0).collect(),
    };
    cases.truncate(8);
    let sig = match stuck {
        true => "call does not end".to_string(),
        false => format!("process ended by signal {sig}"),
    };
    // the case alone, with nothing beside it, on limited time and memory
    for i in cases {
        let i = i - 1;
        let st = std::process::Command::new("bash")
            .arg("-c")
            .arg(format!(
                "ulimit -v 16000000; exec timeout -s KILL {} \"$0\" {} --sub {} --seed {seed} --case {i}",
                if stuck { 150 } else { 60 },
                prop.id,
                sub.name,
            ))
            .arg(&exe)
            .stderr(std::process::Stdio::null())
            .status();
        // `timeout` ends by the signal that ended what it ran
        let crashed = st.map_or(false, |s| s.signal().is_some() || s.code().map_or(false, |c| c > 128));
        if !crashed {
            continue;
        }
        let path = format!("{dir}/{}-{}.json", prop.id, sub.name);
        let f = Failure {
            sub: sub.name.into(),
            sig: sig.clone(),
            key: String::new(),
            detail: format!("rerun: wlcheck {} --sub {} --seed {seed} --case {i}", prop.id, sub.name),
            choices: vec![],
            case_index: i,
            size: 0,
        };
        write_replay(&path, prop, &f, seed);
        println!("FAILED {} {}: {} (case {i})", prop.id, sub.name, f.sig);
        let wall = start.elapsed().as_secs_f64();
        write_evidence(verif, prop, tier, seed, &[], &[(f, path.clone())], wall, &BTreeMap::new());
        println!("VIOLATION property={} replay={}", prop.id, path);
        return 1;
    }
    3
}

fn show(text: &str, ci: bool) {
    let text = text.replace("\\u000a", "\n");
    let mut o = opts::O::plain();
    if ci {
        o.conv = wolfram_parser::source::SourceConvention::CharacterIndex;
    }
    let o = o.make();
    println!(
        "TOKENS {}",
        wolfram_parser::tokenize(&text, &o)
            .0
            .iter()
            .map(|t| format!("{:?}{:?}@{}", t.tok, tree::tok_text(&t.input), t.src))
            .collect::<Vec<_>>()
            .join(" ")
    );
    let r = wolfram_parser::parse_cst_seq(&text, &o);
    println!("CST {}", tree::show_seq_spans(&tree::from_cst_seq(&r.syntax)));
    println!("FATAL {:?}\nNONFATAL {:?}", r.fatal_issues, r.non_fatal_issues);
    println!("TRACKED {:?}", r.tracked.to_nodes());
    let r = wolfram_parser::parse_ast_seq(&text, &o);
    let v: Vec<_> = r.syntax.0.iter().map(tree::from_ast).collect();
    println!("AST {}", tree::show_seq_spans(&v));
}

/// Lines: `finding<TAB>property<TAB>sub<TAB>signature<TAB>what` (suppress) or
/// `fixed: ...` (suppress nothing).
fn load_known(path: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(path) else {
        return vec![];
    };
    t.lines()
        .filter_map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() == 5 && f[0] == "finding" {
                Some(Known {
                    property: f[1].into(),
                    sub: f[2].into(),
                    sig: f[3].into(),
                    what: f[4].into(),
                })
            } else {
                None
            }
        })
        .collect()
}

fn write_replay(path: &str, prop: &Property, f: &Failure, seed: u64) {
    let choices = f
        .choices
        .iter()
        .map(|c| c.to_string())
        .collect::<Vec<_>>()
        .join(",");
    let s = format!(
        "{{\n  \"property\": {},\n  \"sub\": {},\n  \"seed\": {},\n  \"case\": {},\n  \"size\": {},\n  \"choices\": [{}],\n  \"signature\": {},\n  \"input\": {},\n  \"detail\": {}\n}}\n",
        json_str(prop.id),
        json_str(&f.sub),
        seed,
        f.case_index,
        f.size,
        choices,
        json_str(&f.sig),
        json_str(&f.key),
        json_str(&f.detail)
    );
    let _ = std::fs::write(path, s);
}

fn do_replay(prop: &Property, path: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else {
        eprintln!("ERROR: cannot read {path}");
        return 2;
    };
    let field = |name: &str| -> Option<String> {
        let k = format!("\"{name}\": ");
        let i = t.find(&k)? + k.len();
        let rest = &t[i..];
        let end = rest.find('\n').unwrap_or(rest.len());
        Some(rest[..end].trim_end_matches(',').to_string())
    };
    let sub_name = field("sub").unwrap_or_default().replace('"', "");
    let size: u32 = field("size").and_then(|s| s.parse().ok()).unwrap_or(100);
    let choices: Vec<u32> = field("choices")
        .unwrap_or_default()
        .trim_matches(|c| c == '[' || c == ']')
        .split(',')
        .filter_map(|s| s.trim().parse().ok())
        .collect();
    let Some(sub) = prop.subs.iter().find(|s| s.name == sub_name) else {
        eprintln!("ERROR: no sub-check {sub_name}");
        return 2;
    };
    if choices.is_empty() && size == 0 {
        // a crash: run the generated case itself
        let seed: u64 = field("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
        let case: u64 = field("case").and_then(|s| s.parse().ok()).unwrap_or(0);
        run_case(prop.id, sub, seed, case);
        println!("holds on replayed case {case}");
        return 0;
    }
    match std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn_scoped(sc, || replay(sub, size, &choices))
            .unwrap()
            .join()
            .unwrap()
    }) {
        Outcome::Fail { sig, key, detail } => {
            println!("FAILED {} {}: {}", prop.id, sub.name, sig);
            println!("  input: {}", json_str(&key));
            println!("  {detail}");
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        },
        Outcome::Pass(r) => {
            println!("holds on replayed case: {}", json_str(&r.key));
            0
        },
        Outcome::Discard(why) => {
            println!("replayed case is outside the property: {why}");
            0
        },
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    verif: &str,
    prop: &Property,
    tier: &str,
    seed: u64,
    stats: &[(&'static str, SubStats)],
    violations: &[(Failure, String)],
    wall: f64,
    hits: &BTreeMap<String, u64>,
) {
    let evals: u64 = stats.iter().map(|(_, s)| s.evaluations).sum();
    let distinct: u64 = stats.iter().map(|(_, s)| s.distinct.len() as u64).sum();
    let rule = stats
        .iter()
        .map(|(r, s)| format!("[{}] {}", s.name, r))
        .collect::<Vec<_>>()
        .join("; ");
    let mut samples: Vec<String> = Vec::new();
    for (_, s) in stats {
        for x in s.samples.iter().take(4) {
            let x: String = x.chars().take(300).collect();
            samples.push(json_str(&format!("[{}] {}", s.name, x)));
        }
    }
    let subs = stats
        .iter()
        .map(|(_, s)| {
            let m = |m: &BTreeMap<String, u64>| {
                m.iter()
                    .map(|(k, v)| format!("{}: {}", json_str(k), v))
                    .collect::<Vec<_>>()
                    .join(", ")
            };
            format!(
                "{}: {{\"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"discarded\": {{{}}}, \"labels\": {{{}}}}}",
                json_str(&s.name),
                s.evaluations,
                s.nontrivial,
                s.distinct.len(),
                m(&s.discarded),
                m(&s.labels)
            )
        })
        .collect::<Vec<_>>()
        .join(",\n      ");
    let known = hits
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    let assumptions = prop
        .assumptions
        .iter()
        .map(|a| json_str(a))
        .collect::<Vec<_>>()
        .join(", ");
    let s = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"subchecks\": {{\n      {}\n    }},\n    \"known_finding_hits\": {{{}}}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json_str(prop.id),
        json_str(tier),
        seed,
        evals,
        distinct,
        json_str(&rule),
        samples.join(", "),
        subs,
        known,
        assumptions,
        wall,
        violations.len()
    );
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    if let Err(e) =
        std::fs::write(format!("{verif}/evidence/{}.json", prop.id), s)
    {
        eprintln!("ERROR: cannot write evidence: {e}");
        std::process::exit(2);
    }
}
