//! Generated-input search engine: a choice-sequence generator (every random
//! decision is one recorded bounded integer), a deterministic parallel runner,
//! an internal shrinker working on the choice sequence, and the evidence and
//! replay writers.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

//======================================================================
// Choice source
//======================================================================

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng::new(0x51ED_270B_9F0C_6F1D);
    let mut acc = 0u64;
    for p in parts {
        r.0 ^= *p;
        acc = acc.rotate_left(17) ^ r.next();
    }
    acc
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.as_bytes() {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Simplest characters first: letters, blank, digits, other printable ASCII,
/// newline, the remaining ASCII controls, then everything else.
fn char_order() -> &'static (Vec<u32>, Vec<u32>) {
    use std::sync::OnceLock;
    static T: OnceLock<(Vec<u32>, Vec<u32>)> = OnceLock::new();
    T.get_or_init(|| {
        let mut order: Vec<u32> = (0x61..=0x7a).collect();
        order.push(0x20);
        order.extend(0x30..=0x39);
        order.extend(0x21..=0x7e);
        order.push(0x0a);
        order.extend(0..0x80);
        let mut seen = [false; 0x80];
        order.retain(|c| !std::mem::replace(&mut seen[*c as usize], true));
        let mut inv = vec![0; 0x80];
        for (i, c) in order.iter().enumerate() {
            inv[*c as usize] = i as u32;
        }
        (order, inv)
    })
}
pub fn enc_char(c: u32) -> u32 {
    if c < 0x80 {
        char_order().1[c as usize]
    } else {
        c
    }
}
pub fn dec_char(v: u32) -> u32 {
    if v < 0x80 {
        char_order().0[v as usize]
    } else {
        v
    }
}

/// Source of choices: random while exploring, fixed while shrinking/replaying.
pub struct Src {
    rng: Option<Rng>,
    fixed: Vec<u32>,
    pos: usize,
    pub taken: Vec<u32>,
    /// Set by the text generators: the position where the *last* piece of
    /// generated text began, and the text, re-encodable as a literal.
    pub literal: Option<(usize, Vec<u32>)>,
    /// Rough size budget (0..=100), grows over the run.
    pub size: u32,
}

impl Src {
    pub fn random(seed: u64, size: u32) -> Self {
        Src {
            rng: Some(Rng::new(seed)),
            fixed: Vec::new(),
            pos: 0,
            taken: Vec::new(),
            literal: None,
            size,
        }
    }
    pub fn fixed(choices: Vec<u32>, size: u32) -> Self {
        Src {
            rng: None,
            fixed: choices,
            pos: 0,
            taken: Vec::new(),
            literal: None,
            size,
        }
    }
    /// A number in 0..n; 0 is the simplest.
    pub fn below(&mut self, n: u32) -> u32 {
        assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => (r.next() % u64::from(n)) as u32,
            None => {
                let v = self.fixed.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            },
        };
        self.pos += 1;
        self.taken.push(v);
        v
    }
    pub fn range(&mut self, lo: u32, hi_incl: u32) -> u32 {
        lo + self.below(hi_incl - lo + 1)
    }
    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        // encode so that 0 => false
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u32) as usize;
        &items[i]
    }
    pub fn ps<'a>(&mut self, items: &[&'a str]) -> &'a str {
        let i = self.below(items.len() as u32) as usize;
        items[i]
    }
    /// Weighted index.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }
    pub fn mark(&self) -> usize {
        self.pos
    }
    pub fn is_random(&self) -> bool {
        self.rng.is_some()
    }
}

//======================================================================
// Outcomes
//======================================================================

pub struct Report {
    /// Text identifying the case (used for distinctness and samples).
    pub key: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

pub enum Outcome {
    Pass(Report),
    /// Case outside the property's domain.
    Discard(&'static str),
    Fail {
        /// Stable, input independent signature of *what* failed.
        sig: String,
        /// Rendered case.
        key: String,
        detail: String,
    },
}

impl Outcome {
    pub fn nontrivial_if(mut self, yes: bool) -> Outcome {
        if let Outcome::Pass(r) = &mut self {
            r.nontrivial = yes;
        }
        self
    }
}

pub type CheckFn = fn(&mut Src) -> Outcome;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub f: CheckFn,
}

pub struct Property {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

//======================================================================
// Panic capture
//======================================================================

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = match info.location() {
            Some(l) => {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            },
            None => "?".to_string(),
        };
        LAST_PANIC.with(|p| {
            *p.borrow_mut() = Some(format!("{loc}: {msg}"));
        });
    }));
}

/// Run a call into the code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

//======================================================================
// Runner
//======================================================================

pub struct Known {
    pub property: String,
    pub sub: String,
    pub sig: String,
    pub what: String,
}

#[derive(Default)]
pub struct SubStats {
    pub name: String,
    pub evaluations: u64,
    pub discarded: BTreeMap<String, u64>,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known_hits: BTreeMap<String, u64>,
}

pub struct Failure {
    pub sub: String,
    pub sig: String,
    pub key: String,
    pub detail: String,
    pub choices: Vec<u32>,
    pub case_index: u64,
    pub size: u32,
}

pub struct RunCfg {
    pub seed: u64,
    pub threads: usize,
    pub scale: f64,
    pub watchdog_s: u64,
}

fn run_one(sub: &Sub, src: &mut Src) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| (sub.f)(src))) {
        Ok(o) => o,
        Err(_) => {
            let msg = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into());
            Outcome::Fail {
                sig: format!("panic: {}", strip_loc(&msg)),
                key: src
                    .literal
                    .as_ref()
                    .map(|(_, l)| lit_display(l))
                    .unwrap_or_default(),
                detail: format!("panicked: {msg}"),
            }
        },
    }
}

pub fn strip_loc(msg: &str) -> String {
    // file:line: message -> file: first words of the message, no digits.
    let mut parts = msg.splitn(2, ": ");
    let loc = parts.next().unwrap_or("");
    let rest = parts.next().unwrap_or("");
    let file = loc.split(':').next().unwrap_or("");
    let mut rest: String = rest
        .chars()
        .map(|c| if c.is_ascii_digit() { '#' } else { c })
        .collect();
    while rest.contains("##") {
        rest = rest.replace("##", "#");
    }
    let rest: String = rest.chars().take(60).collect();
    format!("{file}: {rest}")
}

fn lit_display(l: &[u32]) -> String {
    l.iter()
        .map(|c| char::from_u32(*c).unwrap_or('\u{fffd}'))
        .collect()
}

//----------------------------------------------------------------------
// Progress: which case each thread is running, kept in a shared file mapping
// so that a supervising process can read it after a crash.
//----------------------------------------------------------------------

static LOCAL: [AtomicU64; 64] = {
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; 64]
};
static PROGRESS: std::sync::atomic::AtomicPtr<AtomicU64> =
    std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// Slot 63 holds the index of the sub-check; slots 0..16 the case + 1.
/// Exit status of a search with a case that does not end (slot 62 names it).
pub const STUCK: i32 = 30;

pub fn progress(slot: usize) -> &'static AtomicU64 {
    let p = PROGRESS.load(Ordering::Relaxed);
    if p.is_null() {
        &LOCAL[slot]
    } else {
        // in bounds: the mapping has 64 slots
        unsafe { &*p.add(slot) }
    }
}

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Map the progress table onto a file of at least 512 bytes.
pub fn share_progress(path: &str) {
    use std::os::fd::AsRawFd;
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(path) else {
        return;
    };
    // PROT_READ|PROT_WRITE, MAP_SHARED
    let p = unsafe { mmap(std::ptr::null_mut(), 512, 3, 1, f.as_raw_fd(), 0) };
    if p as isize != -1 {
        PROGRESS.store(p as *mut AtomicU64, Ordering::SeqCst);
    }
}

/// The choice source of case `i` of a sub-check.
pub fn case_src(prop: &str, sub: &Sub, seed: u64, i: u64) -> Src {
    let base = mix(&[seed, hash_str(prop), hash_str(sub.name)]);
    Src::random(mix(&[base, i]), size_of(i, 0))
}

/// Run one case in this process (used to confirm a crash).
pub fn run_case(prop: &str, sub: &Sub, seed: u64, i: u64) {
    let mut src = case_src(prop, sub, seed, i);
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn_scoped(sc, || {
                let _ = run_one(sub, &mut src);
            })
            .unwrap();
    });
}

fn size_of(i: u64, n: u64) -> u32 {
    // Sizes cycle so that small and large cases are interleaved.
    let _ = n;
    [8, 15, 25, 40, 60, 80, 100][(i % 7) as usize]
}

pub fn run_sub(
    prop: &str,
    sub: &Sub,
    n: u64,
    cfg: &RunCfg,
    known: &[Known],
) -> (SubStats, Option<Failure>) {
    let min_fail = AtomicU64::new(u64::MAX);
    let fail: Mutex<Option<Failure>> = Mutex::new(None);
    let all: Mutex<SubStats> = Mutex::new(SubStats {
        name: sub.name.into(),
        ..Default::default()
    });
    let done = AtomicUsize::new(0);

    std::thread::scope(|scope| {
        for t in 0..cfg.threads {
            let (min_fail, fail, all, done) =
                (&min_fail, &fail, &all, &done);
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(scope, move || {
                    let mut st = SubStats::default();
                    let mut samples: Vec<(u64, String)> = Vec::new();
                    let mut i = t as u64;
                    while i < n {
                        if i > min_fail.load(Ordering::Relaxed) {
                            break;
                        }
                        let size = size_of(i, n);
                        let mut src = case_src(prop, sub, cfg.seed, i);
                        progress(t).store(i + 1, Ordering::Relaxed);
                        let out = run_one(sub, &mut src);
                        progress(t).store(0, Ordering::Relaxed);
                        match out {
                            Outcome::Pass(r) => {
                                st.evaluations += 1;
                                for l in &r.labels {
                                    *st.labels
                                        .entry((*l).to_string())
                                        .or_insert(0) += 1;
                                }
                                if r.nontrivial {
                                    st.nontrivial += 1;
                                    st.distinct.insert(hash_str(&r.key));
                                    if samples.len() < 4 && r.key.len() > 3 {
                                        samples.push((i, r.key));
                                    }
                                }
                            },
                            Outcome::Discard(why) => {
                                *st.discarded
                                    .entry(why.to_string())
                                    .or_insert(0) += 1;
                            },
                            Outcome::Fail { sig, key, detail } => {
                                st.evaluations += 1;
                                let k = known.iter().find(|k| {
                                    k.property == prop
                                        && k.sub == sub.name
                                        && k.sig == sig
                                });
                                if let Some(k) = k {
                                    *st.known_hits
                                        .entry(k.what.clone())
                                        .or_insert(0) += 1;
                                } else {
                                    let mut f = fail.lock().unwrap();
                                    let better = match &*f {
                                        Some(old) => i < old.case_index,
                                        None => true,
                                    };
                                    if better {
                                        min_fail.store(i, Ordering::Relaxed);
                                        let mut choices = src.taken.clone();
                                        // prefer the literal encoding
                                        if let Some((m, lit)) = &src.literal {
                                            choices.truncate(*m);
                                            choices.push(0);
                                            for c in lit {
                                                choices.push(1);
                                                choices.push(enc_char(*c));
                                            }
                                        }
                                        let lit_choices = choices;
                                        *f = Some(Failure {
                                            sub: sub.name.into(),
                                            sig,
                                            key,
                                            detail,
                                            choices: pick_encoding(
                                                sub,
                                                size,
                                                lit_choices,
                                                src.taken,
                                            ),
                                            case_index: i,
                                            size,
                                        });
                                    }
                                    break;
                                }
                            },
                        }
                        i += cfg.threads as u64;
                    }
                    let mut a = all.lock().unwrap();
                    a.evaluations += st.evaluations;
                    a.nontrivial += st.nontrivial;
                    a.distinct.extend(st.distinct);
                    for (k, v) in st.labels {
                        *a.labels.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.discarded {
                        *a.discarded.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.known_hits {
                        *a.known_hits.entry(k).or_insert(0) += v;
                    }
                    for (_, s) in samples {
                        if a.samples.len() < 12 {
                            a.samples.push(s);
                        }
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // Watchdog: the supervising process decides what a stuck case means.
        let mut last = vec![(0u64, Instant::now()); cfg.threads];
        while done.load(Ordering::SeqCst) < cfg.threads {
            std::thread::sleep(std::time::Duration::from_millis(20));
            for t in 0..cfg.threads {
                let c = progress(t).load(Ordering::Relaxed);
                if c != last[t].0 {
                    last[t] = (c, Instant::now());
                } else if c != 0
                    && last[t].1.elapsed().as_secs() > cfg.watchdog_s
                {
                    eprintln!(
                        "property={prop} sub={} case {} did not finish in {} s",
                        sub.name,
                        c - 1,
                        cfg.watchdog_s
                    );
                    progress(62).store(c, Ordering::SeqCst);
                    std::process::exit(STUCK);
                }
            }
        }
    });
    let st = all.into_inner().unwrap();
    let f = fail.into_inner().unwrap();
    (st, f)
}

fn fails(sub: &Sub, size: u32, choices: &[u32]) -> Option<(String, String, String, Vec<u32>)> {
    let mut src = Src::fixed(choices.to_vec(), size);
    match run_one(sub, &mut src) {
        Outcome::Fail { sig, key, detail } => {
            Some((sig, key, detail, src.taken))
        },
        _ => None,
    }
}

fn pick_encoding(
    sub: &Sub,
    size: u32,
    lit: Vec<u32>,
    taken: Vec<u32>,
) -> Vec<u32> {
    if fails(sub, size, &lit).is_some() {
        lit
    } else {
        taken
    }
}

/// Shrink on the choice sequence; deterministic, bounded number of attempts.
pub fn shrink(sub: &Sub, f: &mut Failure, known: &dyn Fn(&str) -> bool) {
    let mut best = f.choices.clone();
    let mut budget = 30_000usize;
    let start = Instant::now();
    let size = f.size;
    let mut try_it = |cand: &[u32],
                      best: &mut Vec<u32>,
                      f: &mut Failure|
     -> bool {
        if budget == 0 || start.elapsed().as_secs() > 60 {
            return false;
        }
        budget -= 1;
        if let Some((sig, key, detail, taken)) = fails(sub, size, cand) {
            if known(&sig) {
                return false;
            }
            let mut taken = taken;
            while taken.last() == Some(&0) {
                taken.pop();
            }
            let better = taken.len() < best.len()
                || (taken.len() == best.len() && taken < *best);
            if better {
                *best = taken;
                f.sig = sig;
                f.key = key;
                f.detail = detail;
                return true;
            }
        }
        false
    };
    loop {
        let mut improved = false;
        // delete chunks
        let mut chunk = (best.len() / 2).max(1);
        while chunk >= 1 {
            let mut i = best.len();
            // small chunks are tried at every offset, large ones aligned
            let step = if chunk <= 4 { 1 } else { chunk };
            while i > 0 {
                i = i.saturating_sub(step);
                if i >= best.len() {
                    continue;
                }
                let end = (i + chunk).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                if try_it(&cand, &mut best, f) {
                    improved = true;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = if chunk <= 6 { chunk - 1 } else { chunk / 2 };
        }
        // zero / minimise values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if try_it(&cand, &mut best, f) {
                    improved = true;
                } else {
                    for alt in [1, best.get(i).copied().unwrap_or(0) / 2, best.get(i).copied().unwrap_or(1).saturating_sub(1)] {
                        if i < best.len() && alt < best[i] {
                            let mut cand = best.clone();
                            cand[i] = alt;
                            if try_it(&cand, &mut best, f) {
                                improved = true;
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved {
            break;
        }
    }
    f.choices = best;
}

pub fn replay(sub: &Sub, size: u32, choices: &[u32]) -> Outcome {
    let mut src = Src::fixed(choices.to_vec(), size);
    run_one(sub, &mut src)
}

//======================================================================
// JSON helpers
//======================================================================

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
