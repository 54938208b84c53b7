//! The check driver: a parent process hands case indices to worker processes,
//! watches them (crash, CPU-bound hang, deadlock), collects violations with the
//! witness case, shrinks them, compares them with the known-findings file and
//! writes the evidence file.

use crate::ops::Op;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A self-contained witness: everything a run needs.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Case {
    pub kind: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub ops: Vec<Op>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub texts: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub nums: Vec<u64>,
}
impl Case {
    pub fn ops(kind: &str, ops: Vec<Op>) -> Case {
        Case { kind: kind.into(), ops, ..Default::default() }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
}
pub fn viol<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { return Err($crate::runner::Viol { sig: ($sig).into(), msg: format!($($arg)*) }); }
    };
}

pub type Verdict = Result<(), Viol>;

/// What the monitors observed.
#[derive(Default, Serialize, Deserialize)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    #[serde(skip)]
    pub keys: HashSet<u64>,
}
impl Obs {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 || !self.counters.contains_key(k) {
            match self.counters.get_mut(k) {
                Some(v) => *v += n,
                None => {
                    self.counters.insert(k.to_string(), n);
                }
            }
        }
    }
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1)
    }
    /// Record a distinct non-trivial observation.
    pub fn distinct<T: Hash>(&mut self, t: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.keys.insert(h.finish());
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must be non-zero for the run to count as having observed anything
    pub must_observe: &'static [&'static str],
    pub generate: fn(&mut Rng, u64, Tier) -> Case,
    pub run: fn(&Case, &mut Obs) -> Verdict,
    /// worker processes (1 for checks that are themselves multi-threaded)
    pub workers: usize,
    pub repeat_on_shrink: usize,
}

// ── panic capture ───────────────────────────────────────────────────────────

static PANICS: Mutex<Vec<(String, String, bool)>> = Mutex::new(Vec::new());
thread_local!(static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var("VMON_PANIC").is_ok() { eprintln!("PANIC {info}\n{}", std::backtrace::Backtrace::force_capture()); }
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_else(|| "?".into());
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let main = IN_CASE.with(|c| c.get());
        if std::env::var("VMON_TRACE").is_ok() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).push((loc, msg, main));
    }));
}

pub enum Outcome {
    Held,
    Violated(Viol),
    HarnessError(String),
}

fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/src")
}

fn short_loc(loc: &str) -> String {
    let file = loc.split(':').next().unwrap_or(loc);
    let f = file.rsplit("/crates/").next().unwrap_or(file);
    let f = if f.contains(".cargo") || f.contains("/rustc/") || f.contains("rustlib") {
        f.rsplit('/').next().unwrap_or(f)
    } else {
        f
    };
    f.to_string()
}

pub fn run_case(p: &Prop, case: &Case, obs: &mut Obs) -> Outcome {
    PANICS.lock().unwrap().clear();
    IN_CASE.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(case, obs)));
    IN_CASE.with(|c| c.set(false));
    let panics = std::mem::take(&mut *PANICS.lock().unwrap());
    match r {
        Ok(Err(v)) if v.sig == "harness" => Outcome::HarnessError(v.msg),
        Ok(Err(v)) => Outcome::Violated(v),
        Err(_) => {
            let (loc, msg, _) = panics.last().cloned().unwrap_or_default();
            if is_harness_loc(&loc) {
                Outcome::HarnessError(format!("panic in the harness at {loc}: {msg}"))
            } else {
                Outcome::Violated(Viol { sig: format!("panic@{}", short_loc(&loc)), msg: format!("panicked at {loc}: {msg}") })
            }
        }
        Ok(Ok(())) => {
            for (loc, msg, main) in panics {
                if main || msg.contains("vmon-expected") {
                    continue; // caught and judged by the property itself
                }
                if is_harness_loc(&loc) {
                    return Outcome::HarnessError(format!("panic in a harness thread at {loc}: {msg}"));
                }
                return Outcome::Violated(Viol {
                    sig: format!("thread-panic@{}", short_loc(&loc)),
                    msg: format!("a background thread panicked at {loc}: {msg}"),
                });
            }
            Outcome::Held
        }
    }
}

// ── worker ──────────────────────────────────────────────────────────────────

#[derive(Serialize, Deserialize)]
struct WorkerEnd {
    counters: BTreeMap<String, u64>,
    keys: Vec<u64>,
    evaluated: u64,
    samples: Vec<Value>,
}

pub fn worker(p: &Prop, seed: u64, tier: Tier, w: u64, step: u64, from: u64, total: u64, budget: f64, root: &str) {
    install_hook();
    let knowns = known(root);
    let out = std::io::stdout();
    let t0 = Instant::now();
    let mut obs = Obs::default();
    let mut evaluated = 0;
    let mut samples = vec![];
    let (mut viols, mut listed) = (0, 0);
    let say = |s: String| {
        let mut o = out.lock();
        let _ = writeln!(o, "{s}");
        let _ = o.flush();
    };
    let mut i = from;
    let _ = w;
    while i < total && t0.elapsed().as_secs_f64() < budget {
        say(format!("S {i}"));
        let mut rng = Rng::for_case(seed, p.id, i);
        let case = (p.generate)(&mut rng, i, tier);
        match run_case(p, &case, &mut obs) {
            Outcome::Held => {
                if samples.len() < 2 && (i / step) % 7 == 3 {
                    samples.push(serde_json::to_value(&case).unwrap());
                }
            }
            Outcome::HarnessError(m) => say(format!("H {}", serde_json::to_string(&m).unwrap())),
            Outcome::Violated(v) => {
                // findings that are listed do not use up the number of violations to report
                if knowns.iter().any(|k| k.property == p.id && k.sig == v.sig) {
                    listed += 1;
                } else {
                    viols += 1;
                }
                if listed <= 12 || viols > 0 {
                    say(format!("V {}", serde_json::to_string(&json!({"index": i, "case": case, "viol": v})).unwrap()));
                }
                if viols >= 12 {
                    evaluated += 1;
                    break;
                }
            }
        }
        evaluated += 1;
        i += step;
    }
    let end = WorkerEnd { counters: obs.counters, keys: obs.keys.into_iter().collect(), evaluated, samples };
    say(format!("E {}", serde_json::to_string(&end).unwrap()));
}

// ── shrinking ───────────────────────────────────────────────────────────────

fn fails_same(p: &Prop, c: &Case, sig: &str) -> Option<Viol> {
    for _ in 0..p.repeat_on_shrink.max(1) {
        let mut o = Obs::default();
        if let Outcome::Violated(v) = run_case(p, c, &mut o) {
            if v.sig == sig {
                return Some(v);
            }
        }
    }
    None
}

pub fn shrink(p: &Prop, case: &Case, v: &Viol, secs: f64) -> (Case, Viol) {
    let t0 = Instant::now();
    let mut best = case.clone();
    let mut bv = v.clone();
    let over = || t0.elapsed().as_secs_f64() > secs;
    // drop chunks of ops, then single ops; same for texts that are droppable
    loop {
        let before = serde_json::to_string(&best).unwrap().len();
        let mut n = best.ops.len().max(1) / 2;
        while n >= 1 && !best.ops.is_empty() && !over() {
            let mut i = 0;
            while i < best.ops.len() && !over() {
                let mut c = best.clone();
                let hi = (i + n).min(c.ops.len());
                c.ops.drain(i..hi);
                if let Some(nv) = fails_same(p, &c, &v.sig) {
                    best = c;
                    bv = nv;
                } else {
                    i += n;
                }
            }
            n /= 2;
        }
        // drop calls
        if best.kind == "calls" {
            let mut n = best.nums.len().max(1) / 2;
            while n >= 1 && !over() {
                let mut i = 0;
                while i < best.nums.len() && !over() {
                    let mut c = best.clone();
                    let hi = (i + n).min(c.nums.len());
                    c.nums.drain(i..hi);
                    if let Some(nv) = fails_same(p, &c, &v.sig) {
                        best = c;
                        bv = nv;
                    } else {
                        i += n;
                    }
                }
                n /= 2;
            }
        }
        // shorten strings
        for i in 0..best.texts.len() {
            let mut chunk = best.texts[i].chars().count() / 2;
            while chunk >= 1 && !over() {
                let mut at = 0;
                while at < best.texts[i].chars().count() && !over() {
                    let mut c = best.clone();
                    c.texts[i] = c.texts[i].chars().enumerate().filter(|(k, _)| *k < at || *k >= at + chunk).map(|(_, ch)| ch).collect();
                    if let Some(nv) = fails_same(p, &c, &v.sig) {
                        best = c;
                        bv = nv;
                    } else {
                        at += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // shorten strings and shrink numbers inside ops through their JSON form
        for i in 0..best.ops.len() {
            if over() {
                break;
            }
            let j = serde_json::to_value(&best.ops[i]).unwrap();
            for alt in simpler(&j) {
                if over() {
                    break;
                }
                if let Ok(op) = serde_json::from_value::<Op>(alt) {
                    let mut c = best.clone();
                    c.ops[i] = op;
                    if let Some(nv) = fails_same(p, &c, &v.sig) {
                        best = c;
                        bv = nv;
                        break;
                    }
                }
            }
        }
        for i in 0..if best.kind == "calls" { 0 } else { best.nums.len() } {
            for cand in [0, best.nums[i] / 2, best.nums[i].saturating_sub(1)] {
                if cand < best.nums[i] && !over() {
                    let mut c = best.clone();
                    c.nums[i] = cand;
                    if let Some(nv) = fails_same(p, &c, &v.sig) {
                        best = c;
                        bv = nv;
                        break;
                    }
                }
            }
        }
        if over() || serde_json::to_string(&best).unwrap().len() >= before {
            break;
        }
    }
    (best, bv)
}

fn simpler(v: &Value) -> Vec<Value> {
    match v {
        Value::String(s) if !s.is_empty() => {
            let cs: Vec<char> = s.chars().collect();
            let mut out = vec![json!("")];
            if cs.len() > 1 {
                out.push(json!(cs[..cs.len() / 2].iter().collect::<String>()));
                out.push(json!(cs[cs.len() / 2..].iter().collect::<String>()));
                out.push(json!(cs[1..].iter().collect::<String>()));
                out.push(json!(cs[..cs.len() - 1].iter().collect::<String>()));
            }
            out
        }
        Value::Number(n) => match n.as_u64() {
            Some(k) if k > 0 => vec![json!(0), json!(k / 2), json!(k - 1)],
            _ => vec![],
        },
        Value::Object(m) => {
            let mut out = vec![];
            for (k, x) in m {
                for y in simpler(x) {
                    let mut m2 = m.clone();
                    m2.insert(k.clone(), y);
                    out.push(Value::Object(m2));
                }
            }
            out
        }
        _ => vec![],
    }
}

// ── known findings ──────────────────────────────────────────────────────────

#[derive(Deserialize)]
pub struct Known {
    pub property: String,
    #[serde(default)]
    pub status: String,
    #[serde(default)]
    pub sig: String,
    #[serde(default)]
    pub what: String,
}

pub fn known(root: &str) -> Vec<Known> {
    let p = format!("{root}/known_findings.jsonl");
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .filter_map(|l| serde_json::from_str::<Known>(l).ok())
        .filter(|k| k.status == "known")
        .collect()
}

// ── parent ──────────────────────────────────────────────────────────────────

struct WState {
    child: std::process::Child,
    last: Instant,
    last_cpu: u64,
    cpu_at_start: u64,
    idle_since: Option<Instant>,
    current: Option<u64>,
    ended: bool,
    eof: bool,
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}
fn all_sleeping(pid: u32) -> bool {
    let Ok(rd) = std::fs::read_dir(format!("/proc/{pid}/task")) else { return false };
    for t in rd.flatten() {
        let Ok(s) = std::fs::read_to_string(t.path().join("stat")) else { return false };
        let st = s.rsplit(')').next().unwrap_or("").trim().chars().next().unwrap_or('?');
        if st != 'S' {
            return false;
        }
    }
    true
}

pub fn check(p: &Prop, seed: u64, tier: Tier, root: &str) -> i32 {
    let t0 = Instant::now();
    let total = match (std::env::var("VMON_CASES").ok().and_then(|s| s.parse().ok()), tier) {
        (Some(n), _) => n,
        (None, Tier::Quick) => p.quick,
        (None, Tier::Thorough) => p.thorough,
    };
    let budget: f64 = std::env::var("VMON_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 240.0,
        Tier::Thorough => 600.0,
    });
    let workers = p.workers.max(1);
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel::<(usize, Option<String>)>();
    let spawn = |w: usize, from: u64, left: f64, tx: mpsc::Sender<(usize, Option<String>)>| {
        let mut ch = Command::new(&exe)
            .args(["worker", p.id, &seed.to_string(), if tier == Tier::Quick { "quick" } else { "thorough" }])
            .args([w.to_string(), workers.to_string(), from.to_string(), total.to_string(), left.to_string()])
            .stdout(Stdio::piped())
            .stderr(if std::env::var("VMON_TRACE").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("spawn worker");
        let so = ch.stdout.take().unwrap();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send((w, Some(l))).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send((w, None));
        });
        WState { child: ch, last: Instant::now(), last_cpu: 0, cpu_at_start: 0, idle_since: None, current: None, ended: false, eof: false }
    };
    let mut ws: Vec<WState> = (0..workers).map(|w| spawn(w, w as u64, budget, tx.clone())).collect();
    let mut obs = Obs::default();
    let mut evaluated = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut raw: Vec<(u64, Case, Viol)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut restarts = 0;
    let regen = |i: u64| (p.generate)(&mut Rng::for_case(seed, p.id, i), i, tier);

    while ws.iter().any(|w| !w.eof) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((w, Some(l))) => {
                ws[w].last = Instant::now();
                ws[w].idle_since = None;
                let (tag, rest) = l.split_at(l.len().min(2));
                match tag.trim() {
                    "S" => {
                        ws[w].current = rest.parse().ok();
                    }
                    "V" => {
                        if let Ok(v) = serde_json::from_str::<Value>(rest) {
                            let case: Case = serde_json::from_value(v["case"].clone()).unwrap_or_default();
                            if let Ok(vi) = serde_json::from_value::<Viol>(v["viol"].clone()) {
                                raw.push((v["index"].as_u64().unwrap_or(0), case, vi));
                            }
                        }
                    }
                    "H" => errors.push(rest.to_string()),
                    "E" => {
                        ws[w].ended = true;
                        if let Ok(e) = serde_json::from_str::<WorkerEnd>(rest) {
                            evaluated += e.evaluated;
                            for (k, n) in e.counters {
                                obs.add(&k, n);
                            }
                            obs.keys.extend(e.keys);
                            samples.extend(e.samples);
                        }
                    }
                    _ => {}
                }
            }
            Ok((w, None)) => {
                let st = ws[w].child.wait().ok();
                ws[w].eof = true;
                if !ws[w].ended {
                    use std::os::unix::process::ExitStatusExt;
                    let sig = st.and_then(|s| s.signal());
                    let cur = ws[w].current;
                    match (sig, cur) {
                        (Some(9), _) | (_, None) => errors.push(format!("worker {w} ended early ({st:?})")),
                        (s, Some(i)) => {
                            raw.push((
                                i,
                                regen(i),
                                Viol { sig: "crash".into(), msg: format!("the process died (status {st:?}, signal {s:?}) while running case {i}") },
                            ));
                            evaluated += 1;
                            restarts += 1;
                            if restarts < 20 {
                                let left = budget - t0.elapsed().as_secs_f64();
                                ws[w] = spawn(w, i + workers as u64, left, tx.clone());
                            }
                        }
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        // watchdog
        for w in 0..ws.len() {
            if ws[w].eof || ws[w].last.elapsed() < Duration::from_secs(5) {
                if let Some(t) = cpu_ticks(ws[w].child.id()) {
                    if ws[w].last.elapsed() < Duration::from_millis(600) {
                        ws[w].cpu_at_start = t;
                    }
                    ws[w].last_cpu = t;
                }
                continue;
            }
            let pid = ws[w].child.id();
            let Some(t) = cpu_ticks(pid) else { continue };
            let asleep = all_sleeping(pid);
            if t == ws[w].last_cpu && asleep {
                let since = *ws[w].idle_since.get_or_insert_with(Instant::now);
                if since.elapsed() > Duration::from_secs(25) {
                    let i = ws[w].current.unwrap_or(0);
                    raw.push((i, regen(i), Viol {
                        sig: "deadlock".into(),
                        msg: format!("case {i}: every thread of the process stayed blocked with no CPU use for 25 s"),
                    }));
                    ws[w].ended = true;
                    let _ = ws[w].child.kill();
                    let left = budget - t0.elapsed().as_secs_f64();
                    restarts += 1;
                    if restarts < 4 {
                        let _ = ws[w].child.wait();
                        ws[w] = spawn(w, i + workers as u64, left, tx.clone());
                    }
                }
            } else {
                ws[w].idle_since = None;
            }
            ws[w].last_cpu = t;
            // 100 ticks per second
            if t.saturating_sub(ws[w].cpu_at_start) > 9_000 {
                let i = ws[w].current.unwrap_or(0);
                raw.push((i, regen(i), Viol {
                    sig: "hang".into(),
                    msg: format!("case {i} consumed more than 90 s of CPU without finishing (typical cases take milliseconds)"),
                }));
                ws[w].ended = true;
                let _ = ws[w].child.kill();
                restarts += 1;
                if restarts < 3 {
                    let left = budget - t0.elapsed().as_secs_f64();
                    let _ = ws[w].child.wait();
                    ws[w] = spawn(w, i + workers as u64, left, tx.clone());
                }
            }
        }
    }

    // classify violations
    let knowns = known(root);
    let is_known = |v: &Viol| knowns.iter().find(|k| k.property == p.id && k.sig == v.sig);
    raw.sort_by_key(|r| (r.0, r.2.sig.clone()));
    let mut seen: BTreeMap<String, (u64, Case, Viol)> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    for (i, c, v) in raw {
        *counts.entry(v.sig.clone()).or_default() += 1;
        let e = seen.entry(v.sig.clone()).or_insert((i, c.clone(), v.clone()));
        let len = |c: &Case| serde_json::to_string(c).unwrap().len();
        if len(&c) < len(&e.1) {
            *e = (i, c, v);
        }
    }
    let outdir = format!("{root}/evidence/replays");
    let _ = std::fs::create_dir_all(&outdir);
    let mut violations = 0;
    let mut shown_known: HashSet<String> = HashSet::new();
    for k in &knowns {
        if k.property == p.id {
            shown_known.insert(k.sig.clone());
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }
    for (n, (sig, (i, case, v))) in seen.into_iter().enumerate() {
        if is_known(&v).is_some() {
            continue;
        }
        let (c2, v2) = if n < 6 && !["crash", "hang", "deadlock"].contains(&sig.as_str()) {
            shrink_in_child(&exe, p, &case, &v, if tier == Tier::Quick { 10.0 } else { 30.0 })
        } else {
            (case, v)
        };
        violations += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        sig.hash(&mut h);
        let path = format!("{outdir}/{}-{:08x}.json", p.id, h.finish() as u32);
        let body = json!({"property": p.id, "seed": seed, "index": i, "sig": v2.sig, "msg": v2.msg, "case": c2, "hits": counts[&sig]});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("VIOLATION property={} replay={}", p.id, path);
        println!("  sig: {}  (hits: {})", v2.sig, counts[&sig]);
        println!("  what: {}", v2.msg.chars().take(900).collect::<String>());
        let cs = serde_json::to_string(&c2).unwrap();
        println!("  case: {}", cs.chars().take(1500).collect::<String>());
    }
    let mut inconclusive = vec![];
    if evaluated == 0 {
        inconclusive.push("no case was evaluated".to_string());
    }
    for k in p.must_observe {
        if obs.counters.get(*k).copied().unwrap_or(0) == 0 {
            inconclusive.push(format!("the monitor never observed `{k}`"));
        }
    }
    samples.truncate(3);
    let wall = t0.elapsed().as_secs_f64();
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(evaluated));
    cov.insert("distinct_nontrivial".into(), json!(obs.keys.len()));
    cov.insert("rule".into(), json!(p.rule));
    cov.insert("samples".into(), json!(samples));
    cov.insert("observed".into(), json!(obs.counters));
    cov.insert("known_finding_hits".into(), json!(counts.iter().filter(|(s, _)| knowns.iter().any(|k| k.property == p.id && &k.sig == *s)).map(|(s, n)| (s.clone(), *n)).collect::<BTreeMap<_, _>>()));
    cov.insert("harness_errors".into(), json!(errors));
    cov.insert("workers".into(), json!(workers));
    let ev = json!({
        "property": p.id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed,
        "level": p.level, "coverage": cov, "assumptions": p.assumptions, "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{}: {} cases, {} distinct, {:.1} s, violations {}, observed {}",
        p.id, evaluated, obs.keys.len(), wall, violations,
        obs.counters.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
    );
    if violations > 0 {
        return 1;
    }
    if !errors.is_empty() {
        eprintln!("INCONCLUSIVE {}: {} harness error(s); first: {}", p.id, errors.len(), errors[0]);
        return 2;
    }
    if !inconclusive.is_empty() {
        eprintln!("INCONCLUSIVE {}: {}", p.id, inconclusive.join("; "));
        return 2;
    }
    0
}

fn shrink_in_child(exe: &std::path::Path, p: &Prop, case: &Case, v: &Viol, secs: f64) -> (Case, Viol) {
    let mut ch = match Command::new(exe)
        .args(["shrink", p.id, &secs.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return (case.clone(), v.clone()),
    };
    let body = json!({"case": case, "viol": v}).to_string();
    let mut si = ch.stdin.take().unwrap();
    let _ = si.write_all(body.as_bytes());
    drop(si);
    let so = ch.stdout.take().unwrap();
    let res: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let r2 = res.clone();
    let th = std::thread::spawn(move || {
        let mut s = String::new();
        use std::io::Read;
        let _ = BufReader::new(so).read_to_string(&mut s);
        *r2.lock().unwrap() = Some(s);
    });
    let t0 = Instant::now();
    loop {
        if let Ok(Some(_)) = ch.try_wait() {
            break;
        }
        if t0.elapsed().as_secs_f64() > secs + 30.0 {
            let _ = ch.kill();
            let _ = ch.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let _ = th.join();
    let s = res.lock().unwrap().take().unwrap_or_default();
    if let Ok(x) = serde_json::from_str::<Value>(s.trim()) {
        if let (Ok(c), Ok(v)) = (serde_json::from_value(x["case"].clone()), serde_json::from_value(x["viol"].clone())) {
            return (c, v);
        }
    }
    (case.clone(), v.clone())
}

pub fn shrink_main(p: &Prop, secs: f64) {
    install_hook();
    let mut s = String::new();
    use std::io::Read;
    std::io::stdin().read_to_string(&mut s).unwrap();
    let x: Value = serde_json::from_str(&s).unwrap();
    let case: Case = serde_json::from_value(x["case"].clone()).unwrap();
    let v: Viol = serde_json::from_value(x["viol"].clone()).unwrap();
    let (c, v) = shrink(p, &case, &v, secs);
    println!("{}", json!({"case": c, "viol": v}));
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    install_hook();
    let s = std::fs::read_to_string(path).expect("read replay file");
    let x: Value = serde_json::from_str(&s).expect("json");
    let id = x["property"].as_str().unwrap_or("");
    let p = props.iter().find(|p| p.id == id).expect("property");
    let case: Case = serde_json::from_value(x["case"].clone()).expect("case");
    for _ in 0..p.repeat_on_shrink.max(1) {
        let mut o = Obs::default();
        match run_case(p, &case, &mut o) {
            Outcome::Held => {}
            Outcome::HarnessError(m) => {
                println!("harness error: {m}");
                return 2;
            }
            Outcome::Violated(v) => {
                println!("VIOLATION property={id} replay={path}\n  sig: {}\n  what: {}", v.sig, v.msg);
                return 1;
            }
        }
    }
    println!("held");
    0
}
