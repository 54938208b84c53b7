//! Concurrent use of one document: event logs of real threads, checked offline for
//! linearizability (whole edits, in an order that fits real time, seen alike by all readers).

use crate::ensure;
use crate::rng::Rng;
use crate::runner::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P20",
        quick: 900,
        thorough: 24000,
        level: "exploration",
        rule: "Each case runs 2-5 editing threads and 2 reading threads on one document and logs the start and end of every call on one clock. regions: every thread edits its own \
               part of the text through cursors of its own, whose every state is known; shared: threads type through one cursor; undo: threads type, undo and redo; imports: threads replace \
               the whole document; follow: two threads read through cursors standing in a heading, a list and a table cell what is there, while others type before them. An offline checker decides whether all that was read fits one order of whole edits that agrees with real time. Non-trivial: reads between edits; \
               distinct: by the vector of edits a read saw.",
        assumptions: &["moving a cursor consists of several steps, each of which is atomic; the threads move no cursor while others edit"],
        must_observe: &["reads_checked", "distinct_cuts", "edits", "imports_read", "undo_runs", "shared_runs", "region_runs", "import_runs", "overlapping_edits", "undone_to_start", "follow_runs", "follow_reads"],
        generate: gen_case,
        run: run_case_,
        workers: 2,
        repeat_on_shrink: 20,
    }]
}

fn gen_case(r: &mut Rng, i: u64, _: Tier) -> Case {
    let kind = ["regions", "shared", "follow", "imports", "regions", "undo", "regions", "shared"][(i % 8) as usize];
    let threads = r.range(2, 5) as u64;
    let ops = match kind {
        "imports" => r.range(2, 4),
        "undo" => r.range(10, 40),
        _ => r.range(10, 50),
    } as u64;
    Case { kind: kind.into(), nums: vec![threads, ops, r.next()], ..Default::default() }
}

#[derive(Default)]
struct Clock(AtomicU64);
impl Clock {
    fn now(&self) -> u64 {
        self.0.fetch_add(1, Ordering::SeqCst)
    }
}
/// A state of a part of the document and the interval of the call that made it.
#[derive(Clone)]
struct Write {
    start: u64,
    end: u64,
    state: String,
}
#[derive(Clone)]
struct Read {
    start: u64,
    end: u64,
    text: String,
    how: &'static str,
}

fn run_case_(c: &Case, obs: &mut Obs) -> Verdict {
    let k = c.nums.first().copied().unwrap_or(2).clamp(1, 6) as usize;
    let n = c.nums.get(1).copied().unwrap_or(10).min(200) as usize;
    let seed = c.nums.get(2).copied().unwrap_or(1);
    match c.kind.as_str() {
        "regions" => regions(k, n, seed, obs),
        "shared" => shared(k, n, seed, obs),
        "undo" => undoers(k, n, seed, obs),
        "follow" => followers(k, n, seed, obs),
        _ => imports(k, n, seed, obs),
    }
}

fn join_flow(f: &FlowSnapshot) -> String {
    crate::observe::flat_blocks(f).iter().map(|b| b.text.clone()).collect::<Vec<_>>().join("\n")
}

/// Readers run until the writers are done; `work` runs on k threads.
fn run<T: Send + 'static>(
    doc: &TextDocument,
    clock: &Arc<Clock>,
    k: usize,
    seed: u64,
    work: impl Fn(usize, TextDocument, Rng) -> T + Send + Sync + 'static,
) -> std::result::Result<(Vec<T>, Vec<Vec<Read>>), Viol> {
    let left = Arc::new(AtomicUsize::new(k));
    let gate = Arc::new(Barrier::new(k + 2));
    // a listener that dawdles shifts the threads against each other
    let nap = Arc::new(AtomicU64::new(seed));
    let _sub = doc.on_change(move |_| match nap.fetch_add(0x9E37_79B9, Ordering::Relaxed) % 7 {
        0 => std::thread::yield_now(),
        1 => (0..200).for_each(|_| std::hint::spin_loop()),
        _ => {}
    });
    let work = Arc::new(work);
    let ws: Vec<_> = (0..k)
        .map(|t| {
            let (doc, left, gate, work) = (doc.clone(), left.clone(), gate.clone(), work.clone());
            std::thread::spawn(move || {
                struct Done(Arc<AtomicUsize>);
                impl Drop for Done {
                    fn drop(&mut self) {
                        self.0.fetch_sub(1, Ordering::SeqCst);
                    }
                }
                let _done = Done(left);
                gate.wait();
                work(t, doc, Rng::for_case(seed, "thread", t as u64))
            })
        })
        .collect();
    let rs: Vec<_> = (0..2)
        .map(|i| {
            let (doc, left, gate, clock) = (doc.clone(), left.clone(), gate.clone(), clock.clone());
            std::thread::spawn(move || {
                let mut rng = Rng::for_case(seed, "reader", i);
                let mut log = vec![];
                gate.wait();
                loop {
                    let last = left.load(Ordering::SeqCst) == 0;
                    let start = clock.now();
                    let (how, text) = match rng.below(4) {
                        0 => ("to_plain_text", doc.to_plain_text().unwrap_or_else(|e| format!("error {e:#}"))),
                        1 => ("text_at", doc.text_at(0, 1 << 20).unwrap_or_else(|e| format!("error {e:#}"))),
                        _ => ("snapshot_flow", join_flow(&doc.snapshot_flow())),
                    };
                    let end = clock.now();
                    log.push(Read { start, end, text, how });
                    if last {
                        return log;
                    }
                    if rng.chance(1, 3) {
                        std::thread::yield_now();
                    }
                }
            })
        })
        .collect();
    let mut out = vec![];
    let mut dead = false;
    for w in ws {
        match w.join() {
            Ok(x) => out.push(x),
            Err(_) => dead = true,
        }
    }
    let mut logs = vec![];
    for r in rs {
        match r.join() {
            Ok(x) => logs.push(x),
            Err(_) => dead = true,
        }
    }
    if dead {
        return viol("panic", "a thread panicked");
    }
    Ok((out, logs))
}

fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}

/// All reads of `cuts` (interval, edits seen per thread) must fit one order.
fn check_cuts(writes: &[Vec<Write>], cuts: &[(u64, u64, Vec<usize>)], obs: &mut Obs) -> Verdict {
    for (s, e, v) in cuts {
        for (t, &x) in v.iter().enumerate() {
            // (writes[t][0] is the initial state)
            ensure!(writes[t][x].start < *e, "future", "a read that ended at {e} saw edit {x} of thread {t}, which started at {}", writes[t][x].start);
            if let Some(w) = writes[t].get(x + 1) {
                ensure!(w.end > *s, "stale", "a read that started at {s} did not see edit {} of thread {t}, which had ended at {}", x + 1, w.end);
            }
            for (u, &y) in v.iter().enumerate() {
                if u != t && x > 0 {
                    if let Some(w) = writes[u].get(y + 1) {
                        ensure!(w.end > writes[t][x].start, "order", "a read saw edit {x} of thread {t} but not edit {} of thread {u}, which had ended before the other one started", y + 1);
                    }
                }
            }
        }
    }
    let mut order: Vec<&(u64, u64, Vec<usize>)> = cuts.iter().collect();
    order.sort_by_key(|c| c.2.iter().sum::<usize>());
    for w in order.windows(2) {
        ensure!(w[0].2.iter().zip(&w[1].2).all(|(a, b)| a <= b), "readers-disagree", "two reads saw the edits {:?} and {:?}, which no order has both", w[0].2, w[1].2);
    }
    let mut by_time: Vec<&(u64, u64, Vec<usize>)> = cuts.iter().collect();
    by_time.sort_by_key(|c| c.0);
    for (i, a) in by_time.iter().enumerate() {
        for b in by_time[i + 1..].iter().take(64) {
            if b.0 > a.1 {
                ensure!(a.2.iter().zip(&b.2).all(|(x, y)| x <= y), "backwards", "a read saw {:?} and a later one {:?}", a.2, b.2);
            }
        }
    }
    let mut seen: Vec<&Vec<usize>> = cuts.iter().map(|c| &c.2).collect();
    seen.sort();
    seen.dedup();
    obs.add("distinct_cuts", seen.len() as u64);
    obs.add("reads_checked", cuts.len() as u64);
    if seen.len() > 2 {
        obs.distinct(&(seen.iter().map(|v| (*v).clone()).collect::<Vec<_>>()));
    }
    let mut all: Vec<(u64, u64)> = writes.iter().flat_map(|w| w.iter().skip(1).map(|w| (w.start, w.end))).collect();
    all.sort();
    obs.add("overlapping_edits", all.windows(2).filter(|w| w[1].0 < w[0].1).count() as u64);
    obs.add("edits", all.len() as u64);
    Ok(())
}

fn rewind(doc: &TextDocument, first: &str, obs: &mut Obs) -> Verdict {
    let last = doc.to_plain_text().unwrap_or_default();
    let mut n = 0;
    while doc.can_undo() && n < 20000 {
        ensure!(doc.undo().is_ok(), "undo", "undo fails after concurrent edits");
        n += 1;
    }
    let t = doc.to_plain_text().unwrap_or_default();
    ensure!(t == first, "undo", "undoing all concurrent edits gives {:?}, expected {:?}", clip(&t), clip(first));
    for _ in 0..n {
        ensure!(doc.redo().is_ok(), "redo", "redo fails after concurrent edits");
    }
    let t = doc.to_plain_text().unwrap_or_default();
    ensure!(t == last, "redo", "redoing all concurrent edits gives {:?}, expected {:?}", clip(&t), clip(&last));
    obs.hit("undone_to_start");
    Ok(())
}
fn sound(doc: &TextDocument) -> Verdict {
    if let Err((sig, m)) = crate::integrity::check(&crate::observe::store_of(doc)) {
        return viol(format!("integrity:{sig}"), m);
    }
    Ok(())
}

// ── every thread its own part of the text ────────────────────────────

struct Region {
    writes: Vec<Write>,
    segs: [String; 3],
    cursors: Vec<TextCursor>,
    heading: Option<u8>,
}

fn region_text(t: usize, s: &[String; 3]) -> String {
    format!("R{t}:{}[{}]{}", s[0], s[1], s[2])
}
/// Would deleting the character before `caret` lead to a state there has not been yet?
fn fresh_after(segs: &[String; 3], s: usize, caret: usize, t: usize, writes: &[Write]) -> bool {
    let mut x = segs.clone();
    x[s].remove(caret - 1);
    let state = region_text(t, &x);
    writes.iter().all(|w| w.state != state)
}
fn regions(k: usize, n: usize, seed: u64, obs: &mut Obs) -> Verdict {
    let doc = TextDocument::new();
    let segs0 = [String::new(), String::new(), "{xyz}".to_string()];
    let first = (0..k).map(|t| region_text(t, &segs0)).collect::<Vec<_>>().join("\n");
    let _ = doc.set_plain_text(&first);
    let at: Vec<usize> = (0..k).map(|t| first.find(&format!("R{t}:")).unwrap()).collect();
    let clock = Arc::new(Clock::default());
    let cursors: Vec<Vec<TextCursor>> = at
        .iter()
        .map(|a| {
            let v: Vec<TextCursor> = [3, 4, 6].iter().map(|d| doc.cursor_at(a + d)).collect();
            // the third selects "xyz"
            v[2].set_position(a + 9, MoveMode::KeepAnchor);
            v
        })
        .collect();
    let slots: Arc<Vec<std::sync::Mutex<Option<Vec<TextCursor>>>>> = Arc::new(cursors.into_iter().map(|c| std::sync::Mutex::new(Some(c))).collect());
    let clk = clock.clone();
    let (outs, logs) = run(&doc, &clock, k, seed, move |t, _doc, mut r| {
        let cursors = slots[t].lock().unwrap().take().unwrap();
        let mut segs = [String::new(), String::new(), "{xyz}".to_string()];
        let mut heading = None;
        let mut selected = true;
        let mut writes = vec![Write { start: 0, end: 0, state: region_text(t, &segs) }];
        let letter = (b'a' + t as u8) as char;
        for i in 0..n {
            let s = r.below(3);
            let cur = &cursors[s];
            let tok = format!("{letter}{i} ");
            let caret = if s == 2 { segs[2].len() - 1 } else { segs[s].len() };
            let what = r.below(12);
            let fresh = s == 2 && selected;
            let cut = |seg: &mut String| {
                if fresh {
                    *seg = "{}".into();
                }
            };
            let start = clk.now();
            let ok: std::result::Result<(), String> = match what {
                0..=3 => cur.insert_text(&tok).map_err(|e| format!("{e:#}")),
                4 => cur.insert_formatted_text(&tok, &TextFormat { font_bold: Some(true), ..Default::default() }).map_err(|e| format!("{e:#}")),
                5 | 6 => cur.insert_block().map_err(|e| format!("{e:#}")),
                7 => cur.insert_fragment(&DocumentFragment::from_plain_text(&tok)).map_err(|e| format!("{e:#}")),
                8 | 9 if fresh => cur.delete_char().map_err(|e| format!("{e:#}")),
                8 | 9 if caret > (s == 2) as usize && fresh_after(&segs, s, caret, t, &writes) => cur.delete_previous_char().map_err(|e| format!("{e:#}")),
                10 if fresh => cur.remove_selected_text().map(|_| ()).map_err(|e| format!("{e:#}")),
                10 => cur.merge_char_format(&TextFormat { font_italic: Some(true), ..Default::default() }).map_err(|e| format!("{e:#}")),
                11 if s == 0 && !segs[0].contains('\n') => {
                    let h = 1 + (i % 6) as u8;
                    heading = Some(h);
                    cur.set_block_format(&BlockFormat { heading_level: Some(h), ..Default::default() }).map_err(|e| format!("{e:#}"))
                }
                _ => continue,
            };
            let end = clk.now();
            if let Err(e) = ok {
                return Err(format!("call {what} fails: {e}"));
            }
            let put = |seg: &mut String, x: &str| {
                cut(seg);
                let at = if s == 2 { seg.len() - 1 } else { seg.len() };
                seg.insert_str(at, x);
            };
            match what {
                0..=4 | 7 => put(&mut segs[s], &tok),
                5 | 6 => put(&mut segs[s], "\n"),
                8 | 9 | 10 if fresh => cut(&mut segs[2]),
                8 | 9 => {
                    segs[s].remove(caret - 1);
                }
                _ => {}
            }
            if fresh && what <= 10 {
                selected = false;
            }
            let state = region_text(t, &segs);
            if state != writes.last().unwrap().state {
                writes.push(Write { start, end, state });
            }
        }
        Ok(Region { writes, segs, cursors, heading })
    })?;
    let mut rs = vec![];
    for (t, o) in outs.into_iter().enumerate() {
        match o {
            Ok(x) => rs.push(x),
            Err(e) => return viol("refused", format!("thread {t}: {e}")),
        }
    }
    // what did each read see?
    let index: Vec<HashMap<&str, Vec<usize>>> = rs
        .iter()
        .map(|r| {
            let mut m: HashMap<&str, Vec<usize>> = HashMap::new();
            r.writes.iter().enumerate().for_each(|(i, w)| m.entry(&w.state).or_default().push(i));
            m
        })
        .collect();
    let writes: Vec<Vec<Write>> = rs.iter().map(|r| r.writes.clone()).collect();
    let split = |text: &str| -> std::result::Result<Vec<String>, Viol> {
        let mut v = vec![];
        let mut rest = text;
        for t in 0..k {
            ensure!(rest.starts_with(&format!("R{t}:")), "torn", "a read gives {:?}, where part {t} has no start", clip(text));
            let end = if t + 1 < k { rest.find(&format!("\nR{}:", t + 1)) } else { Some(rest.len()) };
            let Some(end) = end else { return viol("torn", format!("a read gives {:?}, where part {t} has no end", clip(text))) };
            v.push(rest[..end].to_string());
            rest = rest.get(end + 1..).unwrap_or("");
        }
        Ok(v)
    };
    let mut cuts = vec![];
    for log in &logs {
        let mut at = vec![0usize; k];
        for r in log {
            let parts = split(&r.text)?;
            let mut v = vec![];
            for (t, p) in parts.iter().enumerate() {
                let Some(ix) = index[t].get(p.as_str()) else {
                    return viol("torn", format!("{} gives {:?} for part {t}, which it never was", r.how, clip(p)));
                };
                // a state that came back: the one that fits the time
                let fit = ix.iter().copied().find(|&i| i >= at[t] && writes[t].get(i + 1).is_none_or(|w| w.end > r.start));
                v.push(fit.unwrap_or(ix[ix.len() - 1]));
            }
            at = v.clone();
            cuts.push((r.start, r.end, v));
        }
    }
    let unique = index.iter().all(|m| m.values().all(|v| v.len() == 1));
    if unique {
        check_cuts(&writes, &cuts, obs)?;
    } else {
        obs.add("reads_checked", cuts.len() as u64);
        obs.hit("ambiguous_runs");
    }
    // the end
    let text = doc.to_plain_text().unwrap_or_default();
    let parts = split(&text)?;
    let flow = crate::observe::flat_blocks(&doc.snapshot_flow());
    let mut pos = 0;
    for (t, r) in rs.iter().enumerate() {
        let want = region_text(t, &r.segs);
        ensure!(parts[t] == want, "lost", "after all edits part {t} is {:?}, expected {:?}", clip(&parts[t]), clip(&want));
        let ends = [3 + r.segs[0].len(), 4 + r.segs[0].len() + r.segs[1].len(), 4 + r.segs[0].len() + r.segs[1].len() + r.segs[2].len()];
        for (s, c) in r.cursors.iter().enumerate() {
            if s == 2 && r.segs[2] == "{xyz}" {
                continue;
            }
            ensure!(c.position() == pos + ends[s], "cursor", "cursor {s} of thread {t} is at {}, expected {}", c.position(), pos + ends[s]);
        }
        if let Some(h) = r.heading {
            let b = flow.iter().find(|b| b.text.starts_with(&format!("R{t}:")));
            let got = b.and_then(|b| b.block_format.heading_level);
            ensure!(got == Some(h), "format", "the heading level of part {t} is {got:?}, set to {h}");
        }
        pos += want.chars().count() + 1;
    }
    sound(&doc)?;
    obs.hit("region_runs");
    rewind(&doc, &first, obs)
}

// ── one cursor for all threads ───────────────────────────────────────

fn shared(k: usize, n: usize, seed: u64, obs: &mut Obs) -> Verdict {
    let doc = TextDocument::new();
    let cur = Arc::new(doc.cursor());
    let clock = Arc::new(Clock::default());
    let clk = clock.clone();
    let (outs, logs) = run(&doc, &clock, k, seed, move |t, _doc, mut r| {
        let letter = (b'a' + t as u8) as char;
        let mut v: Vec<Write> = vec![];
        for i in 0..n {
            let state = format!("<{letter}{i}>");
            let start = clk.now();
            let ok = match r.below(4) {
                0 => cur.insert_formatted_text(&state, &TextFormat { font_bold: Some(true), ..Default::default() }),
                1 => cur.insert_fragment(&DocumentFragment::from_plain_text(&state)),
                _ => cur.insert_text(&state),
            };
            let end = clk.now();
            if ok.is_err() {
                return Err(format!("{:#}", ok.err().unwrap()));
            }
            v.push(Write { start, end, state });
        }
        Ok(v)
    })?;
    let mut writes = vec![];
    for o in outs {
        match o {
            Ok(v) => writes.push([vec![Write { start: 0, end: 0, state: String::new() }], v].concat()),
            Err(e) => return viol("refused", e),
        }
    }
    let count = |text: &str| -> std::result::Result<Vec<usize>, Viol> {
        let mut v = vec![0; k];
        for tok in text.split_inclusive('>') {
            let t = tok.chars().nth(1).map(|c| (c as u8).wrapping_sub(b'a') as usize).unwrap_or(99);
            ensure!(t < k && tok == format!("<{}{}>", (b'a' + t as u8) as char, v[t]), "torn", "typing through one cursor gives {:?}, where {tok:?} is out of place", clip(text));
            v[t] += 1;
        }
        Ok(v)
    };
    let mut cuts = vec![];
    for r in logs.iter().flatten() {
        cuts.push((r.start, r.end, count(&r.text)?));
    }
    check_cuts(&writes, &cuts, obs)?;
    let text = doc.to_plain_text().unwrap_or_default();
    ensure!(count(&text)? == vec![n; k], "lost", "typing through one cursor gives {:?}", clip(&text));
    for r in logs.iter().flatten() {
        ensure!(text.starts_with(&r.text), "rewritten", "a read gave {:?}, which {:?} does not start with", clip(&r.text), clip(&text));
    }
    sound(&doc)?;
    obs.hit("shared_runs");
    rewind(&doc, "", obs)
}

// ── undo and redo from several threads ───────────────────────────────

fn undoers(k: usize, n: usize, seed: u64, obs: &mut Obs) -> Verdict {
    let doc = TextDocument::new();
    // everything is typed at the start, so the text is the stack of what can be undone
    let first = "end".to_string();
    let _ = doc.set_plain_text(&first);
    let clock = Arc::new(Clock::default());
    let clk = clock.clone();
    let (outs, logs) = run(&doc, &clock, k, seed, move |t, doc, mut r| {
        let mut done = 0;
        for i in 0..n {
            clk.now();
            let ok = match r.below(8) {
                0 | 1 => doc.undo().is_ok(),
                2 => doc.redo().is_ok(),
                _ => doc.cursor_at(0).insert_text(&format!("<{t}.{i}>")).is_ok(),
            };
            if !ok {
                return Err(format!("thread {t}: call {i} is refused"));
            }
            done += 1;
        }
        Ok(done)
    })?;
    let mut done = 0u64;
    for o in outs {
        match o {
            Ok(n) => done += n,
            Err(e) => return viol("refused", e),
        }
    }
    let mut states = vec![];
    for r in logs.iter().flatten() {
        let Some(body) = r.text.strip_suffix("end") else {
            return viol("torn", format!("{} gives {:?} while threads type and undo", r.how, clip(&r.text)));
        };
        let mut last = vec![usize::MAX; k];
        for tok in body.split_inclusive('>') {
            let id = tok.strip_prefix('<').and_then(|x| x.strip_suffix('>')).and_then(|x| x.split_once('.'));
            let Some((Ok(t), Ok(i))) = id.map(|(t, i)| (t.parse::<usize>(), i.parse::<usize>())) else {
                return viol("torn", format!("{} gives {:?} while threads type and undo", r.how, clip(&r.text)));
            };
            ensure!(t < k && i < last[t], "order", "{} gives {:?} while threads type and undo: the edits of one thread are out of order", r.how, clip(&r.text));
            last[t] = i;
        }
        states.push(r.text.len());
    }
    states.dedup();
    obs.distinct(&states);
    obs.add("edits", done);
    obs.add("reads_checked", logs.iter().map(|l| l.len() as u64).sum());
    sound(&doc)?;
    obs.hit("undo_runs");
    rewind(&doc, &first, obs)
}

// ── whole documents ──────────────────────────────────────────────────

fn imports(k: usize, n: usize, seed: u64, obs: &mut Obs) -> Verdict {
    let doc = TextDocument::new();
    let _ = doc.set_plain_text("start");
    let clock = Arc::new(Clock::default());
    let clk = clock.clone();
    let (outs, logs) = run(&doc, &clock, k, seed, move |t, doc, mut r| {
        let mut v: Vec<Write> = vec![];
        for i in 0..n {
            let lines: Vec<String> = (0..r.range(1, 12)).map(|j| format!("doc {t} {i} line {j}")).collect();
            let start = clk.now();
            let ok = match r.below(4) {
                0 => doc.set_html(&lines.iter().map(|l| format!("<p>{l}</p>")).collect::<String>()).and_then(|o| o.wait().map(|_| ())),
                1 => doc.set_markdown(&lines.join("\n\n")).and_then(|o| o.wait().map(|_| ())),
                _ => doc.set_plain_text(&lines.join("\n")),
            };
            let end = clk.now();
            if let Err(e) = ok {
                return Err(format!("{e:#}"));
            }
            v.push(Write { start, end, state: lines.join("\n") });
        }
        Ok(v)
    })?;
    let mut writes = vec![Write { start: 0, end: 0, state: "start".into() }];
    for o in outs {
        match o {
            Ok(v) => writes.extend(v),
            Err(e) => return viol("refused", format!("an import fails: {e}")),
        }
    }
    let find = |text: &str| writes.iter().position(|w| w.state == text);
    let mut seen: Vec<(u64, u64, usize)> = vec![];
    let end = clock.now();
    let fin = Read { start: end, end: end + 1, text: doc.to_plain_text().unwrap_or_default(), how: "to_plain_text at the end" };
    for r in logs.iter().flatten().chain([&fin]) {
        let Some(w) = find(&r.text) else {
            return viol("torn", format!("{} gives {:?}, which nobody imported", r.how, clip(&r.text)));
        };
        let x = &writes[w];
        ensure!(x.start < r.end, "future", "a read saw an import that had not started");
        if let Some(y) = writes.iter().find(|y| y.start > x.end && y.end < r.start) {
            return viol("stale", format!("{} gives {:?} although {:?} replaced it before", r.how, clip(&r.text), clip(&y.state)));
        }
        seen.push((r.start, r.end, w));
    }
    seen.sort();
    for (i, a) in seen.iter().enumerate() {
        for b in &seen[i + 1..] {
            ensure!(b.0 <= a.1 || writes[b.2].end > writes[a.2].start || b.2 == a.2, "backwards", "a read gave a document which an earlier read showed to be replaced");
        }
    }
    let mut d: Vec<usize> = seen.iter().map(|s| s.2).collect();
    obs.add("reads_checked", d.len() as u64);
    d.dedup();
    obs.distinct(&(k, n, d.clone()));
    d.sort();
    d.dedup();
    obs.add("imports_read", d.len() as u64);
    obs.add("edits", writes.len() as u64 - 1);
    sound(&doc)?;
    ensure!(!doc.can_undo() && !doc.can_redo(), "history", "an import leaves something to undo");
    obs.hit("import_runs");
    Ok(())
}

// ── reads through cursors that edits move ────────────────────────────

const FOLLOWED: &str = "<p>head</p><h2>some <b>WATCHED</b> tail</h2><ul><li>first item</li><li>second item</li><li>third item</li></ul>\
                        <p>between</p><table><tr><td>a</td><td>b</td></tr><tr><td>c</td><td>dee</td></tr></table><p>last</p>";

/// What a cursor standing at a fixed place of `FOLLOWED` tells about it.
struct Follower {
    cur: TextCursor,
    what: &'static str,
    blocks: bool,
}
impl Follower {
    fn read(&self, i: usize) -> (&'static str, String) {
        let c = &self.cur;
        match i {
            0 => ("selected_text", format!("{:?}", c.selected_text().map_err(|e| format!("{e:#}")))),
            1 => ("selection", format!("{:?}", c.selection().to_plain_text())),
            2 => ("char_format", format!("{:?}", c.char_format().map(|f| f.font_bold).map_err(|e| format!("{e:#}")))),
            3 => ("block_format", format!("{:?}", c.block_format().map(|f| f.heading_level).map_err(|e| format!("{e:#}")))),
            4 => ("position_in_block", format!("{}", c.position_in_block())),
            5 => ("at_block_start", format!("{}", c.at_block_start())),
            6 => ("at_block_end", format!("{}", c.at_block_end())),
            7 => ("at_end", format!("{}", c.at_end())),
            8 => ("current_list", format!("{:?}", c.current_list().map(|l| l.id()))),
            9 => ("current_table_cell", format!("{:?}", c.current_table_cell().map(|t| (t.table.id(), t.row, t.column)))),
            10 => ("current_table", format!("{:?}", c.current_table().map(|t| t.id()))),
            _ if self.blocks => ("block_number", format!("{}", c.block_number())),
            _ => ("has_selection", format!("{}", c.has_selection())),
        }
    }
}

fn followers(k: usize, n: usize, seed: u64, obs: &mut Obs) -> Verdict {
    let mut r = Rng::for_case(seed, "follow", 0);
    // half of the runs keep the number of blocks
    let blocks = r.chance(1, 2);
    let lists = r.chance(1, 2);
    let doc = TextDocument::new();
    if let Err(e) = doc.set_html(FOLLOWED).and_then(|o| o.wait().map(|_| ())) {
        return viol("refused", format!("{e:#}"));
    }
    let flow = crate::observe::flat_blocks(&doc.snapshot_flow());
    let at = |text: &str| flow.iter().find_map(|b| b.text.find(text).map(|o| (b.position + o, b.position + o + text.len())));
    let mut places = vec![];
    for (what, text, from, to) in [
        ("the word in the heading", "WATCHED", 0, 7),
        ("the middle of the word in the heading", "WATCHED", 3, 3),
        ("the start of the heading", "some WATCHED", 0, 0),
        ("the end of the heading", "tail", 4, 4),
        ("the first list item", "first item", 0, 5),
        ("a list item after it", "third item", 10, 10),
        ("a table cell", "dee", 1, 2),
        ("cells of the table", "b", 0, 99),
        ("the last block", "last", 4, 4),
        ("a paragraph and the table", "between", 2, 98),
    ] {
        let Some((start, _)) = at(text) else { return viol("refused", format!("{text:?} is not in the document")) };
        let to = match to {
            99 => at("dee").map(|p| p.0 + 1).unwrap_or(0),
            98 => at("c").filter(|p| p.0 > start).or(at("dee")).map(|p| p.0).unwrap_or(0),
            x => start + x,
        };
        places.push((what, start + from, to));
    }
    let list = flow.iter().find(|b| b.text == "first item").and_then(|b| doc.cursor_at(b.position).current_list()).map(|l| l.id());
    let Some(list) = list else { return viol("refused", "no list") };
    let second = at("second item").map(|p| p.0 + 3).unwrap_or(0);
    let toggler = doc.cursor_at(second);
    let mut cursors = vec![];
    for _ in 0..2 {
        let mut v = vec![];
        for (what, from, to) in &places {
            let cur = doc.cursor_at(*from);
            cur.set_position(*to, MoveMode::KeepAnchor);
            let f = Follower { cur, what, blocks: !blocks };
            let expected: Vec<(&'static str, String)> = (0..12).map(|i| f.read(i)).collect();
            v.push((f, expected));
        }
        cursors.push(v);
    }
    let cursors = std::sync::Mutex::new(cursors);
    let toggler = std::sync::Mutex::new(Some(toggler));
    let busy = Arc::new(AtomicUsize::new(k));
    let clock = Arc::new(Clock::default());
    let (outs, _) = run(&doc, &clock, k + 2, seed, move |t, doc, mut r| -> std::result::Result<(u64, u64), String> {
        if t >= k {
            let v = cursors.lock().unwrap().pop().unwrap();
            let (mut reads, mut moved) = (0, 0);
            let mut seen = 0;
            loop {
                let last = busy.load(Ordering::SeqCst) == 0;
                for _ in 0..40 {
                    let (f, expected) = r.pick(&v);
                    let i = r.below(12);
                    let got = f.read(i);
                    reads += 1;
                    if got != expected[i] {
                        return Err(format!("{} gives {} at {}, where it is {}", got.0, got.1, f.what, expected[i].1));
                    }
                    let p = f.cur.position();
                    moved += (p != seen) as u64;
                    seen = p;
                }
                if last {
                    return Ok((reads, moved));
                }
                std::thread::yield_now();
            }
        }
        struct Done(Arc<AtomicUsize>);
        impl Drop for Done {
            fn drop(&mut self) {
                self.0.fetch_sub(1, Ordering::SeqCst);
            }
        }
        let _done = Done(busy.clone());
        let mine = if t == 0 && lists { toggler.lock().unwrap().take() } else { None };
        let cur = doc.cursor_at(0);
        let mut inside = true;
        for i in 0..n {
            let ok = match (&mine, r.below(6)) {
                (Some(c), 0..=3) => {
                    inside = !inside;
                    if inside { c.add_current_block_to_list(list) } else { c.remove_current_block_from_list() }
                }
                (_, 0) if blocks => cur.insert_block(),
                (_, 1) => cur.delete_previous_char(),
                (_, 2) => cur.insert_formatted_text("it", &TextFormat { font_italic: Some(true), ..Default::default() }),
                (_, 3) if blocks => cur.insert_fragment(&DocumentFragment::from_plain_text("x\ny")),
                _ => cur.insert_text(["a", "words and words ", "éé"][i % 3]),
            };
            if let Err(e) = ok {
                return Err(format!("an edit at the start fails: {e:#}"));
            }
        }
        if !inside {
            mine.unwrap().add_current_block_to_list(list).map_err(|e| format!("{e:#}"))?;
        }
        Ok((0, 0))
    })?;
    for o in outs {
        match o {
            Ok((reads, moved)) => {
                obs.add("follow_reads", reads);
                obs.distinct(&(k, n, blocks, lists, moved));
            }
            Err(e) => return viol("elsewhere", e),
        }
    }
    obs.add("edits", (k * n) as u64);
    let members: Vec<String> = crate::observe::flat_blocks(&doc.snapshot_flow()).iter().filter(|b| b.list_info.is_some()).map(|b| b.text.clone()).collect();
    ensure!(members == ["first item", "second item", "third item"], "list", "the list has the items {members:?}");
    sound(&doc)?;
    obs.hit("follow_runs");
    Ok(())
}
