//! Long operations: imports and exports that are watched, cancelled and dropped at random
//! moments take effect as a whole or not at all and report so exactly once; the manager of
//! operations is compared with a model, step by step.

use crate::ensure;
use crate::observe::*;
use crate::r#gen;
use crate::rng::Rng;
use crate::runner::*;
use common::event::{EventHub, LongOperationEvent, Origin};
use common::long_operation::{LongOperation, LongOperationManager, OperationProgress, OperationStatus};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::mpsc::{Receiver, Sender, channel};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P22",
        quick: 6000,
        thorough: 150000,
        level: "exploration",
        rule: "import: a document with a history imports random HTML or Markdown and is cancelled after a random delay, from a listener at a random progress report, or not at all, while the \
               handle is polled, waited for, or dropped. export: the same with DOCX export into a scratch directory or to a path that cannot be written. The document must then equal the \
               reference import or its former self, entity for entity, with its history; the listener's log must hold progress in order and exactly one end that tells the truth. manager: \
               1-4 operations run step by step on command and every answer of the manager is compared with a model. Non-trivial: cancelled or several operations; distinct: by case.",
        assumptions: &["a cancelled operation may still complete if the request comes too late"],
        must_observe: &["imported", "cancelled", "too_late", "cancelled_from_listener", "dropped", "exported", "export_refused", "undone_after_cancel", "progress_reports", "probe_completed", "probe_cancelled", "probe_failed", "cleaned_up"],
        generate: gen_case,
        run: |c, o| match c.kind.as_str() {
            "import" => import(c, o),
            "export" => export(c, o),
            _ => manager(c, o),
        },
        workers: 8,
        repeat_on_shrink: 20,
    }]
}

fn gen_case(r: &mut Rng, i: u64, _: Tier) -> Case {
    let kind = ["import", "manager", "import", "export", "import", "manager"][(i % 6) as usize];
    let big = if r.chance(1, 3) { r.range(10, 60) } else { r.range(1, 6) };
    let mut c = Case { kind: kind.into(), ..Default::default() };
    match kind {
        "import" | "export" => {
            // [how to cancel, delay, how to await, html?, seed]
            c.nums = vec![r.below(4) as u64, r.below(400) as u64, r.below(5) as u64, r.below(2) as u64, r.next()];
            c.texts.push((0..big).map(|_| if c.nums[3] == 0 { r#gen::html(r) } else { r#gen::md(r) + "\n\n" }).collect());
            c.ops = (0..r.range(0, 4)).map(|_| crate::ops::Op::Text { c: 0, t: r#gen::word(r) }).collect();
        }
        _ => c.nums = (0..r.range(5, 40)).map(|_| r.next() % 100_000).collect(),
    }
    c
}

type Log = Arc<Mutex<Vec<DocumentEvent>>>;

fn until(ms: u64, mut f: impl FnMut() -> bool) -> bool {
    let t0 = Instant::now();
    while !f() {
        if t0.elapsed() > Duration::from_millis(ms) {
            return false;
        }
        if t0.elapsed() < Duration::from_millis(3) {
            std::thread::yield_now();
        } else {
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    true
}
fn spin(n: u64) {
    for _ in 0..n {
        std::thread::yield_now();
    }
}

/// Wait for the result as `how` says; None: the handle was dropped.
fn finish<T>(op: Operation<T>, how: u64, obs: &mut Obs) -> std::result::Result<Option<text_document::Result<T>>, Viol> {
    let mut op = op;
    match how {
        0 => Ok(Some(op.wait())),
        1 => {
            let r = op.wait_timeout(Duration::from_secs(20));
            ensure!(r.is_some(), "timeout", "an operation did not end within 20 s");
            Ok(r)
        }
        2 => {
            obs.hit("dropped");
            Ok(None)
        }
        _ => {
            let mut got = None;
            ensure!(
                until(20000, || {
                    if let Some((p, _)) = op.progress()
                        && !(0.0..=100.0).contains(&p)
                    {
                        return true;
                    }
                    let done = op.is_done();
                    got = op.try_result();
                    // (done may turn true between the two calls, but never false)
                    done && got.is_some()
                }),
                "never-done",
                "an operation that is done has no result, or does not end within 20 s"
            );
            let again = op.try_result();
            let Some(r) = got else { return viol("progress", "progress() is outside 0..100") };
            ensure!(again.is_some_and(|a| a.is_ok() == r.is_ok()), "answer-changed", "try_result answers differently when asked again");
            ensure!(op.is_done(), "undone", "an operation with a result is not done");
            op.cancel();
            ensure!(op.try_result().is_some_and(|a| a.is_ok() == r.is_ok()), "answer-changed", "cancelling a finished operation changes its result");
            Ok(Some(r))
        }
    }
}

/// The events of one operation: progress 0..100 (never backwards if `steady`), then one end.
fn check_log(log: &[DocumentEvent], id: &str, steady: bool, obs: &mut Obs) -> std::result::Result<bool, Viol> {
    let mut last = 0.0;
    let mut ends = vec![];
    for e in log {
        match e {
            DocumentEvent::LongOperationProgress { operation_id, percent, .. } => {
                ensure!(operation_id == id, "event-id", "progress of {operation_id:?} is reported while {id:?} runs");
                ensure!((0.0..=100.0).contains(percent), "event-percent", "progress of {percent} percent is reported");
                ensure!(!steady || *percent >= last, "event-percent", "progress goes back from {last} to {percent} percent");
                ensure!(ends.is_empty(), "event-late", "progress of {percent} percent is reported after the end");
                last = *percent;
                obs.hit("progress_reports");
            }
            DocumentEvent::LongOperationFinished { operation_id, success, error } => {
                ensure!(operation_id == id, "event-id", "the end of {operation_id:?} is reported while {id:?} runs");
                ensure!(*success == error.is_none(), "event-error", "an operation ends with success {success} and error {error:?}");
                ends.push(*success);
            }
            _ => {}
        }
    }
    ensure!(ends.len() == 1, "event-end", "the end of an operation is reported {} times: {ends:?}", ends.len());
    ensure!(!ends[0] || last == 100.0, "event-percent", "a successful operation reported no more than {last} percent");
    Ok(ends[0])
}
fn is_end(e: &DocumentEvent) -> bool {
    matches!(e, DocumentEvent::LongOperationFinished { .. })
}

fn base(c: &Case) -> (TextDocument, String) {
    let doc = TextDocument::new();
    let _ = crate::ops::quick_wait(doc.set_html("<h1>Old</h1><table><tr><td>a</td><td>b</td></tr></table><p>text <b>bold</b></p><ul><li>x</li></ul>").unwrap());
    // (the end of an import is announced by another thread)
    until(5000, || doc.poll_events().iter().any(is_end));
    let first = doc.to_plain_text().unwrap_or_default();
    let mut env = crate::ops::Env::of(doc.clone());
    for o in &c.ops {
        let _ = env.apply(o);
    }
    (doc, first)
}
fn listen(doc: &TextDocument, how: u64, delay: u64) -> (Log, Subscription, Arc<Mutex<Option<Box<dyn Fn() + Send>>>>) {
    let log: Log = Default::default();
    let cancel: Arc<Mutex<Option<Box<dyn Fn() + Send>>>> = Default::default();
    let (l, k) = (log.clone(), cancel.clone());
    let seen = Mutex::new(0u64);
    let sub = doc.on_change(move |e| {
        l.lock().unwrap().push(e);
        if how == 2 {
            let mut n = seen.lock().unwrap();
            *n += 1;
            if *n == 1 + delay % 6
                && let Some(f) = k.lock().unwrap().as_ref()
            {
                f();
            }
        }
    });
    (log, sub, cancel)
}

fn import(c: &Case, obs: &mut Obs) -> Verdict {
    let n = |i: usize| c.nums.get(i).copied().unwrap_or(0);
    let (how, delay, wait, kind) = (n(0), n(1), n(2), n(3));
    let Some(src) = c.texts.first() else { return Ok(()) };
    let reference = TextDocument::new();
    let blocks = if kind == 0 {
        crate::ops::quick_wait(reference.set_html(src).unwrap()).map(|r| r.block_count)
    } else {
        crate::ops::quick_wait(reference.set_markdown(src).unwrap()).map(|r| r.block_count)
    };
    let Ok(blocks) = blocks else { return viol("refused", format!("importing {src:?} fails")) };
    let (doc, first) = base(c);
    let (before, bview, undoable) = (store_of(&doc), view(&doc), doc.can_undo());
    let (log, _sub, hook) = listen(&doc, how, delay);
    doc.poll_events();

    fn drive<T: Send + 'static>(
        op: Operation<T>,
        (how, delay, wait): (u64, u64, u64),
        hook: &Mutex<Option<Box<dyn Fn() + Send>>>,
        obs: &mut Obs,
        count: impl Fn(&T) -> usize,
    ) -> std::result::Result<(String, Option<text_document::Result<usize>>), Viol> {
        let id = op.id().to_string();
        if how == 2 {
            // the listener cancels through a handle of its own
            let op = Arc::new(Mutex::new(Some(op)));
            let o = op.clone();
            *hook.lock().unwrap() = Some(Box::new(move || {
                if let Some(op) = o.lock().unwrap().as_ref() {
                    op.cancel();
                }
            }));
            ensure!(until(20000, || op.lock().unwrap().as_ref().is_none_or(|o| o.is_done())), "never-done", "an operation does not end within 20 s");
            obs.hit("cancelled_from_listener");
            let op = op.lock().unwrap().take().unwrap();
            return Ok((id, finish(op, if wait == 2 { 3 } else { wait }, obs)?.map(|r| r.map(|x| count(&x)))));
        }
        if how == 1 || how == 3 {
            spin(if how == 1 { delay % 3 } else { delay });
            op.cancel();
        }
        Ok((id, finish(op, wait, obs)?.map(|r| r.map(|x| count(&x)))))
    }
    let (id, result) = if kind == 0 {
        drive(doc.set_html(src).unwrap(), (how, delay, wait), &hook, obs, |r| r.block_count)?
    } else {
        drive(doc.set_markdown(src).unwrap(), (how, delay, wait), &hook, obs, |r| r.block_count)?
    };
    // the end is announced (by another thread, shortly after it)
    ensure!(until(10000, || log.lock().unwrap().iter().any(is_end)), "event-end", "the end of an import is never reported");
    spin(3);
    let log = log.lock().unwrap().clone();
    let ok = check_log(&log, &id, true, obs)?;
    let polled = doc.poll_events();
    let ends = |v: &[DocumentEvent]| v.iter().filter(|e| is_end(e)).count();
    ensure!(ends(&polled) == 1, "event-end", "poll_events reports the end of an import {} times", ends(&polled));
    let resets = log.iter().filter(|e| matches!(e, DocumentEvent::DocumentReset)).count();
    ensure!(resets == ok as usize, "event-reset", "an import that {} announces {resets} resets of the document", if ok { "succeeded" } else { "failed" });
    if let Some(r) = &result {
        ensure!(r.is_ok() == ok, "event-success", "an import gives {r:?} and reports success {ok}");
    }
    if ok {
        if let Some(Ok(n)) = result {
            ensure!(n == blocks, "count", "an import of {blocks} blocks reports {n}");
        }
        let (a, b) = (view(&doc), view(&reference));
        for (what, x, y) in [("text", &a.text, &b.text), ("Markdown", &a.markdown, &b.markdown), ("HTML", &a.html, &b.html)] {
            ensure!(x == y, "partial", "after an import the {what} of the document is {x:?}, expected {y:?}");
        }
        ensure!(a.stats == b.stats, "partial", "after an import the document has {:?}, expected {:?}", a.stats, b.stats);
        ensure!(!doc.can_undo() && !doc.can_redo(), "history", "an import leaves something to undo");
        obs.hit("imported");
        if how != 0 {
            obs.hit("too_late");
        }
    } else {
        ensure!(how != 0, "failed", "an import that nobody cancelled fails: {result:?}");
        let after = store_of(&doc);
        if let Some((sig, d)) = store_diff(&before, &after) {
            return viol(format!("leftover:{sig}"), format!("a cancelled import changed the document: {d}"));
        }
        if let Some((sig, d)) = view_diff(&bview, &view(&doc)) {
            return viol(format!("leftover:{sig}"), format!("a cancelled import changed the document: {d}"));
        }
        ensure!(doc.can_undo() == undoable, "history", "a cancelled import changes can_undo to {}", doc.can_undo());
        while doc.can_undo() {
            ensure!(doc.undo().is_ok(), "history", "undo fails after a cancelled import");
            obs.hit("undone_after_cancel");
        }
        ensure!(doc.to_plain_text().unwrap_or_default() == first, "history", "undo after a cancelled import gives {:?}, expected {first:?}", doc.to_plain_text());
        obs.hit("cancelled");
    }
    if how != 0 {
        obs.distinct(&(c.kind.clone(), how, delay, wait, kind, src.clone()));
    }
    // life goes on
    let cur = doc.cursor_at(0);
    ensure!(cur.insert_text("Z").is_ok() && doc.to_plain_text().unwrap_or_default().starts_with('Z'), "afterwards", "typing after an import fails");
    if let Err((sig, m)) = crate::integrity::check(&store_of(&doc)) {
        return viol(format!("integrity:{sig}"), m);
    }
    Ok(())
}

pub struct Scratch(pub std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn scratch() -> Scratch {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let d = std::env::temp_dir().join(format!("vmon-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    let _ = std::fs::create_dir_all(&d);
    Scratch(d)
}

fn export(c: &Case, obs: &mut Obs) -> Verdict {
    let n = |i: usize| c.nums.get(i).copied().unwrap_or(0);
    let (how, delay, wait) = (n(0), n(1), n(2));
    let Some(src) = c.texts.first() else { return Ok(()) };
    let (doc, _) = base(c);
    let _ = if n(3) == 0 { crate::ops::quick_wait(doc.set_html(src).unwrap()).map(|_| ()) } else { crate::ops::quick_wait(doc.set_markdown(src).unwrap()).map(|_| ()) };
    let cur = doc.cursor_at(0);
    let _ = cur.insert_text("history");
    // the events of the import end before those of the export begin
    let before = store_of(&doc);
    until(5000, || doc.poll_events().iter().any(is_end));
    let (log, _sub, _) = listen(&doc, 0, delay);
    let dir = scratch();
    let bad = n(4) % 5 == 0;
    let path = if bad { dir.0.join("no/such/dir/x.docx") } else { dir.0.join("x.docx") };
    let path = path.to_string_lossy().to_string();
    let op = match doc.to_docx(&path) {
        Ok(op) => op,
        Err(e) => return viol("refused", format!("to_docx fails to start: {e:#}")),
    };
    let id = op.id().to_string();
    if how >= 1 {
        spin(if how == 1 { delay % 3 } else { delay });
        op.cancel();
    }
    let result = finish(op, wait, obs)?;
    ensure!(until(10000, || log.lock().unwrap().iter().any(is_end)), "event-end", "the end of an export is never reported");
    spin(3);
    let log = log.lock().unwrap().clone();
    let ok = check_log(&log, &id, false, obs)?;
    if let Some(r) = &result {
        ensure!(r.is_ok() == ok, "event-success", "an export gives {:?} and reports success {ok}", r.as_ref().map(|_| ()));
    }
    let there = std::path::Path::new(&path).exists();
    ensure!(there == ok, "file", "an export that {} and there is {} file", if ok { "succeeded" } else { "failed" }, if there { "a" } else { "no" });
    if ok {
        ensure!(!bad, "file", "an export into a directory that does not exist succeeds");
        if let Some(Ok(r)) = &result {
            ensure!(r.file_path == path, "file", "an export to {path:?} says it wrote {:?}", r.file_path);
        }
        let bytes = std::fs::read(&path).unwrap_or_default();
        ensure!(bytes.starts_with(b"PK\x03\x04") && bytes.windows(4).any(|w| w == b"PK\x05\x06"), "file", "an export leaves a file that is no complete archive");
        obs.hit("exported");
    } else {
        ensure!(how != 0 || bad, "failed", "an export that nobody cancelled fails: {:?}", result.map(|r| r.map(|_| ())));
        if bad {
            obs.hit("export_refused");
        }
    }
    if how != 0 {
        obs.distinct(&(c.kind.clone(), how, delay, wait, src.clone()));
    }
    if let Some((sig, d)) = store_diff(&before, &store_of(&doc)) {
        return viol(format!("export-edits:{sig}"), format!("an export changed the document: {d}"));
    }
    ensure!(doc.can_undo(), "history", "an export clears the history");
    Ok(())
}

// ── the manager ──────────────────────────────────────────────────────

enum Step {
    Progress(f32),
    CheckCancel,
    Ok(u32),
    Err,
}
struct Probe {
    steps: Mutex<Receiver<Step>>,
    acks: Mutex<Sender<bool>>,
}
impl LongOperation for Probe {
    type Output = u32;
    fn execute(&self, progress: Box<dyn Fn(OperationProgress) + Send>, cancel: Arc<AtomicBool>) -> anyhow::Result<u32> {
        let steps = self.steps.lock().unwrap();
        let acks = self.acks.lock().unwrap();
        loop {
            match steps.recv()? {
                Step::Progress(p) => progress(OperationProgress::new(p, Some(format!("at {p}")))),
                Step::CheckCancel => {
                    if cancel.load(Ordering::SeqCst) {
                        anyhow::bail!("cancelled");
                    }
                }
                Step::Ok(x) => return Ok(x),
                Step::Err => anyhow::bail!("broken"),
            }
            acks.send(true)?;
        }
    }
}
struct Model {
    id: String,
    steps: Sender<Step>,
    acks: Receiver<bool>,
    progress: f32,
    cancelled: bool,
    /// how it ended
    end: Option<OperationStatus>,
    result: Option<u32>,
    /// forgotten by the manager
    gone: bool,
    events: Vec<LongOperationEvent>,
}

fn manager(c: &Case, obs: &mut Obs) -> Verdict {
    let hub = Arc::new(EventHub::new());
    let rx = hub.subscribe_receiver();
    let mut m = LongOperationManager::new();
    m.set_event_hub(&hub);
    let mut ops: Vec<Model> = vec![];
    let mut log: Vec<common::event::Event> = vec![];
    for (i, &x) in c.nums.iter().enumerate() {
        let (what, a, b) = (x % 10, (x / 10) as usize, x / 100);
        let call;
        if what <= 1 && ops.iter().filter(|o| o.end.is_none()).count() < 4 || ops.is_empty() {
            let (steps, r) = channel();
            let (s, acks) = channel();
            let id = m.start_operation(Probe { steps: Mutex::new(r), acks: Mutex::new(s) });
            ensure!(ops.iter().all(|o| o.id != id), "op-id", "step {i}: a second operation gets the id {id:?}");
            call = format!("start {id}");
            ops.push(Model { id, steps, acks, progress: 0.0, cancelled: false, end: None, result: None, gone: false, events: vec![LongOperationEvent::Started] });
        } else if what == 2 {
            call = "clean up".to_string();
            m.cleanup_finished_operations();
            for o in &mut ops {
                o.gone |= o.end.is_some() || o.cancelled;
            }
            obs.hit("cleaned_up");
        } else {
            let k = a % ops.len();
            let o = &mut ops[k];
            call = format!("{what} on {}", o.id);
            match what {
                3 => {
                    let r = m.cancel_operation(&o.id);
                    ensure!(r == !o.gone, "op-cancel", "step {i}: cancelling {} gives {r}", o.id);
                    if r && o.end.is_none() {
                        o.cancelled = true;
                    }
                }
                _ if o.end.is_some() => continue,
                4..=6 => {
                    let p = (b % 120) as f32;
                    o.steps.send(Step::Progress(p)).ok();
                    ensure!(o.acks.recv_timeout(Duration::from_secs(20)).is_ok(), "op-stuck", "step {i}: an operation does not get on");
                    o.progress = p.min(100.0);
                    o.events.push(LongOperationEvent::Progress);
                }
                _ => {
                    let step = match what {
                        7 => Step::CheckCancel,
                        8 => Step::Ok(b as u32),
                        _ => Step::Err,
                    };
                    o.steps.send(step).ok();
                    if what == 7 && !o.cancelled {
                        ensure!(o.acks.recv_timeout(Duration::from_secs(20)).is_ok(), "op-cancelled", "step {i}: an operation sees a cancellation that nobody asked for");
                    } else {
                        let (end, ev) = if what == 8 {
                            o.result = Some(b as u32);
                            obs.hit("probe_completed");
                            (OperationStatus::Completed, LongOperationEvent::Completed)
                        } else if o.cancelled {
                            obs.hit("probe_cancelled");
                            (OperationStatus::Cancelled, LongOperationEvent::Cancelled)
                        } else {
                            obs.hit("probe_failed");
                            (OperationStatus::Failed("broken".into()), LongOperationEvent::Failed)
                        };
                        o.end = Some(end.clone());
                        o.events.push(ev.clone());
                        let id = o.id.clone();
                        let done = if o.gone {
                            until(20000, || {
                                log.extend(rx.drain());
                                log.iter().any(|e| e.origin == Origin::LongOperation(ev.clone()) && e.data.as_ref().is_some_and(|d| d.contains(&format!("\"{id}\""))))
                            })
                        } else {
                            until(20000, || m.get_operation_outcome(&id).is_some())
                        };
                        ensure!(done, "op-end", "step {i}: {id} does not end");
                        ensure!(o.gone || m.get_operation_outcome(&id) == Some(end.clone()), "op-outcome", "step {i}: {id} ends with {:?}, expected {end:?}", m.get_operation_outcome(&id));
                    }
                }
            }
        }
        // every answer
        let mut live: Vec<&str> = vec![];
        for o in &ops {
            let status = if o.gone {
                None
            } else {
                live.push(&o.id);
                Some(o.end.clone().unwrap_or(if o.cancelled { OperationStatus::Cancelled } else { OperationStatus::Running }))
            };
            let got = m.get_operation_status(&o.id);
            ensure!(got == status, "op-status", "step {i}: after {call} the status of {} is {got:?}, expected {status:?}", o.id);
            let fin = status.as_ref().map(|s| *s != OperationStatus::Running);
            ensure!(m.is_operation_finished(&o.id) == fin, "op-finished", "step {i}: after {call} {} is finished: {:?}, expected {fin:?}", o.id, m.is_operation_finished(&o.id));
            let p = m.get_operation_progress(&o.id).map(|p| p.percentage);
            ensure!(p == (!o.gone).then_some(o.progress), "op-progress", "step {i}: after {call} the progress of {} is {p:?}, expected {}", o.id, o.progress);
            let r = m.get_operation_result(&o.id).and_then(|r| r.parse::<u32>().ok());
            ensure!(r == o.result, "op-result", "step {i}: after {call} the result of {} is {r:?}, expected {:?}", o.id, o.result);
            if o.end.is_none() {
                ensure!(m.get_operation_outcome(&o.id).is_none(), "op-outcome", "step {i}: after {call} {}, which runs, has the outcome {:?}", o.id, m.get_operation_outcome(&o.id));
            }
        }
        let mut list = m.list_operations();
        list.sort();
        live.sort();
        ensure!(list == live, "op-list", "step {i}: after {call} the operations are {list:?}, expected {live:?}");
        ensure!(m.get_operations_summary().len() == live.len(), "op-list", "step {i}: the summary lists {} operations, there are {}", m.get_operations_summary().len(), live.len());
    }
    // the announcements, operation by operation
    log.extend(rx.drain());
    let mut per: HashMap<String, Vec<LongOperationEvent>> = HashMap::new();
    for e in log {
        if let Origin::LongOperation(ev) = e.origin {
            let d = e.data.unwrap_or_default();
            let id = serde_json::from_str::<serde_json::Value>(&d).ok().and_then(|v| v.get("id").and_then(|i| i.as_str()).map(String::from)).unwrap_or(d);
            per.entry(id).or_default().push(ev);
        }
    }
    for o in &ops {
        let got = per.remove(&o.id).unwrap_or_default();
        ensure!(got == o.events, "op-events", "{} announces {got:?}, expected {:?}", o.id, o.events);
    }
    if ops.len() > 1 {
        obs.distinct(&c.nums);
    }
    Ok(())
}
