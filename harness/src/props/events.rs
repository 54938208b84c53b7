//! Event delivery (every event exactly once to pollers and subscribers) and event contents
//! (a consumer that only listens can keep up with the document).

use crate::ensure;
use crate::r#gen::{self, Mix};
use crate::observe::*;
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::thread::ThreadId;
use std::time::{Duration, Instant};
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P18",
            quick: 40000,
            thorough: 1000000,
            level: "exploration",
            rule: "Each case runs random edits while subscribers come and go (some read the document, drop other subscriptions or edit from inside the callback) and \
                   polls happen at random moments; every subscriber's log is compared with the polled sequence of its life time, in order. One case in eight edits \
                   from several threads while another polls; then the collections are compared. Non-trivial: at least three events; distinct: by event sequence.",
            assumptions: &["the order among subscribers is compared only where no callback edits and one thread edits (an import is a second one); the documentation promises no more"],
            must_observe: &["events_delivered", "polls", "subscriptions", "dropped", "dropped_in_callback", "reads_in_callback", "edits_in_callback", "threaded_runs"],
            generate: gen_delivery,
            run: run_delivery,
            workers: 8,
            repeat_on_shrink: 3,
        },
        Prop {
            id: "P19",
            quick: 60000,
            thorough: 1500000,
            level: "exploration",
            rule: "Each case runs random edits, undo and redo and, after each call, replays the polled events on a mirror: the text by position, removed and added counts \
                   (removed text becomes unknown text), the flow elements of the main frame, the block count, the modified flag. The mirror must fit the document, and every \
                   block, table or frame that looks different must lie in a region some event names. Non-trivial: every case; distinct: by event sequence.",
            assumptions: &[
                "an event with position and length 0 and the event of replace_text (0, 0, 0, n) mean the whole document, as documented at their source",
                "changes of a table's rows, columns and cells are announced by BlockCountChanged or an event for the whole document; the text mirror is kept for documents without tables and nested frames",
            ],
            must_observe: &["events_replayed", "text_events", "format_events", "flow_events", "block_count_events", "undo_events", "changed_blocks_covered"],
            generate: gen_contents,
            run: run_contents,
            workers: 8,
            repeat_on_shrink: 1,
        },
    ]
}

// ── delivery ─────────────────────────────────────────────────────────

type Log = Arc<Mutex<Vec<DocumentEvent>>>;

fn gen_delivery(r: &mut Rng, i: u64, _: Tier) -> Case {
    let m = Mix { group: 0, ..Mix::all() };
    if i % 8 == 7 {
        let m = Mix { text: 10, block: 4, delete: 4, format: 4, bformat: 2, undo: 2, cursor: 6, replace: 1, ..Mix::none() };
        let n = r.range(12, 60);
        let nums = vec![r.range(2, 4) as u64, r.next()];
        return Case { kind: "threads".into(), ops: r#gen::ops(r, &m, n), nums, ..Default::default() };
    }
    let n = r.range(4, 20);
    let ops = r#gen::ops(r, &m, n);
    let nums = ops.iter().map(|_| if r.chance(1, 2) { r.below(64) as u64 } else { 0 }).collect();
    Case { kind: if i % 4 == 3 { "reentrant".into() } else { "ordered".into() }, ops, nums, ..Default::default() }
}

struct Sub {
    log: Log,
    from: usize,
    imports: usize,
    sub: Arc<Mutex<Option<Subscription>>>,
    dead: Arc<Mutex<Option<ThreadId>>>,
}

fn run_delivery(c: &Case, obs: &mut Obs) -> Verdict {
    if c.kind == "threads" {
        return run_threads(c, obs);
    }
    let reentrant = c.kind == "reentrant";
    let mut env = Env::new();
    let mut stream: Vec<DocumentEvent> = env.doc.poll_events();
    let mut subs: Vec<Sub> = vec![];
    let finished: Arc<AtomicUsize> = Arc::default();
    let f2 = finished.clone();
    let _base = env.doc.on_change(move |e| {
        if matches!(e, DocumentEvent::LongOperationFinished { .. }) {
            f2.fetch_add(1, Ordering::SeqCst);
        }
    });
    let late: Arc<Mutex<Option<String>>> = Arc::default();
    let mut imports = 0;
    let mut ended: Vec<(Log, usize, usize)> = vec![];
    for (k, op) in c.ops.iter().enumerate() {
        let ctl = c.nums.get(k).copied().unwrap_or(0);
        match ctl % 8 {
            1 => {
                stream.extend(env.doc.poll_events());
                obs.hit("polls");
            }
            2 | 3 | 4 => {
                stream.extend(env.doc.poll_events());
                let log: Log = Arc::default();
                let (l2, doc) = (log.clone(), env.doc.clone());
                let slot: Arc<Mutex<Option<Subscription>>> = Arc::default();
                let dead: Arc<Mutex<Option<ThreadId>>> = Arc::default();
                let (d2, late2) = (dead.clone(), late.clone());
                let kind = (ctl / 8) % 5;
                // a subscriber may drop another one from inside its callback
                let victim = if kind == 3 && !subs.is_empty() {
                    let s: &Sub = &subs[(ctl / 40) as usize % subs.len()];
                    Some((s.sub.clone(), s.dead.clone()))
                } else {
                    None
                };
                let counters: Arc<[AtomicUsize; 3]> = Arc::default();
                let once = AtomicBool::new(false);
                let sub = env.doc.on_change(move |e| {
                    // (a call from another thread may have been under way)
                    if *d2.lock().unwrap() == Some(std::thread::current().id()) {
                        late2.lock().unwrap().get_or_insert(format!("{e:?}"));
                    }
                    l2.lock().unwrap().push(e);
                    match kind {
                        1 | 2 => {
                            // reading from inside the callback must not block
                            let n = doc.character_count() + doc.blocks().len() + doc.can_undo() as usize + doc.snapshot_flow().elements.len();
                            counters[0].fetch_add(n, Ordering::Relaxed);
                        }
                        3 => {
                            if let Some((slot, dead)) = &victim {
                                let taken = slot.lock().unwrap().take();
                                if taken.is_some() {
                                    drop(taken);
                                    *dead.lock().unwrap() = Some(std::thread::current().id());
                                }
                            }
                        }
                        4 if reentrant => {
                            if !once.swap(true, Ordering::SeqCst) {
                                let _ = doc.cursor().insert_text("!");
                            }
                        }
                        _ => {}
                    }
                });
                *slot.lock().unwrap() = Some(sub);
                obs.hit("subscriptions");
                obs.add("reads_in_callback", (kind == 1 || kind == 2) as u64);
                obs.add("edits_in_callback", (kind == 4 && reentrant) as u64);
                subs.push(Sub { log, from: stream.len(), imports: 0, sub: slot, dead });
            }
            5 if !subs.is_empty() => {
                stream.extend(env.doc.poll_events());
                let s = subs.remove((ctl / 8) as usize % subs.len());
                let taken = s.sub.lock().unwrap().take();
                if taken.is_some() {
                    drop(taken);
                    *s.dead.lock().unwrap() = Some(std::thread::current().id());
                    obs.hit("dropped");
                    ended.push((s.log, s.from, stream.len()));
                } else {
                    obs.hit("dropped_in_callback");
                }
            }
            _ => {}
        }
        let before = finished.load(Ordering::SeqCst);
        let ok = env.apply(op).is_ok();
        if ok && matches!(op, Op::SetMd { .. } | Op::SetHtml { .. }) {
            // wait until the end of the import has been announced
            let t0 = Instant::now();
            while finished.load(Ordering::SeqCst) == before {
                ensure!(t0.elapsed() < Duration::from_secs(20), "finish:missing", "the end of an import was not announced within 20 s");
                std::thread::sleep(Duration::from_micros(200));
            }
            // the other subscribers get the same event right after
            imports += 1;
            for s in &mut subs {
                s.imports += 1;
                let got = |s: &Sub| s.log.lock().unwrap().iter().filter(|e| matches!(e, DocumentEvent::LongOperationFinished { .. })).count();
                while s.sub.lock().unwrap().is_some() && got(s) < s.imports {
                    ensure!(t0.elapsed() < Duration::from_secs(20), "finish:missing", "the end of an import was not announced to every subscriber within 20 s");
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
        }
        if let Some(e) = late.lock().unwrap().take() {
            return viol("dropped:called", format!("a callback whose subscription had been dropped was called with {e}"));
        }
    }
    stream.extend(env.doc.poll_events());
    let n = stream.len();
    for s in &subs {
        if s.sub.lock().unwrap().is_some() {
            ended.push((s.log.clone(), s.from, n));
        } else {
            obs.hit("dropped_in_callback");
        }
    }
    for (log, from, to) in &ended {
        let log = log.lock().unwrap();
        let want = &stream[*from..*to];
        if reentrant || imports > 0 {
            ensure!(bag(&log) == bag(want), "delivery:bag", "a subscriber got {} events, the poll {}: {:?} / {:?}", log.len(), want.len(), *log, want);
        } else {
            let k = log.iter().zip(want).take_while(|(a, b)| a == b).count();
            ensure!(k == log.len() && k == want.len(), "delivery:order", "event {k} of a subscriber is {:?}, the poll has {:?} ({} and {} events)", log.get(k), want.get(k), log.len(), want.len());
        }
        obs.add("events_delivered", log.len() as u64);
    }
    ensure!(env.doc.poll_events().is_empty(), "poll:twice", "a second poll returns events again");
    if n >= 3 {
        obs.distinct(&format!("{stream:?}"));
    }
    Ok(())
}

fn bag(v: &[DocumentEvent]) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for e in v {
        *m.entry(format!("{e:?}")).or_default() += 1;
    }
    m
}

fn run_threads(c: &Case, obs: &mut Obs) -> Verdict {
    let doc = TextDocument::new();
    let _ = doc.set_plain_text("alpha beta\ngamma");
    doc.poll_events();
    let logs: Vec<Log> = (0..2).map(|_| Log::default()).collect();
    let _subs: Vec<Subscription> = logs
        .iter()
        .map(|l| {
            let l = l.clone();
            doc.on_change(move |e| l.lock().unwrap().push(e))
        })
        .collect();
    let k = c.nums.first().copied().unwrap_or(2).clamp(2, 4) as usize;
    let stop = Arc::new(AtomicBool::new(false));
    let poller = {
        let (doc, stop) = (doc.clone(), stop.clone());
        std::thread::spawn(move || {
            let mut all = vec![];
            while !stop.load(Ordering::SeqCst) {
                all.extend(doc.poll_events());
                std::thread::yield_now();
            }
            all
        })
    };
    let hs: Vec<_> = (0..k)
        .map(|t| {
            let doc = doc.clone();
            let ops: Vec<Op> = c.ops.iter().skip(t).step_by(k).cloned().collect();
            std::thread::spawn(move || {
                let mut env = Env::of(doc);
                for op in &ops {
                    let _ = env.apply(op);
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            return viol("thread:panic", "an editing thread panicked");
        }
    }
    stop.store(true, Ordering::SeqCst);
    let mut all = poller.join().map_err(|_| Viol { sig: "thread:panic".into(), msg: "the polling thread panicked".into() })?;
    all.extend(doc.poll_events());
    for l in &logs {
        let l = l.lock().unwrap();
        ensure!(bag(&l) == bag(&all), "threads:bag", "a subscriber got {} events, the polls {}", l.len(), all.len());
        obs.add("events_delivered", l.len() as u64);
    }
    obs.hit("threaded_runs");
    obs.distinct(&format!("{all:?}"));
    Ok(())
}

// ── contents ─────────────────────────────────────────────────────────

fn gen_contents(r: &mut Rng, i: u64, _: Tier) -> Case {
    let mut m = Mix { undo: 6, ..Mix::all() };
    if i % 2 == 0 {
        m = Mix { table: 0, tablefmt: 0, frame: 0, markup: 3, ..m };
    }
    let mut ops = vec![];
    match r.below(4) {
        0 => ops.push(Op::SetMd { t: r#gen::md(r) }),
        1 => ops.push(Op::SetHtml { t: r#gen::html(r) }),
        _ => ops.push(Op::SetPlain { t: r#gen::text(r, 4, 3) }),
    }
    let n = r.range(4, 18);
    ops.extend(r#gen::ops(r, &m, n));
    Case::ops("contents", ops)
}

fn structured(f: &FlowSnapshot) -> bool {
    f.elements.iter().any(|e| !matches!(e, FlowElementSnapshot::Block(_)))
}
fn elem(e: &FlowElement) -> (u8, usize) {
    match e {
        FlowElement::Block(b) => (0, b.id()),
        FlowElement::Table(t) => (1, t.id()),
        FlowElement::Frame(f) => (2, f.id()),
    }
}
/// What tables and frames look like apart from their blocks.
fn shape(f: &FlowSnapshot) -> Vec<String> {
    fn go(e: &FlowElementSnapshot, out: &mut Vec<String>) {
        match e {
            FlowElementSnapshot::Block(_) => {}
            FlowElementSnapshot::Table(t) => out.push(format!(
                "table {} {}x{} {:?} {:?} {:?}",
                t.table_id,
                t.rows,
                t.columns,
                t.column_widths,
                t.format,
                t.cells.iter().map(|c| format!("{} {} {} {} {:?}", c.row, c.column, c.row_span, c.column_span, c.format)).collect::<Vec<_>>()
            )),
            FlowElementSnapshot::Frame(f) => {
                out.push(format!("frame {} {:?}", f.frame_id, f.format));
                f.elements.iter().for_each(|e| go(e, out));
            }
        }
    }
    let mut out = vec![];
    f.elements.iter().for_each(|e| go(e, &mut out));
    out.sort();
    out
}
/// How a block looks, apart from where it is and how its list counts.
fn look(b: &BlockSnapshot) -> String {
    let frags: Vec<String> = b
        .fragments
        .iter()
        .map(|f| match f {
            FragmentContent::Text { text, format, .. } => format!("{text:?} {format:?}"),
            FragmentContent::Image { name, width, height, quality, format, .. } => format!("image {name} {width} {height} {quality} {format:?}"),
        })
        .collect();
    format!("{:?} {:?} {:?} {:?}", b.text, frags, b.block_format, b.list_info.as_ref().map(|l| (l.list_id, l.style.clone(), l.indent)))
}

fn run_contents(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    env.doc.poll_events();
    let finished: Arc<AtomicUsize> = Arc::default();
    let f2 = finished.clone();
    let _base = env.doc.on_change(move |e| {
        if matches!(e, DocumentEvent::LongOperationFinished { .. }) {
            f2.fetch_add(1, Ordering::SeqCst);
        }
    });
    let mut blocks = env.doc.block_count();
    let mut modified = env.doc.is_modified();
    let mut history = (env.doc.can_undo(), env.doc.can_redo());
    let mut seen = String::new();
    for (k, op) in c.ops.iter().enumerate() {
        let flow0 = env.doc.snapshot_flow();
        let text0: Vec<char> = env.doc.to_plain_text().unwrap_or_default().chars().collect();
        let elems0: Vec<_> = env.doc.flow().iter().map(elem).collect();
        // an edit of a selection that enters a table empties whole cells
        let cells: Vec<(usize, usize)> = flat_blocks(&flow0).iter().filter(|b| b.table_cell.is_some()).map(|b| (b.position, b.position + b.length)).collect();
        let in_table = env.cursors.iter().any(|c| {
            let (a, b) = (c.selection_start(), c.selection_end());
            a != b && cells.iter().any(|r| r.0 <= b && a <= r.1)
        });
        let n0 = finished.load(Ordering::SeqCst);
        let ok = env.apply(op).is_ok();
        if ok && matches!(op, Op::SetMd { .. } | Op::SetHtml { .. }) {
            let t0 = Instant::now();
            while finished.load(Ordering::SeqCst) == n0 {
                ensure!(t0.elapsed() < Duration::from_secs(20), "finish:missing", "the end of an import was not announced within 20 s");
                std::thread::sleep(Duration::from_micros(200));
            }
        }
        let events = env.doc.poll_events();
        let flow1 = env.doc.snapshot_flow();
        let text1: Vec<char> = env.doc.to_plain_text().unwrap_or_default().chars().collect();
        let elems1: Vec<_> = env.doc.flow().iter().map(elem).collect();
        let name = op.name();
        let ctx = format!("call {k} {op:?} announced {events:?}");
        let reset = events.iter().any(|e| matches!(e, DocumentEvent::DocumentReset));
        let mut whole = reset;
        let mut regions: Vec<(usize, usize)> = vec![];
        let mut text: Option<Vec<Option<char>>> = (!structured(&flow0) && !structured(&flow1) && !reset).then(|| text0.iter().map(|c| Some(*c)).collect());
        let mut elems: Vec<Option<(u8, usize)>> = elems0.iter().map(|e| Some(*e)).collect();
        let mut flow_events = 0;
        let mut counted = false;
        for e in &events {
            obs.hit("events_replayed");
            match e {
                DocumentEvent::ContentsChanged { position, chars_removed, chars_added, blocks_affected } => {
                    obs.hit("text_events");
                    if matches!(op, Op::Replace { .. }) {
                        text = None;
                        whole = true;
                        continue;
                    }
                    // an earlier region moves with a later change in front of it
                    for r in &mut regions {
                        if r.0 > *position {
                            let d = |x: usize| (x + chars_added).saturating_sub(*chars_removed);
                            *r = (d(r.0), d(r.1));
                        }
                    }
                    let _ = blocks_affected;
                    regions.push((*position, position + chars_added));
                    if let Some(t) = &mut text {
                        ensure!(position + chars_removed <= t.len(), format!("text:range:{name}"), "{ctx}, but the text had {} characters", t.len());
                        t.splice(*position..position + chars_removed, vec![None; *chars_added]);
                    }
                }
                DocumentEvent::FormatChanged { position, length, .. } => {
                    obs.hit("format_events");
                    if *position == 0 && *length == 0 {
                        whole = true;
                    }
                    regions.push((*position, position + length));
                }
                DocumentEvent::BlockCountChanged(n) => {
                    obs.hit("block_count_events");
                    blocks = *n;
                    counted = true;
                }
                DocumentEvent::FlowElementsInserted { flow_index, count } => {
                    obs.hit("flow_events");
                    flow_events += 1;
                    ensure!(*flow_index <= elems.len() && *count > 0, format!("flow:range:{name}"), "{ctx}, but the flow had {} elements", elems.len());
                    elems.splice(*flow_index..*flow_index, vec![None; *count]);
                }
                DocumentEvent::FlowElementsRemoved { flow_index, count } => {
                    obs.hit("flow_events");
                    flow_events += 1;
                    ensure!(flow_index + count <= elems.len() && *count > 0, format!("flow:range:{name}"), "{ctx}, but the flow had {} elements", elems.len());
                    elems.drain(*flow_index..flow_index + count);
                }
                DocumentEvent::ModificationChanged(m) => modified = *m,
                DocumentEvent::UndoRedoChanged { can_undo, can_redo } => {
                    obs.hit("undo_events");
                    history = (*can_undo, *can_redo);
                }
                _ => {}
            }
        }
        let h = (env.doc.can_undo(), env.doc.can_redo());
        ensure!(history == h, format!("history:{name}"), "{ctx}; undo and redo were last announced as {history:?}, the document says {h:?}");
        let nb = env.doc.block_count();
        ensure!(blocks == nb, format!("count:{name}"), "{ctx}; the last announced block count is {blocks}, the document has {nb}");
        ensure!(modified == env.doc.is_modified(), format!("modified:{name}"), "{ctx}; the last announced modified flag is {modified}, the document says {}", env.doc.is_modified());
        if !reset {
            let fits = elems.len() == elems1.len() && elems.iter().zip(&elems1).all(|(a, b)| a.is_none_or(|a| a == *b));
            ensure!(fits, format!("flow:{name}"), "{ctx}; replayed on {elems0:?} this gives {elems:?}, the flow is {elems1:?}");
            if let Some(t) = &text {
                let fits = t.len() == text1.len() && t.iter().zip(&text1).all(|(a, b)| a.is_none_or(|a| a == *b));
                ensure!(fits, format!("text:{name}"), "{ctx}; replayed on {:?} this gives {:?}, the text is {:?}", text0.iter().collect::<String>(), t.iter().map(|c| c.unwrap_or('?')).collect::<String>(), text1.iter().collect::<String>());
            }
        }
        if !whole && !in_table {
            let b0: HashMap<usize, String> = flat_blocks(&flow0).iter().map(|b| (b.block_id, look(b))).collect();
            let tables_named = counted || flow_events > 0;
            for b in flat_blocks(&flow1) {
                let l = look(&b);
                if b0.get(&b.block_id).is_some_and(|x| *x == l) {
                    continue;
                }
                let hit = regions.iter().any(|r| r.0 <= b.position + b.length && b.position <= r.1) || (b.table_cell.is_some() && tables_named) || (!b0.contains_key(&b.block_id) && tables_named);
                ensure!(hit, format!("unannounced:{name}"), "{ctx}; block {} at {}..{} changed from {:?} to {l:?}", b.block_id, b.position, b.position + b.length, b0.get(&b.block_id));
                obs.hit("changed_blocks_covered");
            }
            if shape(&flow0) != shape(&flow1) {
                ensure!(whole || counted || flow_events > 0 || !regions.is_empty(), format!("unannounced-shape:{name}"), "{ctx}; {:?} became {:?}", shape(&flow0), shape(&flow1));
            }
        }
        seen += &format!("{events:?}");
    }
    obs.distinct(&seen);
    Ok(())
}
