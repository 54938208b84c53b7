//! Undo/redo history monitors: every undo and redo step is compared, state for
//! state, with the history the monitor recorded at the client boundary.

use crate::ensure;
use crate::r#gen::{self, Mix};
use crate::observe::*;
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            quick: 60000,
            thorough: 2000000,
            level: "exploration",
            rule: "Each case is a random history of 2-14 edits of every kind (typing, deleting, splitting, \
                   formatting, tables, lists, frames, paste, markup, replace, properties) with cursor moves in \
                   between, then undo to the bottom, redo to the top, and a random undo/redo walk. Every state \
                   reached is compared with the recorded one: the whole store and every public view. Non-trivial: \
                   at least two state-changing edits; distinct: by operation list.",
            assumptions: &["entity timestamps are not part of the state", "images, tables nested in cells and frames in cells are outside the workload (see known_findings.jsonl)"],
            must_observe: &["undo_steps", "redo_steps", "walk_steps"],
            generate: gen_undo,
            run: run_undo,
            workers: 8,
            repeat_on_shrink: 1,
        },
        Prop {
            id: "P02",
            quick: 100000,
            thorough: 2000000,
            level: "exploration",
            rule: "Each case interleaves edits, undo, redo, groups and clear-history at random against a timeline \
                   model: a new edit discards the redo branch, undo goes back exactly one edit (or one run of merged \
                   typing or deleting), redo is its inverse, the can-undo/can-redo answers match the model and the \
                   last announced pair of flags matches the queries. Non-trivial: the history branched (an edit \
                   after an undo); distinct: by operation list.",
            assumptions: &["an edit that changes nothing may or may not take an undo step of its own"],
            must_observe: &["branches", "undos", "redos", "flag_events"],
            generate: gen_linear,
            run: run_linear,
            workers: 8,
            repeat_on_shrink: 1,
        },
        Prop {
            id: "P03",
            quick: 80000,
            thorough: 2000000,
            level: "exploration",
            rule: "Each case makes a random document, opens edit blocks (nested up to three deep), runs edits inside, \
                   some of which fail, closes them and then undoes once and redoes once. One undo must bring back \
                   the state before the outermost begin, one redo the state after its end. Non-trivial: the group \
                   changed the state with at least two edits; distinct: by operation list.",
            assumptions: &[],
            must_observe: &["groups", "nested_groups", "group_edits"],
            generate: gen_group,
            run: run_group,
            workers: 8,
            repeat_on_shrink: 1,
        },
    ]
}

pub fn general_mix(i: u64) -> Mix {
    let mut m = Mix::all();
    match i % 4 {
        0 => {
            m.table = 0;
            m.frame = 0;
            m.tablefmt = 0;
        }
        1 => m.frame = 0,
        _ => {}
    }
    region(&mut m);
    m
}

fn gen_undo(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let mut m = general_mix(i);
    m.group = 0;
    m.import = 0;
    m.undo = 0;
    let n = length(r);
    let mut ops = start(r);
    ops.extend(r#gen::ops(r, &m, n));
    Case { kind: "undo".into(), ops, nums: (0..r.range(4, 14)).map(|_| r.below(1000) as u64).collect(), ..Default::default() }
}

/// Mostly short sequences, some long ones.
pub fn length(r: &mut Rng) -> usize {
    if r.chance(1, 8) { r.range(12, 24) } else { r.range(2, 12) }
}
/// Most histories start from an imported document.
pub fn start(r: &mut Rng) -> Vec<Op> {
    match r.below(8) {
        0 | 1 => vec![],
        2 | 3 => vec![Op::SetPlain { t: r#gen::text(r, 4, 3) }],
        4 | 5 => vec![Op::SetMd { t: r#gen::md(r) }],
        _ => vec![Op::SetHtml { t: r#gen::html(r) }],
    }
}

struct Rec {
    s: Store,
    v: View,
    by: String,
}
fn rec(env: &Env, by: String) -> Rec {
    Rec { s: store_of(&env.doc), v: view(&env.doc), by }
}
fn same(want: &Rec, env: &Env) -> Option<(String, String)> {
    let s = store_of(&env.doc);
    if let Some(d) = store_diff(&want.s, &s) {
        return Some(d);
    }
    view_diff(&want.v, &view(&env.doc)).map(|(a, b)| (format!("view.{a}"), b))
}

fn run_undo(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    let mut hist: Vec<Rec> = vec![];
    for op in &c.ops {
        if hist.is_empty() && !matches!(op, Op::SetPlain { .. } | Op::SetMd { .. } | Op::SetHtml { .. } | Op::Clear) {
            hist.push(rec(&env, String::new()));
        }
        let out = env.apply(op);
        if hist.is_empty() {
            continue;
        }
        if matches!(op, Op::SetPlain { .. } | Op::SetMd { .. } | Op::SetHtml { .. } | Op::Clear) {
            return Ok(()); // only reached by shrinking
        }
        if out.is_err() {
            obs.hit("failed_ops");
        }
        let s = store_of(&env.doc);
        if s != hist.last().unwrap().s {
            ensure!(!out.is_err(), format!("err-changed:{}", op.name()), "{op:?} failed ({out:?}) but changed the state");
            ensure!(op.is_edit(), format!("nonedit-changed:{}", op.name()), "{op:?} changed the state");
            hist.push(rec(&env, op.name()));
            obs.hit("edits");
        }
    }
    if hist.is_empty() {
        return Ok(());
    }
    // undo all
    let top = hist.len() - 1;
    let mut at = top;
    let mut path = vec![top];
    let mut steps = 0;
    while env.doc.can_undo() {
        steps += 1;
        ensure!(steps < 500, "undo-endless", "can_undo stays true");
        if let Err(e) = env.doc.undo() {
            return viol("undo-err", format!("undo failed: {e:#}"));
        }
        obs.hit("undo_steps");
        let s = store_of(&env.doc);
        let j = (0..=at).rev().find(|k| hist[*k].s == s);
        let Some(j) = j else {
            let want = at.saturating_sub(1);
            let (p, d) = store_diff(&hist[want].s, &s).unwrap();
            return viol(format!("undo:{}:{}", hist[at].by, p), format!("undo of {} reached an unrecorded state; vs previous: {d}", hist[at].by));
        };
        if let Some((p, d)) = same(&hist[j], &env) {
            return viol(format!("undo:{}:{}", hist[at].by, p), format!("after undoing {}: {d}", hist[at].by));
        }
        at = j;
        path.push(at);
    }
    ensure!(at == 0, "undo-incomplete", "undo stopped at state {at}");
    // redo all
    for w in (0..path.len() - 1).rev() {
        ensure!(env.doc.can_redo(), "redo-missing", "can_redo is false");
        if let Err(e) = env.doc.redo() {
            return viol("redo-err", format!("redo failed: {e:#}"));
        }
        obs.hit("redo_steps");
        if let Some((p, d)) = same(&hist[path[w]], &env) {
            return viol(format!("redo:{}:{}", hist[path[w]].by, p), format!("redo of {}: {d}", hist[path[w]].by));
        }
    }
    ensure!(!env.doc.can_redo(), "redo-extra", "can_redo still true");
    // random walk along the recorded path
    let mut w = 0;
    for n in &c.nums {
        let back = n % 3 != 0;
        let ok = if back { env.doc.can_undo() } else { env.doc.can_redo() };
        let room = if back { w + 1 < path.len() } else { w > 0 };
        ensure!(ok == room, "walk-flags", "walk at {w} of {}: can step {ok}, expected {room}", path.len());
        if !ok {
            continue;
        }
        let r = if back { env.doc.undo() } else { env.doc.redo() };
        if let Err(e) = r {
            return viol("walk-err", format!("undo/redo failed on the walk: {e:#}"));
        }
        w = if back { w + 1 } else { w - 1 };
        obs.hit("walk_steps");
        if let Some((p, d)) = same(&hist[path[w]], &env) {
            return viol(format!("walk:{}:{}", if back { "undo" } else { "redo" }, p), format!("walk reached a different state: {d}"));
        }
    }
    if top > 1 {
        obs.distinct(&format!("{:?}", c.ops));
    }
    Ok(())
}

// ── linear history ──────────────────────────────────────────────────────────

fn gen_linear(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let mut m = general_mix(i);
    m.undo = 24;
    m.group = 0;
    m.import = 0;
    m.text = 14;
    let n = r.range(4, 24);
    let mut ops = r#gen::ops(r, &m, n);
    if r.chance(1, 3) {
        let a = r.below(ops.len());
        let b = a + r.range(1, 4).min(ops.len() - a);
        ops.insert(b, Op::End { c: 0 });
        ops.insert(a, Op::Begin { c: 0 });
    }
    if r.chance(1, 8) {
        let at = r.below(ops.len());
        ops.insert(at, Op::ClearUndo);
    }
    if r.chance(1, 6) {
        let at = r.below(ops.len());
        let im = Mix { import: 1, ..Mix::none() };
        ops.insert(at, r#gen::op(r, &im));
    }
    if r.chance(1, 2) {
        // a run of typing
        let at = r.below(ops.len());
        for k in 0..r.range(2, 8) {
            ops.insert(at + k, Op::Text { c: 0, t: ((b'a' + r.below(26) as u8) as char).to_string() });
        }
    }
    Case::ops("linear", ops)
}

struct Entry {
    /// state after this edit
    s: Store,
    /// "T" typing, "D" deleting: entries that may merge with the same neighbour
    kind: char,
}

fn kind_of(op: &Op) -> char {
    match op {
        Op::Text { .. } => 'T',
        Op::DelNext { .. } | Op::DelPrev { .. } | Op::DelSel { .. } => 'D',
        _ => 'X',
    }
}

fn run_linear(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    // timeline[0] is the bottom; `at` is the current entry
    let mut tl = vec![Entry { s: store_of(&env.doc), kind: '0' }];
    let mut at = 0usize;
    // how many no-change commands may sit on the undo / redo side
    let mut slack = false;
    let mut branched = false;
    let mut undone = false;
    let mut last_flags: Option<(bool, bool)> = None;
    env.doc.poll_events();
    let mut group_dirty = false;
    for op in &c.ops {
        let before_flags = (env.doc.can_undo(), env.doc.can_redo());
        let was_in_group = env.depth > 0;
        let out = env.apply(op);
        let s = store_of(&env.doc);
        for e in env.doc.poll_events() {
            if let text_document::DocumentEvent::UndoRedoChanged { can_undo, can_redo } = e {
                last_flags = Some((can_undo, can_redo));
                obs.hit("flag_events");
            }
        }
        let flags = (env.doc.can_undo(), env.doc.can_redo());
        match op {
            Op::Undo if !matches!(out, Out::Skip) => {
                ensure!(out.is_ok(), "undo-err", "undo failed: {out:?}");
                if !before_flags.0 {
                    ensure!(s == tl[at].s, "undo-empty-changed", "undo with an empty history changed the document");
                    ensure!(flags == before_flags, "undo-empty-flags", "undo with an empty history changed the flags");
                    continue;
                }
                obs.hit("undos");
                undone = true;
                ensure!(flags.1, "undo-no-redo", "after an undo nothing can be redone");
                if s == tl[at].s {
                    ensure!(slack, "undo-noop", "undo changed nothing although every edit changed something");
                    continue;
                }
                // exactly the previous entry, or further back through a merged run
                ensure!(at > 0, "undo-below", "undo went below the recorded history");
                let mut j = at - 1;
                let k = tl[at].kind;
                loop {
                    if tl[j].s == s {
                        break;
                    }
                    if j > 0 && k != 'X' && tl[j].kind == k {
                        j -= 1;
                        continue;
                    }
                    let (p, d) = store_diff(&tl[at - 1].s, &s).unwrap();
                    return viol(format!("undo-target:{p}"), format!("undo did not go back to the previous edit: {d}"));
                }
                if at - j > 1 {
                    obs.hit("merged_undos");
                    // the merged run is one step from now on
                    tl.drain(j + 1..at);
                }
                at = j;
            }
            Op::Redo if !matches!(out, Out::Skip) => {
                ensure!(out.is_ok(), "redo-err", "redo failed: {out:?}");
                if !before_flags.1 {
                    ensure!(s == tl[at].s, "redo-empty-changed", "redo with nothing to redo changed the document");
                    continue;
                }
                obs.hit("redos");
                ensure!(flags.0, "redo-no-undo", "after a redo nothing can be undone");
                if s == tl[at].s {
                    ensure!(slack, "redo-noop", "redo changed nothing");
                    continue;
                }
                ensure!(at + 1 < tl.len(), "redo-above", "redo went beyond the recorded history");
                if let Some((p, d)) = store_diff(&tl[at + 1].s, &s) {
                    return viol(format!("redo-target:{p}"), format!("redo did not restore the undone edit: {d}"));
                }
                at += 1;
            }
            Op::ClearUndo | Op::SetPlain { .. } | Op::SetMd { .. } | Op::SetHtml { .. } | Op::Clear if out.is_ok() => {
                ensure!(flags == (false, false), format!("clear-flags:{}", op.name()), "{op:?} left undo/redo available: {flags:?}");
                tl = vec![Entry { s, kind: '0' }];
                at = 0;
                slack = false;
                obs.hit("clears");
                ensure!(last_flags == Some((false, false)), "clear-event", "{op:?} did not announce the cleared history: {last_flags:?}");
                continue;
            }
            Op::Begin { .. } | Op::End { .. } => {
                if was_in_group && env.depth == 0 {
                    // the group closed: one step
                    obs.hit("groups");
                    if group_dirty {
                        let changed = s != tl[at].s;
                        if changed {
                            branch(&mut tl, at, &mut branched, undone, obs);
                            tl.push(Entry { s, kind: 'X' });
                            at += 1;
                            ensure!(flags == (true, false), "group-flags", "after a group the flags are {flags:?}");
                        } else {
                            slack = true;
                            if !flags.1 {
                                tl.truncate(at + 1);
                            }
                        }
                    }
                    group_dirty = false;
                }
                if env.depth > 0 {
                    continue;
                }
            }
            _ if env.depth > 0 => {
                if op.is_edit() && out.is_ok() {
                    group_dirty = true;
                }
                continue;
            }
            _ => {
                if s != tl[at].s {
                    ensure!(op.is_edit(), format!("nonedit-changed:{}", op.name()), "{op:?} changed the state");
                    ensure!(flags == (true, false), format!("edit-flags:{}", op.name()), "after {op:?} the flags are {flags:?}, expected (true, false)");
                    branch(&mut tl, at, &mut branched, undone, obs);
                    tl.push(Entry { s, kind: kind_of(op) });
                    at += 1;
                    undone = false;
                    obs.hit("edits");
                } else if op.is_edit() && out.is_ok() {
                    slack = true;
                    if !flags.1 {
                        tl.truncate(at + 1);
                    }
                } else {
                    ensure!(flags == before_flags, format!("flags-moved:{}", op.name()), "{op:?} ({out:?}) changed the flags from {before_flags:?} to {flags:?}");
                }
            }
        }
        if !slack && env.depth == 0 {
            ensure!(flags.0 == (at > 0), "can-undo", "after {op:?}: can_undo is {} at entry {at}", flags.0);
            ensure!(flags.1 == (at + 1 < tl.len()), "can-redo", "after {op:?}: can_redo is {} at entry {at} of {}", flags.1, tl.len());
        }
        if let Some(f) = last_flags {
            ensure!(f == flags, format!("flags-event:{}", op.name()), "after {op:?} the last announced flags are {f:?}, the queries say {flags:?}");
        }
    }
    if branched {
        obs.distinct(&format!("{:?}", c.ops));
    }
    Ok(())
}

fn branch(tl: &mut Vec<Entry>, at: usize, branched: &mut bool, undone: bool, obs: &mut Obs) {
    if at + 1 < tl.len() {
        tl.truncate(at + 1);
        *branched = true;
        obs.hit("branches");
    }
    let _ = undone;
}

// ── groups ──────────────────────────────────────────────────────────────────

fn gen_group(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let mut m = general_mix(i);
    m.group = 0;
    m.import = 0;
    m.undo = 0;
    let n = r.range(0, 6);
    let mut ops = vec![];
    if r.chance(1, 2) {
        let im = Mix { import: 1, ..Mix::none() };
        ops.push(r#gen::op(r, &im));
    }
    ops.extend(r#gen::ops(r, &m, n));
    let mut depth = 0;
    let mut inner = vec![Op::Begin { c: 0 }];
    let len = r.range(2, 9);
    for _ in 0..len {
        if r.chance(1, 5) && depth < 2 {
            inner.push(Op::Begin { c: r.below(2) });
            depth += 1;
        } else if r.chance(1, 5) && depth > 0 {
            inner.push(Op::End { c: r.below(2) });
            depth -= 1;
        }
        inner.extend(r#gen::ops(r, &m, 1));
    }
    for _ in 0..=depth {
        inner.push(Op::End { c: 0 });
    }
    ops.extend(inner);
    // something after it, so that the group is not the last command
    if r.chance(1, 2) {
        ops.push(Op::Undo);
        ops.push(Op::Redo);
    }
    Case::ops("group", ops)
}

fn run_group(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    let mut start: Option<Rec> = None;
    let mut edits = 0;
    let mut i = 0;
    let mut deepest = 0;
    // balance: shrinking may drop begins or ends
    let mut ops = c.ops.clone();
    let mut d = 0i32;
    for op in &ops {
        match op {
            Op::Begin { .. } => d += 1,
            Op::End { .. } if d > 0 => d -= 1,
            _ => {}
        }
    }
    for _ in 0..d {
        ops.push(Op::End { c: 0 });
    }
    while i < ops.len() {
        let op = &ops[i];
        i += 1;
        if matches!(op, Op::Begin { .. }) && env.depth == 0 {
            start = Some(rec(&env, String::new()));
            edits = 0;
            deepest = 0;
        }
        let had = env.depth;
        let out = env.apply(op);
        deepest = deepest.max(env.depth);
        if had > 0 && op.is_edit() && out.is_ok() {
            edits += 1;
            obs.hit("group_edits");
        }
        if had > 0 && out.is_err() {
            obs.hit("failed_in_group");
        }
        if matches!(op, Op::End { .. }) && had == 1 && env.depth == 0 {
            let Some(st) = start.take() else { continue };
            obs.hit("groups");
            if deepest > 1 {
                obs.hit("nested_groups");
            }
            let end = rec(&env, String::new());
            if edits == 0 {
                ensure!(end.s == st.s, "empty-group-changed", "a group without successful edits changed the state");
                continue;
            }
            if end.s == st.s {
                continue;
            }
            ensure!(env.doc.can_undo(), "group-not-undoable", "nothing to undo after a group of {edits} edits");
            ensure!(!env.doc.can_redo(), "group-redo", "a redo branch survived the group");
            for round in 0..2 {
                if let Err(e) = env.doc.undo() {
                    return viol("group-undo-err", format!("undo of a group failed: {e:#}"));
                }
                if let Some((p, dd)) = same(&st, &env) {
                    return viol(format!("group-undo:{p}"), format!("one undo (round {round}) of a group of {edits} edits did not restore the state before it: {dd}"));
                }
                ensure!(env.doc.can_redo(), "group-not-redoable", "the undone group cannot be redone");
                if let Err(e) = env.doc.redo() {
                    return viol("group-redo-err", format!("redo of a group failed: {e:#}"));
                }
                if let Some((p, dd)) = same(&end, &env) {
                    return viol(format!("group-redo:{p}"), format!("one redo (round {round}) of a group of {edits} edits did not restore the state after it: {dd}"));
                }
            }
            if edits > 1 {
                obs.distinct(&format!("{:?}", c.ops));
            }
        }
    }
    Ok(())
}

pub fn region(m: &mut Mix) {
    if let Ok(s) = std::env::var("VMON_OFF") {
        for k in s.split(',') {
            match k {
                "image" => m.image = 0,
                "table" => { m.table = 0; m.tablefmt = 0 }
                "frame" => m.frame = 0,
                "list" => m.list = 0,
                "markup" => m.markup = 0,
                "paste" => m.paste = 0,
                "replace" => m.replace = 0,
                "format" => m.format = 0,
                "bformat" => m.bformat = 0,
                _ => {}
            }
        }
    }
}
