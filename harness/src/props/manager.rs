//! The undo/redo manager: every call is compared with a model of stacks of groups, and every
//! command checks that it is undone and redone exactly in its place.

use crate::ensure;
use crate::runner::*;
use common::event::{EventHub, Origin, UndoRedoEvent};
use common::undo_redo::{UndoRedoCommand, UndoRedoManager};
use std::any::Any;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P28",
        quick: 120000,
        thorough: 3000000,
        level: "exploration",
        rule: "manager: histories of 5-60 calls (commands that merge or refuse to, undo, redo, nested groups, cancelled groups, failing commands inside groups, clearing, new and deleted stacks) \
               on the manager itself; after every call the effects applied, the depths, can_undo and can_redo and the notifications are compared with a model. document: edit blocks of a document \
               with undo, redo, clearing, imports and failing edits inside, whose text is compared with a model of the history. Non-trivial: a group was undone; distinct: by call list.",
        assumptions: &["cancelled groups hold no command that fails to undo"],
        must_observe: &["undone", "redone", "merged", "groups_undone", "cancelled", "failed_in_group", "refused_in_group", "cleared_in_group", "doc_groups_undone", "doc_refused", "stacks_deleted"],
        generate: |r, i, _| {
            let kind = if i % 4 == 3 { "document" } else { "manager" };
            let n = r.range(5, 60);
            Case { kind: kind.into(), nums: (0..n).map(|_| r.next() % 1_000_000).collect(), ..Default::default() }
        },
        run: |c, o| if c.kind == "document" { document(c, o) } else { manager(c, o) },
        workers: 8,
        repeat_on_shrink: 1,
    }]
}

#[derive(Default, Debug)]
struct World {
    applied: HashMap<u64, Vec<u32>>,
    /// commands that fail once
    fail: Vec<u32>,
    wrong: Vec<String>,
}
#[derive(Debug, Clone)]
struct Cmd {
    ids: Vec<u32>,
    stack: u64,
    key: u8,
    world: Arc<Mutex<World>>,
}
impl UndoRedoCommand for Cmd {
    fn undo(&mut self) -> anyhow::Result<()> {
        let mut w = self.world.lock().unwrap();
        if let Some(i) = w.fail.iter().position(|x| self.ids.contains(x)) {
            w.fail.remove(i);
            anyhow::bail!("cannot undo");
        }
        for id in self.ids.iter().rev() {
            let top = w.applied.entry(self.stack).or_default().pop();
            if top != Some(*id) {
                w.wrong.push(format!("command {id} is undone while {top:?} is the last one applied"));
            }
        }
        Ok(())
    }
    fn redo(&mut self) -> anyhow::Result<()> {
        let mut w = self.world.lock().unwrap();
        if let Some(i) = w.fail.iter().position(|x| self.ids.contains(x)) {
            w.fail.remove(i);
            anyhow::bail!("cannot redo");
        }
        let v = w.applied.entry(self.stack).or_default();
        let mut wrong = None;
        for id in &self.ids {
            if v.contains(id) {
                wrong = Some(format!("command {id} is applied twice"));
            }
            v.push(*id);
        }
        w.wrong.extend(wrong);
        Ok(())
    }
    fn can_merge(&self, other: &dyn UndoRedoCommand) -> bool {
        other.as_any().downcast_ref::<Cmd>().is_some_and(|o| self.key != 0 && o.key == self.key)
    }
    fn merge(&mut self, other: &dyn UndoRedoCommand) -> bool {
        let Some(o) = other.as_any().downcast_ref::<Cmd>() else { return false };
        if self.key == 3 {
            return false; // says it can, but does not
        }
        self.ids.extend(&o.ids);
        true
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

#[derive(Clone, Debug, Default)]
struct Entry {
    ids: Vec<u32>,
    key: u8,
    group: bool,
}
#[derive(Default)]
struct Stack {
    undo: Vec<Entry>,
    redo: Vec<Entry>,
    applied: Vec<u32>,
}
#[derive(Default)]
struct Group {
    stack: u64,
    ids: Vec<u32>,
    starts: Vec<usize>,
    any: bool,
}

fn manager(c: &Case, obs: &mut Obs) -> Verdict {
    let world = Arc::new(Mutex::new(World::default()));
    let hub = Arc::new(EventHub::new());
    let rx = hub.subscribe_receiver();
    let mut m = UndoRedoManager::new();
    m.set_event_hub(&hub);
    let mut stacks: HashMap<u64, Stack> = HashMap::from([(0, Stack::default())]);
    let mut gone: Vec<u64> = vec![];
    let mut known = vec![0u64];
    let mut group: Option<Group> = None;
    let mut next = 0u32;
    let mut nontrivial = false;
    for (step, &x) in c.nums.iter().enumerate() {
        let (what, a, b) = (x % 24, (x / 24) as usize, (x / 24 / 64) as usize);
        // mostly an existing stack, now and then one that is not there
        let s = if a % 29 == 28 { 77 } else { known[(a % 64) % known.len()] };
        let arg = if s == 0 && b % 2 == 0 { None } else { Some(s) };
        let composing = |g: &Option<Group>| g.as_ref().is_some_and(|g| g.stack == s);
        let mut expect: Vec<UndoRedoEvent> = vec![];
        let call;
        match what {
            0..=8 => {
                call = format!("add to stack {s}");
                let id = next;
                next += 1;
                let key = (b % 5) as u8;
                world.lock().unwrap().applied.entry(s).or_default().push(id);
                let r = m.add_command_to_stack(Box::new(Cmd { ids: vec![id], stack: s, key, world: world.clone() }), arg);
                let ok = match &group {
                    Some(g) => g.stack == s,
                    None => stacks.contains_key(&s),
                };
                ensure!(r.is_ok() == ok, "add", "step {step}: {call} gives {r:?}");
                if !ok {
                    world.lock().unwrap().applied.entry(s).or_default().pop();
                } else {
                    let st = stacks.entry(s).or_default();
                    st.applied.push(id);
                    if let Some(g) = &mut group {
                        g.ids.push(id);
                        g.any = true;
                    } else {
                        st.redo.clear();
                        match st.undo.last_mut() {
                            Some(l) if !l.group && l.key != 0 && l.key == key && key != 3 => {
                                l.ids.push(id);
                                obs.hit("merged");
                            }
                            _ => st.undo.push(Entry { ids: vec![id], key, group: false }),
                        }
                    }
                }
            }
            9..=14 => {
                let undo = what <= 11 || what == 14 && b % 3 == 0;
                call = format!("{} on stack {s}", if undo { "undo" } else { "redo" });
                let victim = stacks.get(&s).and_then(|st| if undo { st.undo.last() } else { st.redo.last() }).cloned();
                let refused = composing(&group) || !stacks.contains_key(&s);
                let mut fails = false;
                if let (Some(v), true, false) = (&victim, b % 5 == 0, refused) {
                    fails = true;
                    world.lock().unwrap().fail.push(v.ids[b / 5 % v.ids.len()]);
                    if v.group {
                        obs.hit("failed_in_group");
                    }
                }
                let r = if undo { m.undo(arg) } else { m.redo(arg) };
                ensure!(r.is_ok() == !(refused || fails), "refusal", "step {step}: {call} gives {r:?}{}", if fails { " although a command fails" } else { "" });
                if composing(&group) {
                    obs.hit("refused_in_group");
                }
                if r.is_ok()
                    && let Some(v) = victim
                {
                    let st = stacks.get_mut(&s).unwrap();
                    if undo {
                        let n = st.applied.len() - v.ids.len();
                        st.applied.truncate(n);
                        st.undo.pop();
                        if v.group {
                            obs.hit("groups_undone");
                            nontrivial = true;
                        }
                        st.redo.push(v);
                        expect.push(UndoRedoEvent::Undone);
                        obs.hit("undone");
                    } else {
                        st.applied.extend(&v.ids);
                        st.redo.pop();
                        st.undo.push(v);
                        expect.push(UndoRedoEvent::Redone);
                        obs.hit("redone");
                    }
                }
                world.lock().unwrap().fail.clear();
            }
            15 | 16 => {
                call = format!("begin a group on stack {s}");
                let r = m.begin_composite(arg);
                let ok = stacks.contains_key(&s) && group.as_ref().is_none_or(|g| g.stack == s);
                ensure!(r.is_ok() == ok, "begin", "step {step}: {call} gives {r:?}");
                if ok {
                    let g = group.get_or_insert_with(|| Group { stack: s, ..Default::default() });
                    g.starts.push(g.ids.len());
                }
            }
            17..=19 => {
                call = "end a group".into();
                m.end_composite();
                if let Some(g) = &mut group {
                    g.starts.pop();
                    if g.starts.is_empty() {
                        let g = group.take().unwrap();
                        if !g.ids.is_empty() {
                            let st = stacks.get_mut(&g.stack).unwrap();
                            st.undo.push(Entry { ids: g.ids, key: 0, group: true });
                            st.redo.clear();
                        }
                    }
                }
            }
            20 => {
                call = "cancel a group".into();
                m.cancel_composite();
                if let Some(g) = &mut group {
                    let n = g.starts.pop().unwrap_or(0);
                    let st = stacks.get_mut(&g.stack).unwrap();
                    let keep = st.applied.len() - (g.ids.len() - n);
                    st.applied.truncate(keep);
                    g.ids.truncate(n);
                    obs.hit("cancelled");
                    if g.starts.is_empty() {
                        group = None;
                    }
                }
            }
            21 => {
                let all = b % 3 == 0;
                call = if all { "clear all".to_string() } else { format!("clear stack {s}") };
                if all {
                    m.clear_all_stacks();
                } else {
                    m.clear_stack(s);
                }
                for (id, st) in stacks.iter_mut() {
                    if all || *id == s {
                        st.undo.clear();
                        st.redo.clear();
                    }
                }
                if group.is_some() {
                    obs.hit("cleared_in_group");
                }
                if all {
                    group = None;
                } else if let Some(g) = &mut group
                    && g.stack == s
                {
                    g.ids.clear();
                    g.starts.fill(0);
                }
            }
            22 => {
                call = "make a stack".into();
                let id = m.create_new_stack();
                ensure!(!known.contains(&id) && !gone.contains(&id), "stack-id", "step {step}: a new stack gets the id {id}, which is taken");
                known.push(id);
                stacks.insert(id, Stack::default());
            }
            _ => {
                call = format!("delete stack {s}");
                let r = m.delete_stack(s);
                let ok = s != 0 && stacks.contains_key(&s) && !composing(&group);
                ensure!(r.is_ok() == ok, "delete", "step {step}: {call} gives {r:?}");
                if ok {
                    stacks.remove(&s);
                    known.retain(|k| *k != s);
                    gone.push(s);
                    obs.hit("stacks_deleted");
                }
            }
        }
        // notifications of what was undone and redone
        let mut got = vec![];
        for e in rx.drain() {
            if let Origin::UndoRedo(e @ (UndoRedoEvent::Undone | UndoRedoEvent::Redone)) = e.origin {
                got.push(e);
            }
        }
        ensure!(got == expect, "notify", "step {step}: {call} announces {got:?}, expected {expect:?}");
        let w = world.lock().unwrap();
        if let Some(e) = w.wrong.first() {
            return viol("order", format!("step {step}: {call}: {e}"));
        }
        for (id, st) in &stacks {
            let now = w.applied.get(id).cloned().unwrap_or_default();
            ensure!(now == st.applied, "effect", "step {step}: after '{call}' the commands {now:?} are in force on stack {id}, expected {:?}", st.applied);
            let open = group.as_ref().is_some_and(|g| g.stack == *id);
            let (u, r) = (m.can_undo(Some(*id)), m.can_redo(Some(*id)));
            ensure!(u == (!st.undo.is_empty() && !open), "can-undo", "step {step}: after '{call}' can_undo of stack {id} is {u}, with {} entries", st.undo.len());
            ensure!(r == (!st.redo.is_empty() && !open), "can-redo", "step {step}: after '{call}' can_redo of stack {id} is {r}, with {} entries", st.redo.len());
            ensure!(m.get_stack_size(*id) == st.undo.len(), "depth", "step {step}: after '{call}' stack {id} has {} entries, expected {}", m.get_stack_size(*id), st.undo.len());
        }
        ensure!(!m.can_undo(Some(77)) && !m.can_redo(Some(77)) && m.get_stack_size(77) == 0, "ghost", "a stack that was never made has something to undo");
    }
    if nontrivial {
        obs.distinct(&c.nums);
    }
    Ok(())
}

// ── edit blocks of a document ────────────────────────────────────────

fn document(c: &Case, obs: &mut Obs) -> Verdict {
    let doc = TextDocument::new();
    let _ = doc.set_plain_text("end");
    let cur = doc.cursor();
    let mut text = "end".to_string();
    let mut undo: Vec<(String, String, bool)> = vec![];
    let mut redo: Vec<(String, String, bool)> = vec![];
    // text at the outermost begin, depth, whether something was done
    let mut group: Option<(String, usize, bool)> = None;
    for (step, &x) in c.nums.iter().enumerate() {
        let (what, b) = (x % 20, x / 20);
        let call;
        let mut edit = |before: String, text: &str, group: &mut Option<(String, usize, bool)>| match group {
            Some(g) => g.2 = true,
            None => {
                undo.push((before, text.to_string(), false));
                redo.clear();
            }
        };
        match what {
            0..=4 => {
                call = "typing".to_string();
                let before = text.clone();
                let tok = format!("<{step}>");
                let fresh = doc.cursor_at(0);
                let r = match b % 4 {
                    0 => fresh.insert_formatted_text(&tok, &TextFormat { font_bold: Some(true), ..Default::default() }),
                    1 => fresh.insert_fragment(&DocumentFragment::from_plain_text(&tok)),
                    2 => fresh.insert_text(&tok),
                    _ => fresh.insert_block(),
                };
                ensure!(r.is_ok(), "refused", "step {step}: {call}: {r:?}");
                text = if b % 4 == 3 { format!("\n{text}") } else { format!("{tok}{text}") };
                edit(before, &text, &mut group);
            }
            5..=9 => {
                let back = what <= 7;
                call = if back { "undo".to_string() } else { "redo".to_string() };
                let r = if back { doc.undo() } else { doc.redo() };
                if group.is_some() {
                    ensure!(r.is_err(), "undo-in-block", "step {step}: {call} inside an open edit block succeeds");
                    obs.hit("doc_refused");
                } else {
                    ensure!(r.is_ok(), "refused", "step {step}: {call}: {r:?}");
                    let (from, to) = if back { (&mut undo, &mut redo) } else { (&mut redo, &mut undo) };
                    if let Some(e) = from.pop() {
                        text = if back { e.0.clone() } else { e.1.clone() };
                        if e.2 {
                            obs.hit("doc_groups_undone");
                            obs.distinct(&c.nums);
                        }
                        to.push(e);
                    }
                }
            }
            10..=12 => {
                call = "begin".to_string();
                cur.begin_edit_block();
                match &mut group {
                    Some(g) => g.1 += 1,
                    None => group = Some((text.clone(), 1, false)),
                }
            }
            13..=16 => {
                call = "end".to_string();
                cur.end_edit_block();
                if let Some(g) = &mut group {
                    g.1 -= 1;
                    if g.1 == 0 {
                        let g = group.take().unwrap();
                        if g.2 {
                            undo.push((g.0, text.clone(), true));
                            redo.clear();
                        }
                    }
                }
            }
            17 => {
                call = "clear_undo_redo".to_string();
                doc.clear_undo_redo();
                undo.clear();
                redo.clear();
                if let Some(g) = &mut group {
                    *g = (text.clone(), g.1, false);
                }
            }
            18 if b % 2 == 0 => {
                call = "set_plain_text".to_string();
                text = format!("new {step}");
                let r = doc.set_plain_text(&text);
                ensure!(r.is_ok(), "refused", "step {step}: {call}: {r:?}");
                undo.clear();
                redo.clear();
                if let Some(g) = &mut group {
                    *g = (text.clone(), g.1, false);
                }
            }
            _ => {
                // an edit that is refused
                call = "a refused edit".to_string();
                let r = doc.replace_text("(", "x", true, &FindOptions { use_regex: true, ..Default::default() });
                ensure!(r.is_err(), "regex", "an invalid regular expression is accepted");
            }
        }
        let now = doc.to_plain_text().unwrap_or_default();
        ensure!(now == text, "doc-text", "step {step}: after {call} the text is {now:?}, expected {text:?}");
        let (u, r) = (doc.can_undo(), doc.can_redo());
        ensure!(u == (group.is_none() && !undo.is_empty()), "doc-can-undo", "step {step}: after {call} can_undo is {u}, with {} steps", undo.len());
        ensure!(r == (group.is_none() && !redo.is_empty()), "doc-can-redo", "step {step}: after {call} can_redo is {r}, with {} steps", redo.len());
    }
    if let Err((sig, m)) = crate::integrity::check(&crate::observe::store_of(&doc)) {
        return viol(format!("integrity:{sig}"), m);
    }
    Ok(())
}
