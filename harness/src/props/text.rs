//! Text edits, cursor adjustment and cursor movement against a plain string model.

use crate::ensure;
use crate::r#gen::{self, Mix};
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use text_document::*;
use unicode_segmentation::UnicodeSegmentation;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P04",
            quick: 120000,
            thorough: 3000000,
            level: "exploration",
            rule: "Each case starts from an imported plain text and runs 3-25 text edits (typing, typing with a format, \
                   splitting, deleting by character and selection, typing over selections, pasting plain text, undo/redo \
                   of them) through several cursors, mixed with formatting and list edits that must not touch the text. After \
                   each operation the whole text, every block, the counters, random substrings and the deleted text are \
                   compared with a string model. Non-trivial: at least three text changes; distinct: by operation list.",
            assumptions: &["documents without tables, frames and images (their text is judged by P05, P06 and P24)"],
            must_observe: &["inserts", "deletes", "splits", "joins", "selection_replacements", "substrings"],
            generate: gen_text,
            run: |c, o| run_text(c, o, false),
            workers: 8,
            repeat_on_shrink: 1,
        },
        Prop {
            id: "P08",
            quick: 120000,
            thorough: 3000000,
            level: "exploration",
            rule: "Half of the cases run text edits through up to six cursors with selections and compare every cursor with the \
                   adjustment rule (before: stays; behind: shifts; inside a removed range: at the edit). The other half runs \
                   every kind of operation, with tables and undo/redo, and checks that no cursor is left outside the document \
                   and that every cursor can still edit. Non-trivial: at least three edits with another cursor behind the edit; \
                   distinct: by operation list.",
            assumptions: &["after undo and redo only the bounds of cursors are judged"],
            must_observe: &["other_shifted", "other_inside_removed", "other_before", "bounds_checked"],
            generate: gen_cursors,
            run: run_cursors,
            workers: 8,
            repeat_on_shrink: 1,
        },
        Prop {
            id: "P09",
            quick: 60000,
            thorough: 2000000,
            level: "exploration",
            rule: "Each case builds a document (plain, markup, tables), puts cursors at random places and issues every movement, \
                   selection and boundary query. Expected positions are computed from the block texts with a reference Unicode \
                   segmenter. Non-trivial: at least five moves that changed the position; distinct: by document and moves.",
            assumptions: &["positions reached by keeping the anchor across a table boundary are only checked for bounds"],
            must_observe: &["char_moves", "word_moves", "word_targets", "block_moves", "selections", "queries", "clusters"],
            generate: gen_move,
            run: run_move,
            workers: 8,
            repeat_on_shrink: 1,
        },
    ]
}

// ── generators ──────────────────────────────────────────────────────────────

fn text_mix() -> Mix {
    Mix { text: 10, block: 5, delete: 10, format: 2, bformat: 1, list: 1, undo: 3, cursor: 10, paste: 2, ..Mix::none() }
}
fn keep_text_op(op: &Op) -> bool {
    !matches!(op, Op::InsList { .. } | Op::Copy { .. } | Op::Paste { .. })
}
fn gen_text(r: &mut Rng, _i: u64, _t: Tier) -> Case {
    let n = r.range(3, 25);
    let mut ops = vec![];
    if r.chance(4, 5) {
        ops.push(Op::SetPlain { t: plain(r) });
    }
    let m = text_mix();
    ops.extend(r#gen::ops(r, &m, n).into_iter().filter(keep_text_op));
    Case { kind: "text".into(), ops, nums: vec![r.next()], ..Default::default() }
}
/// Plain text with the line ends and odd characters an import may meet.
pub fn plain(r: &mut Rng) -> String {
    let n = if r.chance(1, 20) { r.range(10, 60) } else { r.range(1, 6) };
    let mut v = vec![];
    for _ in 0..n {
        v.push(if r.chance(1, 30) { r#gen::line(r, 40) } else { r#gen::line(r, 4) });
    }
    v.join("\n")
}
fn gen_cursors(r: &mut Rng, i: u64, _t: Tier) -> Case {
    if i % 2 == 0 {
        let n = r.range(4, 20);
        let mut ops = vec![Op::SetPlain { t: plain(r) }];
        for _ in 0..3 {
            ops.push(Op::NewCursor { p: r.below(1000) });
        }
        let m = Mix { undo: 0, ..text_mix() };
        ops.extend(r#gen::ops(r, &m, n).into_iter().filter(keep_text_op));
        Case { kind: "exact".into(), ops, nums: vec![r.next()], ..Default::default() }
    } else {
        let mut m = super::undo::general_mix(i / 2);
        m.cursor = 16;
        let mut ops = super::undo::start(r);
        let n = super::undo::length(r);
        ops.extend(r#gen::ops(r, &m, n));
        Case { kind: "bounds".into(), ops, nums: vec![r.next()], ..Default::default() }
    }
}

// ── the string model ────────────────────────────────────────────────────────

#[derive(Clone, Default, PartialEq)]
struct M {
    /// (char, separator between blocks?)
    cs: Vec<(char, bool)>,
}
impl M {
    fn of(doc: &TextDocument) -> M {
        let mut cs = vec![];
        for (i, b) in doc.blocks().iter().enumerate() {
            if i > 0 {
                cs.push(('\n', true));
            }
            cs.extend(b.text().chars().map(|c| (c, false)));
        }
        M { cs }
    }
    fn text(&self) -> String {
        self.cs.iter().map(|c| c.0).collect()
    }
    fn blocks(&self) -> Vec<String> {
        let mut v = vec![String::new()];
        for (c, s) in &self.cs {
            if *s {
                v.push(String::new());
            } else {
                v.last_mut().unwrap().push(*c);
            }
        }
        v
    }
    /// start and end of the block a cursor at `p` is in
    fn block_range(&self, p: usize) -> (usize, usize) {
        let mut a = p;
        while a > 0 && !self.cs[a - 1].1 {
            a -= 1;
        }
        let mut b = p;
        while b < self.cs.len() && !self.cs[b].1 {
            b += 1;
        }
        (a, b)
    }
    fn sub(&self, a: usize, b: usize) -> String {
        self.cs[a..b].iter().map(|c| c.0).collect()
    }
    fn next_cluster(&self, p: usize) -> usize {
        if p >= self.cs.len() {
            return p;
        }
        let (_, b) = self.block_range(p);
        if p >= b {
            return p + 1;
        }
        p + self.sub(p, b).graphemes(true).next().map_or(1, |g| g.chars().count())
    }
    fn prev_cluster(&self, p: usize) -> usize {
        if p == 0 {
            return 0;
        }
        let (a, _) = self.block_range(p);
        if p <= a {
            return p - 1;
        }
        p - self.sub(a, p).graphemes(true).next_back().map_or(1, |g| g.chars().count())
    }
    fn splice(&mut self, a: usize, b: usize, ins: Vec<(char, bool)>) {
        self.cs.splice(a..b, ins);
    }
}
fn lit(t: &str) -> Vec<(char, bool)> {
    t.chars().map(|c| (c, false)).collect()
}
fn lines(t: &str) -> Vec<(char, bool)> {
    t.chars().map(|c| (c, c == '\n')).collect()
}

/// What the model expects of one edit: range replaced and replacement.
fn effect(m: &M, op: &Op, pos: usize, anchor: usize) -> Option<(usize, usize, Vec<(char, bool)>)> {
    let (a, b) = (pos.min(anchor), pos.max(anchor));
    Some(match op {
        Op::Text { t, .. } | Op::FText { t, .. } => (a, b, lit(t)),
        Op::Block { .. } => (a, b, vec![('\n', true)]),
        Op::PasteText { t, .. } => (a, b, lines(t)),
        Op::DelSel { .. } => (a, b, vec![]),
        Op::DelNext { .. } if a < b => (a, b, vec![]),
        Op::DelPrev { .. } if a < b => (a, b, vec![]),
        Op::DelNext { .. } => (a, m.next_cluster(a), vec![]),
        Op::DelPrev { .. } => (m.prev_cluster(a), a, vec![]),
        _ => return None,
    })
}
fn actor(op: &Op) -> Option<usize> {
    use Op::*;
    match op {
        Text { c, .. } | FText { c, .. } | Block { c } | PasteText { c, .. } | DelSel { c } | DelNext { c } | DelPrev { c } => Some(*c),
        Pos { c, .. } | Sel { c, .. } | Move { c, .. } | Select { c, .. } => Some(*c),
        _ => None,
    }
}
fn positions(env: &Env) -> Vec<(usize, usize)> {
    env.cursors.iter().map(|c| (c.position(), c.anchor())).collect()
}

fn compare(env: &Env, m: &M, rng: &mut Rng, op: &Op, obs: &mut Obs) -> Verdict {
    let name = op.name();
    let want = m.text();
    let got = env.doc.to_plain_text().map_err(|e| Viol { sig: format!("text:{name}"), msg: format!("to_plain_text failed: {e}") })?;
    ensure!(got == want, format!("text:{name}"), "after {op:?}: text {got:?}, expected {want:?}");
    let bl: Vec<String> = env.doc.blocks().iter().map(|b| b.text()).collect();
    ensure!(bl == m.blocks(), format!("blocks:{name}"), "after {op:?}: blocks {bl:?}, expected {:?}", m.blocks());
    let n = m.cs.iter().filter(|c| !c.1).count();
    ensure!(env.doc.character_count() == n, format!("chars:{name}"), "after {op:?}: character count {}, expected {n}", env.doc.character_count());
    ensure!(env.doc.block_count() == bl.len(), format!("blockcount:{name}"), "after {op:?}: block count {}, expected {}", env.doc.block_count(), bl.len());
    let a = rng.below(m.cs.len() + 1);
    let l = rng.below(m.cs.len() + 1 - a);
    let t = env.doc.text_at(a, l).map_err(|e| Viol { sig: format!("text_at:{name}"), msg: format!("text_at({a},{l}) failed: {e}") })?;
    ensure!(t == m.sub(a, a + l), format!("text_at:{name}"), "after {op:?}: text_at({a},{l}) = {t:?}, expected {:?}", m.sub(a, a + l));
    obs.hit("substrings");
    for c in &env.cursors {
        let (s, e) = (c.selection_start(), c.selection_end());
        if s < e && e <= m.cs.len() {
            let t = c.selected_text().unwrap_or_default();
            ensure!(t == m.sub(s, e), format!("selected:{name}"), "selected_text {s}..{e} = {t:?}, expected {:?}", m.sub(s, e));
        }
    }
    Ok(())
}

fn run_text(c: &Case, obs: &mut Obs, cursors_only: bool) -> Verdict {
    let mut env = Env::new();
    let mut rng = Rng::new(c.nums.first().copied().unwrap_or(1));
    let mut m = M::of(&env.doc);
    let mut changes = 0;
    // known states, for undo and redo
    let mut seen: Vec<M> = vec![m.clone()];
    let mut behind = 0;
    for op in &c.ops {
        let before = positions(&env);
        let who = actor(op).map(|c| c % env.cursors.len());
        let plan = who.and_then(|w| effect(&m, op, before[w].0, before[w].1));
        let mut removed_text = None;
        let out = if let (Op::DelSel { c }, false) = (op, cursors_only) {
            match env.cur(*c).remove_selected_text() {
                Ok(t) => {
                    removed_text = Some(t);
                    Out::Ok
                }
                Err(e) => Out::Err(e.to_string()),
            }
        } else {
            env.apply(op)
        };
        let old = m.clone();
        match (&plan, op) {
            (Some((a, b, ins)), _) if out.is_ok() => {
                if let Some(t) = removed_text {
                    ensure!(t == m.sub(*a, *b), "removed-text", "remove_selected_text returned {t:?}, expected {:?}", m.sub(*a, *b));
                }
                if m.cs[*a..*b].iter().any(|c| c.1) {
                    obs.hit("joins");
                }
                m.splice(*a, *b, ins.clone());
                obs.hit(match op {
                    Op::Block { .. } => "splits",
                    Op::DelSel { .. } | Op::DelNext { .. } | Op::DelPrev { .. } => "deletes",
                    _ if a < b => "selection_replacements",
                    _ => "inserts",
                });
            }
            (Some(_), _) => {
                return viol(format!("refused:{}", op.name()), format!("{op:?} failed on a plain document: {out:?}"));
            }
            (None, Op::SetPlain { t }) => {
                ensure!(out.is_ok(), "setplain", "set_plain_text({t:?}) failed: {out:?}");
                m.cs = lines(t);
            }
            (None, Op::Clear) => m.cs.clear(),
            (None, Op::Undo | Op::Redo) => {
                let now = M::of(&env.doc);
                ensure!(seen.contains(&now), format!("text:{}", op.name()), "{op:?} reached a text never seen before: {:?}", now.text());
                m = now;
            }
            _ => {}
        }
        if old.cs != m.cs {
            changes += 1;
        }
        if !seen.contains(&m) {
            seen.push(m.clone());
        }
        if !cursors_only {
            compare(&env, &m, &mut rng, op, obs)?;
            continue;
        }
        // cursors
        let after = positions(&env);
        let end = m.cs.len();
        for (i, (p, a)) in after.iter().enumerate() {
            ensure!(*p <= end && *a <= end, format!("bounds:{}", op.name()), "after {op:?} cursor {i} is at {p}/{a}, the document ends at {end}");
        }
        obs.hit("bounds_checked");
        match (&plan, op) {
            (Some((a, b, ins)), _) => {
                let w = who.unwrap();
                let at = a + ins.len();
                if old.cs != m.cs || a < b {
                    ensure!(after[w] == (at, at), format!("actor:{}", op.name()), "after {op:?} the editing cursor is at {:?}, expected {at}", after[w]);
                }
                for (i, (p0, a0)) in before.iter().enumerate() {
                    if i == w || i >= after.len() {
                        continue;
                    }
                    for (which, x0, x1) in [("position", *p0, after[i].0), ("anchor", *a0, after[i].1)] {
                        let (lo, hi) = if x0 <= *a {
                            obs.hit("other_before");
                            (x0, x0)
                        } else if x0 <= *b {
                            obs.hit("other_inside_removed");
                            (*a, at)
                        } else {
                            obs.hit("other_shifted");
                            behind += 1;
                            (x0 - (b - a) + ins.len(), x0 - (b - a) + ins.len())
                        };
                        ensure!(lo <= x1 && x1 <= hi, format!("other:{}:{which}", op.name()), "{op:?} replaced {a}..{b} by {} characters; the {which} of cursor {i} went from {x0} to {x1}, expected {lo}..={hi}", ins.len());
                    }
                }
            }
            (None, Op::NewCursor { .. } | Op::DropCursor { .. } | Op::SetPlain { .. } | Op::Clear) => {}
            _ => {
                for (i, q) in before.iter().enumerate() {
                    if Some(i) != who && i < after.len() {
                        ensure!(after[i] == *q, format!("moved:{}", op.name()), "{op:?} moved cursor {i} from {q:?} to {:?}", after[i]);
                    }
                }
            }
        }
    }
    if changes >= 3 && (!cursors_only || behind >= 3) {
        obs.distinct(&format!("{:?}", c.ops));
    }
    Ok(())
}

fn run_cursors(c: &Case, obs: &mut Obs) -> Verdict {
    if c.kind == "exact" {
        return run_text(c, obs, true);
    }
    let mut env = Env::new();
    let mut edits = 0;
    for op in &c.ops {
        let out = env.apply(op);
        if op.is_edit() && out.is_ok() {
            edits += 1;
        }
        let end = max_pos(&env.doc);
        for (i, (p, a)) in positions(&env).into_iter().enumerate() {
            ensure!(p <= end && a <= end, format!("bounds:{}", op.name()), "after {op:?} cursor {i} is at {p}/{a}, the document ends at {end}");
        }
        obs.hit("bounds_checked");
    }
    for i in 0..env.cursors.len() {
        let cu = env.cur(i);
        cu.clear_selection();
        let r = cu.insert_text("z");
        ensure!(r.is_ok(), "dead-cursor", "cursor {i} at {} can no longer insert: {:?}", cu.position(), r.err());
        let p = cu.position();
        ensure!(p > 0, "dead-cursor", "the cursor stayed at 0 after an insertion");
        let t = env.doc.text_at(p - 1, 1).unwrap_or_default();
        ensure!(t == "z", "dead-cursor", "cursor {i} inserted at {}, the document has {t:?} there", p - 1);
    }
    if edits >= 3 {
        obs.distinct(&format!("{:?}", c.ops));
    }
    Ok(())
}

// ── movement ────────────────────────────────────────────────────────────────

fn gen_move(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let mut ops = match i % 4 {
        0 => vec![Op::SetPlain { t: plain(r) }],
        1 => vec![Op::SetPlain { t: (0..r.range(1, 4)).map(|_| odd_line(r)).collect::<Vec<_>>().join("\n") }],
        2 => vec![Op::SetMd { t: r#gen::md(r) }],
        _ => vec![Op::SetHtml { t: r#gen::html(r) }],
    };
    for _ in 0..r.below(3) {
        ops.push(Op::Pos { c: 0, p: r.below(1000), keep: false });
        ops.push(Op::Text { c: 0, t: r#gen::snippet(r) });
    }
    Case { kind: "move".into(), ops, nums: (0..r.range(10, 40)).map(|_| r.next()).collect(), ..Default::default() }
}

/// Long runs of characters that are no words or that hold together.
fn odd_line(r: &mut Rng) -> String {
    const ODD: &[&str] = &[
        "👨\u{200d}👩\u{200d}👧", "🇫🇷", "e\u{301}", "①", "²", "ⓐ", "½", "_", "‿", "…", "—", "'", "’", "·", ".", ",", "日", "ナ", "กำ", "한", "à", "x",
        "7", "3.5", "can't", "a_b", " ", "  ", "\u{a0}", "👍🏽", "\u{903}", "ह\u{93f}", "!", "-", "*", "\t", "٣", "Ⅷ", "a:b", "\u{200d}", "\u{301}",
    ];
    let mut s = String::new();
    if r.chance(1, 2) {
        // one kind for longer than any look-ahead
        let x = *r.pick(ODD);
        for _ in 0..r.range(1, 90) {
            s.push_str(x);
        }
    }
    for _ in 0..r.below(12) {
        s.push_str(r.pick(ODD));
    }
    if r.chance(1, 3) {
        let x = *r.pick(ODD);
        for _ in 0..r.range(1, 90) {
            s.push_str(x);
        }
    }
    s
}

/// Words of a block: (start, end) in characters.
fn words(t: &str) -> Vec<(usize, usize)> {
    t.unicode_word_indices().map(|(b, w)| {
        let s = t[..b].chars().count();
        (s, s + w.chars().count())
    }).collect()
}

fn run_move(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    for op in &c.ops {
        env.apply(op);
    }
    let doc = env.doc.clone();
    let tabled = !tables(&doc).is_empty();
    // blocks in position order
    let mut bs: Vec<(usize, String)> = doc.blocks().iter().map(|b| (b.position(), b.text())).collect();
    bs.sort();
    let mut m = M::default();
    for (i, (_, t)) in bs.iter().enumerate() {
        if i > 0 {
            m.cs.push(('\n', true));
        }
        m.cs.extend(t.chars().map(|c| (c, false)));
    }
    let end = m.cs.len();
    ensure!(max_pos(&doc) == end, "end", "last position {} but the blocks end at {end}", max_pos(&doc));
    let snap = |p: usize| -> usize {
        let p = p.min(end);
        let (a, b) = m.block_range(p);
        let mut at = a;
        for g in m.sub(a, b).graphemes(true) {
            if at >= p {
                return at;
            }
            at += g.chars().count();
        }
        b.max(p)
    };
    // all words, in document positions
    let mut ws: Vec<(usize, usize)> = vec![];
    for (s, t) in &bs {
        ws.extend(words(t).into_iter().map(|(a, b)| (s + a, s + b)));
    }
    // where a cursor can stand at their starts and ends (Thai sara am is a word inside a cluster)
    let wc: Vec<(usize, usize, usize, usize)> = ws.iter().map(|w| {
        let mut s = w.0;
        while snap(s) != s {
            s -= 1;
        }
        (s, snap(w.1), w.0, w.1)
    }).collect();
    let cu = doc.cursor();
    let other = doc.cursor_at(end);
    let mut moved = 0;
    for x in &c.nums {
        let mut r = Rng::new(*x);
        // place
        let raw = if r.chance(1, 12) { end + r.below(1000) } else { r.below(end + 1) };
        cu.set_position(raw, MoveMode::MoveAnchor);
        let p = snap(raw);
        ensure!(cu.position() == p && cu.anchor() == p, "set_position", "set_position({raw}) went to {}/{}, expected {p}; text {:?}", cu.position(), cu.anchor(), m.text());
        if p != raw.min(end) {
            obs.hit("clusters");
        }
        // queries
        let (a, b) = m.block_range(p);
        let number = m.cs[..p].iter().filter(|c| c.1).count();
        ensure!(cu.at_block_start() == (p == a), "at_block_start", "at {p} (block {a}..{b}) at_block_start is {}", cu.at_block_start());
        ensure!(cu.at_block_end() == (p == b), "at_block_end", "at {p} (block {a}..{b}) at_block_end is {}", cu.at_block_end());
        ensure!(cu.at_start() == (p == 0), "at_start", "at {p} at_start is {}", cu.at_start());
        ensure!(cu.at_end() == (p == end), "at_end", "at {p} of {end} at_end is {}", cu.at_end());
        if !tabled {
            ensure!(cu.block_number() == number, "block_number", "at {p} block_number {} expected {number}", cu.block_number());
        }
        ensure!(cu.position_in_block() == p - a, "position_in_block", "at {p} position_in_block {} expected {}", cu.position_in_block(), p - a);
        ensure!(!cu.has_selection(), "has_selection", "a placed cursor has a selection");
        obs.hit("queries");
        if r.chance(1, 4) {
            // selections
            let k = r.below(4);
            let (kind, want) = match k {
                0 => {
                    let w = ws.iter().find(|w| w.0 <= p && p < w.1).or_else(|| ws.iter().find(|w| w.1 == p && p == ws.iter().filter(|v| v.0 >= a && v.1 <= b).map(|v| v.1).max().unwrap_or(usize::MAX)));
                    (SelectionType::WordUnderCursor, w.copied().unwrap_or((p, p)))
                }
                1 => (SelectionType::BlockUnderCursor, (a, b)),
                2 => (SelectionType::LineUnderCursor, (a, b)),
                _ => (SelectionType::Document, (0, end)),
            };
            cu.select(kind);
            ensure!((cu.selection_start(), cu.selection_end()) == want, format!("select:{k}"), "select({k}) at {p} gave {}..{}, expected {want:?}; text {:?}", cu.selection_start(), cu.selection_end(), m.text());
            ensure!(cu.has_selection() == (want.0 < want.1), "has_selection", "has_selection wrong");
            if !tabled {
                let t = cu.selected_text().unwrap_or_default();
                ensure!(t == m.sub(want.0, want.1), "selected_text", "selected {t:?}, expected {:?}", m.sub(want.0, want.1));
            }
            cu.clear_selection();
            ensure!(cu.anchor() == cu.position(), "clear_selection", "clear_selection left an anchor");
            obs.hit("selections");
            continue;
        }
        let op = move_op(r.below(21) as u8);
        let n = r.below(5);
        let keep = !tabled && r.chance(1, 3);
        let ret = cu.move_position(op, if keep { MoveMode::KeepAnchor } else { MoveMode::MoveAnchor }, n);
        let q = cu.position();
        let nm = format!("{op:?}");
        ensure!(q <= end, format!("move:{nm}"), "{nm} from {p} left the document ({q} > {end})");
        ensure!(ret == (q != p), format!("moved-flag:{nm}"), "{nm} returned {ret} for {p} -> {q}");
        ensure!(cu.anchor() == if keep { p } else { q }, format!("anchor:{nm}"), "{nm} keep={keep} left the anchor at {} (from {p} to {q})", cu.anchor());
        ensure!(other.position() == end && other.anchor() == end, format!("other:{nm}"), "{nm} moved another cursor");
        if q != p {
            moved += 1;
        }
        use MoveOperation::*;
        let want = match op {
            NoMove => Some(p),
            Start => Some(0),
            End => Some(end),
            NextCharacter | Right => {
                obs.hit("char_moves");
                let mut x = p;
                for _ in 0..n {
                    x = m.next_cluster(x);
                }
                Some(x)
            }
            PreviousCharacter | Left => {
                obs.hit("char_moves");
                let mut x = p;
                for _ in 0..n {
                    x = m.prev_cluster(x);
                }
                Some(x)
            }
            StartOfBlock | StartOfLine => Some(a),
            EndOfBlock | EndOfLine => Some(b),
            NextBlock | Down => {
                obs.hit("block_moves");
                Some((b + 1).min(end))
            }
            PreviousBlock | Up => {
                obs.hit("block_moves");
                Some(if a == 0 { 0 } else { m.block_range(a - 1).0 })
            }
            _ => None,
        };
        if let Some(w) = want {
            ensure!(q == w, format!("move:{nm}"), "{nm} x{n} from {p} (block {a}..{b}) went to {q}, expected {w}; text {:?}", m.text());
            continue;
        }
        obs.hit("word_moves");
        ensure!(snap(q) == q, format!("inside:{nm}"), "{nm} from {p} stopped at {q}, inside a grapheme cluster; text {:?}", m.text());
        let fwd = matches!(op, NextWord | EndOfWord | WordRight);
        if fwd {
            // no word is jumped over: at most one word end lies in (p, q], and it is q
            ensure!(q >= p, format!("move:{nm}"), "{nm} from {p} went back to {q}");
            ensure!(q > p || p == end, format!("move:{nm}"), "{nm} at {p} of {end} did not move; text {:?}", m.text());
            let jumped = wc.iter().any(|w| w.1 > p && w.1 < q && m.cs[w.2..w.3].iter().any(|c| c.0.is_alphanumeric()));
            ensure!(!jumped, format!("move:{nm}"), "{nm} from {p} to {q} jumped over the end of a word; text {:?}", m.text());
            // the end of the word at or after the cursor, unless something odd comes first
            let next = wc.iter().find(|w| w.3 > p);
            let upto = next.map_or(end, |w| w.2.max(p));
            let odd = (p..upto).any(|i| m.cs[i].0 == '_' || m.cs[i].0.is_alphanumeric());
            if !odd {
                let want = next.map_or(end, |w| w.1);
                ensure!(q == want, format!("move:{nm}"), "{nm} from {p} went to {q}, expected the end of the word at {want}; text {:?}", m.text());
                obs.hit("word_targets");
            }
        } else {
            ensure!(q <= p, format!("move:{nm}"), "{nm} from {p} went on to {q}");
            ensure!(q < p || p == 0, format!("move:{nm}"), "{nm} at {p} did not move; text {:?}", m.text());
            let jumped = wc.iter().any(|w| w.0 > q && w.0 < p && m.cs[w.2..w.3].iter().any(|c| c.0.is_alphanumeric()));
            ensure!(!jumped, format!("move:{nm}"), "{nm} from {p} to {q} jumped over the start of a word; text {:?}", m.text());
            let want = wc.iter().rev().find(|w| w.2 < p).map_or(0, |w| w.0);
            ensure!(q == want, format!("move:{nm}"), "{nm} from {p} went to {q}, expected the start of the word at {want}; text {:?}", m.text());
            obs.hit("word_targets");
        }
    }
    if moved >= 5 {
        obs.distinct(&(m.text(), &c.nums));
    }
    Ok(())
}
