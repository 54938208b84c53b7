//! Syntax highlighting: a shadow layer that follows every edit and touches nothing.

use crate::ensure;
use crate::r#gen;
use crate::observe;
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P23",
        quick: 20000,
        thorough: 600000,
        level: "exploration",
        rule: "Each case runs one random history on two documents, one of which carries a syntax highlighter (keyword rules, multi-line constructs whose \
               state runs from block to block, counters, overlapping and over-long spans), sometimes replaced, removed or given new rules on the way. After every call \
               the highlighted document must show, character by character, the format of the plain twin overlaid with what a from-scratch run of the \
               rules over all blocks in order yields, in its block handles, snapshots and flow; and store, exports, statistics, search, cursors and history flags of both must be equal. The \
               highlighter itself checks that it is called with existing blocks, their present texts and their own user data. Non-trivial: a history with a multi-block state; distinct: by operation list.",
        assumptions: &["the highlighter is a function of the block's text and the previous block's state"],
        must_observe: &["blocks_compared", "chars_highlighted", "calls_of_highlighter", "incremental", "state_carried", "swaps", "removals", "rule_changes", "twins_compared", "spans_clipped"],
        generate: gen_hl,
        run: run_hl,
        workers: 8,
        repeat_on_shrink: 1,
    }]
}

fn gen_hl(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let mut ops = super::undo::start(r);
    let n = super::undo::length(r);
    ops.extend(r#gen::ops(r, &super::undo::general_mix(i), n));
    Case { kind: "highlight".into(), ops, nums: vec![r.next()], ..Default::default() }
}

fn hash(t: &str, k: u64) -> u64 {
    let mut h = k ^ 0xcbf29ce484222325;
    for b in t.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
fn style(r: &mut Rng) -> HighlightFormat {
    let mut f = HighlightFormat::default();
    let col = |r: &mut Rng| Color { red: r.below(256) as u8, green: 7, blue: 9, alpha: 255 };
    for _ in 0..r.range(1, 4) {
        match r.below(16) {
            0 => f.foreground_color = Some(col(r)),
            1 => f.background_color = Some(col(r)),
            2 => f.underline_color = Some(col(r)),
            3 => f.font_family = Some(format!("F{}", r.below(3))),
            4 => f.font_point_size = Some(r.below(40) as u32),
            5 => f.font_weight = Some(100 * r.below(9) as u32),
            6 => f.font_bold = Some(r.chance(1, 2)),
            7 => f.font_italic = Some(r.chance(1, 2)),
            8 => f.font_underline = Some(r.chance(1, 2)),
            9 => f.font_overline = Some(r.chance(1, 2)),
            10 => f.font_strikeout = Some(r.chance(1, 2)),
            11 => f.letter_spacing = Some(r.below(5) as i32),
            12 => f.word_spacing = Some(r.below(5) as i32),
            13 => f.underline_style = Some(ustyle(r.below(8) as u8)),
            14 => f.vertical_alignment = Some(valign(r.below(7) as u8)),
            _ => f.tooltip = Some(format!("tip{}", r.below(3))),
        }
    }
    f
}
/// The rules: what a block of this text after a block of that state gets.
fn rules(rule: u64, text: &str, prev: i64) -> (Vec<HighlightSpan>, i64) {
    let cs: Vec<char> = text.chars().collect();
    let n = cs.len();
    let mut r = Rng::new(hash(text, rule ^ prev as u64));
    let fixed = |k: u64| style(&mut Rng::new(rule.wrapping_add(k)));
    let mut out = vec![];
    let mut state = -1;
    match rule % 4 {
        // keywords: runs of letters picked by their text
        0 => {
            let mut i = 0;
            while i < n {
                let mut j = i;
                while j < n && cs[j].is_alphabetic() {
                    j += 1;
                }
                let w: String = cs[i..j].iter().collect();
                if j > i && hash(&w, rule) % 3 == 0 {
                    out.push(HighlightSpan { start: i, length: j - i, format: fixed(hash(&w, 3) % 4) });
                }
                i = j.max(i + 1);
            }
        }
        // a construct that opens with 'a' and closes with 'e', over any number of blocks
        1 => {
            let mut open = prev == 1;
            let mut from = 0;
            for (i, c) in cs.iter().enumerate() {
                if !open && *c == 'a' {
                    open = true;
                    from = i;
                } else if open && *c == 'e' {
                    open = false;
                    out.push(HighlightSpan { start: from, length: i + 1 - from, format: fixed(1) });
                }
            }
            if open {
                out.push(HighlightSpan { start: from, length: if rule % 8 == 1 { n - from } else { usize::MAX }, format: fixed(1) });
            }
            state = if open { 1 } else { -1 };
        }
        // a counter over all blocks
        2 => {
            state = (prev + 1 + n as i64) % 5;
            out.push(HighlightSpan { start: 0, length: (state.unsigned_abs() as usize).max(1), format: fixed(state as u64) });
        }
        // overlapping spans anywhere; the state follows the text alone
        _ => {
            for _ in 0..r.below(5) {
                let start = r.below(n + 3);
                out.push(HighlightSpan { start, length: r.below(n + 3), format: style(&mut r) });
            }
            state = (hash(text, 5) % 3) as i64 - 1;
        }
    }
    (out, state)
}
fn over(base: &TextFormat, hl: &HighlightFormat) -> TextFormat {
    let mut f = base.clone();
    macro_rules! put { ($($x:ident),*) => { $( if let Some(v) = &hl.$x { f.$x = Some(v.clone()); } )* } }
    put!(foreground_color, background_color, underline_color, font_family, font_point_size, font_weight, font_bold, font_italic, font_underline, font_overline, font_strikeout, letter_spacing, word_spacing, underline_style, vertical_alignment, tooltip);
    f
}

struct Hl {
    rule: AtomicU64,
    calls: Mutex<Vec<(usize, String)>>,
    bad: Mutex<Option<String>>,
    carried: AtomicU64,
}
struct Tag(usize);
impl SyntaxHighlighter for Hl {
    fn highlight_block(&self, text: &str, ctx: &mut HighlightContext) {
        if ctx.current_block_state() != -1 {
            *self.bad.lock().unwrap() = Some(format!("a fresh context has the state {}", ctx.current_block_state()));
        }
        if let Some(t) = ctx.user_data().and_then(|d| d.downcast_ref::<Tag>()) {
            self.carried.fetch_add(1, Ordering::Relaxed);
            if t.0 != ctx.block_id() {
                *self.bad.lock().unwrap() = Some(format!("block {} was given the user data of block {}", ctx.block_id(), t.0));
            }
        }
        ctx.set_user_data(Box::new(Tag(ctx.block_id())));
        let (spans, state) = rules(self.rule.load(Ordering::Relaxed), text, ctx.previous_block_state());
        for s in spans {
            ctx.set_format(s.start, s.length, s.format);
        }
        if state != -1 {
            ctx.set_current_block_state(state);
        }
        self.calls.lock().unwrap().push((ctx.block_id(), text.to_string()));
    }
}

/// Character indices of the words of a text, as far as a byte can hold them.
pub fn word_starts_of(text: &str) -> Vec<u8> {
    use unicode_segmentation::UnicodeSegmentation;
    let mut v = vec![];
    let (mut at, mut n) = (0, 0usize);
    for (o, _) in text.unicode_word_indices() {
        n += text[at..o].chars().count();
        at = o;
        match u8::try_from(n) {
            Ok(k) => v.push(k),
            Err(_) => break,
        }
    }
    v
}

/// Format per character (images count as one), and the fragments' own consistency.
pub fn chars_of(fs: &[FragmentContent]) -> std::result::Result<Vec<(Option<char>, TextFormat, u64)>, String> {
    let mut v = vec![];
    for f in fs {
        match f {
            FragmentContent::Text { text, format, offset, length, element_id, word_starts } => {
                let n = text.chars().count();
                if *offset != v.len() || *length != n || n == 0 {
                    return Err(format!("fragment {text:?} has offset {offset} and length {length} after {} characters", v.len()));
                }
                let want = word_starts_of(text);
                if *word_starts != want {
                    return Err(format!("fragment {text:?} has the word starts {word_starts:?}, expected {want:?}"));
                }
                v.extend(text.chars().map(|c| (Some(c), format.clone(), *element_id)));
            }
            FragmentContent::Image { format, offset, element_id, .. } => {
                if *offset != v.len() {
                    return Err(format!("image at offset {offset} after {} characters", v.len()));
                }
                v.push((None, format.clone(), *element_id));
            }
        }
    }
    Ok(v)
}

fn compare(a: &TextDocument, b: &TextDocument, rule: Option<u64>, what: &str, obs: &mut Obs) -> Verdict {
    let base = observe::flat_blocks(&b.snapshot_flow());
    let got = observe::flat_blocks(&a.snapshot_flow());
    ensure!(base.len() == got.len(), "twin", "after {what}: {} blocks with a highlighter, {} without", got.len(), base.len());
    let hs = a.blocks();
    let mut state = -1;
    for (i, (x, y)) in got.iter().zip(&base).enumerate() {
        let (spans, st) = match rule {
            Some(r) => rules(r, &y.text, state),
            None => (vec![], -1),
        };
        state = st;
        if rule.is_some() && st > 0 && i > 0 {
            obs.hit("state_carried");
        }
        let want = chars_of(&y.fragments).or_else(|e| viol("fragments", format!("after {what}: twin block {i}: {e}")))?;
        let have = chars_of(&x.fragments).or_else(|e| viol("fragments", format!("after {what}: block {i}: {e}")))?;
        ensure!(want.len() == have.len(), "fragments", "after {what}: block {i} {:?} shows {} characters with a highlighter, {} without", y.text, have.len(), want.len());
        for (k, (w, h)) in want.iter().zip(&have).enumerate() {
            let mut f = w.1.clone();
            for s in &spans {
                if s.start <= k && k < s.start.saturating_add(s.length) {
                    f = over(&f, &s.format);
                    obs.hit("chars_highlighted");
                }
            }
            ensure!(w.0 == h.0 && w.2 == h.2, "fragments", "after {what}: block {i} character {k} is {:?} of run {} with a highlighter, {:?} of run {} without", h.0, h.2, w.0, w.2);
            ensure!(h.1 == f, "format", "after {what}: block {i} {:?} character {k} is shown as {:?}, expected {f:?} (rules give {spans:?}, previous state)", y.text, h.1);
        }
        if spans.iter().any(|s| s.start.saturating_add(s.length) > want.len()) {
            obs.hit("spans_clipped");
        }
        ensure!(hs.get(i).map(|h| h.fragments()) == Some(x.fragments.clone()), "handle", "after {what}: block {i}: the handle's fragments differ from the snapshot's");
        ensure!(a.snapshot_block_at_position(x.position).map(|s| s.fragments) == Some(x.fragments.clone()), "handle", "after {what}: block {i}: the snapshot by position differs from the flow's");
        obs.hit("blocks_compared");
    }
    Ok(())
}

fn run_hl(case: &Case, obs: &mut Obs) -> Verdict {
    let mut r = Rng::new(case.nums.first().copied().unwrap_or(1));
    let mut a = Env::new();
    let mut b = Env::new();
    let new = |r: &mut Rng| Arc::new(Hl { rule: AtomicU64::new(r.next() >> 1), calls: Mutex::new(vec![]), bad: Mutex::new(None), carried: AtomicU64::new(0) });
    let mut hl: Option<Arc<Hl>> = None;
    if r.chance(4, 5) {
        let h = new(&mut r);
        a.doc.set_syntax_highlighter(Some(h.clone()));
        hl = Some(h);
    }
    let mut carried = false;
    let mut t0 = std::time::Instant::now();
    for op in &case.ops {
        let mut what = format!("{op:?}");
        match r.below(24) {
            0 => {
                let h = new(&mut r);
                a.doc.set_syntax_highlighter(Some(h.clone()));
                hl = Some(h);
                what = format!("attaching another highlighter and {what}");
                obs.hit("swaps");
            }
            1 if r.chance(1, 3) => {
                a.doc.set_syntax_highlighter(None);
                hl = None;
                what = format!("removing the highlighter and {what}");
                obs.hit("removals");
            }
            2 => {
                if let Some(h) = &hl {
                    h.rule.store(r.next() >> 1, Ordering::Relaxed);
                    a.doc.rehighlight();
                    compare(&a.doc, &b.doc, Some(h.rule.load(Ordering::Relaxed)), "new rules and rehighlight()", obs)?;
                    obs.hit("rule_changes");
                }
            }
            3 => {
                let bs = a.doc.blocks();
                if !bs.is_empty() {
                    a.doc.rehighlight_block(r.pick(&bs).id());
                }
            }
            _ => (),
        }
        if let Some(h) = &hl {
            h.calls.lock().unwrap().clear();
        }
        let x = a.apply(op);
        let y = b.apply(op);
        // two edits merge in the history when little time lies between them
        if t0.elapsed().as_millis() > 800 {
            return Ok(());
        }
        t0 = std::time::Instant::now();
        ensure!(x.is_ok() == y.is_ok(), "twin", "{what} gives {x:?} with a highlighter, {y:?} without");
        if let Some(h) = &hl {
            if let Some(e) = h.bad.lock().unwrap().take() {
                return viol("context", format!("{what}: {e}"));
            }
            let texts: std::collections::HashMap<usize, String> = a.doc.blocks().iter().map(|b| (b.id(), b.text())).collect();
            let calls = h.calls.lock().unwrap().clone();
            obs.add("calls_of_highlighter", calls.len() as u64);
            if !calls.is_empty() && calls.len() < texts.len() {
                obs.hit("incremental");
            }
            // within one operation earlier calls may have seen earlier texts; the last one of each block has not
            let mut last = std::collections::HashMap::new();
            for (id, t) in &calls {
                last.insert(*id, t);
            }
            for (id, t) in last {
                if let Some(now) = texts.get(&id) {
                    ensure!(now == t, "stale-text", "{what}: the highlighter saw {t:?} as the text of block {id}, which reads {now:?}");
                }
            }
        }
        let rule = hl.as_ref().map(|h| h.rule.load(Ordering::Relaxed));
        carried |= rule.is_some_and(|r| r % 4 == 1 || r % 4 == 2);
        compare(&a.doc, &b.doc, rule, &what, obs)?;
        // everything else is untouched by the highlighter
        let (sa, sb) = (observe::canon(&observe::store_of(&a.doc)), observe::canon(&observe::store_of(&b.doc)));
        if let Some((p, d)) = observe::store_diff(&sb, &sa) {
            return viol("store", format!("after {what}: with a highlighter {p} differs: {d}"));
        }
        for c in 0..2 {
            let (p, q) = (a.cur(c), b.cur(c));
            ensure!((p.position(), p.anchor()) == (q.position(), q.anchor()), "cursor", "after {what}: cursor {c} is at {} with a highlighter, {} without", p.position(), q.position());
            let (p, q) = (p.char_format().ok(), q.char_format().ok());
            ensure!(p == q, "cursor", "after {what}: cursor {c} reports {p:?} with a highlighter, {q:?} without");
        }
        ensure!((a.doc.can_undo(), a.doc.can_redo(), a.doc.is_modified(), a.doc.stats()) == (b.doc.can_undo(), b.doc.can_redo(), b.doc.is_modified(), b.doc.stats()), "twin", "after {what}: history flags or statistics differ with a highlighter");
        obs.hit("twins_compared");
    }
    let e = |d: &TextDocument| (d.to_plain_text().ok(), d.to_html().ok(), d.to_markdown().ok(), d.to_latex("article", true).ok(), d.find_all("a", &FindOptions::default()).ok());
    ensure!(e(&a.doc) == e(&b.doc), "export", "the exports or search results differ with a highlighter");
    if carried {
        obs.distinct(&format!("{:?}", case.ops));
    }
    Ok(())
}
