//! Plain text in and out, document properties, resources and the modified flag.

use crate::ensure;
use crate::r#gen::{self, Mix};
use crate::observe;
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P14",
            quick: 20000,
            thorough: 3000000,
            level: "exploration",
            rule: "Each case imports one to four random texts (any Unicode, all kinds of line ends, control characters, empty lines, long lines) as plain text, \
                   each into a document with earlier content of every kind, and reads them back: the exported text must be the imported one with line ends \
                   unified, block by block, with counts to match, and nothing of the earlier content, its formats, lists, tables or history may remain. \
                   The text exported from any edited document must import into the same text again, also as a fragment. \
                   Non-trivial: a text with two lines; distinct: by text.",
            assumptions: &["CR LF and CR count as line ends, other separators (U+2028, form feed) do not"],
            must_observe: &["imports", "lines", "crlf", "leftovers_checked", "roundtrips", "clears", "fragments"],
            generate: gen_plain,
            run: run_plain,
            workers: 8,
            repeat_on_shrink: 1,
        },
        Prop {
            id: "P26",
            quick: 40000,
            thorough: 3000000,
            level: "exploration",
            rule: "Each case mixes property changes (title, direction, wrap mode), resources (with equal names, any bytes), edits, undo, redo, imports and \
                   clearing of the modified flag, on one of two documents. After each call properties, every resource and the flag are compared with a model: \
                   values are what was set last on the current timeline, a name stands for the latest resource of that name, imports keep properties and resources, property changes leave the content alone and \
                   the other document untouched; the flag is set once the content differs from what it was when it was cleared by whatever way, and stays clear as long as nothing but \
                   queries, cursor movements and refused calls happened. Non-trivial: an undone property change; distinct: by operation list.",
            assumptions: &["whether a property change, an edit without effect or an import sets the modified flag is left open"],
            must_observe: &["titles", "directions", "wraps", "resources", "same_name", "undone", "redone", "imports", "modified_set", "modified_clear", "resources_read"],
            generate: gen_props,
            run: run_props,
            workers: 8,
            repeat_on_shrink: 1,
        },
    ]
}

fn raw_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, 8) {
        match r.below(16) {
            0 => s.push('\r'),
            1 | 2 => s.push_str("\r\n"),
            3 | 4 => s.push('\n'),
            5 => s.push_str("\n\r"),
            6 => s.push_str(*r.pick(&["\u{2028}", "\u{2029}", "\u{b}", "\u{c}", "\u{85}", "\u{0}", "\u{feff}", "\u{1b}"])),
            7 => s.push_str(*r.pick(&["\t", "  ", " ", "\u{a0}"])),
            8 => s.push_str(*r.pick(&["<b>&amp;</b>", "# h", "- x", "| a |", "```", "> q", "\\"])),
            9 => s.push_str(&"long ".repeat(r.range(1, 200))),
            _ => s.push_str(&r#gen::line(r, 3)),
        }
    }
    s
}
fn gen_plain(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let mut m = Mix::all();
    m.group = 0;
    if i % 2 == 0 {
        m.table = 0;
        m.tablefmt = 0;
    } else {
        m.frame = 0;
    }
    super::undo::region(&mut m);
    let n = r.range(0, 6);
    let mut ops = super::undo::start(r);
    ops.extend(r#gen::ops(r, &m, n));
    let texts = (0..r.range(1, 4)).map(|_| raw_text(r)).collect();
    Case { kind: "plain".into(), ops, texts, ..Default::default() }
}
/// Line ends as one character each, by hand.
fn unify(t: &str) -> String {
    let mut out = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\r' {
            if it.peek() == Some(&'\n') {
                it.next();
            }
            out.push('\n');
        } else {
            out.push(c);
        }
    }
    out
}
fn fresh_state(doc: &TextDocument, want: &str, obs: &mut Obs) -> Verdict {
    let got = doc.to_plain_text().unwrap();
    ensure!(got == want, "text", "exported {got:?}, expected {want:?}");
    let lines: Vec<&str> = want.split('\n').collect();
    let blocks = doc.blocks();
    ensure!(blocks.len() == lines.len() && doc.block_count() == lines.len(), "blocks", "{} blocks, block_count {}, expected {}", blocks.len(), doc.block_count(), lines.len());
    let mut pos = 0;
    for (k, (b, l)) in blocks.iter().zip(&lines).enumerate() {
        let n = l.chars().count();
        ensure!(b.text() == *l && b.position() == pos && b.length() == n && b.block_number() == k, "block", "block {k}: {:?} at {} of length {}, number {}; expected {l:?} at {pos}", b.text(), b.position(), b.length(), b.block_number());
        ensure!(b.block_format() == BlockFormat::default(), "leftover-format", "block {k} has the format {:?}", b.block_format());
        let f = b.fragments();
        ensure!(
            f.iter().all(|f| matches!(f, FragmentContent::Text { format, .. } if *format == TextFormat::default())) && f.len() == (n > 0) as usize,
            "leftover-format", "block {k}: fragments {f:?}"
        );
        ensure!(b.list().is_none() && b.table_cell().is_none(), "leftover-list", "block {k} is in a list or table");
        pos += n + 1;
        obs.hit("lines");
    }
    let chars = want.chars().filter(|c| *c != '\n').count();
    let s = doc.stats();
    ensure!(
        doc.character_count() == chars && (s.character_count, s.block_count, s.list_count, s.table_count, s.image_count, s.frame_count) == (chars, lines.len(), 0, 0, 0, 1),
        "counts", "character_count {}, stats {s:?}, expected {chars} characters, {} blocks", doc.character_count(), lines.len()
    );
    ensure!(doc.is_empty() == (chars == 0), "counts", "is_empty {} with {chars} characters", doc.is_empty());
    ensure!(!doc.can_undo() && !doc.can_redo(), "history", "the history survived the import: can_undo {} can_redo {}", doc.can_undo(), doc.can_redo());
    let st = observe::store_of(doc);
    ensure!(st.lists.is_empty() && st.tables.is_empty() && st.cells.is_empty() && st.frames.len() == 1 && st.blocks.len() == lines.len() && st.runs.is_empty() && st.images.is_empty() && st.rope == want, "leftovers", "after the import the store still has lists {:?} tables {:?} cells {} frames {} blocks {} runs {:?}, rope {:?}", st.lists.keys(), st.tables.keys(), st.cells.len(), st.frames.len(), st.blocks.len(), st.runs, st.rope);
    obs.hit("leftovers_checked");
    Ok(())
}
fn run_plain(case: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    for o in &case.ops {
        env.apply(o);
    }
    let doc = env.doc.clone();
    // what any document exports imports into the same again
    let t = doc.to_plain_text().unwrap();
    let d2 = TextDocument::new();
    d2.set_plain_text(&t).unwrap();
    ensure!(d2.to_plain_text().unwrap() == unify(&t), "roundtrip", "{t:?} imports as {:?}", d2.to_plain_text());
    obs.hit("roundtrips");
    let title = (doc.title(), doc.text_direction(), doc.default_wrap_mode());
    for (k, t) in case.texts.iter().enumerate() {
        doc.set_plain_text(t).or_else(|e| viol("refused", format!("set_plain_text({t:?}): {e}")))?;
        let want = unify(t);
        fresh_state(&doc, &want, obs).map_err(|v| Viol { msg: format!("set_plain_text({t:?}): {}", v.msg), ..v })?;
        ensure!((doc.title(), doc.text_direction(), doc.default_wrap_mode()) == title, "properties", "the import changed the document's properties");
        obs.hit("imports");
        if t.contains('\r') {
            obs.hit("crlf");
        }
        if want.contains('\n') {
            obs.distinct(t);
        }
        let f = DocumentFragment::from_plain_text(&want);
        ensure!(f.to_plain_text() == want, "fragment", "from_plain_text({want:?}) has the text {:?}", f.to_plain_text());
        let d3 = TextDocument::new();
        let c = d3.cursor();
        c.insert_fragment(&f).or_else(|e| viol("fragment", format!("inserting a fragment of {want:?}: {e}")))?;
        ensure!(d3.to_plain_text().unwrap() == want, "fragment", "a fragment of {want:?} arrives as {:?}", d3.to_plain_text());
        obs.hit("fragments");
        if k % 2 == 1 {
            doc.clear().or_else(|e| viol("refused", format!("clear: {e}")))?;
            fresh_state(&doc, "", obs).map_err(|v| Viol { msg: format!("clear: {}", v.msg), ..v })?;
            obs.hit("clears");
        } else {
            // edits in between
            for o in case.ops.iter().take(3) {
                env.apply(o);
            }
        }
        let now = doc.title();
        if now != title.0 || doc.text_direction() != title.1 || doc.default_wrap_mode() != title.2 {
            return Ok(());
        }
    }
    Ok(())
}

fn gen_props(r: &mut Rng, _i: u64, _t: Tier) -> Case {
    let n = r.range(4, 24);
    Case { kind: "calls".into(), nums: (0..n).map(|_| r.next()).collect(), ..Default::default() }
}
#[derive(Clone, PartialEq, Debug, Default)]
struct Props {
    title: String,
    dir: TextDirection,
    wrap: WrapMode,
    resources: Vec<(String, Vec<u8>)>,
}
struct Side {
    env: Env,
    past: Vec<Props>,
    now: Props,
    future: Vec<Props>,
    /// since the flag was cleared: a call that may set it; one that changed the content
    touched: bool,
    must: bool,
}
fn content(doc: &TextDocument) -> observe::Store {
    let mut s = observe::store_of(doc);
    s.resources.clear();
    for d in s.documents.values_mut() {
        d.title.clear();
        d.text_direction = Default::default();
        d.default_wrap_mode = Default::default();
        d.resources.clear();
    }
    s
}
const NAMES: &[&str] = &["a.png", "b.png", "", "Ünï", "a.PNG", "a b/c"];

fn check_props(s: &Side, what: &str, obs: &mut Obs) -> Verdict {
    let d = &s.env.doc;
    let got = (d.title(), d.text_direction(), d.default_wrap_mode());
    let want = (s.now.title.clone(), s.now.dir.clone(), s.now.wrap.clone());
    ensure!(got == want, "property", "after {what}: title, direction, wrap mode are {got:?}, expected {want:?}");
    for n in NAMES {
        let got = d.resource(n).or_else(|e| viol("resource", format!("after {what}: resource({n:?}): {e}")))?;
        let want = s.now.resources.iter().rev().find(|x| x.0 == *n).map(|x| x.1.clone());
        ensure!(got == want, "resource", "after {what}: resource({n:?}) is {:?}, expected {:?}", got.map(|d| (d.len(), d.first().copied())), want.map(|d| (d.len(), d.first().copied())));
        obs.hit("resources_read");
    }
    Ok(())
}

fn run_props(case: &Case, obs: &mut Obs) -> Verdict {
    let mut sides: Vec<Side> = (0..2)
        .map(|_| {
            let env = Env::new();
            let now = Props { dir: env.doc.text_direction(), wrap: env.doc.default_wrap_mode(), ..Default::default() };
            Side { env, past: vec![], now, future: vec![], touched: false, must: false }
        })
        .collect();
    let mut undone_props = false;
    for &seed in &case.nums {
        let mut r = Rng::new(seed);
        let k = r.below(2);
        let other = observe::store_of(&sides[1 - k].env.doc);
        let other_mod = sides[1 - k].env.doc.is_modified();
        let s = &mut sides[k];
        let before = content(&s.env.doc);
        let doc = s.env.doc.clone();
        let mut prop_call = false;
        let mut leave = true; // nothing that may set the flag
        let mut import = false;
        let what: String;
        let mut step = |s: &mut Side, f: &mut dyn FnMut(&mut Props)| {
            s.past.push(s.now.clone());
            f(&mut s.now);
            s.future.clear();
        };
        let err = |n: &str, e: anyhow::Error| viol::<()>("refused", format!("{n}: {e}"));
        match r.below(20) {
            0 | 1 => {
                let t = if r.chance(1, 4) { String::new() } else { r#gen::line(&mut r, 3) };
                what = format!("set_title({t:?})");
                doc.set_title(&t).or_else(|e| err(&what, e))?;
                step(s, &mut |p| p.title = t.clone());
                prop_call = true;
                leave = false;
                obs.hit("titles");
            }
            2 => {
                let d = if r.chance(1, 2) { TextDirection::RightToLeft } else { TextDirection::LeftToRight };
                what = format!("set_text_direction({d:?})");
                doc.set_text_direction(d.clone()).or_else(|e| err(&what, e))?;
                step(s, &mut |p| p.dir = d.clone());
                prop_call = true;
                leave = false;
                obs.hit("directions");
            }
            3 => {
                let w = r.pick(&[WrapMode::NoWrap, WrapMode::WordWrap, WrapMode::WrapAnywhere]).clone();
                what = format!("set_default_wrap_mode({w:?})");
                doc.set_default_wrap_mode(w.clone()).or_else(|e| err(&what, e))?;
                step(s, &mut |p| p.wrap = w.clone());
                prop_call = true;
                leave = false;
                obs.hit("wraps");
            }
            4..=7 => {
                let n = (*r.pick(NAMES)).to_string();
                let d: Vec<u8> = (0..r.below(40)).map(|_| r.below(256) as u8).collect();
                what = format!("add_resource({n:?}, {} bytes)", d.len());
                doc.add_resource(if r.chance(1, 2) { ResourceType::Image } else { ResourceType::Other }, &n, "x/y", &d).or_else(|e| err(&what, e))?;
                if s.now.resources.iter().any(|x| x.0 == n) {
                    obs.hit("same_name");
                }
                step(s, &mut |p| p.resources.push((n.clone(), d.clone())));
                prop_call = true;
                leave = false;
                obs.hit("resources");
            }
            8..=10 => {
                what = "undo".into();
                let can = doc.can_undo();
                ensure!(can == !s.past.is_empty(), "can-undo", "can_undo {can} with {} steps", s.past.len());
                let x = doc.undo();
                if let Some(p) = s.past.pop() {
                    x.or_else(|e| err(&what, e))?;
                    undone_props |= p != s.now;
                    s.future.push(std::mem::replace(&mut s.now, p));
                    leave = false;
                    obs.hit("undone");
                }
            }
            11 | 12 => {
                what = "redo".into();
                let x = doc.redo();
                if let Some(p) = s.future.pop() {
                    x.or_else(|e| err(&what, e))?;
                    s.past.push(std::mem::replace(&mut s.now, p));
                    leave = false;
                    obs.hit("redone");
                }
            }
            13 | 14 => {
                // edits that never merge with one another
                let c = s.env.cur(0).clone();
                c.set_position(r.below(max_pos(&doc) + 1), MoveMode::MoveAnchor);
                let x = match r.below(7) {
                    0 => { what = "insert_block".into(); c.insert_block() }
                    1 => { what = "create_list".into(); c.create_list(lstyle(r.below(8) as u8)) }
                    2 => { what = "set_block_format".into(); c.set_block_format(&r#gen::bfmt(&mut r).to_block()) }
                    3 if !s.env.at_cell(0) && c.current_table().is_none() => { what = "insert_table".into(); c.insert_table(1, 2).map(|_| ()) }
                    4 => { what = "insert_row_below".into(); c.insert_row_below() }
                    5 => { what = "insert_formatted_text".into(); c.insert_formatted_text("ab", &TextFormat { font_bold: Some(true), ..Default::default() }) }
                    _ => { what = "set_current_table_format".into(); c.set_current_table_format(&TableFormat { border: Some(r.below(4) as i32), ..Default::default() }) }
                };
                if x.is_ok() {
                    step(s, &mut |_| ());
                    leave = false;
                }
            }
            15 => {
                leave = false;
                match r.below(4) {
                    0 => { what = "set_plain_text".into(); doc.set_plain_text(&r#gen::text(&mut r, 3, 2)).or_else(|e| err(&what, e))? }
                    1 => { what = "clear".into(); doc.clear().or_else(|e| err(&what, e))? }
                    2 => { what = "set_html".into(); let h = r#gen::html(&mut r); doc.set_html(&h).and_then(|o| quick_wait(o).map_err(anyhow::Error::from)).map(|_| ()).or_else(|e| err(&what, e))? }
                    _ => { what = "set_markdown".into(); let h = r#gen::md(&mut r); doc.set_markdown(&h).and_then(|o| quick_wait(o).map_err(anyhow::Error::from)).map(|_| ()).or_else(|e| err(&what, e))? }
                }
                s.past.clear();
                s.future.clear();
                s.must = false;
                s.touched = true;
                import = true;
                obs.hit("imports");
            }
            16 => {
                what = "set_modified(false)".into();
                doc.set_modified(false);
                ensure!(!doc.is_modified(), "modified", "set_modified(false) leaves the flag set");
                s.must = false;
                s.touched = false;
            }
            17 => {
                what = "clear_undo_redo".into();
                doc.clear_undo_redo();
                s.past.clear();
                s.future.clear();
            }
            18 => {
                what = "queries".into();
                let c = s.env.cur(0);
                c.set_position(r.below(20), MoveMode::MoveAnchor);
                c.move_position(move_op(r.below(21) as u8), MoveMode::KeepAnchor, 1);
                let _ = (c.selected_text(), c.selection().to_html(), doc.to_html(), doc.to_markdown(), doc.stats(), doc.find_all("a", &FindOptions::default()), doc.snapshot_flow(), doc.to_latex("article", true));
                let c2 = doc.cursor_at(1);
                drop(c2);
            }
            _ => {
                what = "refused calls".into();
                let c = s.env.cur(0);
                let x = [c.remove_table(999_999).is_err(), c.add_block_to_list(999_999, 1).is_err(), c.set_frame_format(999_999, &FrameFormat::default()).is_err(), c.remove_block_from_list(999_999).is_err(), doc.find("(", 0, &FindOptions { use_regex: true, ..Default::default() }).is_err()];
                ensure!(x == [true; 5], "accepted", "calls naming nothing were accepted: {x:?}");
            }
        }
        let after = content(&doc);
        if prop_call {
            if let Some((p, d)) = observe::store_diff(&before, &after) {
                return viol("content", format!("{what} changed {p}: {d}"));
            }
        }
        check_props(s, &what, obs)?;
        let m = doc.is_modified();
        s.touched |= !leave;
        s.must |= !leave && !import && before != after;
        if s.must {
            ensure!(m, "modified", "after {what}: the content has changed since the modified flag was cleared, but the flag is clear");
            obs.hit("modified_set");
        }
        if !s.touched {
            ensure!(!m, "modified", "after {what}: nothing changed since the modified flag was cleared, but the flag is set");
            obs.hit("modified_clear");
        }
        let o = &sides[1 - k];
        ensure!(observe::store_of(&o.env.doc) == other && o.env.doc.is_modified() == other_mod, "other-document", "{what} changed another document");
    }
    if undone_props {
        obs.distinct(&case.nums);
    }
    Ok(())
}
