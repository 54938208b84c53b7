//! Lists: membership, numbering and format against a model.

use crate::ensure;
use crate::r#gen;
use crate::observe;
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use std::collections::BTreeMap;
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P25",
        quick: 12000,
        thorough: 1500000,
        level: "exploration",
        rule: "Each case builds a document with lists, quotes and tables and applies random list calls through cursors anywhere in it: creating a list from \
               the selected blocks, inserting a list, adding and removing blocks by id, by cursor and by item number, changing list formats, splitting list \
               items, with existing and non-existing blocks, lists and items. After each call a model computed from the state before says which block belongs \
               to which list with which format; every way of reading lists (block handles, list handles, snapshots, current list) must agree with it, with \
               items numbered in reading order and markers written in the list's style. A refused call must change nothing. Undo and redo of calls are \
               compared too. Non-trivial: at least two successful list calls; distinct: by operation list and seed.",
        assumptions: &["a list without items left is not part of the document's observable lists"],
        must_observe: &["created", "inserted", "added", "removed", "formatted", "split_items", "refused", "in_cells", "in_quotes", "markers", "undone", "items_compared", "high_markers"],
        generate,
        run,
        workers: 8,
        repeat_on_shrink: 1,
    }]
}

fn generate(r: &mut Rng, _i: u64, _t: Tier) -> Case {
    let mut ops = match r.below(5) {
        0 => vec![Op::SetPlain { t: r#gen::text(r, 6, 2) }],
        1 => {
            let mut s = String::new();
            for i in 0..r.range(2, 30) {
                s += &format!("{}. x{i}\n", i + 1);
            }
            vec![Op::SetMd { t: s }]
        }
        2 => {
            let w = r#gen::ascii_line(r, 2);
            let q = r#gen::ascii_line(r, 2);
            vec![Op::SetHtml {
                t: format!("<p>{w}</p><ul><li>a</li><li>b</li></ul><blockquote><p>{q}</p><p>q2</p></blockquote><ol><li>c</li><li>d</li></ol><p>end</p>"),
            }]
        }
        3 => vec![Op::SetHtml {
            t: "<p>one</p><table><tr><td>a</td><td>b</td></tr><tr><td>c</td><td></td></tr></table><p>two</p><p>three</p>".into(),
        }],
        _ => vec![Op::SetMd { t: r#gen::md(r) }],
    };
    if r.chance(1, 5) {
        ops.push(Op::Pos { c: 0, p: r.next() as usize % 1000, keep: false });
        ops.push(Op::Table { c: 0, r: r.range(1, 2), k: r.range(1, 2) });
    }
    let n = r.range(3, 16);
    Case { kind: "lists".into(), ops, nums: vec![r.next(), n as u64], ..Default::default() }
}

#[derive(Clone, PartialEq, Debug)]
struct LF {
    style: ListStyle,
    indent: u8,
    prefix: String,
    suffix: String,
}
/// What the document's lists are: blocks in reading order with their list, and list formats.
#[derive(Clone, PartialEq, Debug, Default)]
struct Lists {
    blocks: Vec<(usize, Option<usize>)>,
    lists: BTreeMap<usize, LF>,
}
fn read(doc: &TextDocument) -> Lists {
    let mut out = Lists::default();
    for b in observe::flat_blocks(&doc.snapshot_flow()) {
        let l = doc.block_by_id(b.block_id).and_then(|h| h.list());
        if let Some(l) = &l {
            out.lists.insert(l.id(), LF { style: l.style(), indent: l.indent(), prefix: l.prefix(), suffix: l.suffix() });
        }
        out.blocks.push((b.block_id, l.map(|l| l.id())));
    }
    out
}
impl Lists {
    fn list_of(&self, b: usize) -> Option<usize> {
        self.blocks.iter().find(|x| x.0 == b).and_then(|x| x.1)
    }
    fn set(&mut self, b: usize, l: Option<usize>) {
        if let Some(x) = self.blocks.iter_mut().find(|x| x.0 == b) {
            x.1 = l;
        }
        self.prune();
    }
    fn prune(&mut self) {
        let used: std::collections::BTreeSet<usize> = self.blocks.iter().filter_map(|x| x.1).collect();
        self.lists.retain(|k, _| used.contains(k));
    }
    fn items(&self, l: usize) -> Vec<usize> {
        self.blocks.iter().filter(|x| x.1 == Some(l)).map(|x| x.0).collect()
    }
}

/// Roman numerals by decimal digits.
fn roman(n: usize) -> String {
    const D: [[&str; 10]; 4] = [
        ["", "I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX"],
        ["", "X", "XX", "XXX", "XL", "L", "LX", "LXX", "LXXX", "XC"],
        ["", "C", "CC", "CCC", "CD", "D", "DC", "DCC", "DCCC", "CM"],
        ["", "M", "MM", "MMM", "", "", "", "", "", ""],
    ];
    if n > 3999 {
        return n.to_string();
    }
    (0..4).rev().map(|k| D[k][n / 10usize.pow(k as u32) % 10]).collect()
}
fn marker(f: &LF, index: usize) -> String {
    let n = index.saturating_add(1);
    let alpha = |base: u8| if n <= 26 { ((base + (n - 1) as u8) as char).to_string() } else { n.to_string() };
    let body = match f.style {
        ListStyle::Disc => "•".into(),
        ListStyle::Circle => "◦".into(),
        ListStyle::Square => "▪".into(),
        ListStyle::Decimal => n.to_string(),
        ListStyle::LowerAlpha => alpha(b'a'),
        ListStyle::UpperAlpha => alpha(b'A'),
        ListStyle::LowerRoman => roman(n).to_lowercase(),
        ListStyle::UpperRoman => roman(n),
    };
    format!("{}{}{}", f.prefix, body, f.suffix)
}

/// Every way of reading lists against the model.
fn compare(doc: &TextDocument, want: &Lists, obs: &mut Obs) -> Verdict {
    let snaps = observe::flat_blocks(&doc.snapshot_flow());
    let ids: Vec<usize> = snaps.iter().map(|b| b.block_id).collect();
    let want_ids: Vec<usize> = want.blocks.iter().map(|b| b.0).collect();
    ensure!(ids == want_ids, "blocks", "the document's blocks are {ids:?}, expected {want_ids:?}");
    for s in &snaps {
        let l = want.list_of(s.block_id);
        let Some(h) = doc.block_by_id(s.block_id) else { return viol("no-block", format!("no handle for block {}", s.block_id)) };
        let got = h.list().map(|l| l.id());
        ensure!(got == l, "membership", "block {} is in list {got:?}, expected {l:?}", s.block_id);
        match (l, &s.list_info, h.snapshot().list_info) {
            (None, None, None) => ensure!(h.list_item_index().is_none(), "membership", "block {} has an item index but no list", s.block_id),
            (Some(l), Some(i), Some(j)) => {
                ensure!(*i == j, "list-info", "flow snapshot says {i:?}, block snapshot {j:?}");
                let f = &want.lists[&l];
                let k = want.items(l).iter().position(|b| *b == s.block_id).unwrap();
                let w = (l, f.style.clone(), f.indent, marker(f, k), k);
                let g = (i.list_id, i.style.clone(), i.indent, i.marker.clone(), i.item_index);
                ensure!(g == w, "list-info", "block {}: list info {g:?}, expected {w:?}", s.block_id);
                let idx = h.list_item_index();
                ensure!(idx == Some(k), "item-index", "block {}: item index {idx:?}, expected {k}", s.block_id);
                obs.hit("markers");
            }
            (l, i, j) => return viol("list-info", format!("block {}: model list {l:?}, flow snapshot {i:?}, block snapshot {j:?}", s.block_id)),
        }
    }
    for (l, f) in &want.lists {
        let items = want.items(*l);
        let h = doc.block_by_id(items[0]).and_then(|b| b.list()).unwrap();
        let g = LF { style: h.style(), indent: h.indent(), prefix: h.prefix(), suffix: h.suffix() };
        ensure!(g == *f, "list-format", "list {l} has {g:?}, expected {f:?}");
        let lf = h.format();
        ensure!(
            (lf.style.as_ref(), lf.indent, lf.prefix.as_deref(), lf.suffix.as_deref()) == (Some(&f.style), Some(f.indent), Some(f.prefix.as_str()), Some(f.suffix.as_str())),
            "list-format", "list {l}: format() {lf:?}, expected {f:?}"
        );
        ensure!(h.count() == items.len(), "list-count", "list {l} counts {} items, expected {}", h.count(), items.len());
        for (k, b) in items.iter().enumerate() {
            let g = h.item(k).map(|b| b.id());
            ensure!(g == Some(*b), "list-item", "item {k} of list {l} is {g:?}, expected {b}");
            ensure!(h.item_marker(k) == marker(f, k), "marker", "item {k} of {l}: marker {:?}, expected {:?}", h.item_marker(k), marker(f, k));
            obs.hit("items_compared");
        }
        ensure!(h.item(items.len()).is_none(), "list-item", "list {l} has an item beyond its last");
    }
    Ok(())
}

fn run(case: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    for o in &case.ops {
        if matches!(o, Op::Table { .. }) && env.at_nested(0) {
            continue;
        }
        env.apply(o);
    }
    env.doc.clear_undo_redo();
    let doc = env.doc.clone();
    let seed = *case.nums.first().unwrap_or(&1);
    let n = *case.nums.get(1).unwrap_or(&8) as usize;
    let mut r = Rng::new(seed);
    let mut model = read(&doc);
    compare(&doc, &model, obs)?;
    let mut done = 0;
    for _ in 0..n {
        let before_store = observe::store_of(&doc);
        let before = model.clone();
        let texts: BTreeMap<usize, String> = doc.blocks().iter().map(|b| (b.id(), b.text())).collect();
        let snaps = observe::flat_blocks(&doc.snapshot_flow());
        let max = max_pos(&doc);
        let (a, p) = (r.below(max + 1), r.below(max + 1));
        let cur = doc.cursor();
        cur.set_position(if r.chance(1, 2) { a } else { p }, MoveMode::MoveAnchor);
        cur.set_position(p, MoveMode::KeepAnchor);
        let (p, a) = (cur.position(), cur.anchor());
        let (lo, hi) = (p.min(a), p.max(a));
        let here = |q: usize| snaps.iter().find(|b| b.position <= q && q <= b.position + b.text.chars().count()).cloned();
        let cb = here(p);
        if let Some(b) = &cb {
            let g = cur.current_list().map(|l| l.id());
            ensure!(g == before.list_of(b.block_id), "current-list", "current_list at {p} is {g:?}, block {} is in {:?}", b.block_id, before.list_of(b.block_id));
        }
        let style = r.below(8) as u8;
        let any_list = |r: &mut Rng, m: &Lists| -> usize {
            let ls: Vec<usize> = m.lists.keys().copied().collect();
            if ls.is_empty() || r.chance(1, 12) { *r.pick(&[0, 999_999, i64::MAX as usize]) } else { *r.pick(&ls) }
        };
        let any_block = |r: &mut Rng, m: &Lists| -> usize {
            if r.chance(1, 12) { *r.pick(&[0, 999_999, i64::MAX as usize]) } else { r.pick(&m.blocks).0 }
        };
        // the call, the expected lists if it is to succeed (None: it is to be refused)
        let mut want: Option<Lists> = None;
        let mut fresh: Option<ListStyle> = None;
        let what;
        let res: text_document::Result<()>;
        match r.below(10) {
            0 | 1 => {
                what = format!("create_list({:?}) with selection {lo}..{hi}", lstyle(style));
                let mut m = before.clone();
                for b in &snaps {
                    if b.position <= hi && b.position + b.text.chars().count() >= lo {
                        m.set(b.block_id, Some(usize::MAX));
                        if b.table_cell.is_some() {
                            obs.hit("in_cells");
                        }
                    }
                }
                fresh = Some(lstyle(style));
                want = Some(m);
                res = cur.create_list(lstyle(style));
                obs.hit("created");
            }
            2 => {
                what = format!("insert_list({:?}) at {p}", lstyle(style));
                res = cur.insert_list(lstyle(style));
                if let (Some(b), Ok(())) = (&cb, &res) {
                    let ids: Vec<usize> = observe::flat_blocks(&doc.snapshot_flow()).iter().map(|b| b.block_id).collect();
                    let new: Vec<usize> = ids.iter().copied().filter(|i| !texts.contains_key(i)).collect();
                    ensure!(new.len() == 1, "insert-list", "{what}: new blocks {new:?}");
                    let h = doc.block_by_id(new[0]).unwrap();
                    ensure!(h.text().is_empty(), "insert-list", "{what}: the new item has the text {:?}", h.text());
                    let parent = doc.block_by_id(b.block_id).map(|x| x.frame().id());
                    ensure!(Some(h.frame().id()) == parent, "insert-list", "{what}: the new item is in frame {}, the current block in {parent:?}", h.frame().id());
                    let mut m = before.clone();
                    let at = m.blocks.iter().position(|x| x.0 == b.block_id).unwrap();
                    m.blocks.insert(at + 1, (new[0], Some(usize::MAX)));
                    fresh = Some(lstyle(style));
                    want = Some(m);
                    ensure!(cur.current_list().map(|l| l.id()) == h.list().map(|l| l.id()) || lo != hi, "insert-list", "{what}: the cursor is not in the new item");
                    obs.hit("inserted");
                    if b.table_cell.is_some() {
                        obs.hit("in_cells");
                    } else if h.frame().format().is_blockquote == Some(true) {
                        obs.hit("in_quotes");
                    }
                }
            }
            3 | 4 => {
                let (b, l) = (any_block(&mut r, &before), any_list(&mut r, &before));
                let (b, viacur) = if r.chance(1, 3) { (cb.as_ref().map_or(0, |b| b.block_id), true) } else { (b, false) };
                what = format!("add block {b} to list {l}{}", if viacur { " (current block)" } else { "" });
                if before.lists.contains_key(&l) && before.blocks.iter().any(|x| x.0 == b) {
                    let mut m = before.clone();
                    m.set(b, Some(l));
                    want = Some(m);
                    obs.hit("added");
                }
                res = if viacur { cur.add_current_block_to_list(l) } else { cur.add_block_to_list(b, l) };
            }
            5 => {
                let b = any_block(&mut r, &before);
                let (b, viacur) = if r.chance(1, 2) { (cb.as_ref().map_or(0, |b| b.block_id), true) } else { (b, false) };
                what = format!("remove block {b} from its list{}", if viacur { " (current block)" } else { "" });
                if before.list_of(b).is_some() {
                    let mut m = before.clone();
                    m.set(b, None);
                    want = Some(m);
                    obs.hit("removed");
                }
                res = if viacur { cur.remove_current_block_from_list() } else { cur.remove_block_from_list(b) };
            }
            6 => {
                let l = any_list(&mut r, &before);
                let items = before.items(l);
                let k = if r.chance(1, 8) { *r.pick(&[items.len(), usize::MAX]) } else { r.below(items.len().max(1)) };
                what = format!("remove item {k} of list {l}");
                if let Some(b) = items.get(k) {
                    let mut m = before.clone();
                    m.set(*b, None);
                    want = Some(m);
                    obs.hit("removed");
                }
                res = cur.remove_list_item(l, k);
            }
            7 | 8 => {
                let viacur = r.chance(1, 3);
                let l = if viacur { cb.as_ref().and_then(|b| before.list_of(b.block_id)).unwrap_or(0) } else { any_list(&mut r, &before) };
                let f = ListFormat {
                    style: r.chance(1, 2).then(|| lstyle(style)),
                    indent: r.chance(1, 2).then(|| r.below(9) as u8),
                    prefix: r.chance(1, 3).then(|| (*r.pick(&["(", "", "§ "])).to_string()),
                    suffix: r.chance(1, 3).then(|| (*r.pick(&[")", "", "."])).to_string()),
                };
                what = format!("set_list_format({l}, {f:?})");
                if let Some(old) = before.lists.get(&l) {
                    let mut m = before.clone();
                    m.lists.insert(
                        l,
                        LF {
                            style: f.style.clone().unwrap_or(old.style.clone()),
                            indent: f.indent.unwrap_or(old.indent),
                            prefix: f.prefix.clone().unwrap_or(old.prefix.clone()),
                            suffix: f.suffix.clone().unwrap_or(old.suffix.clone()),
                        },
                    );
                    want = Some(m);
                    obs.hit("formatted");
                }
                res = if viacur { cur.set_current_list_format(&f) } else { cur.set_list_format(l, &f) };
            }
            _ => {
                cur.set_position(p, MoveMode::MoveAnchor);
                what = format!("split at {p}");
                res = cur.insert_block();
                if let (Some(b), Ok(())) = (&cb, &res) {
                    let ids: Vec<usize> = observe::flat_blocks(&doc.snapshot_flow()).iter().map(|b| b.block_id).collect();
                    let new: Vec<usize> = ids.iter().copied().filter(|i| !texts.contains_key(i)).collect();
                    ensure!(new.len() == 1, "split", "{what}: new blocks {new:?}");
                    let mut m = before.clone();
                    let at = m.blocks.iter().position(|x| x.0 == b.block_id).unwrap();
                    let l = before.list_of(b.block_id);
                    m.blocks.insert(at + 1, (new[0], l));
                    if l.is_some() {
                        obs.hit("split_items");
                    }
                    want = Some(m);
                }
            }
        }
        let Some(mut want) = want else {
            if cb.is_none() {
                return Ok(());
            }
            ensure!(res.is_err(), "accepted", "{what} succeeded");
            if let Some((path, d)) = observe::store_diff(&before_store, &observe::store_of(&doc)) {
                return viol("refused-changed", format!("{what} was refused ({:?}) but changed {path}: {d}", res.err().map(|e| e.to_string())));
            }
            obs.hit("refused");
            continue;
        };
        if let Err(e) = &res {
            return viol("refused", format!("{what} was refused: {e}"));
        }
        if let Some(style) = fresh {
            // the id of the new list is whatever it is, but new
            let id = read(&doc).blocks.iter().zip(&want.blocks).find(|(_, w)| w.1 == Some(usize::MAX)).and_then(|(g, _)| g.1);
            let Some(id) = id else { return viol("no-list", format!("{what}: made no list")) };
            ensure!(!lists_of(&before_store).contains(&id), "reused-list", "{what}: reused list {id}");
            for x in want.blocks.iter_mut().filter(|x| x.1 == Some(usize::MAX)) {
                x.1 = Some(id);
            }
            want.lists.insert(id, LF { style, indent: 0, prefix: String::new(), suffix: String::new() });
        }
        want.prune();
        let ctx = |v: Viol| Viol { msg: format!("after {what}: {}", v.msg), ..v };
        compare(&doc, &want, obs).map_err(ctx)?;
        for (id, t) in &texts {
            if what.starts_with("split") && cb.as_ref().is_some_and(|b| b.block_id == *id) {
                continue;
            }
            let g = doc.block_by_id(*id).map(|b| b.text());
            ensure!(g.as_ref() == Some(t), "text-changed", "{what} changed block {id} from {t:?} to {g:?}");
        }
        done += 1;
        if r.chance(1, 3) {
            doc.undo().or_else(|e| viol("undo", format!("undo of {what}: {e}")))?;
            compare(&doc, &before, obs).map_err(|v| Viol { msg: format!("after undo of {what}: {}", v.msg), ..v })?;
            obs.hit("undone");
            if r.chance(1, 2) {
                model = before;
                continue;
            }
            doc.redo().or_else(|e| viol("undo", format!("redo of {what}: {e}")))?;
            compare(&doc, &want, obs).map_err(|v| Viol { msg: format!("after redo of {what}: {}", v.msg), ..v })?;
        }
        model = want;
    }
    // markers of items far beyond the end
    if let Some((l, f)) = model.lists.iter().next() {
        let h = doc.block_by_id(model.items(*l)[0]).and_then(|b| b.list()).unwrap();
        for _ in 0..4 {
            let k = *r.pick(&[25, 26, 27, 48, 89, 398, 443, 998, 1993, 3887, 3998, 3999, 4000, 1_000_000, usize::MAX - 1, usize::MAX]);
            let k = if r.chance(1, 2) { r.below(4100) } else { k };
            ensure!(h.item_marker(k) == marker(f, k), "marker", "marker {k} of {f:?}: {:?}, expected {:?}", h.item_marker(k), marker(f, k));
            obs.hit("high_markers");
        }
    }
    if done >= 2 {
        obs.distinct(&(case.ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>(), seed));
    }
    Ok(())
}
fn lists_of(s: &observe::Store) -> Vec<usize> {
    s.lists.keys().map(|k| *k as usize).collect()
}
