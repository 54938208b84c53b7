//! Copy and paste: what was selected is what gets inserted.

use super::locality::{B, E, flatten, structured};
use super::markup;
use crate::ensure;
use crate::r#gen::{self, Mix};
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P17",
        quick: 50000,
        thorough: 1500000,
        level: "exploration",
        rule: "Each case builds a formatted source document (paragraphs, headings, lists, quotes, tables) and a target, selects at random, copies and pastes at a random place of the \
               target, of the source itself, or of an empty document. A model computed from the flow snapshot before says what was selected (characters with \
               formats, which paragraphs completely, whole tables) and what must result: the text left of the cursor, the copy, the text right of it, in \
               order, same formats, everything else untouched, the source unchanged by copying. Whole-document fragments, HTML and Markdown fragments and the \
               fragment's own exports are compared with the document they come from. Non-trivial: a non-empty copy was pasted; distinct: by shape of copy and target.",
        assumptions: &[
            "a selection over several cells copies the whole table, and quotes are flattened by copying, as documented in the code",
            "a paragraph is copied with its format when its end is selected, too, or when it is the last one",
            "pasting may leave an empty block of the target before or behind the copy",
            "block formats and lists inside copied table cells are not kept",
        ],
        must_observe: &["copies", "pasted_blocks", "pasted_tables", "pasted_inside_text", "pasted_in_cell", "pasted_in_quote", "full_paragraphs", "list_items", "replaced_cells", "whole_documents", "markup_fragments", "fragment_exports", "replaced_selection"],
        generate: gen_frag,
        run: run_frag,
        workers: 8,
        repeat_on_shrink: 1,
    }]
}

fn source(r: &mut Rng) -> Op {
    match r.below(4) {
        0 => Op::SetMd { t: r#gen::md(r) },
        1 => Op::SetHtml { t: r#gen::html(r) },
        _ => Op::SetHtml { t: structured(r) },
    }
}
fn gen_frag(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let mut ops = vec![source(r)];
    let m = Mix { text: 2, block: 1, bformat: 3, format: 3, list: 3, delete: 1, ..Mix::none() };
    let n = r.below(6);
    ops.extend(r#gen::ops(r, &m, n));
    let kind = ["copy", "copy", "copy", "copy", "whole", "markup"][(i % 6) as usize];
    let texts = match kind {
        "markup" => vec![if r.chance(1, 2) { format!("h{}", r#gen::html(r)) } else { format!("m{}", r#gen::md(r)) }],
        // the target: empty, the source itself, or another document
        _ => vec![["empty", "self", "other"][r.below(3)].to_string(), match source(r) {
            Op::SetMd { t } => format!("m{t}"),
            Op::SetHtml { t } => format!("h{t}"),
            _ => String::new(),
        }],
    };
    Case { kind: kind.into(), ops, texts, nums: (0..8).map(|_| r.next()).collect() }
}

type Chars = Vec<(char, TextFormat)>;
type Li = Option<(ListStyle, u8)>;
#[derive(Clone, Debug)]
enum Item {
    /// looks: None where the paragraph was copied in part
    Block { chars: Chars, bf: Option<BlockFormat>, list: Li },
    Table { shape: String, cells: Vec<(String, Vec<Chars>)> },
}
fn li(b: &B) -> Li {
    b.list.as_ref().map(|l| (l.1.clone(), l.2))
}
fn text(c: &Chars) -> String {
    c.iter().map(|x| x.0).collect()
}
fn inline(i: &Item) -> bool {
    match i {
        Item::Block { bf, list, .. } => {
            list.is_none()
                && bf.as_ref().is_none_or(|b| {
                    let mut b = b.clone();
                    if b.indent == Some(0) {
                        b.indent = None;
                    }
                    if b.text_indent == Some(0) {
                        b.text_indent = None;
                    }
                    b == BlockFormat::default()
                })
        }
        _ => false,
    }
}
/// Fold table entries of a flattened flow into items; frames disappear.
fn items(v: &[E]) -> Vec<(Item, Option<B>)> {
    let mut out: Vec<(Item, Option<B>)> = vec![];
    let mut open: Option<(String, Vec<(String, Vec<Chars>)>)> = None;
    for e in v {
        match e {
            E::Mark(0, s) if s.starts_with("table end") => {
                if let Some((shape, cells)) = open.take() {
                    out.push((Item::Table { shape, cells }, None));
                }
            }
            E::Mark(0, s) if s.starts_with("table ") => {
                // column widths of zero are unset ones
                let s = s.splitn(3, ' ').nth(2).unwrap_or("");
                let unset = s.rsplit_once(" [").is_some_and(|(_, w)| w.chars().all(|c| "0, ]".contains(c)));
                open = Some((if unset { s.rsplit_once(" [").unwrap().0 } else { s }.to_string(), vec![]))
            }
            E::Mark(0, s) => {
                if let Some(o) = open.as_mut() {
                    o.1.push((s.clone(), vec![]));
                }
            }
            E::Mark(..) => {}
            E::Block(b) => match open.as_mut() {
                Some(o) => o.1.last_mut().unwrap().1.push(b.chars.clone()),
                None => out.push((Item::Block { chars: b.chars.clone(), bf: Some(b.bf.clone()), list: li(b) }, Some(b.clone()))),
            },
        }
    }
    out
}
/// What copying the range takes.
fn model_copy(v: &[E], s: usize, e: usize) -> Vec<Item> {
    let last = v.iter().filter_map(|x| if let E::Block(b) = x { Some(b) } else { None }).max_by_key(|b| b.at.0).map(|b| b.id);
    let touched = |b: &B| b.at.1 >= s && b.at.0 < e;
    // which cell is each touched block in?
    let mut cells: Vec<Option<usize>> = vec![];
    let mut cell = None;
    let mut depth = 0;
    for (i, x) in v.iter().enumerate() {
        match x {
            E::Mark(0, m) if m.starts_with("table end") => {
                cell = None;
                depth -= 1;
            }
            E::Mark(0, m) if m.starts_with("table ") => depth += 1,
            E::Mark(0, _) => cell = Some(i),
            E::Block(b) if touched(b) => cells.push(cell),
            _ => {}
        }
    }
    let _ = depth;
    let cross = cells.windows(2).any(|w| w[0] != w[1]);
    let slice = |b: &B| {
        let (x, y) = (s.saturating_sub(b.at.0), (e.min(b.at.1)) - b.at.0);
        let full = x == 0 && y == b.at.1 - b.at.0 && (e > b.at.1 || last == Some(b.id));
        Item::Block {
            chars: b.chars[x.min(b.chars.len())..y.min(b.chars.len())].to_vec(),
            bf: full.then(|| b.bf.clone()),
            list: if full { li(b) } else { None },
        }
    };
    let mut out = vec![];
    if !cross {
        for x in v {
            if let E::Block(b) = x {
                if touched(b) {
                    out.push(slice(b));
                }
            }
        }
        return out;
    }
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            E::Mark(0, _) => {
                let end = i + v[i..].iter().position(|x| matches!(x, E::Mark(0, m) if m.starts_with("table end"))).unwrap_or(v.len() - 1 - i);
                if v[i..end].iter().any(|x| matches!(x, E::Block(b) if touched(b))) {
                    out.extend(items(&v[i..=end]).into_iter().map(|x| x.0));
                }
                i = end;
            }
            E::Block(b) if touched(b) => out.push(slice(b)),
            _ => {}
        }
        i += 1;
    }
    out
}
fn plain(v: &[Item]) -> String {
    let mut l = vec![];
    for i in v {
        match i {
            Item::Block { chars, .. } => l.push(text(chars)),
            Item::Table { cells, .. } => cells.iter().for_each(|c| c.1.iter().for_each(|b| l.push(text(b)))),
        }
    }
    l.join("\n")
}

/// What one entry of the pasted region must be.
#[derive(Clone, Debug)]
enum Want {
    Block { chars: Chars, bf: Option<BlockFormat>, list: Option<Li> },
    Table { shape: String, cells: Vec<(String, Vec<Chars>)> },
}
fn want(i: &Item) -> Want {
    match i {
        Item::Block { chars, bf, list } => Want::Block { chars: chars.clone(), bf: bf.clone().map(norm), list: bf.as_ref().map(|_| list.clone()) },
        Item::Table { shape, cells } => Want::Table { shape: shape.clone(), cells: cells.clone() },
    }
}
fn norm(b: BlockFormat) -> BlockFormat {
    b
}
/// Every admissible result of pasting `copy` between `left` and `right` of block `t`.
fn candidates(copy: &[Item], left: &Chars, right: &Chars, t: &B) -> Vec<Vec<Want>> {
    let tbf = Some(norm(t.bf.clone()));
    let own = |chars: Chars| Want::Block { chars, bf: tbf.clone(), list: Some(li(t)) };
    let cat = |a: &Chars, b: &Chars| a.iter().chain(b).cloned().collect::<Chars>();
    let chars_of = |i: &Item| if let Item::Block { chars, .. } = i { chars.clone() } else { vec![] };
    if copy.iter().all(|i| matches!(i, Item::Table { .. })) {
        let block = own(cat(left, right));
        let tables: Vec<Want> = copy.iter().map(want).collect();
        let mut v = vec![];
        if !left.is_empty() || right.is_empty() {
            v.push([vec![block.clone()], tables.clone()].concat());
        }
        if left.is_empty() {
            v.push([tables, vec![block]].concat());
        }
        return v;
    }
    if copy.len() == 1 && inline(&copy[0]) {
        return vec![vec![own(cat(&cat(left, &chars_of(&copy[0])), right))]];
    }
    let (first, last) = (&copy[0], &copy[copy.len() - 1]);
    let mut heads: Vec<Vec<Want>> = vec![];
    if inline(first) {
        let c = cat(left, &chars_of(first));
        heads.push(vec![if left.is_empty() { Want::Block { chars: c, bf: None, list: None } } else { own(c) }]);
    } else {
        if left.is_empty() {
            heads.push(vec![want(first)]);
        }
        if !left.is_empty() || matches!(first, Item::Table { .. }) {
            heads.push(vec![own(left.clone()), want(first)]);
        }
    }
    let mut tails: Vec<Vec<Want>> = vec![];
    let rest = |v: Vec<Want>, tails: &mut Vec<Vec<Want>>| {
        let mut w = v.clone();
        w.push(own(right.clone()));
        if right.is_empty() {
            tails.push(v);
            let mut w2 = w.clone();
            *w2.last_mut().unwrap() = Want::Block { chars: vec![], bf: None, list: None };
            tails.push(w2);
        } else {
            tails.push(w);
        }
    };
    if copy.len() > 1 {
        if inline(last) {
            let c = cat(&chars_of(last), right);
            tails.push(vec![if right.is_empty() { Want::Block { chars: c, bf: None, list: None } } else { own(c) }]);
            if copy.iter().filter(|i| matches!(i, Item::Block { .. })).count() == 1 {
                rest(vec![want(last)], &mut tails);
            }
        } else {
            rest(vec![want(last)], &mut tails);
        }
    } else {
        rest(vec![], &mut tails);
    }
    let mid: Vec<Want> = if copy.len() > 2 { copy[1..copy.len() - 1].iter().map(want).collect() } else { vec![] };
    let mut out = vec![];
    for h in &heads {
        for t in &tails {
            let mut v = h.clone();
            v.extend(mid.clone());
            v.extend(t.clone());
            out.push(v);
        }
    }
    out
}
fn diff(w: &[Want], got: &[Item]) -> Option<String> {
    for (i, (w, g)) in w.iter().zip(got).enumerate() {
        match (w, g) {
            (Want::Block { chars, bf, list }, Item::Block { chars: c, bf: b, list: l }) => {
                if text(chars) != text(c) {
                    return Some(format!("text|block {i} is {:?}, expected {:?}", text(c), text(chars)));
                }
                if let Some(k) = (0..c.len()).find(|k| chars[*k].1 != c[*k].1) {
                    return Some(format!("char-format|block {i} {:?} character {k}: format {:?}, expected {:?}", text(c), c[k].1, chars[k].1));
                }
                if list.as_ref().is_some_and(|x| x != l) {
                    return Some(format!("list|block {i} {:?}: list {l:?}, expected {list:?}", text(c)));
                }
                if bf.is_some() && bf != b {
                    return Some(format!("block-format|block {i} {:?}: {b:?}, expected {bf:?}", text(c)));
                }
            }
            (Want::Table { shape, cells }, Item::Table { shape: s, cells: c }) => {
                if shape != s {
                    return Some(format!("table|item {i}: table {s}, expected {shape}"));
                }
                if cells != c {
                    let k = (0..cells.len().min(c.len())).find(|k| cells[*k] != c[*k]);
                    let show = |x: &Vec<(String, Vec<Chars>)>| k.and_then(|k| x.get(k)).map(|c| format!("{} {:?}", c.0, c.1.iter().map(text).collect::<Vec<_>>()));
                    return Some(format!("cells|item {i}: cell {k:?} {:?}, expected {:?}", show(c), show(cells)));
                }
            }
            (w, g) => return Some(format!("order|item {i}: {}, expected {}", brief(g), matches!(w, Want::Table { .. }).then_some("a table").unwrap_or("a block"))),
        }
    }
    if w.len() != got.len() {
        return Some(format!("count|{} items, expected {}: {:?}", got.len(), w.len(), got.iter().map(brief).collect::<Vec<_>>()));
    }
    None
}
fn brief(i: &Item) -> String {
    match i {
        Item::Block { chars, .. } => format!("{:?}", text(chars)),
        Item::Table { shape, .. } => format!("table {}", shape.chars().take(6).collect::<String>()),
    }
}

fn flow(doc: &TextDocument) -> Vec<E> {
    let mut v = vec![];
    flatten(&doc.snapshot_flow().elements, &mut v);
    v
}
fn target(spec: &str) -> Env {
    let mut e = Env::new();
    if let Some(t) = spec.strip_prefix('m') {
        e.apply(&Op::SetMd { t: t.into() });
    } else if let Some(t) = spec.strip_prefix('h') {
        e.apply(&Op::SetHtml { t: t.into() });
    }
    e
}

fn run_frag(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    for op in &c.ops {
        env.apply(op);
    }
    let n = |i: usize| c.nums.get(i).copied().unwrap_or(0) as usize;
    match c.kind.as_str() {
        "copy" => run_copy(c, env, &n, obs),
        "whole" => run_whole(env, obs),
        _ => run_markup(c, obs),
    }
}

fn run_copy(c: &Case, env: Env, n: &dyn Fn(usize) -> usize, obs: &mut Obs) -> Verdict {
    let max = max_pos(&env.doc);
    let a = n(0) % (max + 1);
    let b = if n(2) % 2 == 0 { (a + n(1) % 12).min(max) } else { n(1) % (max + 1) };
    let src = env.doc.cursor_at(a);
    src.set_position(b, MoveMode::KeepAnchor);
    let pre = flow(&env.doc);
    let (s, e) = match src.selection_kind() {
        SelectionKind::None => return Ok(()),
        SelectionKind::Text => (src.selection_start(), src.selection_end()),
        kind => {
            let (range, before, after) = match &kind {
                SelectionKind::Cells(r) => (r.clone(), false, false),
                SelectionKind::Mixed { cell_range, text_before, text_after } => (cell_range.clone(), *text_before, *text_after),
                _ => unreachable!(),
            };
            // every cell the selection covers
            let (mut lo, mut hi) = (usize::MAX, 0);
            let (mut tab, mut inside) = (false, false);
            for x in &pre {
                match x {
                    E::Mark(0, m) if m.starts_with("table end") => (tab, inside) = (false, false),
                    E::Mark(0, m) if m.starts_with("table ") => tab = m.starts_with(&format!("table {} ", range.table_id)),
                    E::Mark(0, m) => {
                        let mut p = m.split([' ', ',']).skip(1).map(|x| x.parse::<usize>().unwrap_or(0));
                        let (r, k) = (p.next().unwrap(), p.next().unwrap());
                        inside = tab && (range.start_row..=range.end_row).contains(&r) && (range.start_col..=range.end_col).contains(&k);
                    }
                    E::Block(b) if inside => {
                        lo = lo.min(b.at.0);
                        hi = hi.max(b.at.1 + 1);
                    }
                    _ => {}
                }
            }
            if lo > hi {
                return Ok(());
            }
            (if before { src.selection_start().min(lo) } else { lo }, if after { src.selection_end().max(hi) } else { hi })
        }
    };
    let copy = if s == e { vec![] } else { model_copy(&pre, s, e) };
    let frag = src.selection();
    ensure!(flow(&env.doc) == pre, "copy-changes", "copying {s}..{e} changed the document");
    ensure!(frag.is_empty() == plain(&copy).is_empty() || !frag.is_empty(), "copy-empty", "copying {s}..{e} gives an empty fragment, expected {:?}", plain(&copy));
    if frag.is_empty() || copy.is_empty() {
        return Ok(());
    }
    obs.hit("copies");
    ensure!(frag.to_plain_text() == plain(&copy), "copy-text", "the copy of {s}..{e} ({:?}) reads {:?}, expected {:?}", src.selection_kind(), frag.to_plain_text(), plain(&copy));
    for i in &copy {
        if let Item::Block { bf: Some(_), list, .. } = i {
            obs.hit("full_paragraphs");
            if list.is_some() {
                obs.hit("list_items");
            }
        }
    }
    let spec = c.texts.first().map(|s| s.as_str()).unwrap_or("empty");
    let same_doc = spec == "self";
    let mut tgt = if same_doc { env } else { target(if spec == "other" { c.texts.get(1).map(|s| s.as_str()).unwrap_or("") } else { "" }) };
    // the target cursor, sometimes with a selection inside one block
    let tpre = flow(&tgt.doc);
    let blocks: Vec<&B> = tpre.iter().filter_map(|x| if let E::Block(b) = x { Some(b) } else { None }).collect();
    if blocks.is_empty() {
        return Ok(());
    }
    tgt.clip = Some(frag.clone());
    let t = blocks[n(3) % blocks.len()].clone();
    let len = t.chars.len();
    tgt.apply(&Op::Pos { c: 0, p: t.at.0 + n(4) % (len + 1), keep: false });
    if n(5) % 4 == 0 && len > 0 {
        tgt.apply(&Op::Pos { c: 0, p: t.at.0 + n(6) % (len + 1), keep: true });
    }
    let (lo, hi) = (tgt.cur(0).selection_start(), tgt.cur(0).selection_end());
    if lo < t.at.0 || hi > t.at.1 {
        return Ok(()); // snapped out of the block
    }
    let (left, right) = (t.chars[..(lo - t.at.0).min(len)].to_vec(), t.chars[(hi - t.at.0).min(len)..].to_vec());
    let k = tpre.iter().position(|x| matches!(x, E::Block(b) if b.id == t.id)).unwrap();
    let in_cell = tpre[..k].iter().rev().find_map(|x| match x {
        E::Mark(0, m) if m.starts_with("cell ") => Some(true),
        E::Mark(..) => Some(false),
        _ => None,
    }) == Some(true);
    let has_table = copy.iter().any(|i| matches!(i, Item::Table { .. }));
    let fits = tgt.fits_cells(0);
    let out = tgt.apply(&Op::Paste { c: 0 });
    let post = flow(&tgt.doc);
    if matches!(out, Out::Skip) {
        ensure!(post == tpre, "harness", "a skipped paste changed something");
        return Ok(());
    }
    ensure!(out.is_ok(), "refused", "pasting {:?} at {lo}..{hi} fails: {out:?}", frag.to_plain_text());
    if lo != hi {
        obs.hit("replaced_selection");
    }
    obs.distinct(&(copy.iter().map(|i| (matches!(i, Item::Table { .. }), inline(i))).collect::<Vec<_>>(), left.is_empty(), right.is_empty(), in_cell, tpre.len(), k));
    if in_cell && fits && has_table {
        obs.hit("replaced_cells");
        return replaced_cells(&copy, &tpre, &post, k);
    }
    if in_cell && has_table {
        return Ok(());
    }
    // everything before and behind the block must be as it was
    let tail_n = tpre.len() - 1 - k;
    ensure!(post.len() > tail_n + k, "lost", "pasting lost entries of the flow: {} before, {} after", tpre.len(), post.len());
    for (i, (x, y)) in tpre[..k].iter().zip(&post).enumerate() {
        ensure!(x == y, "bystander", "entry {i} before the place of pasting changed: {x:?} became {y:?}");
    }
    for (i, (x, y)) in tpre[k + 1..].iter().zip(&post[post.len() - tail_n..]).enumerate() {
        ensure!(x == y, "bystander", "entry {i} behind the place of pasting changed: {x:?} became {y:?}");
    }
    let mid = &post[k..post.len() - tail_n];
    let conts: Vec<_> = {
        let mut depth = 0;
        mid.iter()
            .filter_map(|x| match x {
                E::Mark(0, m) if m.starts_with("table end") => {
                    depth -= 1;
                    None
                }
                E::Mark(0, m) if m.starts_with("table ") => {
                    depth += 1;
                    None
                }
                E::Block(b) if depth == 0 => Some(b.cont),
                _ => None,
            })
            .collect()
    };
    ensure!(conts.iter().all(|x| *x == t.cont), "container", "pasting into frame {:?} put blocks into {conts:?}", t.cont);
    let got: Vec<Item> = items(mid).into_iter().map(|x| x.0).collect();
    let cands = candidates(&copy, &left, &right, &t);
    let mut why = vec![];
    for w in &cands {
        match diff(w, &got) {
            None => {
                why.clear();
                break;
            }
            Some(m) => why.push(m),
        }
    }
    if let Some(first) = why.iter().max_by_key(|m| !m.starts_with("count") as usize * 2 + !m.starts_with("order") as usize) {
        let (sig, m) = first.split_once('|').unwrap();
        return viol(format!("paste-{sig}"), format!("pasting {:?} into {:?}|{:?}: {m}; got {:?}", copy.iter().map(brief).collect::<Vec<_>>(), text(&left), text(&right), got.iter().map(brief).collect::<Vec<_>>()));
    }
    for g in &got {
        obs.hit(if matches!(g, Item::Table { .. }) { "pasted_tables" } else { "pasted_blocks" });
    }
    if !left.is_empty() && !right.is_empty() {
        obs.hit("pasted_inside_text");
    }
    if in_cell {
        obs.hit("pasted_in_cell");
    } else if tpre.iter().any(|x| matches!(x, E::Mark(id, _) if Some(*id) == t.cont)) {
        obs.hit("pasted_in_quote");
    }
    // the cursor ends up behind the copy
    if !has_table {
        let cur = tgt.cur(0);
        let p = cur.position();
        ensure!(p == cur.anchor(), "cursor-selects", "after pasting the cursor selects {}..{p}", cur.anchor());
        let before: usize = mid.iter().filter_map(|x| if let E::Block(b) = x { Some(p.saturating_sub(b.at.0).min(b.chars.len())) } else { None }).sum();
        let want = left.len() + copy.iter().map(|i| if let Item::Block { chars, .. } = i { chars.len() } else { 0 }).sum::<usize>();
        ensure!(before == want, "cursor-place", "after pasting {:?} into {:?}|{:?} the cursor at {p} has {before} characters of the place before it, expected {want}", plain(&copy), text(&left), text(&right));
    }
    Ok(())
}

/// A table pasted into cells of a table replaces their content.
fn replaced_cells(copy: &[Item], pre: &[E], post: &[E], k: usize) -> Verdict {
    let Some(Item::Table { cells, .. }) = copy.first() else { return viol("harness", "no table in a table copy") };
    let rc = |m: &str| {
        let mut p = m.split([' ', ',']).skip(1).map(|x| x.parse::<usize>().unwrap_or(0));
        (p.next().unwrap(), p.next().unwrap())
    };
    let base = pre[..k].iter().rev().find_map(|x| match x {
        E::Mark(0, m) if m.starts_with("cell ") => Some(rc(m)),
        _ => None,
    });
    let Some((r0, c0)) = base else { return viol("harness", "not in a cell") };
    let tid = |v: &[E], k: usize| v[..k].iter().filter(|x| matches!(x, E::Mark(0, m) if m.starts_with("table ") && !m.starts_with("table end"))).count();
    // group a flow into (mark, blocks) with the ordinal of the table
    let group = |v: &[E]| {
        let mut g: Vec<(usize, String, Vec<(Chars, usize)>)> = vec![];
        let mut tables = 0;
        for x in v {
            match x {
                E::Mark(_, m) => {
                    if m.starts_with("table ") && !m.starts_with("table end") {
                        tables += 1;
                    }
                    g.push((tables, m.clone(), vec![]));
                }
                E::Block(b) => {
                    if g.is_empty() {
                        g.push((0, String::new(), vec![]));
                    }
                    g.last_mut().unwrap().2.push((b.chars.clone(), b.id));
                }
            }
        }
        g
    };
    let (a, b) = (group(pre), group(post));
    ensure!(a.len() == b.len(), "cells-shape", "pasting cells into cells changed the shape of the flow: {} marks became {}", a.len(), b.len());
    let t = tid(pre, k);
    for (x, y) in a.iter().zip(&b) {
        ensure!(x.1 == y.1, "cells-shape", "pasting cells into cells turned {} into {}", x.1, y.1);
        let want = (x.0 == t && x.1.starts_with("cell ")).then(|| rc(&x.1)).and_then(|(r, c)| {
            cells.iter().find(|q| {
                let (qr, qc) = rc(&q.0);
                (r0 + qr, c0 + qc) == (r, c)
            })
        });
        let got: Vec<Chars> = y.2.iter().map(|q| q.0.clone()).collect();
        match want {
            Some(w) => {
                let w2 = if w.1.is_empty() { vec![vec![]] } else { w.1.clone() };
                ensure!(got == w2, "cells-content", "{}: holds {:?} after pasting, expected {:?}", x.1, got.iter().map(text).collect::<Vec<_>>(), w2.iter().map(text).collect::<Vec<_>>());
            }
            None => ensure!(x.2 == y.2, "cells-bystander", "{}: changed from {:?} to {:?}", x.1, x.2.iter().map(|q| text(&q.0)).collect::<Vec<_>>(), got.iter().map(text).collect::<Vec<_>>()),
        }
    }
    Ok(())
}

fn run_whole(env: Env, obs: &mut Obs) -> Verdict {
    let src = flow(&env.doc);
    let frag = match DocumentFragment::from_document(&env.doc) {
        Ok(f) => f,
        Err(e) => return viol("whole-refused", format!("from_document fails: {e:#}")),
    };
    ensure!(flow(&env.doc) == src, "copy-changes", "from_document changed the document");
    let want: Vec<Item> = items(&src).into_iter().map(|x| x.0).collect();
    if plain(&want).is_empty() {
        return Ok(());
    }
    ensure!(frag.to_plain_text() == plain(&want), "whole-text", "from_document reads {:?}, expected {:?}", frag.to_plain_text(), plain(&want));
    let mut t = Env::new();
    t.clip = Some(frag);
    let out = t.apply(&Op::Paste { c: 0 });
    ensure!(out.is_ok(), "whole-refused", "pasting a whole document fails: {out:?}");
    let got: Vec<Item> = items(&flow(&t.doc)).into_iter().map(|x| x.0).collect();
    let b = B { id: 0, cont: None, chars: vec![], bf: BlockFormat::default(), list: None, at: super::locality::Pos(0, 0) };
    let why: Vec<String> = candidates(&want, &vec![], &vec![], &b).iter().map(|w| diff(w, &got)).take_while(|d| d.is_some()).flatten().collect();
    let cands = candidates(&want, &vec![], &vec![], &b).len();
    if why.len() == cands {
        let (sig, m) = why[0].split_once('|').unwrap();
        return viol(format!("whole-{sig}"), format!("a document copied as a whole: {m}; got {:?}", got.iter().map(brief).collect::<Vec<_>>()));
    }
    obs.hit("whole_documents");
    obs.distinct(&("whole", want.iter().map(|i| (matches!(i, Item::Table { .. }), inline(i))).collect::<Vec<_>>()));
    Ok(())
}

fn run_markup(c: &Case, obs: &mut Obs) -> Verdict {
    let spec = c.texts.first().map(|s| s.as_str()).unwrap_or("");
    let reference = target(spec);
    let frag = match spec.split_at_checked(1) {
        Some(("h", t)) => DocumentFragment::from_html(t),
        Some(("m", t)) => DocumentFragment::from_markdown(t),
        _ => return Ok(()),
    };
    let want: Vec<Item> = items(&flow(&reference.doc)).into_iter().map(|x| x.0).collect();
    if plain(&want).is_empty() || frag.is_empty() {
        return Ok(());
    }
    let mut t = Env::new();
    t.clip = Some(frag.clone());
    let out = t.apply(&Op::Paste { c: 0 });
    ensure!(out.is_ok(), "markup-refused", "pasting {spec:?} fails: {out:?}");
    let got: Vec<Item> = items(&flow(&t.doc)).into_iter().map(|x| x.0).collect();
    let b = B { id: 0, cont: None, chars: vec![], bf: BlockFormat::default(), list: None, at: super::locality::Pos(0, 0) };
    let cs = candidates(&want, &vec![], &vec![], &b);
    let why: Vec<String> = cs.iter().filter_map(|w| diff(w, &got)).collect();
    if why.len() == cs.len() {
        let (sig, m) = why[0].split_once('|').unwrap();
        return viol(format!("markup-{sig}"), format!("pasting the markup {spec:?} differs from importing it: {m}; got {:?}", got.iter().map(brief).collect::<Vec<_>>()));
    }
    obs.hit("markup_fragments");
    obs.distinct(&("markup", spec));
    // the fragment's own HTML says the same
    let html = frag.to_html();
    let mut h = Env::new();
    let r = h.apply(&Op::SetHtml { t: html.clone() });
    ensure!(r.is_ok(), "export-refused", "importing the HTML of a fragment fails: {r:?}");
    // (an empty paragraph may be the one which was pasted into)
    let nodes = |d: &TextDocument| markup::read(d).into_iter().map(|x| x.0).filter(|n| !matches!(n, markup::Node::Block { runs, .. } if runs.is_empty())).collect::<Vec<_>>();
    markup::same(&nodes(&h.doc), &nodes(&t.doc), "export-html", &format!("fragment of {spec:?} exported as {html}"))?;
    obs.hit("fragment_exports");
    Ok(())
}
