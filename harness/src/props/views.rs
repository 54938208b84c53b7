//! Every public way to read the document gives the same answer.

use crate::ensure;
use crate::r#gen;
use crate::observe;
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P06",
        quick: 60000,
        thorough: 1500000,
        level: "exploration",
        rule: "Each case builds a document by import and a random history over the whole editing vocabulary (tables, nested frames, lists, \
               undo and redo included). After every third operation and at the end, all public readers are compared with one another: flow \
               snapshot, live flow, block handles and their snapshots, point and range lookups at random positions, text ranges, statistics, \
               table, cell and list handles, markers, element lookups and the plain text. Non-trivial: at least one comparison of a document \
               with two or more blocks; distinct: by operation list.",
        assumptions: &["a position between two blocks belongs to the next block for block lookups by position, as documented"],
        must_observe: &["blocks_compared", "point_lookups", "range_lookups", "table_cells_compared", "list_items_compared", "elements_located", "fragments_compared", "nested_documents"],
        generate: gen_views,
        run: run_views,
        workers: 8,
        repeat_on_shrink: 1,
    }]
}

fn gen_views(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let mut ops = super::undo::start(r);
    if r.chance(1, 12) {
        // runs of more than 255 characters
        let n = r.range(40, 120);
        let t = (0..n).map(|_| r#gen::word(r)).collect::<Vec<_>>().join(" ");
        ops.push(Op::Text { c: 0, t });
    }
    let n = super::undo::length(r);
    ops.extend(r#gen::ops(r, &super::undo::general_mix(i), n));
    Case { kind: "views".into(), ops, nums: vec![r.next()], ..Default::default() }
}

fn run_views(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    let mut rng = Rng::new(c.nums.first().copied().unwrap_or(1));
    let mut big = false;
    for (i, op) in c.ops.iter().enumerate() {
        env.apply(op);
        if i % 3 == 2 || i + 1 == c.ops.len() {
            big |= check(&env.doc, &mut rng, obs)? > 1;
        }
    }
    if big {
        obs.distinct(&format!("{:?}", c.ops));
    }
    Ok(())
}

fn roman(n: usize) -> String {
    let mut s = String::new();
    let mut n = n;
    for (v, t) in [(1000, "m"), (900, "cm"), (500, "d"), (400, "cd"), (100, "c"), (90, "xc"), (50, "l"), (40, "xl"), (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")] {
        while n >= v {
            s.push_str(t);
            n -= v;
        }
    }
    s
}
pub fn marker(f: &ListFormat, index: usize) -> String {
    let n = index + 1;
    let alpha = |b: u8| if n <= 26 { ((b + n as u8 - 1) as char).to_string() } else { n.to_string() };
    let body = match f.style.clone().unwrap_or(ListStyle::Disc) {
        ListStyle::Disc => "•".into(),
        ListStyle::Circle => "◦".into(),
        ListStyle::Square => "▪".into(),
        ListStyle::Decimal => n.to_string(),
        ListStyle::LowerAlpha => alpha(b'a'),
        ListStyle::UpperAlpha => alpha(b'A'),
        ListStyle::LowerRoman => roman(n),
        ListStyle::UpperRoman => roman(n).to_uppercase(),
    };
    format!("{}{}{}", f.prefix.clone().unwrap_or_default(), body, f.suffix.clone().unwrap_or_default())
}

/// Compare all readers; returns the number of blocks.
pub fn check(doc: &TextDocument, rng: &mut Rng, obs: &mut Obs) -> std::result::Result<usize, Viol> {
    let snap = doc.snapshot_flow();
    let bs = observe::flat_blocks(&snap);
    // positions: the blocks tile the document
    let mut pos = 0;
    for (i, b) in bs.iter().enumerate() {
        ensure!(b.position == pos, "tiling", "block {i} {:?} of the flow starts at {}, expected {pos}", b.text, b.position);
        let n = b.text.chars().count();
        ensure!(b.length == n, "length", "block {i} {:?} has length {}, its text has {n} characters", b.text, b.length);
        pos += b.length + 1;
    }
    let total = pos.saturating_sub(1);
    let flat: Vec<char> = bs.iter().map(|b| b.text.as_str()).collect::<Vec<_>>().join("\n").chars().collect();
    // block handles
    let hs = doc.blocks();
    ensure!(hs.len() == bs.len(), "blocks", "blocks() lists {} blocks, the flow holds {}", hs.len(), bs.len());
    let st = doc.stats();
    ensure!(st.block_count == bs.len() && doc.block_count() == bs.len(), "stats", "block count {} / {}, the flow holds {}", st.block_count, doc.block_count(), bs.len());
    let cc: usize = bs.iter().map(|b| b.length).sum();
    ensure!(st.character_count == cc && doc.character_count() == cc, "stats", "character count {} / {}, the blocks hold {cc}", st.character_count, doc.character_count());
    ensure!(doc.is_empty() == (cc == 0), "stats", "is_empty() is {} with {cc} characters", doc.is_empty());
    let wc: usize = bs.iter().map(|b| b.text.split_whitespace().count()).sum();
    ensure!(st.word_count == wc, "stats", "word count {}, the blocks hold {wc}", st.word_count);
    for (i, (h, b)) in hs.iter().zip(&bs).enumerate() {
        ensure!(h.id() == b.block_id, "block-order", "block {i} by position has id {}, in the flow {}", h.id(), b.block_id);
        ensure!(h.text() == b.text && h.length() == b.length && h.position() == b.position && h.is_valid() && h.is_empty() == (b.length == 0), "block-handle",
            "block {i}: handle says {:?} {} at {}, the flow {:?} {} at {}", h.text(), h.length(), h.position(), b.text, b.length, b.position);
        ensure!(h.block_format() == b.block_format, "block-format", "block {i}: {:?} / {:?}", h.block_format(), b.block_format);
        ensure!(h.fragments() == b.fragments, "fragments", "block {i}: {:?} / {:?}", h.fragments(), b.fragments);
        ensure!(Some(h.frame().id()) == b.parent_frame_id, "frame", "block {i}: frame {} / {:?}", h.frame().id(), b.parent_frame_id);
        let cell = h.table_cell().map(|c| (c.table.id(), c.row, c.column));
        let bc = b.table_cell.as_ref().map(|c| (c.table_id, c.row, c.column));
        ensure!(cell == bc, "table-cell", "block {i}: cell {cell:?} / {bc:?}");
        ensure!(h.list().map(|l| l.id()) == b.list_info.as_ref().map(|l| l.list_id), "list", "block {i}: list membership differs");
        ensure!(h.list_item_index() == b.list_info.as_ref().map(|l| l.item_index), "list", "block {i}: item index {:?} / {:?}", h.list_item_index(), b.list_info);
        obs.hit("blocks_compared");
    }
    if !bs.is_empty() {
        for _ in 0..3 {
            let i = rng.below(bs.len());
            let (h, b) = (&hs[i], &bs[i]);
            ensure!(h.snapshot() == *b, "block-snapshot", "block {i}: {:?} / {b:?}", h.snapshot());
            ensure!(h.block_number() == i, "block-number", "block {i} says it is number {}", h.block_number());
            ensure!(h.next().map(|x| x.id()) == bs.get(i + 1).map(|x| x.block_id), "next", "block {i}: next is {:?}", h.next().map(|x| x.id()));
            ensure!(h.previous().map(|x| x.id()) == i.checked_sub(1).map(|k| bs[k].block_id), "previous", "block {i}: previous is {:?}", h.previous().map(|x| x.id()));
            ensure!(doc.block_by_number(i).map(|x| x.id()) == Some(b.block_id), "by-number", "block_by_number({i})");
            ensure!(doc.block_by_id(b.block_id).map(|x| x.text()) == Some(b.text.clone()), "by-id", "block_by_id({})", b.block_id);
            if b.length > 0 {
                let off = rng.below(b.length);
                let want = b.fragments.iter().find_map(|f| match f {
                    FragmentContent::Text { offset, length, format, .. } => (*offset <= off && off < offset + length).then(|| format.clone()),
                    FragmentContent::Image { offset, format, .. } => (*offset == off).then(|| format.clone()),
                });
                ensure!(h.char_format_at(off) == want, "char-format", "block {i} offset {off}: {:?} / {want:?}", h.char_format_at(off));
            }
            ensure!(h.char_format_at(b.length).is_none(), "char-format", "block {i}: a format behind the end");
        }
        ensure!(doc.block_by_number(bs.len()).is_none(), "by-number", "block_by_number behind the last block");
        // fragments: without gaps, with their word starts, each under an identifier of its own
        let mut ids = std::collections::HashSet::new();
        for (i, b) in bs.iter().enumerate() {
            let v = super::highlight::chars_of(&b.fragments).map_err(|m| Viol { sig: "fragments".into(), msg: format!("block {i}: {m}") })?;
            ensure!(v.len() == b.length, "fragments", "block {i}: the fragments hold {} characters, its length is {}", v.len(), b.length);
            if v.iter().all(|x| x.0.is_some()) {
                let t: String = v.iter().filter_map(|x| x.0).collect();
                ensure!(t == b.text, "fragments", "block {i}: the fragments hold {t:?}, the block {:?}", b.text);
            }
            for f in &b.fragments {
                let (FragmentContent::Text { element_id, .. } | FragmentContent::Image { element_id, .. }) = f;
                ensure!(ids.insert(*element_id), "element-id", "block {i}: the identifier {element_id} of {f:?} is that of another fragment");
                obs.hit("fragments_compared");
            }
        }
        // point lookups
        for _ in 0..4 {
            let p = rng.below(total + 1);
            // the block whose text or end lies at p
            let k = bs.iter().position(|b| b.position <= p && p <= b.position + b.length).unwrap();
            let next = if bs[k].length > 0 && p == bs[k].position + bs[k].length && k + 1 < bs.len() { k + 1 } else { k };
            let s = doc.snapshot_block_at_position(p);
            ensure!(s.as_ref() == Some(&bs[k]), "snapshot-at", "snapshot_block_at_position({p}) is {s:?}, expected {:?}", bs[k]);
            let h = doc.block_at_position(p).map(|b| b.id());
            ensure!(h == Some(bs[next].block_id), "block-at", "block_at_position({p}) is {h:?}, expected {} (block {next})", bs[next].block_id);
            let info = doc.block_at(p).map_err(|e| Viol { sig: "block-at".into(), msg: format!("block_at({p}): {e}") })?;
            ensure!(info == BlockInfo { block_id: bs[next].block_id, block_number: next, start: bs[next].position, length: bs[next].length }, "block-at", "block_at({p}) is {info:?}, expected block {next} at {}", bs[next].position);
            let f = doc.block_format_at(p).ok();
            ensure!(f.as_ref() == Some(&bs[next].block_format), "block-format-at", "block_format_at({p}) is {f:?}");
            let len = rng.below(total + 3);
            let t = doc.text_at(p, len).map_err(|e| Viol { sig: "text-at".into(), msg: format!("text_at({p},{len}): {e}") })?;
            let want: String = flat[p..(p + len).min(flat.len())].iter().collect();
            ensure!(t == want, "text-at", "text_at({p},{len}) is {t:?}, expected {want:?}");
            // element
            if bs[k].length > 0 {
                let off = p - bs[k].position;
                let want = bs[k].fragments.iter().find_map(|f| {
                    let (o, l, id) = match f {
                        FragmentContent::Text { offset, length, element_id, .. } => (*offset, *length, *element_id),
                        FragmentContent::Image { offset, element_id, .. } => (*offset, 1, *element_id),
                    };
                    ((o < off && off <= o + l) || (off == 0 && o == 0)).then(|| (id, bs[k].position + o, off - o))
                });
                let got = doc.find_element_at_position(p);
                ensure!(got == want, "element", "find_element_at_position({p}) is {got:?}, expected {want:?}");
                obs.hit("elements_located");
            }
            obs.hit("point_lookups");
            // ranges
            let r: Vec<usize> = doc.blocks_in_range(p, len).iter().map(|b| b.id()).collect();
            let e = p + len;
            let hit = |b: &BlockSnapshot| if len == 0 { b.position <= p && p < b.position + b.length } else { b.position < e && b.position + b.length > p };
            let soft = |b: &BlockSnapshot| b.length == 0 && b.position >= p && b.position <= e;
            let must: Vec<usize> = bs.iter().filter(|b| hit(b) && b.length > 0).map(|b| b.block_id).collect();
            let got: Vec<usize> = r.iter().copied().filter(|id| !bs.iter().any(|b| b.block_id == *id && soft(b))).collect();
            ensure!(got == must, "in-range", "blocks_in_range({p},{len}) is {r:?}, expected {must:?}");
            obs.hit("range_lookups");
        }
    }
    // live flow against the snapshot
    flow(&doc.flow(), &snap.elements, obs)?;
    // tables, lists, counts
    let ts = tables(doc);
    ensure!(st.table_count == ts.len(), "stats", "table count {}, there are {}", st.table_count, ts.len());
    let ls = lists(doc);
    ensure!(st.list_count == ls.len(), "stats", "list count {}, there are {}", st.list_count, ls.len());
    ensure!(st.frame_count == frames(doc).len(), "stats", "frame count {}, there are {}", st.frame_count, frames(doc).len());
    // lists
    let mut seen: std::collections::BTreeMap<usize, usize> = Default::default();
    for (i, b) in bs.iter().enumerate() {
        let Some(li) = &b.list_info else { continue };
        let k = seen.entry(li.list_id).or_default();
        let l = hs[i].list().unwrap();
        let f = l.format();
        ensure!(li.item_index == *k, "list-index", "block {i} is item {} of its list, {k} come before it", li.item_index);
        ensure!(Some(li.style.clone()) == f.style && l.style() == li.style && l.indent() == li.indent && f.indent == Some(li.indent) && Some(l.prefix()) == f.prefix && Some(l.suffix()) == f.suffix, "list-format", "block {i}: {li:?} / {f:?}");
        let m = marker(&f, *k);
        ensure!(li.marker == m && l.item_marker(*k) == m, "list-marker", "block {i}: marker {:?} / {:?}, expected {m:?} ({f:?})", li.marker, l.item_marker(*k));
        ensure!(l.item(*k).map(|x| x.id()) == Some(b.block_id), "list-item", "item {k} of list {} is {:?}, expected block {}", li.list_id, l.item(*k).map(|x| x.id()), b.block_id);
        *k += 1;
        obs.hit("list_items_compared");
    }
    for (i, b) in bs.iter().enumerate() {
        if let Some(li) = &b.list_info {
            let l = hs[i].list().unwrap();
            let n = seen[&li.list_id];
            ensure!(l.count() == n && l.item(n).is_none(), "list-count", "list {} counts {}, it has {n} items", li.list_id, l.count());
        }
    }
    // plain text: the same blocks, those of table cells after the rest
    let text = doc.to_plain_text().map_err(|e| Viol { sig: "plain".into(), msg: format!("to_plain_text: {e}") })?;
    let order: Vec<&str> = bs.iter().filter(|b| b.table_cell.is_none()).chain(bs.iter().filter(|b| b.table_cell.is_some())).map(|b| b.text.as_str()).collect();
    if ts.is_empty() {
        ensure!(text == order.join("\n"), "plain", "to_plain_text is {text:?}, the blocks hold {:?}", order.join("\n"));
    } else {
        let sort = |s: &str| {
            let mut v: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
            v.sort();
            v
        };
        ensure!(sort(&text) == sort(&order.join("\n")), "plain", "to_plain_text is {text:?}, the blocks hold {order:?}");
        obs.hit("nested_documents");
    }
    Ok(bs.len())
}

fn flow(live: &[FlowElement], snap: &[FlowElementSnapshot], obs: &mut Obs) -> Verdict {
    ensure!(live.len() == snap.len(), "flow", "live flow has {} elements, the snapshot {}", live.len(), snap.len());
    for (l, s) in live.iter().zip(snap) {
        match (l, s) {
            (FlowElement::Block(b), FlowElementSnapshot::Block(x)) => ensure!(b.id() == x.block_id, "flow", "block {} / {}", b.id(), x.block_id),
            (FlowElement::Frame(f), FlowElementSnapshot::Frame(x)) => {
                ensure!(f.id() == x.frame_id && f.format() == x.format, "flow", "frame {} {:?} / {} {:?}", f.id(), f.format(), x.frame_id, x.format);
                ensure!(f.snapshot() == *x, "frame-snapshot", "frame {}: own snapshot differs from the document's", f.id());
                flow(&f.flow(), &x.elements, obs)?;
                obs.hit("nested_documents");
            }
            (FlowElement::Table(t), FlowElementSnapshot::Table(x)) => {
                ensure!(t.id() == x.table_id && t.rows() == x.rows && t.columns() == x.columns && t.format() == x.format && t.column_widths() == x.column_widths, "table", "table {} {}x{} / {} {}x{}", t.id(), t.rows(), t.columns(), x.table_id, x.rows, x.columns);
                let own = t.snapshot();
                let key = |c: &CellSnapshot| (c.row, c.column);
                let (mut a, mut b) = (own.cells.clone(), x.cells.clone());
                a.sort_by_key(key);
                b.sort_by_key(key);
                ensure!(a == b, "table-snapshot", "table {}: own snapshot differs from the flow's", t.id());
                for c in &x.cells {
                    let Some(h) = t.cell(c.row, c.column) else { return viol("cell", format!("table {} has no cell at {},{}", t.id(), c.row, c.column)) };
                    ensure!((h.row(), h.column(), h.row_span(), h.column_span()) == (c.row, c.column, c.row_span, c.column_span) && h.format() == c.format, "cell", "cell {},{} of table {}", c.row, c.column, t.id());
                    ensure!(h.snapshot_blocks() == c.blocks, "cell-blocks", "cell {},{}: {:?} / {:?}", c.row, c.column, h.snapshot_blocks(), c.blocks);
                    let ids: Vec<usize> = h.blocks().iter().map(|b| b.id()).collect();
                    ensure!(ids == c.blocks.iter().map(|b| b.block_id).collect::<Vec<_>>(), "cell-blocks", "cell {},{}: blocks {ids:?}", c.row, c.column);
                    obs.hit("table_cells_compared");
                }
                ensure!(t.cell(x.rows, 0).is_none() && t.cell(0, x.columns).is_none(), "cell", "table {} has a cell outside its grid", t.id());
                obs.hit("nested_documents");
            }
            _ => return viol("flow", "the live flow and the snapshot disagree about an element"),
        }
    }
    Ok(())
}
