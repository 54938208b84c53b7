//! The structural-invariant oracle: a walk over the whole store that must find every
//! relationship consistent. Returns the first broken rule as (rule, detail).

use crate::observe::Store;
use std::collections::{BTreeMap, BTreeSet};

/// Text of a block, read through the offset index (None when the block is not in the rope).
pub fn block_text(s: &Store, id: u64) -> Option<&str> {
    let i = s.offsets.iter().position(|o| !o.0 && o.1 == id)?;
    let (_, _, a, b) = s.offsets[i];
    let b = if i + 1 < s.offsets.len() && b > a { b - 1 } else { b };
    s.rope.get(a as usize..b as usize)
}

/// Block ids in flow order (table cells row by row), as a tree walk from the main frame.
pub fn flow_blocks(s: &Store) -> Vec<u64> {
    fn go(s: &Store, f: u64, out: &mut Vec<u64>, depth: usize) {
        if depth > 50 {
            return;
        }
        let Some(f) = s.frames.get(&f) else { return };
        if let Some(t) = f.table.and_then(|t| s.tables.get(&t)) {
            let mut cs: Vec<_> = t.cells.iter().filter_map(|c| s.cells.get(c)).collect();
            cs.sort_by_key(|c| (c.row, c.column));
            for c in cs {
                if let Some(cf) = c.cell_frame {
                    go(s, cf, out, depth + 1);
                }
            }
            return;
        }
        for &e in &f.child_order {
            if e >= 0 {
                out.push(e as u64)
            } else {
                go(s, (-e) as u64, out, depth + 1)
            }
        }
    }
    let mut v = vec![];
    for d in s.documents.values() {
        if let Some(f) = d.frames.first() {
            go(s, *f, &mut v, 0);
        }
    }
    v
}

macro_rules! bad {
    ($rule:expr, $($a:tt)*) => { return Err(($rule.to_string(), format!($($a)*))) };
}

pub fn check(s: &Store) -> Result<(), (String, String)> {
    if s.documents.len() != 1 || s.roots.len() != 1 {
        bad!("one-document", "{} documents, {} roots", s.documents.len(), s.roots.len());
    }
    let doc = s.documents.values().next().unwrap();
    if s.roots.values().next().unwrap().document != doc.id {
        bad!("root-document", "root points at {}", s.roots.values().next().unwrap().document);
    }
    // ── rope and offset index
    let rope = s.rope.as_str();
    let mut seen = BTreeSet::new();
    for (i, &(anchor, id, a, b)) in s.offsets.iter().enumerate() {
        if !seen.insert((anchor, id)) {
            bad!("offset-duplicate", "entry {id} twice");
        }
        if i == 0 && a != 0 {
            bad!("offset-start", "first entry starts at {a}");
        }
        if b < a || b as usize > rope.len() || !rope.is_char_boundary(a as usize) || !rope.is_char_boundary(b as usize) {
            bad!("offset-range", "entry {id}: {a}..{b} in a rope of {}", rope.len());
        }
        let last = i + 1 == s.offsets.len();
        if last && b as usize != rope.len() {
            bad!("offset-end", "last entry ends at {b}, rope has {}", rope.len());
        }
        if !last {
            if s.offsets[i + 1].2 != b {
                bad!("offset-gap", "entry {i} ends at {b}, next starts at {}", s.offsets[i + 1].2);
            }
            if b <= a || rope.as_bytes()[b as usize - 1] != b'\n' {
                bad!("offset-separator", "entry {i} ({id}) {a}..{b} does not end with a separator");
            }
        }
        if anchor {
            if !s.tables.contains_key(&id) {
                bad!("offset-stale-table", "anchor of missing table {id}");
            }
            let t = &rope[a as usize..b as usize];
            if t.trim_end_matches('\n') != "\u{fffc}" {
                bad!("anchor-text", "anchor of table {id} holds {t:?}");
            }
        } else if !s.blocks.contains_key(&id) {
            bad!("offset-stale-block", "entry of missing block {id}");
        }
    }
    for id in s.blocks.keys() {
        if !seen.contains(&(false, *id)) {
            bad!("block-unindexed", "block {id} has no place in the text");
        }
    }
    for id in s.tables.keys() {
        if !seen.contains(&(true, *id)) {
            bad!("table-unindexed", "table {id} has no anchor in the text");
        }
    }
    // ── frame tree
    let mut owner: BTreeMap<u64, u64> = BTreeMap::new();
    let mut frame_ref: BTreeMap<u64, String> = BTreeMap::new();
    for (fid, f) in &s.frames {
        for b in &f.blocks {
            if !s.blocks.contains_key(b) {
                bad!("frame-stale-block", "frame {fid} owns missing block {b}");
            }
            if let Some(o) = owner.insert(*b, *fid) {
                bad!("block-two-frames", "block {b} in frames {o} and {fid}");
            }
        }
        let co: Vec<u64> = f.child_order.iter().filter(|e| **e > 0).map(|e| *e as u64).collect();
        let a: BTreeSet<u64> = co.iter().copied().collect();
        let b: BTreeSet<u64> = f.blocks.iter().copied().collect();
        if a.len() != co.len() {
            bad!("child-order-duplicate", "frame {fid}: {:?}", f.child_order);
        }
        if a != b {
            bad!("child-order-blocks", "frame {fid}: order {:?} blocks {:?}", f.child_order, f.blocks);
        }
        for e in f.child_order.iter().filter(|e| **e < 0) {
            let c = (-e) as u64;
            let Some(cf) = s.frames.get(&c) else { bad!("child-order-stale-frame", "frame {fid} refers to missing frame {c}") };
            if cf.parent_frame != Some(*fid) {
                bad!("frame-parent", "frame {c} is in the order of {fid} but its parent is {:?}", cf.parent_frame);
            }
            if let Some(o) = frame_ref.insert(c, format!("frame {fid}")) {
                bad!("frame-two-parents", "frame {c}: {o} and frame {fid}");
            }
        }
        if let Some(t) = f.table {
            if !s.tables.contains_key(&t) {
                bad!("frame-stale-table", "frame {fid} anchors missing table {t}");
            }
        }
        if f.byte_range.0 > f.byte_range.1 || f.byte_range.1 as usize > rope.len() {
            bad!("frame-range", "frame {fid}: {:?}", f.byte_range);
        }
    }
    for b in s.blocks.keys() {
        if !owner.contains_key(b) {
            bad!("block-orphan", "block {b} is in no frame");
        }
    }
    let mut table_anchor: BTreeMap<u64, u64> = BTreeMap::new();
    for (fid, f) in &s.frames {
        if let Some(t) = f.table {
            if let Some(o) = table_anchor.insert(t, *fid) {
                bad!("table-two-frames", "table {t} in frames {o} and {fid}");
            }
        }
    }
    // ── tables
    for (tid, t) in &s.tables {
        if !table_anchor.contains_key(tid) {
            bad!("table-unplaced", "table {tid} has no frame in the flow");
        }
        grid(s, *tid).or_else(|e| bad!("table-grid", "table {tid} ({}x{}): {e}", t.rows, t.columns))?;
        if t.column_widths.len() as i64 > t.columns {
            bad!("table-widths", "table {tid}: {} widths for {} columns", t.column_widths.len(), t.columns);
        }
        for c in &t.cells {
            let cell = &s.cells[c];
            let Some(cf) = cell.cell_frame else { bad!("cell-frame", "cell {c} has no frame") };
            let Some(fr) = s.frames.get(&cf) else { bad!("cell-frame", "cell {c}: missing frame {cf}") };
            if fr.blocks.is_empty() {
                bad!("cell-empty", "cell {c} has no block");
            }
            if let Some(o) = frame_ref.insert(cf, format!("cell {c}")) {
                bad!("frame-two-parents", "frame {cf}: {o} and cell {c}");
            }
        }
    }
    let mut cell_owner = BTreeSet::new();
    for t in s.tables.values() {
        for c in &t.cells {
            if !cell_owner.insert(*c) {
                bad!("cell-two-tables", "cell {c}");
            }
        }
    }
    for c in s.cells.keys() {
        if !cell_owner.contains(c) {
            bad!("cell-orphan", "cell {c} is in no table");
        }
    }
    // ── ownership lists of the document
    let set = |v: &[u64]| v.iter().copied().collect::<BTreeSet<u64>>();
    let keys = |v: Vec<u64>| v.into_iter().collect::<BTreeSet<u64>>();
    for (name, got, want, n) in [
        ("frames", set(&doc.frames), keys(s.frames.keys().copied().collect()), doc.frames.len()),
        ("tables", set(&doc.tables), keys(s.tables.keys().copied().collect()), doc.tables.len()),
        ("lists", set(&doc.lists), keys(s.lists.keys().copied().collect()), doc.lists.len()),
        ("resources", set(&doc.resources), keys(s.resources.keys().copied().collect()), doc.resources.len()),
    ] {
        if got != want || n != got.len() {
            bad!(format!("document-{name}"), "document lists {got:?}, store has {want:?}");
        }
    }
    // ── every frame reachable, main frame first
    if let Some(main) = doc.frames.first() {
        for f in s.frames.keys() {
            if f != main && !frame_ref.contains_key(f) {
                bad!("frame-unreachable", "frame {f} is neither in a flow nor in a cell");
            }
        }
        if s.frames[main].parent_frame.is_some() {
            bad!("main-parent", "main frame has a parent");
        }
    }
    let flow = flow_blocks(s);
    if flow.len() != s.blocks.len() || flow.iter().copied().collect::<BTreeSet<_>>().len() != flow.len() {
        bad!("flow-incomplete", "flow reaches {} of {} blocks", flow.len(), s.blocks.len());
    }
    // ── positions and counters
    let mut pos = 0i64;
    let mut chars = 0i64;
    for id in &flow {
        let b = &s.blocks[id];
        if b.document_position != pos {
            bad!("position", "block {id} is stored at {}, the flow puts it at {pos}", b.document_position);
        }
        let n = block_text(s, *id).unwrap_or("").chars().count() as i64;
        pos += n + 1;
        chars += n;
    }
    if doc.character_count != chars {
        bad!("character-count", "document says {}, blocks hold {chars}", doc.character_count);
    }
    if doc.block_count != s.blocks.len() as i64 {
        bad!("block-count", "document says {}, store has {}", doc.block_count, s.blocks.len());
    }
    // ── lists
    for (id, b) in &s.blocks {
        if let Some(l) = b.list {
            if !s.lists.contains_key(&l) {
                bad!("block-stale-list", "block {id} in missing list {l}");
            }
        }
    }
    // ── formats and images
    for (id, rs) in &s.runs {
        let Some(t) = block_text(s, *id) else { bad!("runs-stale-block", "runs of missing block {id}") };
        let mut at = 0;
        for r in rs {
            if r.byte_start >= r.byte_end {
                bad!("run-empty", "block {id}: {}..{}", r.byte_start, r.byte_end);
            }
            if r.byte_start < at {
                bad!("run-overlap", "block {id}: run at {} before {at}", r.byte_start);
            }
            if r.byte_end as usize > t.len() {
                bad!("run-outside", "block {id}: run {}..{} in {} bytes", r.byte_start, r.byte_end, t.len());
            }
            if !t.is_char_boundary(r.byte_start as usize) || !t.is_char_boundary(r.byte_end as usize) {
                bad!("run-boundary", "block {id}: run {}..{} splits a character of {t:?}", r.byte_start, r.byte_end);
            }
            at = r.byte_end;
        }
    }
    for (id, is) in &s.images {
        let Some(t) = block_text(s, *id) else { bad!("images-stale-block", "images of missing block {id}") };
        for i in is {
            if i.byte_offset as usize > t.len() {
                bad!("image-outside", "block {id}: image at {} in {} bytes", i.byte_offset, t.len());
            }
        }
    }
    Ok(())
}

/// The cells of a table tile its grid exactly.
pub fn grid(s: &Store, tid: u64) -> Result<(), String> {
    let t = &s.tables[&tid];
    if t.rows < 1 || t.columns < 1 {
        return Err("empty grid".into());
    }
    let mut g = vec![vec![None; t.columns as usize]; t.rows as usize];
    for c in &t.cells {
        let Some(cell) = s.cells.get(c) else { return Err(format!("missing cell {c}")) };
        if cell.row_span < 1 || cell.column_span < 1 {
            return Err(format!("cell {c} spans {}x{}", cell.row_span, cell.column_span));
        }
        for r in cell.row..cell.row + cell.row_span {
            for k in cell.column..cell.column + cell.column_span {
                if r < 0 || k < 0 || r >= t.rows || k >= t.columns {
                    return Err(format!("cell {c} reaches ({r},{k})"));
                }
                if let Some(o) = g[r as usize][k as usize].replace(*c) {
                    return Err(format!("({r},{k}) covered by cells {o} and {c}"));
                }
            }
        }
    }
    for (r, row) in g.iter().enumerate() {
        for (k, x) in row.iter().enumerate() {
            if x.is_none() {
                return Err(format!("({r},{k}) is not covered"));
            }
        }
    }
    Ok(())
}
