//! Everything an observer can see of a document: the public views, and the
//! complete store (entities, rope, runs, images, offsets) without timestamps.

use common::database::block_offset_index::OffsetMarker;
use common::entities as e;
use common::format_runs::{FormatRun, ImageAnchor};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use text_document::*;

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Store {
    pub rope: String,
    pub roots: BTreeMap<u64, e::Root>,
    pub documents: BTreeMap<u64, e::Document>,
    pub frames: BTreeMap<u64, e::Frame>,
    pub blocks: BTreeMap<u64, e::Block>,
    pub lists: BTreeMap<u64, e::List>,
    pub resources: BTreeMap<u64, e::Resource>,
    pub tables: BTreeMap<u64, e::Table>,
    pub cells: BTreeMap<u64, e::TableCell>,
    pub runs: BTreeMap<u64, Vec<FormatRun>>,
    pub images: BTreeMap<u64, Vec<ImageAnchor>>,
    /// (is table anchor, id, byte range) in offset order, as the index reports them.
    pub offsets: Vec<(bool, u64, u32, u32)>,
}


macro_rules! grab {
    ($s:expr, $f:ident) => {{
        let g = $s.$f.read().unwrap();
        let mut m = BTreeMap::new();
        for (k, v) in g.iter() {
            let mut v = v.clone();
            v.created_at = Default::default();
            v.updated_at = Default::default();
            m.insert(*k, v);
        }
        m
    }};
}

pub fn store(s: &common::database::Store) -> Store {
    let runs = s.format_runs.read().unwrap();
    let images = s.block_images.read().unwrap();
    let rope = s.rope.read().unwrap();
    let off = s.block_offsets.read().unwrap();
    let clean = off.table_anchor_count() == 0 && off.entries.len() == s.blocks.read().unwrap().len();
    let mut blocks = grab!(s, blocks);
    if clean {
        // Every block is mirrored in the rope: readers derive positions from it and the
        // stored field is a cache that may legitimately be stale.
        for b in blocks.values_mut() {
            if let Some((start, _)) = off.range_of(OffsetMarker::Block(b.id)) {
                if start as usize <= rope.len_bytes() {
                    b.document_position = rope.byte_to_char(start as usize) as i64;
                }
            }
        }
    }
    let offsets = off
        .entries
        .iter()
        .map(|(m, _)| {
            let (a, b) = off.range_of(*m).unwrap_or((u32::MAX, u32::MAX));
            match m {
                OffsetMarker::Block(id) => (false, *id, a, b),
                OffsetMarker::TableAnchor(id) => (true, *id, a, b),
            }
        })
        .collect();
    Store {
        rope: rope.to_string(),
        roots: grab!(s, roots),
        documents: grab!(s, documents),
        frames: {
            let mut f = grab!(s, frames);
            // a derived field nothing reads
            f.values_mut().for_each(|f| f.byte_range = (0, 0));
            f
        },
        blocks,
        lists: grab!(s, lists),
        resources: grab!(s, resources),
        tables: grab!(s, tables),
        cells: grab!(s, table_cells),
        runs: runs.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (*k, v.clone())).collect(),
        images: images.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (*k, v.clone())).collect(),
        offsets,
    }
}
pub fn store_of(doc: &TextDocument) -> Store {
    store(&doc.rope_store_for_test())
}

impl Store {
    pub fn json(&self) -> Value {
        fn m<T: serde::Serialize>(b: &BTreeMap<u64, T>) -> Value {
            let mut o = serde_json::Map::new();
            for (k, v) in b {
                o.insert(k.to_string(), serde_json::to_value(v).unwrap());
            }
            Value::Object(o)
        }
        json!({
            "rope": self.rope, "roots": m(&self.roots), "documents": m(&self.documents),
            "frames": m(&self.frames), "blocks": m(&self.blocks), "lists": m(&self.lists),
            "resources": m(&self.resources), "tables": m(&self.tables), "cells": m(&self.cells),
            "runs": m(&self.runs), "images": m(&self.images), "offsets": self.offsets,
        })
    }
}

/// First differing path between two JSON values (generic path without ids, detail).
pub fn json_diff(a: &Value, b: &Value) -> Option<(String, String)> {
    fn go(a: &Value, b: &Value, path: &mut Vec<String>) -> Option<(String, String)> {
        if a == b {
            return None;
        }
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    path.push(k.clone());
                    match y.get(k) {
                        None => return Some(fin(path, "removed", v, &Value::Null)),
                        Some(w) => {
                            if let Some(d) = go(v, w, path) {
                                return Some(d);
                            }
                        }
                    }
                    path.pop();
                }
                for (k, w) in y {
                    if !x.contains_key(k) {
                        path.push(k.clone());
                        return Some(fin(path, "added", &Value::Null, w));
                    }
                }
                None
            }
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                for (i, (v, w)) in x.iter().zip(y).enumerate() {
                    path.push(i.to_string());
                    if let Some(d) = go(v, w, path) {
                        return Some(d);
                    }
                    path.pop();
                }
                None
            }
            _ => Some(fin(path, "changed", a, b)),
        }
    }
    fn fin(path: &[String], how: &str, a: &Value, b: &Value) -> (String, String) {
        let generic: Vec<&str> = path
            .iter()
            .map(|p| if p.chars().all(|c| c.is_ascii_digit()) { "*" } else { p.as_str() })
            .collect();
        let cut = |v: &Value| {
            let s = v.to_string();
            s.chars().take(300).collect::<String>()
        };
        (
            format!("{}:{}", generic.join("."), how),
            format!("{} {}: {} -> {}", path.join("."), how, cut(a), cut(b)),
        )
    }
    go(a, b, &mut vec![])
}

pub fn store_diff(a: &Store, b: &Store) -> Option<(String, String)> {
    if a == b { None } else { json_diff(&a.json(), &b.json()) }
}

/// What a user of the public API can read.
#[derive(Clone, PartialEq, Debug)]
pub struct View {
    pub text: String,
    pub stats: DocumentStats,
    pub flow: FlowSnapshot,
    pub title: String,
    pub dir: TextDirection,
    pub wrap: WrapMode,
    pub markdown: String,
    pub html: String,
}
pub fn view(doc: &TextDocument) -> View {
    let er = |r: Result<String>| r.unwrap_or_else(|e| format!("<<error: {e:#}>>"));
    View {
        text: er(doc.to_plain_text()),
        stats: doc.stats(),
        flow: doc.snapshot_flow(),
        title: doc.title(),
        dir: doc.text_direction(),
        wrap: doc.default_wrap_mode(),
        markdown: er(doc.to_markdown()),
        html: er(doc.to_html()),
    }
}
pub fn view_diff(a: &View, b: &View) -> Option<(String, String)> {
    if a == b {
        return None;
    }
    let d = |n: &str, x: String, y: String| {
        let i = x.chars().zip(y.chars()).take_while(|(p, q)| p == q).count();
        let cut = |s: &str| s.chars().skip(i.saturating_sub(60)).take(160).collect::<String>();
        Some((n.to_string(), format!("{n}: ...{} -> ...{}", cut(&x), cut(&y))))
    };
    if a.text != b.text {
        return d("text", a.text.clone(), b.text.clone());
    }
    if a.stats != b.stats {
        return d("stats", format!("{:?}", a.stats), format!("{:?}", b.stats));
    }
    if a.flow != b.flow {
        return d("flow", format!("{:?}", a.flow), format!("{:?}", b.flow));
    }
    if a.markdown != b.markdown {
        return d("markdown", a.markdown.clone(), b.markdown.clone());
    }
    if a.html != b.html {
        return d("html", a.html.clone(), b.html.clone());
    }
    d("props", format!("{:?}{:?}{:?}", a.title, a.dir, a.wrap), format!("{:?}{:?}{:?}", b.title, b.dir, b.wrap))
}

/// All block snapshots of a flow in reading order (tables: cells in row-major order).
pub fn flat_blocks(flow: &FlowSnapshot) -> Vec<BlockSnapshot> {
    fn go(e: &FlowElementSnapshot, out: &mut Vec<BlockSnapshot>) {
        match e {
            FlowElementSnapshot::Block(b) => out.push(b.clone()),
            FlowElementSnapshot::Frame(f) => f.elements.iter().for_each(|x| go(x, out)),
            FlowElementSnapshot::Table(t) => {
                let mut cs: Vec<_> = t.cells.iter().collect();
                cs.sort_by_key(|c| (c.row, c.column));
                cs.iter().for_each(|c| out.extend(c.blocks.iter().cloned()));
            }
        }
    }
    let mut v = vec![];
    flow.elements.iter().for_each(|x| go(x, &mut v));
    v
}

/// The same store with every entity id renumbered in traversal order, so that two
/// structurally equal documents compare equal whatever ids were allocated.
pub fn canon(s: &Store) -> Store {
    use std::collections::HashMap;
    #[derive(Default)]
    struct N {
        b: HashMap<u64, u64>,
        f: HashMap<u64, u64>,
        l: HashMap<u64, u64>,
        t: HashMap<u64, u64>,
        c: HashMap<u64, u64>,
        r: HashMap<u64, u64>,
    }
    fn put(m: &mut HashMap<u64, u64>, k: u64) -> bool {
        if m.contains_key(&k) {
            return false;
        }
        let n = m.len() as u64 + 1;
        m.insert(k, n);
        true
    }
    fn block(s: &Store, n: &mut N, id: u64) {
        if put(&mut n.b, id) {
            if let Some(l) = s.blocks.get(&id).and_then(|b| b.list) {
                put(&mut n.l, l);
            }
        }
    }
    fn frame(s: &Store, n: &mut N, id: u64) {
        if !put(&mut n.f, id) {
            return;
        }
        let Some(f) = s.frames.get(&id) else { return };
        for &x in &f.child_order {
            if x >= 0 {
                block(s, n, x as u64)
            } else {
                frame(s, n, (-x) as u64)
            }
        }
        for &b in &f.blocks {
            block(s, n, b);
        }
        if let Some(t) = f.table {
            table(s, n, t);
        }
    }
    fn table(s: &Store, n: &mut N, id: u64) {
        if !put(&mut n.t, id) {
            return;
        }
        let Some(t) = s.tables.get(&id) else { return };
        for &c in &t.cells {
            if put(&mut n.c, c) {
                if let Some(f) = s.cells.get(&c).and_then(|c| c.cell_frame) {
                    frame(s, n, f);
                }
            }
        }
    }
    let mut n = N::default();
    for d in s.documents.values() {
        d.frames.iter().for_each(|f| frame(s, &mut n, *f));
        d.tables.iter().for_each(|t| table(s, &mut n, *t));
        d.lists.iter().for_each(|l| {
            put(&mut n.l, *l);
        });
        d.resources.iter().for_each(|r| {
            put(&mut n.r, *r);
        });
    }
    s.frames.keys().for_each(|k| frame(s, &mut n, *k));
    s.tables.keys().for_each(|k| table(s, &mut n, *k));
    s.blocks.keys().for_each(|k| block(s, &mut n, *k));
    s.lists.keys().for_each(|k| {
        put(&mut n.l, *k);
    });
    s.cells.keys().for_each(|k| {
        put(&mut n.c, *k);
    });
    s.resources.keys().for_each(|k| {
        put(&mut n.r, *k);
    });
    let g = |m: &HashMap<u64, u64>, k: u64| m.get(&k).copied().unwrap_or(1_000_000 + k);
    let mut o = Store { rope: s.rope.clone(), roots: s.roots.clone(), ..Default::default() };
    for (k, d) in &s.documents {
        let mut d = d.clone();
        d.frames.iter_mut().for_each(|x| *x = g(&n.f, *x));
        d.lists.iter_mut().for_each(|x| *x = g(&n.l, *x));
        d.tables.iter_mut().for_each(|x| *x = g(&n.t, *x));
        d.resources.iter_mut().for_each(|x| *x = g(&n.r, *x));
        o.documents.insert(*k, d);
    }
    for (k, f) in &s.frames {
        let mut f = f.clone();
        f.id = g(&n.f, *k);
        f.parent_frame = f.parent_frame.map(|x| g(&n.f, x));
        f.table = f.table.map(|x| g(&n.t, x));
        f.blocks.iter_mut().for_each(|x| *x = g(&n.b, *x));
        f.child_order.iter_mut().for_each(|x| {
            *x = if *x >= 0 { g(&n.b, *x as u64) as i64 } else { -(g(&n.f, (-*x) as u64) as i64) }
        });
        o.frames.insert(f.id, f);
    }
    for (k, b) in &s.blocks {
        let mut b = b.clone();
        b.id = g(&n.b, *k);
        b.list = b.list.map(|x| g(&n.l, x));
        o.blocks.insert(b.id, b);
    }
    for (k, l) in &s.lists {
        let mut l = l.clone();
        l.id = g(&n.l, *k);
        o.lists.insert(l.id, l);
    }
    for (k, t) in &s.tables {
        let mut t = t.clone();
        t.id = g(&n.t, *k);
        t.cells.iter_mut().for_each(|x| *x = g(&n.c, *x));
        o.tables.insert(t.id, t);
    }
    for (k, c) in &s.cells {
        let mut c = c.clone();
        c.id = g(&n.c, *k);
        c.cell_frame = c.cell_frame.map(|x| g(&n.f, x));
        o.cells.insert(c.id, c);
    }
    for (k, r) in &s.resources {
        let mut r = r.clone();
        r.id = g(&n.r, *k);
        o.resources.insert(r.id, r);
    }
    for (k, v) in &s.runs {
        o.runs.insert(g(&n.b, *k), v.clone());
    }
    for (k, v) in &s.images {
        o.images.insert(g(&n.b, *k), v.clone());
    }
    o.offsets = s
        .offsets
        .iter()
        .map(|(a, id, x, y)| (*a, if *a { g(&n.t, *id) } else { g(&n.b, *id) }, *x, *y))
        .collect();
    o
}
