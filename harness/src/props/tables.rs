//! Table editing against a grid model, and cell selections.

use crate::ensure;
use crate::r#gen::{self, Mix};
use crate::observe;
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use std::collections::BTreeMap;
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P24",
            quick: 35000,
            thorough: 1500000,
            level: "exploration",
            rule: "Each case puts one to three tables (inserted or imported, filled by typing, with merged cells) into a document and applies random \
                   row, column, merge, split, format and removal calls, by index and through the cursor's current cell, valid and invalid. After each \
                   call the whole table is compared with a grid model computed from the table before: which cells exist, where, how far they span, and \
                   that each keeps its blocks, texts and formats; everything outside the table must be as before, and a refused call must change \
                   nothing. Non-trivial: at least two successful structure changes; distinct: by operation list and seed.",
            assumptions: &["merging keeps the content of the top-left cell, as implemented and tested upstream"],
            must_observe: &["rows_inserted", "columns_inserted", "rows_removed", "columns_removed", "merges", "splits", "cell_formats", "table_formats", "removed_tables", "refused", "span_grown", "span_shrunk", "cells_compared"],
            generate: gen_tables,
            run: run_tables,
            workers: 8,
            repeat_on_shrink: 1,
        },
        Prop {
            id: "P34",
            quick: 30000,
            thorough: 1500000,
            level: "exploration",
            rule: "Each case builds a document with tables (with merged cells and several blocks per cell) and puts cursors and selections at random places, \
                   with and without an explicit cell selection. The current table and cell, the kind of selection, its cell range and the listed cells are \
                   compared with a model computed from the flow snapshot: same cell is a text selection, two cells of one table give the smallest rectangle \
                   closed under merged cells, a selection reaching into or over a table takes all its cells; extending a selection never leaves one end \
                   inside a table and the other outside it while there is text to snap to. Non-trivial: some end in a table; distinct: by selection and table shape.",
            assumptions: &["an end of a selection in two different tables is a text selection, as implemented"],
            must_observe: &["text_selections", "cell_selections", "mixed_selections", "expanded_ranges", "explicit_selections", "current_cells", "snapped"],
            generate: gen_cells,
            run: run_cells,
            workers: 8,
            repeat_on_shrink: 1,
        },
    ]
}

fn html_table(r: &mut Rng) -> String {
    let (rows, cols) = (r.range(1, 3), r.range(1, 3));
    let mut s = String::from("<table>");
    for _ in 0..rows {
        s.push_str("<tr>");
        for _ in 0..cols {
            s.push_str(&format!("<td>{}</td>", r#gen::line(r, 2).replace(['<', '&'], "")));
        }
        s.push_str("</tr>");
    }
    s + "</table>"
}
fn setup(r: &mut Rng) -> Vec<Op> {
    let mut ops = match r.below(3) {
        0 => {
            let t = format!("<p>{}</p>{}<p>{}</p>", r#gen::word(r), html_table(r), r#gen::word(r));
            vec![Op::SetHtml { t }]
        }
        _ => vec![Op::SetPlain { t: r#gen::text(r, 3, 2) }],
    };
    for _ in 0..r.range(1, 2) {
        let (rr, k) = (r.range(1, 4), r.range(1, 4));
        ops.push(Op::Pos { c: 0, p: r.next() as usize % 1000, keep: false });
        ops.push(Op::Table { c: 0, r: rr, k });
    }
    // fill cells
    for _ in 0..r.range(2, 8) {
        ops.push(Op::Pos { c: 0, p: r.next() as usize % 1000, keep: false });
        ops.push(match r.below(4) {
            0 => Op::Block { c: 0 },
            1 => Op::FText { c: 0, t: r#gen::word(r), f: r#gen::fmt(r) },
            _ => Op::Text { c: 0, t: r#gen::word(r) },
        });
    }
    ops
}
fn gen_tables(r: &mut Rng, _i: u64, _t: Tier) -> Case {
    let mut ops = setup(r);
    let m = Mix { table: 12, tablefmt: 4, text: 2, cursor: 4, undo: 1, ..Mix::none() };
    let n = r.range(3, 14);
    ops.extend(r#gen::ops(r, &m, n));
    Case { kind: "tables".into(), ops, nums: vec![r.next()], ..Default::default() }
}

#[derive(Clone, PartialEq, Debug)]
struct Cell {
    row: usize,
    col: usize,
    rs: usize,
    cs: usize,
    fmt: CellFormat,
    /// (id, text, fragments, block format), without positions
    blocks: Vec<(usize, String, Vec<FragmentContent>, BlockFormat)>,
}
#[derive(Clone, PartialEq, Debug)]
struct Grid {
    rows: usize,
    cols: usize,
    fmt: TableFormat,
    cells: BTreeMap<usize, Cell>,
}
fn find_tables(e: &[FlowElementSnapshot], out: &mut Vec<TableSnapshot>) {
    for x in e {
        match x {
            FlowElementSnapshot::Table(t) => out.push(t.clone()),
            FlowElementSnapshot::Frame(f) => find_tables(&f.elements, out),
            _ => {}
        }
    }
}
/// Grid of a table keyed by cell entity id, through public handles.
fn grid(doc: &TextDocument, t: &TableSnapshot) -> std::result::Result<Grid, Viol> {
    let mut cells = BTreeMap::new();
    let h = handle(&doc.flow(), t.table_id);
    for c in &t.cells {
        let Some(id) = h.as_ref().and_then(|h| h.cell(c.row, c.column)).map(|c| c.id()) else {
            return viol("no-cell", format!("table {} has no cell at {},{}", t.table_id, c.row, c.column));
        };
        cells.insert(
            id,
            Cell {
                row: c.row,
                col: c.column,
                rs: c.row_span,
                cs: c.column_span,
                fmt: c.format.clone(),
                blocks: c.blocks.iter().map(|b| (b.block_id, b.text.clone(), b.fragments.clone(), b.block_format.clone())).collect(),
            },
        );
    }
    Ok(Grid { rows: t.rows, cols: t.columns, fmt: t.format.clone(), cells })
}
fn handle(e: &[FlowElement], id: usize) -> Option<TextTable> {
    e.iter().find_map(|x| match x {
        FlowElement::Table(t) if t.id() == id => Some(t.clone()),
        FlowElement::Frame(f) => handle(&f.flow(), id),
        _ => None,
    })
}
/// Everything of the document except one table, positions left out.
fn rest(e: &[FlowElementSnapshot], skip: usize, out: &mut Vec<String>) {
    for x in e {
        match x {
            FlowElementSnapshot::Block(b) => out.push(format!("{} {:?} {:?} {:?} {:?}", b.block_id, b.text, b.fragments, b.block_format, b.list_info)),
            FlowElementSnapshot::Frame(f) => {
                out.push(format!("frame {} {:?}", f.frame_id, f.format));
                rest(&f.elements, skip, out);
                out.push("end".into());
            }
            FlowElementSnapshot::Table(t) if t.table_id == skip => {}
            FlowElementSnapshot::Table(t) => {
                out.push(format!("table {} {}x{} {:?} {:?}", t.table_id, t.rows, t.columns, t.format, t.column_widths));
                for c in &t.cells {
                    out.push(format!("cell {},{} {}x{} {:?}", c.row, c.column, c.row_span, c.column_span, c.format));
                    let v: Vec<_> = c.blocks.iter().cloned().map(FlowElementSnapshot::Block).collect();
                    rest(&v, skip, out);
                }
            }
        }
    }
}

fn run_tables(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    let mut rng = Rng::new(c.nums.first().copied().unwrap_or(1));
    let mut changes = 0;
    for op in &c.ops {
        let ts = tables(&env.doc);
        let ord = match op {
            Op::InsRow { t, .. } | Op::InsCol { t, .. } | Op::RmRow { t, .. } | Op::RmCol { t, .. } | Op::Merge { t, .. } | Op::Split { t, .. } | Op::TFmt { t, .. } | Op::CFmt { t, .. } | Op::RmTable { t, .. } if !ts.is_empty() => Some(t % ts.len()),
            _ => None,
        };
        let Some(k) = ord else {
            env.apply(op);
            continue;
        };
        let name = op.name();
        let (id, rows, cols) = ts[k];
        let before_flow = env.doc.snapshot_flow();
        let mut snaps = vec![];
        find_tables(&before_flow.elements, &mut snaps);
        let Some(snap) = snaps.iter().find(|t| t.table_id == id) else {
            return viol("table-lost", format!("table {id} is in the store and not in the flow"));
        };
        let g = grid(&env.doc, snap)?;
        let mut before_rest = vec![];
        rest(&before_flow.elements, id, &mut before_rest);
        let store0 = observe::store_of(&env.doc);
        // some calls go through the cursor's current cell
        let via = rng.chance(1, 3);
        let invalid = rng.chance(1, 8);
        let ids: Vec<usize> = g.cells.keys().copied().collect();
        let pickid = ids[rng.below(ids.len())];
        let pick = g.cells[&pickid].clone();
        let cur = env.doc.cursor();
        let goto = |cur: &TextCursor, cell: &Cell, rng: &mut Rng, keep: bool| -> bool {
            let b = &cell.blocks[rng.below(cell.blocks.len())];
            let Some(h) = env.doc.block_by_id(b.0) else { return false };
            let p = h.position() + rng.below(h.length() + 1);
            cur.set_position(p, if keep { MoveMode::KeepAnchor } else { MoveMode::MoveAnchor });
            let q = cur.position();
            h.position() <= q && q <= h.position() + h.length()
        };
        let mut want = g.clone();
        let mut new_cells: Vec<(usize, usize, usize, usize)> = vec![];
        let mut expect_gone = false;
        let mut expect_err = false;
        let mut either = false;
        let mut tag = "";
        let r: Result<()> = match op {
            Op::InsRow { i, .. } => {
                let (at, r) = if via && goto(&cur, &pick, &mut rng, false) {
                    if rng.chance(1, 2) { (pick.row, cur.insert_row_above()) } else { (pick.row + 1, cur.insert_row_below()) }
                } else {
                    let at = if invalid { rows + 1 + rng.below(3) } else { i % (rows + 1) };
                    (at, cur.insert_table_row(id, at))
                };
                if at > rows {
                    expect_err = true;
                } else {
                    let mut cov = vec![false; cols];
                    for x in want.cells.values_mut() {
                        if x.row >= at {
                            x.row += 1;
                        } else if x.row + x.rs > at {
                            x.rs += 1;
                            obs.hit("span_grown");
                            for q in x.col..(x.col + x.cs).min(cols) {
                                cov[q] = true;
                            }
                        }
                    }
                    want.rows += 1;
                    new_cells = (0..cols).filter(|q| !cov[*q]).map(|q| (at, q, 1, 1)).collect();
                    tag = "rows_inserted";
                }
                r
            }
            Op::InsCol { i, .. } => {
                let (at, r) = if via && goto(&cur, &pick, &mut rng, false) {
                    if rng.chance(1, 2) { (pick.col, cur.insert_column_before()) } else { (pick.col + 1, cur.insert_column_after()) }
                } else {
                    let at = if invalid { cols + 1 + rng.below(3) } else { i % (cols + 1) };
                    (at, cur.insert_table_column(id, at))
                };
                if at > cols {
                    expect_err = true;
                } else {
                    let mut cov = vec![false; rows];
                    for x in want.cells.values_mut() {
                        if x.col >= at {
                            x.col += 1;
                        } else if x.col + x.cs > at {
                            x.cs += 1;
                            obs.hit("span_grown");
                            for q in x.row..(x.row + x.rs).min(rows) {
                                cov[q] = true;
                            }
                        }
                    }
                    want.cols += 1;
                    new_cells = (0..rows).filter(|q| !cov[*q]).map(|q| (q, at, 1, 1)).collect();
                    tag = "columns_inserted";
                }
                r
            }
            Op::RmRow { i, .. } => {
                let (at, r) = if via && goto(&cur, &pick, &mut rng, false) {
                    (pick.row, cur.remove_current_row())
                } else {
                    let at = if invalid { rows + rng.below(3) } else { i % rows };
                    (at, cur.remove_table_row(id, at))
                };
                if at >= rows || rows == 1 {
                    expect_err = true;
                } else {
                    want.cells.retain(|_, x| !(x.row == at && x.rs == 1));
                    for x in want.cells.values_mut() {
                        if x.row > at {
                            x.row -= 1;
                        } else if x.row + x.rs > at {
                            x.rs -= 1;
                            obs.hit("span_shrunk");
                        }
                    }
                    want.rows -= 1;
                    tag = "rows_removed";
                }
                r
            }
            Op::RmCol { i, .. } => {
                let (at, r) = if via && goto(&cur, &pick, &mut rng, false) {
                    (pick.col, cur.remove_current_column())
                } else {
                    let at = if invalid { cols + rng.below(3) } else { i % cols };
                    (at, cur.remove_table_column(id, at))
                };
                if at >= cols || cols == 1 {
                    expect_err = true;
                } else {
                    want.cells.retain(|_, x| !(x.col == at && x.cs == 1));
                    for x in want.cells.values_mut() {
                        if x.col > at {
                            x.col -= 1;
                        } else if x.col + x.cs > at {
                            x.cs -= 1;
                            obs.hit("span_shrunk");
                        }
                    }
                    want.cols -= 1;
                    tag = "columns_removed";
                }
                r
            }
            Op::Merge { r0, c0, r1, c1, .. } => {
                let other = g.cells[&ids[rng.below(ids.len())]].clone();
                let (a, b, x, y, r);
                if via && goto(&cur, &pick, &mut rng, false) && goto(&cur, &other, &mut rng, true) {
                    (a, b) = (pick.row.min(other.row), pick.row.max(other.row));
                    (x, y) = (pick.col.min(other.col), pick.col.max(other.col));
                    r = cur.merge_selected_cells();
                } else {
                    let (p, q) = (r0 % rows, r1 % rows);
                    let (s, t) = (c0 % cols, c1 % cols);
                    (a, b) = (p.min(q), if invalid { rows + rng.below(2) } else { p.max(q) });
                    (x, y) = (s.min(t), s.max(t));
                    r = cur.merge_table_cells(id, a, x, b, y);
                }
                let hit = |c: &Cell| c.row <= b && c.row + c.rs > a && c.col <= y && c.col + c.cs > x;
                if b >= rows || y >= cols || g.cells.values().any(|c| hit(c) && (c.rs > 1 || c.cs > 1)) {
                    expect_err = true;
                } else {
                    want.cells.retain(|_, c| !hit(c) || (c.row == a && c.col == x));
                    for c in want.cells.values_mut() {
                        if c.row == a && c.col == x {
                            c.rs = b - a + 1;
                            c.cs = y - x + 1;
                        }
                    }
                    either = a == b && x == y;
                    tag = "merges";
                }
                r
            }
            Op::Split { r: sr, k: sk, .. } => {
                let (sr, sk) = if invalid { (*sr, *sk) } else { (1 + sr % pick.rs, 1 + sk % pick.cs) };
                let r = if via && goto(&cur, &pick, &mut rng, false) { cur.split_current_cell(sr, sk) } else { cur.split_table_cell(pickid, sr, sk) };
                if sr == 0 || sk == 0 || sr > pick.rs || sk > pick.cs || (pick.rs == 1 && pick.cs == 1) {
                    expect_err = true;
                } else {
                    let part = |n: usize, k: usize| -> Vec<usize> { (0..k).map(|i| n / k + usize::from(i < n % k)).collect() };
                    let mut row = pick.row;
                    for (i, h) in part(pick.rs, sr).into_iter().enumerate() {
                        let mut col = pick.col;
                        for (j, w) in part(pick.cs, sk).into_iter().enumerate() {
                            if i == 0 && j == 0 {
                                let c = want.cells.get_mut(&pickid).unwrap();
                                c.rs = h;
                                c.cs = w;
                            } else {
                                new_cells.push((row, col, h, w));
                            }
                            col += w;
                        }
                        row += h;
                    }
                    tag = "splits";
                }
                r
            }
            Op::TFmt { border, width, al, .. } => {
                let f = TableFormat { border: *border, width: *width, alignment: al.map(align), cell_spacing: rng.chance(1, 3).then_some(4), cell_padding: rng.chance(1, 3).then_some(7) };
                let r = if via && goto(&cur, &pick, &mut rng, false) { cur.set_current_table_format(&f) } else { cur.set_table_format(id, &f) };
                let w = &mut want.fmt;
                w.border = f.border.or(w.border);
                w.width = f.width.or(w.width);
                w.alignment = f.alignment.or(w.alignment.clone());
                w.cell_spacing = f.cell_spacing.or(w.cell_spacing);
                w.cell_padding = f.cell_padding.or(w.cell_padding);
                tag = "table_formats";
                r
            }
            Op::CFmt { pad, bg, va, .. } => {
                let f = CellFormat {
                    padding: *pad,
                    border: rng.chance(1, 3).then_some(2),
                    background_color: bg.clone(),
                    vertical_alignment: va.map(|v| match v % 3 {
                        0 => CellVerticalAlignment::Top,
                        1 => CellVerticalAlignment::Middle,
                        _ => CellVerticalAlignment::Bottom,
                    }),
                };
                let r = if via && goto(&cur, &pick, &mut rng, false) { cur.set_current_cell_format(&f) } else { cur.set_table_cell_format(pickid, &f) };
                let w = &mut want.cells.get_mut(&pickid).unwrap().fmt;
                w.padding = f.padding.or(w.padding);
                w.border = f.border.or(w.border);
                w.background_color = f.background_color.or(w.background_color.clone());
                w.vertical_alignment = f.vertical_alignment.or(w.vertical_alignment);
                tag = "cell_formats";
                r
            }
            Op::RmTable { .. } => {
                expect_gone = true;
                tag = "removed_tables";
                if via && goto(&cur, &pick, &mut rng, false) { cur.remove_current_table() } else { cur.remove_table(id) }
            }
            _ => unreachable!(),
        };
        let msg = format!("{op:?} on a {rows}x{cols} table (through the cursor: {via}, cell {},{} {}x{})", pick.row, pick.col, pick.rs, pick.cs);
        if either {
            if r.is_err() {
                expect_err = true;
            }
        } else {
            ensure!(r.is_err() == expect_err, format!("outcome:{name}"), "{msg}: {r:?}, expected {}", if expect_err { "a refusal" } else { "success" });
        }
        if expect_err {
            if let Some((p, d)) = observe::store_diff(&store0, &observe::store_of(&env.doc)) {
                return viol(format!("refused-but-changed:{name}:{p}"), format!("{msg} was refused and changed {d}"));
            }
            obs.hit("refused");
            continue;
        }
        obs.hit(tag);
        changes += 1;
        let after = env.doc.snapshot_flow();
        let mut after_rest = vec![];
        rest(&after.elements, id, &mut after_rest);
        // a document is never left without a block
        let refilled = expect_gone && before_rest.is_empty() && after_rest.len() == 1 && observe::flat_blocks(&after).iter().all(|b| b.text.is_empty());
        ensure!(before_rest == after_rest || refilled, format!("rest:{name}"), "{msg} changed the document outside the table: {:?}", first_diff(&before_rest, &after_rest));
        let mut snaps = vec![];
        find_tables(&after.elements, &mut snaps);
        let now = snaps.iter().find(|t| t.table_id == id);
        if expect_gone {
            ensure!(now.is_none(), "not-removed", "{msg}: the table is still there");
            continue;
        }
        let Some(now) = now else { return viol(format!("table-lost:{name}"), format!("{msg}: the table is gone")) };
        let g2 = grid(&env.doc, now)?;
        ensure!((g2.rows, g2.cols) == (want.rows, want.cols), format!("size:{name}"), "{msg}: now {}x{}, expected {}x{}", g2.rows, g2.cols, want.rows, want.cols);
        ensure!(g2.fmt == want.fmt, format!("table-format:{name}"), "{msg}: table format {:?}, expected {:?}", g2.fmt, want.fmt);
        for (i, w) in &want.cells {
            let Some(x) = g2.cells.get(i) else { return viol(format!("cell-lost:{name}"), format!("{msg}: the cell that was at {},{} is gone", g.cells[i].row, g.cells[i].col)) };
            ensure!((x.row, x.col, x.rs, x.cs) == (w.row, w.col, w.rs, w.cs), format!("cell-place:{name}"), "{msg}: the cell that was at {},{} is at {},{} spanning {}x{}, expected {},{} spanning {}x{}", g.cells[i].row, g.cells[i].col, x.row, x.col, x.rs, x.cs, w.row, w.col, w.rs, w.cs);
            ensure!(x.blocks == w.blocks, format!("cell-content:{name}"), "{msg}: the content of the cell at {},{} went from {:?} to {:?}", w.row, w.col, w.blocks, x.blocks);
            ensure!(x.fmt == w.fmt, format!("cell-format:{name}"), "{msg}: the format of the cell at {},{} is {:?}, expected {:?}", w.row, w.col, x.fmt, w.fmt);
            obs.hit("cells_compared");
        }
        let mut extra: Vec<(usize, usize, usize, usize)> = vec![];
        for (i, x) in &g2.cells {
            if want.cells.contains_key(i) {
                continue;
            }
            ensure!(!g.cells.contains_key(i), format!("cell-kept:{name}"), "{msg}: the cell that was at {},{} should be gone", g.cells[i].row, g.cells[i].col);
            ensure!(x.blocks.len() == 1 && x.blocks[0].1.is_empty(), format!("new-cell:{name}"), "{msg}: the new cell at {},{} holds {:?}", x.row, x.col, x.blocks);
            extra.push((x.row, x.col, x.rs, x.cs));
        }
        extra.sort();
        new_cells.sort();
        ensure!(extra == new_cells, format!("new-cells:{name}"), "{msg}: new cells {extra:?}, expected {new_cells:?}");
    }
    if changes >= 2 {
        obs.distinct(&format!("{:?}{:?}", c.ops, c.nums));
    }
    Ok(())
}
pub fn first_diff(a: &[String], b: &[String]) -> (Option<String>, Option<String>) {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    (a.get(i).cloned(), b.get(i).cloned())
}

// ── selections ──────────────────────────────────────────────────────────────

fn gen_cells(r: &mut Rng, _i: u64, _t: Tier) -> Case {
    let mut ops = setup(r);
    for _ in 0..r.range(0, 3) {
        ops.push(Op::Merge { c: 0, t: r.below(3), r0: r.below(4), c0: r.below(4), r1: r.below(4), c1: r.below(4) });
    }
    Case { kind: "cells".into(), ops, nums: vec![r.next()], ..Default::default() }
}

type Spot = Option<(usize, usize, usize)>;
fn run_cells(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    for op in &c.ops {
        env.apply(op);
    }
    let mut rng = Rng::new(c.nums.first().copied().unwrap_or(1));
    let doc = &env.doc;
    let snap = doc.snapshot_flow();
    let bs = observe::flat_blocks(&snap);
    let mut ts = vec![];
    find_tables(&snap.elements, &mut ts);
    if bs.is_empty() {
        return Ok(());
    }
    let max = bs.last().map(|b| b.position + b.length).unwrap();
    let spot = |p: usize| -> Spot { bs.iter().find(|b| b.position <= p && p <= b.position + b.length).and_then(|b| b.table_cell.as_ref()).map(|c| (c.table_id, c.row, c.column)) };
    let expand = |t: &TableSnapshot, mut r: (usize, usize, usize, usize)| {
        loop {
            let o = r;
            for c in &t.cells {
                let (b, e) = (c.row + c.row_span - 1, c.column + c.column_span - 1);
                if c.row <= r.2 && b >= r.0 && c.column <= r.3 && e >= r.1 {
                    r = (r.0.min(c.row), r.1.min(c.column), r.2.max(b), r.3.max(e));
                }
            }
            if o == r {
                return r;
            }
        }
    };
    let table = |id: usize| ts.iter().find(|t| t.table_id == id);
    for _ in 0..6 {
        let cur = doc.cursor();
        let a = rng.below(max + 1);
        cur.set_position(a, MoveMode::MoveAnchor);
        let a = cur.position();
        let here = spot(a);
        let got = cur.current_table_cell().map(|c| (c.table.id(), c.row, c.column));
        ensure!(got == here, "current-cell", "cursor at {a}: current cell {got:?}, expected {here:?}");
        ensure!(cur.current_table().map(|t| t.id()) == here.map(|h| h.0), "current-table", "cursor at {a}: current table {:?}", cur.current_table().map(|t| t.id()));
        ensure!(matches!(cur.selection_kind(), SelectionKind::None) && !cur.is_cell_selection() && cur.selected_cells().is_empty(), "collapsed", "cursor at {a} without selection: {:?}", cur.selection_kind());
        if here.is_some() {
            obs.hit("current_cells");
        }
        let b0 = rng.below(max + 1);
        cur.set_position(b0, MoveMode::KeepAnchor);
        let (p, an) = (cur.position(), cur.anchor());
        ensure!(an == a, "anchor", "extending the selection moved its anchor from {a} to {an}");
        // snapping
        let (sp, sa) = (spot(p), spot(an));
        let wanted = spot(b0);
        if let (Some((tid, ..)), None) = (wanted, sa) {
            let top: Vec<(usize, bool, usize, usize)> = snap.elements.iter().enumerate().filter_map(|(i, e)| match e {
                FlowElementSnapshot::Table(t) if t.table_id == tid => Some((i, true, 0, 0)),
                FlowElementSnapshot::Block(b) => Some((i, false, b.position, b.position + b.length)),
                _ => None,
            }).collect();
            if let Some(k) = top.iter().position(|x| x.1) {
                let before = top[..k].iter().rev().find(|x| !x.1);
                let after = top[k + 1..].iter().find(|x| !x.1);
                // the free end goes to the far side of the table
                let target = if a < b0 { after.map(|x| x.2) } else { before.map(|x| x.3) };
                if let Some(t) = target {
                    ensure!(p == t, "snap", "extending from {a} to {b0} ({sa:?} to {wanted:?}) ends at {p}, expected {t}");
                    obs.hit("snapped");
                }
            }
        }
        let kind = cur.selection_kind();
        let range = |id: usize, r: (usize, usize, usize, usize)| CellRange { table_id: id, start_row: r.0, start_col: r.1, end_row: r.2, end_col: r.3 };
        let full = |id: usize| range(id, table(id).map(|t| (0, 0, t.rows - 1, t.columns - 1)).unwrap());
        let want = if p == an {
            SelectionKind::None
        } else {
            match (sp, sa) {
                (Some(x), Some(y)) if x.0 != y.0 => SelectionKind::Text,
                (Some(x), Some(y)) if x == y => SelectionKind::Text,
                (Some(x), Some(y)) => SelectionKind::Cells(range(x.0, expand(table(x.0).unwrap(), (x.1.min(y.1), x.2.min(y.2), x.1.max(y.1), x.2.max(y.2))))),
                (Some(x), None) => SelectionKind::Mixed { cell_range: full(x.0), text_before: an < p, text_after: an > p },
                (None, Some(x)) => SelectionKind::Mixed { cell_range: full(x.0), text_before: p < an, text_after: p > an },
                (None, None) => {
                    let (s, e) = (p.min(an), p.max(an));
                    let inside = snap.elements.iter().find_map(|x| match x {
                        FlowElementSnapshot::Table(t) => {
                            let f = bs.iter().find(|b| b.table_cell.as_ref().is_some_and(|c| c.table_id == t.table_id))?.position;
                            (s < f && f < e).then_some(t.table_id)
                        }
                        _ => None,
                    });
                    match inside {
                        Some(id) => SelectionKind::Mixed { cell_range: full(id), text_before: true, text_after: true },
                        None => SelectionKind::Text,
                    }
                }
            }
        };
        ensure!(kind == want, "kind", "selection {an}..{p} ({sa:?} to {sp:?}): {kind:?}, expected {want:?}");
        check_cells(&cur, &kind, &ts)?;
        match &kind {
            SelectionKind::Text => obs.hit("text_selections"),
            SelectionKind::Cells(r) => {
                obs.hit("cell_selections");
                let (x, y) = (sp.unwrap(), sa.unwrap());
                if (r.start_row, r.start_col, r.end_row, r.end_col) != (x.1.min(y.1), x.2.min(y.2), x.1.max(y.1), x.2.max(y.2)) {
                    obs.hit("expanded_ranges");
                }
            }
            SelectionKind::Mixed { .. } => obs.hit("mixed_selections"),
            SelectionKind::None => {}
        }
        if sp.is_some() || sa.is_some() {
            obs.distinct(&(p, an, ts.iter().map(|t| (t.rows, t.columns, t.cells.len())).collect::<Vec<_>>()));
        }
        // explicit selections
        if let Some(t) = ts.get(rng.below(ts.len().max(1))) {
            let (r0, c0, r1, c1) = (rng.below(t.rows), rng.below(t.columns), rng.below(t.rows), rng.below(t.columns));
            let r = (r0.min(r1), c0.min(c1), r0.max(r1), c0.max(c1));
            cur.select_cell_range(t.table_id, r.0, r.1, r.2, r.3);
            let want = SelectionKind::Cells(range(t.table_id, expand(t, r)));
            let kind = cur.selection_kind();
            ensure!(kind == want, "explicit", "select_cell_range {r:?}: {kind:?}, expected {want:?}");
            check_cells(&cur, &kind, &ts)?;
            ensure!((cur.position(), cur.anchor()) == (p, an), "explicit", "an explicit cell selection moved the cursor");
            cur.clear_cell_selection();
            let k2 = cur.selection_kind();
            let again = { let o = doc.cursor(); o.set_position(an, MoveMode::MoveAnchor); o.set_position(p, MoveMode::KeepAnchor); (o.position() == p && o.anchor() == an).then(|| o.selection_kind()) };
            if let Some(k) = again {
                ensure!(k2 == k, "explicit", "after clearing the cell selection: {k2:?}, expected {k:?}");
            }
            cur.select_table_cell(t.table_id, r.0, r.1);
            ensure!(cur.selection_kind() == SelectionKind::Cells(range(t.table_id, (r.0, r.1, r.0, r.1))), "explicit", "select_table_cell {},{}: {:?}", r.0, r.1, cur.selection_kind());
            let pp = cur.position();
            cur.set_position(pp, MoveMode::MoveAnchor);
            ensure!(cur.selection_kind() == SelectionKind::None, "explicit", "moving the cursor keeps the cell selection");
            obs.hit("explicit_selections");
        }
    }
    Ok(())
}
fn check_cells(cur: &TextCursor, k: &SelectionKind, ts: &[TableSnapshot]) -> Verdict {
    let r = match k {
        SelectionKind::Cells(r) => Some(r.clone()),
        SelectionKind::Mixed { cell_range, .. } => Some(cell_range.clone()),
        _ => None,
    };
    ensure!(cur.is_cell_selection() == r.is_some() && cur.selected_cell_range() == r, "cell-range", "{k:?}: is_cell_selection {}, range {:?}", cur.is_cell_selection(), cur.selected_cell_range());
    let mut got: Vec<_> = cur.selected_cells().iter().map(|c| (c.table.id(), c.row, c.column)).collect();
    got.sort();
    let mut want: Vec<_> = match &r {
        None => vec![],
        Some(r) => ts
            .iter()
            .filter(|t| t.table_id == r.table_id)
            .flat_map(|t| t.cells.iter().map(|c| (t.table_id, c.row, c.column)))
            .filter(|c| r.start_row <= c.1 && c.1 <= r.end_row && r.start_col <= c.2 && c.2 <= r.end_col)
            .collect(),
    };
    want.sort();
    ensure!(got == want, "selected-cells", "{k:?} lists {got:?}, expected {want:?}");
    Ok(())
}
