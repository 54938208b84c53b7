//! Every public call with hostile arguments: no panic, and a refused call changes nothing.

use crate::ensure;
use crate::r#gen::{self, Mix};
use crate::integrity;
use crate::observe;
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P07",
        quick: 9000,
        thorough: 2000000,
        level: "exploration",
        rule: "Each case builds a random document and then makes 10-40 calls chosen from the whole public API (document, cursors, and the handles of blocks, \
               frames, tables, cells and lists, also of ones deleted since) with hostile arguments: positions and lengths far beyond the end, identifiers of \
               nothing or of another kind of thing, zero and huge counts, empty, control, combining and very long texts, invalid expressions. No call may \
               panic or hang. A call that answers with an error must leave the stored document, every view of it, the undo history, the modified flag and the \
               cursors as they were, and announce nothing. After a successful change the whole store must be sound. Non-trivial: a call with a hostile \
               argument; distinct: by call, document shape and outcome.",
        assumptions: &["numbers above i64::MAX are outside the documented range (debug assertion in convert.rs)"],
        must_observe: &["calls", "refused", "changed", "reads", "stale_handles", "handles_of_removed_blocks", "integrity_checks"],
        generate,
        run,
        workers: 8,
        repeat_on_shrink: 1,
    }]
}

fn generate(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let mut m = Mix::all();
    m.group = 0;
    if i % 3 == 0 {
        m.table = 0;
        m.tablefmt = 0;
    } else {
        m.frame = 0;
    }
    super::undo::region(&mut m);
    let n = r.range(0, 6);
    let mut ops = super::undo::start(r);
    ops.extend(r#gen::ops(r, &m, n));
    let mut nums = vec![];
    for _ in 0..r.range(10, 40) {
        nums.push(r.next());
    }
    Case { kind: "calls".into(), ops, nums, ..Default::default() }
}

fn hostile_text(r: &mut Rng) -> String {
    match r.below(16) {
        0 => String::new(),
        1 => "\n".into(),
        2 => "\r\n".into(),
        3 => "a\rb".into(),
        4 => "\u{0}".into(),
        5 => "\u{2028}x\u{2029}".into(),
        6 => "\u{301}".into(),
        7 => "\u{202e}abc\u{202c}".into(),
        8 => "\u{feff}".into(),
        9 => "x".repeat(5000),
        10 => "\u{1f468}\u{200d}".into(),
        11 => "\t\u{b}\u{c}".into(),
        12 => "\u{10ffff}".into(),
        _ => r#gen::snippet(r),
    }
}
fn hostile_markup(r: &mut Rng) -> String {
    match r.below(18) {
        0 => "<".into(),
        1 => "<table><tr>".into(),
        2 => "<table></table>".into(),
        3 => "<ul><ul><ul><li></ul>".into(),
        4 => "</p></p></div>".into(),
        5 => "<p style=\"color:\">x".into(),
        6 => "&#xffffffff; &unknown; &#0;".into(),
        7 => "<blockquote>".repeat(30),
        8 => "> ".repeat(30) + "x",
        9 => "|\n|-|\n".into(),
        10 => "| a | b |\n|---|\n| 1 |".into(),
        11 => "```\nunclosed".into(),
        12 => "[a](b".into(),
        13 => "* * *\n- - -\n# \n## #".into(),
        14 => "<script>alert(1)</script><style>p{}</style>".into(),
        15 => "<p><b><i>x</b></i></p>".into(),
        16 => "<td>loose</td><li>loose</li>".into(),
        _ => hostile_text(r),
    }
}

struct Handles {
    blocks: Vec<TextBlock>,
    frames: Vec<TextFrame>,
    tables: Vec<TextTable>,
    cells: Vec<TextTableCell>,
    lists: Vec<TextList>,
}
fn handles(doc: &TextDocument) -> Handles {
    let blocks = doc.blocks();
    let mut h = Handles { frames: vec![], tables: vec![], cells: vec![], lists: vec![], blocks };
    for b in &h.blocks {
        h.frames.push(b.frame());
        h.lists.extend(b.list());
        if let Some(c) = b.table_cell() {
            h.cells.extend(c.table.cell(c.row, c.column));
            h.tables.push(c.table);
        }
    }
    h
}
fn cursors(env: &Env) -> Vec<(usize, usize)> {
    env.cursors.iter().map(|c| (c.position(), c.anchor())).collect()
}

/// Read everything a handle offers; wrong handles have neutral answers.
fn read_handles(h: &Handles, doc: &TextDocument, k: usize, obs: &mut Obs) -> Verdict {
    if let Some(b) = h.blocks.get(k % h.blocks.len().max(1)) {
        let live = doc.rope_store_for_test().blocks.read().unwrap().contains_key(&(b.id() as u64));
        ensure!(b.is_valid() == live, "validity", "block {} is_valid {}, stored {live}", b.id(), b.is_valid());
        let (t, l) = (b.text(), b.length());
        let s = b.snapshot();
        let _ = (b.is_empty(), b.position(), b.block_number(), b.next().map(|x| x.id()), b.previous().map(|x| x.id()), b.frame().id(), b.block_format(), b.list_item_index());
        let _ = b.table_cell().map(|c| (c.row, c.column));
        for o in [0, l, l + 1, usize::MAX, i64::MAX as usize] {
            let f = b.char_format_at(o);
            if !live {
                ensure!(f.is_none(), "dead-block", "removed block {} has the format {f:?} at {o}", b.id());
            }
        }
        if live {
            ensure!(t.chars().count() <= l + 1 && s.text == t, "block-text", "block {}: text {t:?}, length {l}, snapshot {:?}", b.id(), s.text);
        } else {
            ensure!(t.is_empty() && l == 0 && b.is_empty() && b.fragments().is_empty() && b.list().is_none() && b.table_cell().is_none(), "dead-block", "removed block {} has text {t:?}, length {l}, fragments {:?}", b.id(), b.fragments());
            obs.hit("handles_of_removed_blocks");
        }
    }
    if let Some(f) = h.frames.get(k % h.frames.len().max(1)) {
        let _ = (f.id(), f.format(), f.flow().len(), f.snapshot().elements.len());
    }
    if let Some(t) = h.tables.get(k % h.tables.len().max(1)) {
        let (r, c) = (t.rows(), t.columns());
        let _ = (t.column_widths(), t.format(), t.snapshot());
        for (a, b) in [(0, 0), (r, c), (usize::MAX, 0), (0, usize::MAX), (r.wrapping_sub(1), c.wrapping_sub(1))] {
            let x = t.cell(a, b);
            ensure!(x.is_none() || (a < r && b < c), "no-such-cell", "table of {r}x{c} has a cell {a},{b}");
        }
    }
    if let Some(c) = h.cells.get(k % h.cells.len().max(1)) {
        let _ = (c.id(), c.row(), c.column(), c.row_span(), c.column_span(), c.format(), c.snapshot_blocks());
        for b in c.blocks() {
            let _ = b.text();
        }
    }
    if let Some(l) = h.lists.get(k % h.lists.len().max(1)) {
        let _ = (l.id(), l.style(), l.indent(), l.prefix(), l.suffix(), l.count(), l.format(), l.item_marker(usize::MAX));
        ensure!(l.item(l.count()).is_none() && l.item(usize::MAX).is_none(), "no-such-item", "list has an item beyond its last");
    }
    obs.hit("stale_handles");
    Ok(())
}

fn run(case: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    let mut old = vec![handles(&env.doc)];
    for o in &case.ops {
        env.apply(o);
        if old.len() < 4 {
            old.push(handles(&env.doc));
        }
    }
    let doc = env.doc.clone();
    let _ = doc.poll_events();
    for &seed in &case.nums {
        let mut r = Rng::new(seed);
        let max = max_pos(&doc);
        let pos = |r: &mut Rng| -> usize {
            let m = max;
            *r.pick(&[0, 1, m / 2, m, m + 1, m.saturating_sub(1), 1_000_000, i64::MAX as usize, i64::MAX as usize - 1, u32::MAX as usize, 1 << 31])
        };
        let num = |r: &mut Rng| -> usize { *r.pick(&[0, 0, 1, 1, 2, 3, 7, 1000, u32::MAX as usize, i64::MAX as usize]) };
        let small = |r: &mut Rng| -> usize { if r.chance(1, 30) { 12 } else { *r.pick(&[0, 1, 2, 3, 5]) } };
        let id = |r: &mut Rng| -> usize {
            let b = doc.blocks();
            match r.below(7) {
                0 => *r.pick(&[0, 1, 999_999, i64::MAX as usize]),
                1 => b.get(r.below(b.len().max(1))).map_or(0, |b| b.id()),
                2 => frames(&doc).get(r.below(3)).copied().unwrap_or(5),
                3 => lists(&doc).get(r.below(2)).copied().unwrap_or(5),
                4 | 5 => tables(&doc).get(r.below(2)).map_or(5, |t| t.0),
                _ => r.below(40),
            }
        };
        // place a cursor
        let ci = r.below(env.cursors.len());
        let cur = env.cursors[ci].clone();
        cur.set_position(pos(&mut r), MoveMode::MoveAnchor);
        if r.chance(1, 2) {
            cur.set_position(pos(&mut r), MoveMode::KeepAnchor);
        }
        if r.chance(1, 10) {
            // a cursor made beyond the end (within reason: positions near i64::MAX overflow there)
            env.cursors[ci] = doc.cursor_at(pos(&mut r).min(1_000_000));
        }
        let cur = env.cursors[ci].clone();
        if env.at_nested(ci) && r.chance(3, 4) {
            cur.set_position(0, MoveMode::MoveAnchor);
        }
        let _ = doc.poll_events();
        let before = observe::store_of(&doc);
        let bview = observe::view(&doc);
        let bstate = (doc.can_undo(), doc.can_redo(), doc.is_modified(), cursors(&env), (cur.position(), cur.anchor()), cur.selected_cell_range());
        let mut sound = true;
        let mut touched_cursor = false;
        let name: String;
        macro_rules! call {
            ($n:expr, $e:expr) => {{
                name = $n.into();
                if std::env::var("VMON_TRACE").is_ok() {
                    eprintln!("{name}");
                }
                $e.map(|_| ()).map_err(|e| e.to_string())
            }};
        }
        macro_rules! read {
            ($n:expr, $e:expr) => {{
                name = $n.into();
                if std::env::var("VMON_TRACE").is_ok() {
                    eprintln!("{name}");
                }
                let _ = $e;
                obs.hit("reads");
                Ok(())
            }};
        }
        let res: std::result::Result<(), String> = match r.below(78) {
            0 => { let t = hostile_text(&mut r); call!(format!("insert_text({t:.20?})"), cur.insert_text(&t)) }
            1 => { let t = hostile_text(&mut r); let f = r#gen::fmt(&mut r).to_text(); call!(format!("insert_formatted_text({t:.20?})"), cur.insert_formatted_text(&t, &f)) }
            2 => call!("insert_block", cur.insert_block()),
            3 => { let t = hostile_markup(&mut r); sound = !env.at_cell(ci) && !env.at_nested(ci); call!(format!("insert_html({t:.30?})"), cur.insert_html(&t)) }
            4 => { let t = hostile_markup(&mut r); sound = !env.at_cell(ci) && !env.at_nested(ci); call!(format!("insert_markdown({t:.30?})"), cur.insert_markdown(&t)) }
            5 => { let t = hostile_markup(&mut r); sound = !env.at_cell(ci) && !env.at_nested(ci); let f = match r.below(3) { 0 => DocumentFragment::from_html(&t), 1 => DocumentFragment::from_markdown(&t), _ => DocumentFragment::new() }; let _ = (f.to_html(), f.to_markdown(), f.to_plain_text().len()); call!("insert_fragment", cur.insert_fragment(&f)) }
            6 => { let (a, b) = (small(&mut r), small(&mut r)); sound = !env.at_cell(ci) && !env.at_nested(ci); if sound { call!(format!("insert_table({a},{b})"), cur.insert_table(a, b)) } else { read!("skip", ()) } }
            7 => { let t = id(&mut r); call!(format!("remove_table({t})"), cur.remove_table(t)) }
            8 => { let (t, i) = (id(&mut r), num(&mut r)); call!(format!("insert_table_row({t},{i})"), cur.insert_table_row(t, i)) }
            9 => { let (t, i) = (id(&mut r), num(&mut r)); call!(format!("insert_table_column({t},{i})"), cur.insert_table_column(t, i)) }
            10 => { let (t, i) = (id(&mut r), num(&mut r)); call!(format!("remove_table_row({t},{i})"), cur.remove_table_row(t, i)) }
            11 => { let (t, i) = (id(&mut r), num(&mut r)); call!(format!("remove_table_column({t},{i})"), cur.remove_table_column(t, i)) }
            12 => { let (t, a, b, c, d) = (id(&mut r), num(&mut r), num(&mut r), num(&mut r), num(&mut r)); call!(format!("merge_table_cells({t},{a},{b},{c},{d})"), cur.merge_table_cells(t, a, b, c, d)) }
            13 => { let (t, a, b) = (r.below(30), num(&mut r), num(&mut r)); let t = before.cells.keys().nth(t % before.cells.len().max(1)).map_or(t, |t| *t as usize); call!(format!("split_table_cell({t},{a},{b})"), cur.split_table_cell(t, a, b)) }
            14 => { let t = id(&mut r); let f = TableFormat { width: Some(r.below(3) as i32 - 1), ..Default::default() }; call!(format!("set_table_format({t})"), cur.set_table_format(t, &f)) }
            15 => { let t = id(&mut r); let f = CellFormat { padding: Some(i32::MIN), ..Default::default() }; call!(format!("set_table_cell_format({t})"), cur.set_table_cell_format(t, &f)) }
            16 => call!("remove_current_table", cur.remove_current_table()),
            17 => call!("insert_row_above", cur.insert_row_above()),
            18 => call!("insert_row_below", cur.insert_row_below()),
            19 => call!("insert_column_before", cur.insert_column_before()),
            20 => call!("insert_column_after", cur.insert_column_after()),
            21 => call!("remove_current_row", cur.remove_current_row()),
            22 => call!("remove_current_column", cur.remove_current_column()),
            23 => call!("merge_selected_cells", cur.merge_selected_cells()),
            24 => { let (a, b) = (num(&mut r), num(&mut r)); call!(format!("split_current_cell({a},{b})"), cur.split_current_cell(a, b)) }
            25 => call!("set_current_table_format", cur.set_current_table_format(&TableFormat::default())),
            26 => call!("set_current_cell_format", cur.set_current_cell_format(&CellFormat::default())),
            27 => { touched_cursor = true; let (t, a, b) = (id(&mut r), num(&mut r), num(&mut r)); read!(format!("select_table_cell({t},{a},{b})"), { cur.select_table_cell(t, a, b); (cur.selection_kind(), cur.selected_cells().len(), cur.selected_text().is_ok()) }) }
            28 => { touched_cursor = true; let (t, a, b, c, d) = (id(&mut r), num(&mut r), num(&mut r), num(&mut r), num(&mut r)); read!(format!("select_cell_range({t},{a},{b},{c},{d})"), { cur.select_cell_range(t, a, b, c, d); (cur.selection_kind(), cur.selected_cells().len(), cur.selection().is_empty()) }) }
            29 => { touched_cursor = true; let (t, a, b, c, d) = (id(&mut r), num(&mut r), num(&mut r), num(&mut r), num(&mut r)); cur.select_cell_range(t, a, b, c, d); let k = r.below(4); let x = call!(format!("selection {t},{a},{b},{c},{d} then {k}"), match k { 0 => cur.set_char_format(&r#gen::fmt(&mut r).to_text()), 1 => cur.merge_char_format(&r#gen::fmt(&mut r).to_text()), 2 => cur.set_block_format(&r#gen::bfmt(&mut r).to_block()), _ => cur.remove_selected_text().map(|_| ()) }); cur.clear_cell_selection(); x }
            30 => call!("delete_char", cur.delete_char()),
            31 => call!("delete_previous_char", cur.delete_previous_char()),
            32 => call!("remove_selected_text", cur.remove_selected_text()),
            33 => { let s = lstyle(r.below(8) as u8); call!("create_list", cur.create_list(s)) }
            34 => { let s = lstyle(r.below(8) as u8); call!("insert_list", cur.insert_list(s)) }
            35 => { let l = id(&mut r); let f = ListFormat { indent: Some(255), prefix: Some(hostile_text(&mut r)), ..Default::default() }; call!(format!("set_list_format({l})"), cur.set_list_format(l, &f)) }
            36 => call!("set_current_list_format", cur.set_current_list_format(&ListFormat::default())),
            37 => { let (b, l) = (id(&mut r), id(&mut r)); call!(format!("add_block_to_list({b},{l})"), cur.add_block_to_list(b, l)) }
            38 => { let l = id(&mut r); call!(format!("add_current_block_to_list({l})"), cur.add_current_block_to_list(l)) }
            39 => { let b = id(&mut r); call!(format!("remove_block_from_list({b})"), cur.remove_block_from_list(b)) }
            40 => call!("remove_current_block_from_list", cur.remove_current_block_from_list()),
            41 => { let (l, i) = (id(&mut r), num(&mut r)); call!(format!("remove_list_item({l},{i})"), cur.remove_list_item(l, i)) }
            42 => { let f = TextFormat { font_point_size: Some(u32::MAX), letter_spacing: Some(i32::MIN), ..Default::default() }; call!("set_char_format", cur.set_char_format(&f)) }
            43 => { let f = TextFormat { font_weight: Some(u32::MAX), word_spacing: Some(i32::MIN), ..Default::default() }; call!("merge_char_format", cur.merge_char_format(&f)) }
            44 => { let f = BlockFormat { heading_level: Some(255), indent: Some(255), line_height: Some(f32::MAX), top_margin: Some(i32::MIN), ..Default::default() }; call!("set_block_format", cur.set_block_format(&f)) }
            45 => { let i = id(&mut r); let f = FrameFormat { top_margin: Some(i32::MAX), ..Default::default() }; call!(format!("set_frame_format({i})"), cur.set_frame_format(i, &f)) }
            46 => { let (q, t) = (hostile_text(&mut r), hostile_text(&mut r)); let o = Env::opts(r.chance(1, 2), r.chance(1, 3), r.chance(1, 3)); let all = r.chance(1, 2); call!(format!("replace_text({q:.20?},{t:.20?})"), doc.replace_text(&q, &t, all, &o)) }
            47 => { let q = (*r.pick(&["(", "[", "a{99999}", "(?P<", "\\", "*", "x*", "$", "^", "", "\\b"])).to_string(); let o = Env::opts(true, r.chance(1, 2), true); let f = pos(&mut r); call!(format!("find({q:?},{f})"), doc.find(&q, f, &o)) }
            48 => { let q = (*r.pick(&["(", "a{99999}", "x*", "$", "^", "", "\\n"])).to_string(); let o = Env::opts(true, r.chance(1, 2), true); call!(format!("replace_text re {q:?}"), doc.replace_text(&q, "$0$1${x", r.chance(1, 2), &o)) }
            49 => { let q = hostile_text(&mut r); let o = FindOptions { search_backward: r.chance(1, 2), whole_word: r.chance(1, 2), ..Default::default() }; let f = pos(&mut r); call!(format!("find({q:.20?},{f})"), doc.find(&q, f, &o)) }
            50 => { let (p, n) = (pos(&mut r), pos(&mut r)); call!(format!("text_at({p},{n})"), doc.text_at(p, n)) }
            51 => { let p = pos(&mut r); read!(format!("find_element_at_position({p})"), doc.find_element_at_position(p)) }
            52 => { let p = pos(&mut r); call!(format!("block_at({p})"), doc.block_at(p)) }
            53 => { let p = pos(&mut r); call!(format!("block_format_at({p})"), doc.block_format_at(p)) }
            54 => { let p = pos(&mut r); read!(format!("snapshot_block_at_position({p})"), (doc.snapshot_block_at_position(p).is_some(), doc.block_at_position(p).map(|b| b.text()), doc.block_by_number(p).map(|b| b.text()))) }
            55 => { let p = id(&mut r); read!(format!("block_by_id({p})"), doc.block_by_id(p).map(|b| (b.text(), b.snapshot()))) }
            56 => { let (p, n) = (pos(&mut r), *r.pick(&[0, 1, i64::MAX as usize, usize::MAX])); read!(format!("blocks_in_range({p},{n})"), doc.blocks_in_range(p, n).len()) }
            57 => { let t = hostile_text(&mut r); call!("set_title", doc.set_title(&t)) }
            58 => { let (n, d) = (hostile_text(&mut r), vec![0u8; num(&mut r).min(300)]); call!(format!("add_resource({n:.20?})"), doc.add_resource(if r.chance(1, 2) { ResourceType::Image } else { ResourceType::Other }, &n, &hostile_text(&mut r), &d)) }
            59 => { let n = hostile_text(&mut r); call!("resource", doc.resource(&n)) }
            60 => { let t = hostile_text(&mut r); call!(format!("to_latex({t:.20?})"), doc.to_latex(&t, r.chance(1, 2))) }
            61 => { let p = *r.pick(&["", "/proc/vmon/none.docx", "/dev/null/x", "\0"]); let x = doc.to_docx(p).and_then(|o| quick_wait(o).map_err(|e| e.into())); call!(format!("to_docx({p:?})"), x) }
            62 => call!("undo", doc.undo()),
            63 => call!("redo", doc.redo()),
            64 => { touched_cursor = true; let k = r.below(21) as u8; let n = *r.pick(&[0, 1, 2, 1000, 1_000_000, i64::MAX as usize, usize::MAX]); let keep = r.chance(1, 2); read!(format!("move_position({:?},{n})", move_op(k)), cur.move_position(move_op(k), if keep { MoveMode::KeepAnchor } else { MoveMode::MoveAnchor }, n)) }
            65 => { touched_cursor = true; let k = r.below(4); read!(format!("select {k}"), { cur.select(*[SelectionType::WordUnderCursor, SelectionType::LineUnderCursor, SelectionType::BlockUnderCursor, SelectionType::Document].get(k).unwrap()); cur.selected_text().is_ok() }) }
            66 => read!("cursor queries", (cur.at_block_start(), cur.at_block_end(), cur.at_start(), cur.at_end(), cur.block_number(), cur.position_in_block(), cur.current_table().is_some(), cur.current_table_cell().is_some(), cur.selection_kind(), cur.current_list().is_some())),
            67 => call!("char_format", cur.char_format()),
            68 => call!("block_format", cur.block_format()),
            69 => call!("selected_text", cur.selected_text()),
            70 => {
                // a cursor made beyond the end edits nothing (upstream's contract), and moves back in
                let p = pos(&mut r);
                let c = doc.cursor_at(p);
                if p > max {
                    let _ = (c.delete_char(), c.delete_previous_char(), c.selected_text(), c.block_number(), c.char_format(), c.selection_kind(), c.current_list().is_some());
                    ensure!(observe::store_of(&doc).rope == before.rope, "beyond-end", "a cursor at {p} of {max} deleted text");
                    c.set_position(p, MoveMode::MoveAnchor);
                }
                ensure!(c.position() <= max, "clamp", "cursor at {} of {max}", c.position());
                read!("cursor_at", drop(c))
            }
            71 => { let p = id(&mut r); read!(format!("rehighlight_block({p})"), { doc.rehighlight_block(p); doc.rehighlight() }) }
            72 => read!("snapshots", (doc.snapshot_flow().elements.len(), doc.to_html().is_ok(), doc.to_markdown().is_ok(), doc.to_plain_text().is_ok())),
            73 => { let f = cur.selection(); let fd = DocumentFragment::from_document(&doc); read!("fragment", (f.to_html().len(), f.to_markdown().len(), f.is_empty(), fd.is_ok())) }
            74 => { let i = r.below(old.len()); let k = r.below(100); read_handles(&old[i], &doc, k, obs)?; read!("stale handles", ()) }
            75 => { let t = hostile_markup(&mut r); if doc.can_undo() && r.chance(2, 3) { read!("skip", ()) } else { touched_cursor = true; call!(format!("set_html({t:.30?})"), doc.set_html(&t).and_then(|o| quick_wait(o).map_err(|e| e.into()))) } }
            76 => { let t = hostile_markup(&mut r); touched_cursor = true; if r.chance(2, 3) { call!(format!("set_plain_text({t:.30?})"), doc.set_plain_text(&t)) } else { call!(format!("set_markdown({t:.30?})"), doc.set_markdown(&t).and_then(|o| quick_wait(o).map_err(|e| e.into()))) } }
            _ => { touched_cursor = true; call!("clear", doc.clear()) }
        };
        obs.hit("calls");
        let after = observe::store_of(&doc);
        let outcome = match &res {
            Err(e) => {
                if let Some((path, d)) = observe::store_diff(&before, &after) {
                    return viol("refused-changed", format!("{name} failed ({e}) but changed {path}: {d}"));
                }
                if let Some((path, d)) = observe::view_diff(&bview, &observe::view(&doc)) {
                    return viol("refused-view", format!("{name} failed ({e}) but changed {path}: {d}"));
                }
                let st = (doc.can_undo(), doc.can_redo(), doc.is_modified(), cursors(&env), (cur.position(), cur.anchor()), cur.selected_cell_range());
                ensure!(touched_cursor && (st.0, st.1, st.2) == (bstate.0, bstate.1, bstate.2) || st == bstate, "refused-state", "{name} failed ({e}): undo, redo, modified, cursors, cell range {st:?}, before {bstate:?}");
                let ev = doc.poll_events();
                let ev: Vec<_> = ev.into_iter().filter(|e| !matches!(e, DocumentEvent::LongOperationProgress { .. } | DocumentEvent::LongOperationFinished { .. })).collect();
                ensure!(ev.is_empty(), "refused-events", "{name} failed ({e}) but announced {ev:?}");
                obs.hit("refused");
                1
            }
            Ok(()) if after != before => {
                obs.hit("changed");
                if old.len() < 6 {
                    old.push(handles(&doc));
                }
                2
            }
            Ok(()) => 0,
        };
        obs.distinct(&(name.split('(').next().map(|s| s.to_string()), outcome, after.blocks.len().min(6), after.tables.len(), after.frames.len().min(6), env.at_cell(ci)));
        if !sound {
            return Ok(());
        }
        if outcome == 2 {
            if let Err((rule, d)) = integrity::check(&after) {
                return viol(format!("{rule}:{}", name.split('(').next().unwrap_or("")), format!("after {name}: {d}"));
            }
            obs.hit("integrity_checks");
        }
    }
    let k = case.nums.len();
    for h in &old {
        read_handles(h, &doc, k, obs)?;
    }
    Ok(())
}
