//! The operation language: a serialisable list of API calls, interpreted against
//! a live document. Positions and indices are raw numbers reduced modulo what the
//! document currently offers, so any sub-sequence of a case is again a case.

use serde::{Deserialize, Serialize};
use text_document::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Fmt {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub family: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub size: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub weight: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub bold: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub italic: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub underline: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub overline: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub strike: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub letter: Option<i32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub word: Option<i32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub valign: Option<u8>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ustyle: Option<u8>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub href: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<String>,
}

impl Fmt {
    pub fn to_text(&self) -> TextFormat {
        TextFormat {
            font_family: self.family.clone(),
            font_point_size: self.size,
            font_weight: self.weight,
            font_bold: self.bold,
            font_italic: self.italic,
            font_underline: self.underline,
            font_overline: self.overline,
            font_strikeout: self.strike,
            letter_spacing: self.letter,
            word_spacing: self.word,
            vertical_alignment: self.valign.map(valign),
            underline_style: self.ustyle.map(ustyle),
            anchor_href: self.href.clone(),
            is_anchor: self.href.as_ref().map(|_| true),
            tooltip: self.tooltip.clone(),
            ..Default::default()
        }
    }
}

pub fn valign(v: u8) -> CharVerticalAlignment {
    use CharVerticalAlignment::*;
    match v % 7 {
        0 => Normal,
        1 => SuperScript,
        2 => SubScript,
        3 => Middle,
        4 => Bottom,
        5 => Top,
        _ => Baseline,
    }
}
pub fn ustyle(v: u8) -> UnderlineStyle {
    use UnderlineStyle::*;
    match v % 8 {
        0 => NoUnderline,
        1 => SingleUnderline,
        2 => DashUnderline,
        3 => DotLine,
        4 => DashDotLine,
        5 => DashDotDotLine,
        6 => WaveUnderline,
        _ => SpellCheckUnderline,
    }
}
pub fn lstyle(v: u8) -> ListStyle {
    use ListStyle::*;
    match v % 8 {
        0 => Disc,
        1 => Circle,
        2 => Square,
        3 => Decimal,
        4 => LowerAlpha,
        5 => UpperAlpha,
        6 => LowerRoman,
        _ => UpperRoman,
    }
}
pub fn align(v: u8) -> Alignment {
    match v % 4 {
        0 => Alignment::Left,
        1 => Alignment::Right,
        2 => Alignment::Center,
        _ => Alignment::Justify,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct BFmt {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub align: Option<u8>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub top: Option<i32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub bottom: Option<i32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub left: Option<i32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub right: Option<i32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub heading: Option<u8>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub indent: Option<u8>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_indent: Option<i32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub marker: Option<u8>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub line_height_x4: Option<u8>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub nbl: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub rtl: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub bg: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub lang: Option<String>,
}

impl BFmt {
    pub fn to_block(&self) -> BlockFormat {
        BlockFormat {
            alignment: self.align.map(align),
            top_margin: self.top,
            bottom_margin: self.bottom,
            left_margin: self.left,
            right_margin: self.right,
            heading_level: self.heading,
            indent: self.indent,
            text_indent: self.text_indent,
            marker: self.marker.map(|m| match m % 3 {
                0 => MarkerType::NoMarker,
                1 => MarkerType::Unchecked,
                _ => MarkerType::Checked,
            }),
            tab_positions: vec![],
            line_height: self.line_height_x4.map(|v| v as f32 / 4.0),
            non_breakable_lines: self.nbl,
            direction: self.rtl.map(|r| {
                if r {
                    TextDirection::RightToLeft
                } else {
                    TextDirection::LeftToRight
                }
            }),
            background_color: self.bg.clone(),
            is_code_block: self.code,
            code_language: self.lang.clone(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    // cursor state (c = cursor index, p = raw position)
    Pos { c: usize, p: usize, keep: bool },
    Sel { c: usize, a: usize, b: usize },
    Move { c: usize, m: u8, keep: bool, n: usize },
    Select { c: usize, k: u8 },
    // text
    Text { c: usize, t: String },
    FText { c: usize, t: String, f: Fmt },
    Block { c: usize },
    Html { c: usize, h: String },
    Md { c: usize, m: String },
    Image { c: usize, n: String, w: u32, h: u32 },
    Frame { c: usize },
    DelNext { c: usize },
    DelPrev { c: usize },
    DelSel { c: usize },
    Copy { c: usize },
    Paste { c: usize },
    PasteText { c: usize, t: String },
    // tables (t = table ordinal)
    Table { c: usize, r: usize, k: usize },
    RmTable { c: usize, t: usize },
    InsRow { c: usize, t: usize, i: usize },
    InsCol { c: usize, t: usize, i: usize },
    RmRow { c: usize, t: usize, i: usize },
    RmCol { c: usize, t: usize, i: usize },
    Merge { c: usize, t: usize, r0: usize, c0: usize, r1: usize, c1: usize },
    Split { c: usize, t: usize, i: usize, r: usize, k: usize },
    TFmt { c: usize, t: usize, border: Option<i32>, width: Option<i32>, al: Option<u8> },
    CFmt { c: usize, t: usize, i: usize, pad: Option<i32>, bg: Option<String>, va: Option<u8> },
    // lists
    MkList { c: usize, s: u8 },
    InsList { c: usize, s: u8 },
    LFmt { c: usize, l: usize, s: Option<u8>, ind: Option<u8>, pre: Option<String>, suf: Option<String> },
    AddList { c: usize, b: usize, l: usize },
    RmList { c: usize, b: usize },
    // formats
    SetFmt { c: usize, f: Fmt },
    MergeFmt { c: usize, f: Fmt },
    BFmt { c: usize, f: BFmt },
    FrFmt { c: usize, fr: usize, top: Option<i32>, bq: Option<bool>, border: Option<i32> },
    // document
    Begin { c: usize },
    End { c: usize },
    Undo,
    Redo,
    Replace { q: String, r: String, all: bool, cs: bool, ww: bool, re: bool },
    Title { t: String },
    Dir { rtl: bool },
    Wrap { w: u8 },
    Resource { n: String, ty: u8, d: Vec<u8> },
    SetPlain { t: String },
    SetMd { t: String },
    SetHtml { t: String },
    Clear,
    ClearUndo,
    Modified { m: bool },
    NewCursor { p: usize },
    DropCursor { c: usize },
}

impl Op {
    pub fn name(&self) -> String {
        let s = format!("{:?}", self);
        s.split([' ', '{']).next().unwrap_or("?").to_string()
    }
    /// True for operations that go through the undo stack.
    pub fn is_edit(&self) -> bool {
        use Op::*;
        !matches!(
            self,
            Pos { .. }
                | Sel { .. }
                | Move { .. }
                | Select { .. }
                | Copy { .. }
                | Begin { .. }
                | End { .. }
                | Undo
                | Redo
                | SetPlain { .. }
                | SetMd { .. }
                | SetHtml { .. }
                | Clear
                | ClearUndo
                | Modified { .. }
                | NewCursor { .. }
                | DropCursor { .. }
        )
    }
}

pub fn move_op(m: u8) -> MoveOperation {
    use MoveOperation::*;
    const ALL: [MoveOperation; 21] = [
        NoMove, Start, End, StartOfLine, EndOfLine, StartOfBlock, EndOfBlock, StartOfWord,
        EndOfWord, PreviousBlock, NextBlock, PreviousCharacter, NextCharacter, PreviousWord,
        NextWord, Up, Down, Left, Right, WordLeft, WordRight,
    ];
    ALL[m as usize % ALL.len()]
}

/// A live document plus the cursors and clipboard of a case.
pub struct Env {
    pub doc: TextDocument,
    pub cursors: Vec<TextCursor>,
    pub clip: Option<DocumentFragment>,
    pub depth: usize,
}

pub fn max_pos(doc: &TextDocument) -> usize {
    let s = doc.stats();
    s.character_count + s.block_count.saturating_sub(1)
}

/// Every table of the document in id order.
pub fn tables(doc: &TextDocument) -> Vec<(usize, usize, usize)> {
    let store = doc.rope_store_for_test();
    let t = store.tables.read().unwrap();
    let mut v: Vec<_> = t
        .values()
        .map(|t| (t.id as usize, t.rows as usize, t.columns as usize))
        .collect();
    v.sort();
    v
}
pub fn table_cells(doc: &TextDocument, table: usize) -> Vec<usize> {
    let store = doc.rope_store_for_test();
    let t = store.tables.read().unwrap();
    t.get(&(table as u64))
        .map(|t| t.cells.iter().map(|c| *c as usize).collect())
        .unwrap_or_default()
}
pub fn lists(doc: &TextDocument) -> Vec<usize> {
    let store = doc.rope_store_for_test();
    let t = store.lists.read().unwrap();
    let mut v: Vec<_> = t.keys().map(|k| *k as usize).collect();
    v.sort();
    v
}
pub fn frames(doc: &TextDocument) -> Vec<usize> {
    let store = doc.rope_store_for_test();
    let t = store.frames.read().unwrap();
    let mut v: Vec<_> = t.keys().map(|k| *k as usize).collect();
    v.sort();
    v
}

/// True when a document position lies in a block of a table cell.
pub fn in_cell(doc: &TextDocument, pos: usize) -> bool {
    let store = doc.rope_store_for_test();
    let cells = store.table_cells.read().unwrap();
    let frames = store.frames.read().unwrap();
    let ids: std::collections::HashSet<u64> = cells
        .values()
        .filter_map(|c| frames.get(&c.cell_frame?))
        .flat_map(|f| f.blocks.iter().copied())
        .collect();
    drop((cells, frames));
    doc.blocks().iter().any(|b| ids.contains(&(b.id() as u64)) && b.position() <= pos && pos <= b.position() + b.length())
}

/// `Operation::wait` without its 50 ms polling interval.
pub fn quick_wait<T>(mut op: text_document::Operation<T>) -> anyhow::Result<T> {
    let t0 = std::time::Instant::now();
    loop {
        if let Some(r) = op.try_result() {
            return r;
        }
        if t0.elapsed().as_millis() < 2 {
            std::thread::yield_now();
        } else {
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
    }
}

/// Outcome of an interpreted operation.
#[derive(Debug, Clone)]
pub enum Out {
    Ok,
    /// The API call returned Err.
    Err(String),
    /// The operation had nothing to act on (no table, no clipboard...).
    Skip,
}
impl Out {
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok)
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(_))
    }
}
fn o<T>(r: Result<T>) -> Out {
    match r {
        Ok(_) => Out::Ok,
        Err(e) => Out::Err(format!("{e:#}")),
    }
}

impl Env {
    pub fn new() -> Self {
        Self::of(TextDocument::new())
    }
    pub fn of(doc: TextDocument) -> Self {
        let cursors = vec![doc.cursor(), doc.cursor()];
        Env { doc, cursors, clip: None, depth: 0 }
    }
    pub fn cur(&self, c: usize) -> &TextCursor {
        &self.cursors[c % self.cursors.len()]
    }
    pub fn pos(&self, p: usize) -> usize {
        p % (max_pos(&self.doc) + 1)
    }
    pub fn opts(cs: bool, ww: bool, re: bool) -> FindOptions {
        FindOptions { case_sensitive: cs, whole_word: ww, use_regex: re, search_backward: false }
    }

    pub fn apply(&mut self, op: &Op) -> Out {
        use Op::*;
        let mode = |k: bool| if k { MoveMode::KeepAnchor } else { MoveMode::MoveAnchor };
        match op {
            Pos { c, p, keep } => {
                let p = self.pos(*p);
                self.cur(*c).set_position(p, mode(*keep));
                Out::Ok
            }
            Sel { c, a, b } => {
                let (a, b) = (self.pos(*a), self.pos(*b));
                self.cur(*c).set_position(a, MoveMode::MoveAnchor);
                self.cur(*c).set_position(b, MoveMode::KeepAnchor);
                Out::Ok
            }
            Move { c, m, keep, n } => {
                self.cur(*c).move_position(move_op(*m), mode(*keep), *n);
                Out::Ok
            }
            Select { c, k } => {
                self.cur(*c).select(match k % 4 {
                    0 => SelectionType::WordUnderCursor,
                    1 => SelectionType::LineUnderCursor,
                    2 => SelectionType::BlockUnderCursor,
                    _ => SelectionType::Document,
                });
                Out::Ok
            }
            Text { c, t } => o(self.cur(*c).insert_text(t)),
            FText { c, t, f } => o(self.cur(*c).insert_formatted_text(t, &f.to_text())),
            Block { c } => o(self.cur(*c).insert_block()),
            // Tables nested into cells and frames nested into cells are recorded known
            // findings (see known_findings.jsonl); every generator stays out of them.
            Html { c, h } if h.contains("<table") && (self.at_cell(*c) || self.at_nested(*c)) => Out::Skip,
            Md { c, m } if m.contains("|--") && (self.at_cell(*c) || self.at_nested(*c)) => Out::Skip,
            Frame { c } if self.at_cell(*c) || self.doc.blocks().is_empty() => Out::Skip,
            Paste { c } if self.clip_has_table() && (self.at_cell(*c) || self.at_nested(*c)) && !self.fits_cells(*c) => Out::Skip,
            Html { c, h } => o(self.cur(*c).insert_html(h)),
            Md { c, m } => o(self.cur(*c).insert_markdown(m)),
            Image { c, n, w, h } => o(self.cur(*c).insert_image(n, *w, *h)),
            Frame { c } => o(self.cur(*c).insert_frame()),
            DelNext { c } => o(self.cur(*c).delete_char()),
            DelPrev { c } => o(self.cur(*c).delete_previous_char()),
            DelSel { c } => o(self.cur(*c).remove_selected_text()),
            Copy { c } => {
                let f = self.cur(*c).selection();
                if f.is_empty() {
                    Out::Skip
                } else {
                    self.clip = Some(f);
                    Out::Ok
                }
            }
            Paste { c } => match &self.clip {
                Some(f) => o(self.cur(*c).insert_fragment(f)),
                None => Out::Skip,
            },
            PasteText { c, t } => {
                o(self.cur(*c).insert_fragment(&DocumentFragment::from_plain_text(t)))
            }
            Table { c, .. } if self.at_nested(*c) && !self.at_cell(*c) => Out::Skip,
            Table { c, r, k } => o(self.cur(*c).insert_table(*r, *k)),
            RmTable { c, t } => self.with_table(*t, |id, _, _| o(self.cur(*c).remove_table(id))),
            InsRow { c, t, i } => self.with_table(*t, |id, r, _| {
                o(self.cur(*c).insert_table_row(id, i % (r + 1)))
            }),
            InsCol { c, t, i } => self.with_table(*t, |id, _, k| {
                o(self.cur(*c).insert_table_column(id, i % (k + 1)))
            }),
            RmRow { c, t, i } => self.with_table(*t, |id, r, _| {
                o(self.cur(*c).remove_table_row(id, i % r.max(1)))
            }),
            RmCol { c, t, i } => self.with_table(*t, |id, _, k| {
                o(self.cur(*c).remove_table_column(id, i % k.max(1)))
            }),
            Merge { c, t, r0, c0, r1, c1 } => self.with_table(*t, |id, r, k| {
                let (r, k) = (r.max(1), k.max(1));
                let (a, b) = (r0 % r, r1 % r);
                let (x, y) = (c0 % k, c1 % k);
                o(self.cur(*c).merge_table_cells(id, a.min(b), x.min(y), a.max(b), x.max(y)))
            }),
            Split { c, t, i, r, k } => self.with_table(*t, |id, _, _| {
                let cells = table_cells(&self.doc, id);
                if cells.is_empty() {
                    return Out::Skip;
                }
                o(self.cur(*c).split_table_cell(cells[i % cells.len()], *r, *k))
            }),
            TFmt { c, t, border, width, al } => self.with_table(*t, |id, _, _| {
                o(self.cur(*c).set_table_format(
                    id,
                    &TableFormat {
                        border: *border,
                        width: *width,
                        alignment: al.map(align),
                        ..Default::default()
                    },
                ))
            }),
            CFmt { c, t, i, pad, bg, va } => self.with_table(*t, |id, _, _| {
                let cells = table_cells(&self.doc, id);
                if cells.is_empty() {
                    return Out::Skip;
                }
                o(self.cur(*c).set_table_cell_format(
                    cells[i % cells.len()],
                    &CellFormat {
                        padding: *pad,
                        background_color: bg.clone(),
                        vertical_alignment: va.map(|v| match v % 3 {
                            0 => CellVerticalAlignment::Top,
                            1 => CellVerticalAlignment::Middle,
                            _ => CellVerticalAlignment::Bottom,
                        }),
                        ..Default::default()
                    },
                ))
            }),
            MkList { c, s } => o(self.cur(*c).create_list(lstyle(*s))),
            InsList { c, s } => o(self.cur(*c).insert_list(lstyle(*s))),
            LFmt { c, l, s, ind, pre, suf } => {
                let ls = lists(&self.doc);
                if ls.is_empty() {
                    return Out::Skip;
                }
                o(self.cur(*c).set_list_format(
                    ls[l % ls.len()],
                    &ListFormat {
                        style: s.map(lstyle),
                        indent: *ind,
                        prefix: pre.clone(),
                        suffix: suf.clone(),
                    },
                ))
            }
            AddList { c, b, l } => {
                let ls = lists(&self.doc);
                let bs = self.doc.blocks();
                if ls.is_empty() || bs.is_empty() {
                    return Out::Skip;
                }
                o(self.cur(*c).add_block_to_list(bs[b % bs.len()].id(), ls[l % ls.len()]))
            }
            RmList { c, b } => {
                let bs = self.doc.blocks();
                if bs.is_empty() {
                    return Out::Skip;
                }
                o(self.cur(*c).remove_block_from_list(bs[b % bs.len()].id()))
            }
            SetFmt { c, f } => o(self.cur(*c).set_char_format(&f.to_text())),
            MergeFmt { c, f } => o(self.cur(*c).merge_char_format(&f.to_text())),
            BFmt { c, f } => o(self.cur(*c).set_block_format(&f.to_block())),
            FrFmt { c, fr, top, bq, border } => {
                let fs = frames(&self.doc);
                if fs.is_empty() {
                    return Out::Skip;
                }
                o(self.cur(*c).set_frame_format(
                    fs[fr % fs.len()],
                    &FrameFormat {
                        top_margin: *top,
                        is_blockquote: *bq,
                        border: *border,
                        ..Default::default()
                    },
                ))
            }
            Begin { c } => {
                self.cur(*c).begin_edit_block();
                self.depth += 1;
                Out::Ok
            }
            End { c } => {
                if self.depth == 0 {
                    return Out::Skip;
                }
                self.cur(*c).end_edit_block();
                self.depth -= 1;
                Out::Ok
            }
            Undo => {
                if self.depth > 0 {
                    return Out::Skip;
                }
                o(self.doc.undo())
            }
            Redo => {
                if self.depth > 0 {
                    return Out::Skip;
                }
                o(self.doc.redo())
            }
            Replace { q, r, all, cs, ww, re } => {
                o(self.doc.replace_text(q, r, *all, &Self::opts(*cs, *ww, *re)))
            }
            Title { t } => o(self.doc.set_title(t)),
            Dir { rtl } => o(self.doc.set_text_direction(if *rtl {
                TextDirection::RightToLeft
            } else {
                TextDirection::LeftToRight
            })),
            Wrap { w } => o(self.doc.set_default_wrap_mode(match w % 4 {
                0 => WrapMode::NoWrap,
                1 => WrapMode::WordWrap,
                2 => WrapMode::WrapAnywhere,
                _ => WrapMode::WrapAtWordBoundaryOrAnywhere,
            })),
            Resource { n, ty, d } => o(self.doc.add_resource(
                match ty % 3 {
                    0 => ResourceType::Image,
                    1 => ResourceType::StyleSheet,
                    _ => ResourceType::Other,
                },
                n,
                "application/x-test",
                d,
            )),
            SetPlain { t } => {
                if self.depth > 0 {
                    return Out::Skip;
                }
                o(self.doc.set_plain_text(t))
            }
            SetMd { t } => {
                if self.depth > 0 {
                    return Out::Skip;
                }
                o(self.doc.set_markdown(t).and_then(|op| quick_wait(op)))
            }
            SetHtml { t } => {
                if self.depth > 0 {
                    return Out::Skip;
                }
                o(self.doc.set_html(t).and_then(|op| quick_wait(op)))
            }
            Clear => {
                if self.depth > 0 {
                    return Out::Skip;
                }
                o(self.doc.clear())
            }
            ClearUndo => {
                if self.depth > 0 {
                    return Out::Skip;
                }
                self.doc.clear_undo_redo();
                Out::Ok
            }
            Modified { m } => {
                self.doc.set_modified(*m);
                Out::Ok
            }
            NewCursor { p } => {
                if self.cursors.len() < 6 {
                    let c = self.doc.cursor_at(self.pos(*p));
                    self.cursors.push(c);
                }
                Out::Ok
            }
            DropCursor { c } => {
                if self.cursors.len() > 1 {
                    let i = c % self.cursors.len();
                    self.cursors.remove(i);
                }
                Out::Ok
            }
        }
    }

    /// True when either end of the cursor's selection lies in a table cell.
    pub fn at_cell(&self, c: usize) -> bool {
        let cur = self.cur(c);
        in_cell(&self.doc, cur.position()) || in_cell(&self.doc, cur.anchor())
    }
    /// Is an end of the selection in a frame inside the main frame?
    pub fn at_nested(&self, c: usize) -> bool {
        let store = self.doc.rope_store_for_test();
        let main: std::collections::HashSet<u64> = {
            let docs = store.documents.read().unwrap();
            let frames = store.frames.read().unwrap();
            docs.values()
                .filter_map(|d| frames.get(d.frames.first()?))
                .flat_map(|f| f.blocks.iter().copied())
                .collect()
        };
        let cur = self.cur(c);
        let (p, a) = (cur.position(), cur.anchor());
        self.doc.blocks().iter().any(|b| {
            let (s, e) = (b.position(), b.position() + b.length());
            !main.contains(&(b.id() as u64)) && ((s <= p && p <= e) || (s <= a && a <= e))
        })
    }
    fn clip_has_table(&self) -> bool {
        self.clip.as_ref().is_some_and(|f| f.to_html().contains("<table"))
    }
    /// Does the clipboard hold nothing but one table, small enough to replace cells from the cursor's cell on?
    pub fn fits_cells(&self, c: usize) -> bool {
        let Some(html) = self.clip.as_ref().map(|f| f.to_html()) else { return false };
        let Some(cell) = self.cur(c).current_table_cell() else { return false };
        let body = html.split("<body>").nth(1).and_then(|s| s.split("</body>").next()).unwrap_or(&html);
        if self.cur(c).position() != self.cur(c).anchor() || !body.starts_with("<table") || !body.ends_with("</table>") || body.matches("<table").count() != 1 {
            return false;
        }
        let width = |row: &str| {
            row.split(['<']).filter(|t| t.starts_with("td") || t.starts_with("th")).map(|t| t.split("colspan=\"").nth(1).and_then(|x| x.split('"').next()).and_then(|x| x.parse().ok()).unwrap_or(1)).sum::<usize>()
        };
        let rows: Vec<usize> = body.split("<tr").skip(1).map(width).collect();
        cell.row + rows.len() <= cell.table.rows() && cell.column + rows.iter().max().copied().unwrap_or(0) <= cell.table.columns()
    }
    fn with_table(&self, t: usize, f: impl FnOnce(usize, usize, usize) -> Out) -> Out {
        let ts = tables(&self.doc);
        if ts.is_empty() {
            return Out::Skip;
        }
        let (id, r, k) = ts[t % ts.len()];
        f(id, r, k)
    }
}
