//! Markup import and export against a document model and a strict reader of the exported HTML.

use crate::ensure;
use crate::r#gen::{self, Mix};
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use text_document::*;
type Result<T, E> = std::result::Result<T, E>;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P15",
            quick: 60000,
            thorough: 1500000,
            level: "exploration",
            rule: "Half of the cases write a random structure (paragraphs, headings, nested lists, quotes, code, tables, inline formats, links, block \
                   styles) as HTML in varying spellings, with white space and bare text between blocks, import it and compare the document with the \
                   structure. All cases then edit the document, export it, read the export with a strict tag-by-tag parser written for this check (balanced, \
                   quoted, escaped) and compare it with the document read through the flow snapshot; the export is imported again and compared with what \
                   HTML carries of the document, and so is the HTML of the document taken as a fragment. Non-trivial: at least two blocks exported; distinct: by exported HTML.",
            assumptions: &[
                "HTML carries headings, quotes, code blocks with language, list items as ordered or not, tables, six inline formats and four block styles; empty paragraphs, list indentation and the blocks of a cell are not kept on import",
                "documents with merged cells are compared on export only",
            ],
            must_observe: &["imports_compared", "exports_compared", "round_trips", "tables_exported", "quotes_exported", "lists_exported", "code_exported", "escaped_text", "fragment_exports"],
            generate: gen_html,
            run: run_html,
            workers: 8,
            repeat_on_shrink: 1,
        },
        Prop {
            id: "P16",
            quick: 60000,
            thorough: 1500000,
            level: "exploration",
            rule: "Each case writes a random structure (paragraphs, headings, nested lists, quotes, code blocks, tables, bold, italic, strikeout, code, links, text \
                   full of Markdown punctuation) as Markdown, imports it and compares the document with the structure; then exports the document, imports the \
                   export into another document and compares both, and the same with the document taken as a fragment. In a third of the cases the document is edited in between with edits that keep it within what \
                   Markdown expresses. Non-trivial: at least two blocks; distinct: by Markdown text.",
            assumptions: &[
                "formatted words are separated from their neighbours by plain spaces and carry no spaces at their edges; Markdown has no way to write other cases",
                "list items are compared by nesting and as ordered or not",
                "fragments know no quotes and are judged for documents without them",
            ],
            must_observe: &["imports_compared", "round_trips", "tables", "quotes", "lists", "code_blocks", "inline_formats", "edited", "fragment_exports"],
            generate: gen_md,
            run: run_md,
            workers: 8,
            repeat_on_shrink: 1,
        },
    ]
}

// ── model ────────────────────────────────────────────────────────────

#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub struct Key {
    #[serde(default, skip_serializing_if = "is_false")]
    pub b: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub i: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub u: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub s: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub code: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub href: Option<String>,
}
fn is_false(b: &bool) -> bool {
    !*b
}
pub type Runs = Vec<(String, Key)>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum El {
    P { q: usize, h: Option<u8>, runs: Runs, css: BTreeMap<String, String> },
    Item { q: usize, ord: bool, ind: usize, runs: Runs },
    Code { q: usize, lang: Option<String>, t: String },
    Table { q: usize, rows: Vec<Vec<Runs>> },
}

/// What a document says, as far as markup can say it.
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Block { q: usize, kind: String, css: BTreeMap<String, String>, runs: Runs },
    Table { q: usize, rows: usize, cols: usize, cells: Vec<(usize, usize, usize, usize, Vec<Runs>)> },
}

pub fn merged(runs: impl IntoIterator<Item = (String, Key)>) -> Runs {
    let mut out: Runs = vec![];
    for (t, k) in runs {
        if t.is_empty() {
            continue;
        }
        match out.last_mut() {
            Some(l) if l.1 == k => l.0 += &t,
            _ => out.push((t, k)),
        }
    }
    out
}
fn plain(runs: &Runs) -> String {
    runs.iter().map(|r| r.0.as_str()).collect()
}

impl El {
    fn node(&self) -> Node {
        match self {
            El::P { q, h, runs, css } => Node::Block { q: *q, kind: h.map_or("p".into(), |h| format!("h{h}")), css: css.clone(), runs: merged(runs.clone()) },
            El::Item { q, ord, ind, runs } => Node::Block { q: *q, kind: format!("{}{ind}", if *ord { "ol" } else { "ul" }), css: Default::default(), runs: merged(runs.clone()) },
            El::Code { q, lang, t } => Node::Block { q: *q, kind: format!("pre:{}", lang.clone().unwrap_or_default()), css: Default::default(), runs: merged([(t.clone(), Key::default())]) },
            El::Table { q, rows } => Node::Table {
                q: *q,
                rows: rows.len(),
                cols: rows[0].len(),
                cells: rows.iter().enumerate().flat_map(|(r, row)| row.iter().enumerate().map(move |(c, x)| (r, c, 1, 1, vec![merged(x.clone())]))).collect(),
            },
        }
    }
}

fn block_runs(b: &BlockSnapshot) -> Runs {
    merged(b.fragments.iter().map(|f| match f {
        FragmentContent::Text { text, format, .. } => (
            text.clone(),
            Key {
                b: format.font_bold == Some(true),
                i: format.font_italic == Some(true),
                u: format.font_underline == Some(true),
                s: format.font_strikeout == Some(true),
                code: format.font_family.as_deref() == Some("monospace"),
                href: format.anchor_href.clone(),
            },
        ),
        FragmentContent::Image { name, .. } => (format!("\u{fffc}{name}"), Key::default()),
    }))
}
pub fn ordered(s: &ListStyle) -> bool {
    matches!(s, ListStyle::Decimal | ListStyle::LowerAlpha | ListStyle::UpperAlpha | ListStyle::LowerRoman | ListStyle::UpperRoman)
}
/// The document as read through the flow snapshot. List ids are kept next to the nodes.
pub fn read(doc: &TextDocument) -> Vec<(Node, Option<usize>)> {
    fn walk(doc: &TextDocument, es: &[FlowElementSnapshot], q: usize, out: &mut Vec<(Node, Option<usize>)>) {
        for e in es {
            match e {
                FlowElementSnapshot::Block(b) => {
                    let f = &b.block_format;
                    let mut css = BTreeMap::new();
                    let mut runs = block_runs(b);
                    let kind = if f.is_code_block == Some(true) && b.list_info.is_some() {
                        // either way of writing it will do
                        "code-item".to_string()
                    } else if f.is_code_block == Some(true) {
                        runs = merged([(b.text.clone(), Key::default())]);
                        format!("pre:{}", f.code_language.clone().unwrap_or_default())
                    } else if let Some(l) = &b.list_info {
                        format!("{}{}", if ordered(&l.style) { "ol" } else { "ul" }, l.indent)
                    } else {
                        if let Some(a) = &f.alignment {
                            css.insert("text-align".into(), format!("{a:?}").to_lowercase());
                        }
                        if let Some(l) = f.line_height {
                            css.insert("line-height".into(), format!("{}", (l as f64 * 1000.0).round() as i64));
                        }
                        if f.non_breakable_lines == Some(true) {
                            css.insert("white-space".into(), "pre".into());
                        }
                        if f.direction == Some(TextDirection::RightToLeft) {
                            css.insert("direction".into(), "rtl".into());
                        }
                        if let Some(c) = &f.background_color {
                            css.insert("background-color".into(), c.clone());
                        }
                        f.heading_level.map_or("p".into(), |h| format!("h{}", h.clamp(1, 6)))
                    };
                    out.push((Node::Block { q, kind, css, runs }, b.list_info.as_ref().map(|l| l.list_id)));
                }
                FlowElementSnapshot::Table(t) => {
                    let mut cells: Vec<_> = t.cells.iter().map(|c| (c.row, c.column, c.row_span, c.column_span, c.blocks.iter().map(block_runs).collect())).collect();
                    cells.sort_by_key(|c: &(usize, usize, usize, usize, Vec<Runs>)| (c.0, c.1));
                    out.push((Node::Table { q, rows: t.rows, cols: t.columns, cells }, None));
                }
                FlowElementSnapshot::Frame(f) => {
                    let bq = f.format.is_blockquote == Some(true);
                    walk(doc, &f.elements, q + bq as usize, out);
                }
            }
        }
    }
    let mut out = vec![];
    walk(doc, &doc.snapshot_flow().elements, 0, &mut out);
    out
}

// ── generators ───────────────────────────────────────────────────────

fn clean(s: &str) -> String {
    s.chars().filter(|c| !c.is_control() && !c.is_whitespace() && !"\u{feff}\u{fffc}\u{200b}".contains(*c)).collect()
}
pub fn word(r: &mut Rng, hostile: bool) -> String {
    let mut w = if r.chance(1, 3) { clean(&r#gen::word(r)) } else { (*r.pick(&["a", "alpha", "be", "zwei", "Ω", "naïve", "3rd", "x1"])).to_string() };
    if w.is_empty() {
        w = "w".into();
    }
    if hostile && r.chance(1, 3) {
        let c = *r.pick(&["<", ">", "&", "\"", "'", "&amp;", "<b>", "</p>", "*", "_", "#", "[x]", "`", "\\", "~~", "|", "1.", "-", "+", "=", "!", "&lt;", "**", "$", "%", "{", "^"]);
        match r.below(3) {
            0 => w = c.into(),
            1 => w += c,
            _ => w = format!("{c}{w}"),
        }
    }
    w
}
fn runs(r: &mut Rng, md: bool, hostile: bool) -> Runs {
    let mut out: Runs = vec![];
    for k in 0..r.range(1, 4) {
        if k > 0 {
            out.push((" ".into(), Key::default()));
        }
        if r.chance(1, 2) {
            out.push((word(r, hostile), Key::default()));
            continue;
        }
        let mut key = Key::default();
        match r.below(7) {
            0 => key.b = true,
            1 => key.i = true,
            2 => key.s = true,
            3 => key.code = true,
            4 => key.href = Some((*r.pick(&["http://e.x/1", "http://e.x/?a=1&b=2", "mailto:a@b.c", "#top"])).into()),
            5 => {
                key.b = true;
                key.i = true;
                key.s = r.chance(1, 3);
            }
            _ => {
                if md {
                    key.b = true;
                    key.code = r.chance(1, 2);
                } else {
                    key.u = true;
                    key.b = r.chance(1, 2);
                }
            }
        }
        if !md && r.chance(1, 8) {
            key.href = Some(format!("http://e.x/\"{}'<&>", word(r, true)));
        }
        let t = if key.code && md { (*r.pick(&["f(x)", "a<b", "*p", "&y", "x_y"])).to_string() } else { word(r, hostile && !md) };
        out.push((t, key));
    }
    out
}
fn structure(r: &mut Rng, md: bool) -> Vec<El> {
    let hostile = r.chance(1, 2);
    let mut out: Vec<El> = vec![];
    let n = r.range(1, 6);
    while out.len() < n {
        let q = if r.chance(1, 4) { r.range(1, 2) } else { 0 };
        match r.below(10) {
            0..=3 => {
                let mut css = BTreeMap::new();
                if !md && r.chance(1, 4) {
                    if r.chance(1, 2) {
                        css.insert("line-height".into(), format!("{}", r.range(1, 3999)));
                    }
                    if r.chance(1, 3) {
                        css.insert("white-space".into(), "pre".into());
                    }
                    if r.chance(1, 3) {
                        css.insert("direction".into(), "rtl".into());
                    }
                    if r.chance(1, 3) {
                        css.insert("background-color".into(), (*r.pick(&["red", "#ff0011", "rgb(1, 2, 3)"])).into());
                    }
                }
                out.push(El::P { q, h: r.chance(1, 4).then(|| r.range(1, 6) as u8), runs: runs(r, md, hostile), css })
            }
            4..=6 => {
                let mut ind = 0;
                let mut kinds = vec![r.chance(1, 2)];
                for _ in 0..r.range(1, 4) {
                    kinds.truncate(ind + 1);
                    if kinds.len() <= ind {
                        kinds.push(r.chance(1, 2));
                    }
                    out.push(El::Item { q, ord: kinds[ind], ind, runs: runs(r, md, hostile) });
                    ind = match r.below(3) {
                        0 => ind + 1,
                        1 => ind,
                        _ => r.below(ind + 1),
                    }
                    .min(3);
                }
            }
            7 => {
                let k = r.range(1, 3);
                let lines: Vec<String> = (0..k).map(|_| format!("{}{}", " ".repeat(r.below(3)), word(r, hostile).replace(['`', '~'], ""))).map(|l| if l.trim().is_empty() { "x".into() } else { l }).collect();
                out.push(El::Code { q, lang: r.chance(1, 2).then(|| "rust".to_string()), t: lines.join("\n") })
            }
            _ => {
                let (a, b) = (r.range(1, 3), r.range(1, 3));
                let rows = (0..a)
                    .map(|_| (0..b).map(|_| if r.chance(1, 5) { vec![] } else { runs(r, md, hostile).into_iter().map(|(t, k)| if k.code && md { (t.replace('|', ""), k) } else { (t, k) }).collect() }).collect())
                    .collect();
                out.push(El::Table { q, rows })
            }
        }
    }
    out
}
fn case_of(kind: &str, els: &[El], ops: Vec<Op>, seed: u64) -> Case {
    Case { kind: kind.into(), ops, texts: els.iter().map(|e| serde_json::to_string(e).unwrap()).collect(), nums: vec![seed] }
}
fn els_of(c: &Case) -> Vec<El> {
    let mut v: Vec<El> = c.texts.iter().filter_map(|t| serde_json::from_str(t).ok()).collect();
    // a shrunk case may have lost the spaces around formatted words
    let fix = |runs: &mut Runs| {
        runs.retain(|r| r.0 == " " || (!r.0.is_empty() && !r.0.contains(char::is_whitespace)));
        let mut out: Runs = vec![];
        for r in runs.drain(..) {
            if r.0 == " " {
                if matches!(out.last(), Some(l) if l.0 != " ") {
                    out.push((" ".into(), Key::default()));
                }
                continue;
            }
            if matches!(out.last(), Some(l) if l.0 != " ") {
                out.push((" ".into(), Key::default()));
            }
            out.push(r);
        }
        if matches!(out.last(), Some(l) if l.0 == " ") {
            out.pop();
        }
        *runs = out;
    };
    for e in &mut v {
        match e {
            El::P { runs, .. } | El::Item { runs, .. } => {
                fix(runs);
                if runs.is_empty() {
                    runs.push(("w".into(), Key::default()));
                }
            }
            El::Table { rows, .. } => {
                rows.retain(|r| !r.is_empty());
                let n = rows.iter().map(|r| r.len()).max().unwrap_or(1);
                if rows.is_empty() {
                    rows.push(vec![]);
                }
                for row in rows {
                    row.resize(n, vec![]);
                    row.iter_mut().for_each(fix);
                }
            }
            El::Code { t, lang, .. } => {
                if t.is_empty() || t.split('\n').any(|l| l.trim().is_empty()) {
                    *t = "x".into();
                }
                if lang.as_deref() == Some("") {
                    *lang = None;
                }
            }
        }
    }
    // a shrunk case may have lost the parents of nested list items
    let mut last: Option<(usize, usize)> = None;
    for e in &mut v {
        if let El::Item { q, ind, .. } = e {
            *ind = match last {
                Some((lq, li)) if lq == *q => (*ind).min(li + 1),
                _ => 0,
            };
            last = Some((*q, *ind));
        } else {
            last = None;
        }
    }
    v
}

fn gen_html(r: &mut Rng, i: u64, _: Tier) -> Case {
    if i % 2 == 0 {
        let els = structure(r, false);
        let m = Mix { text: 6, block: 3, delete: 3, format: 6, bformat: 5, list: 4, cursor: 6, ..Mix::none() };
        let n = r.below(6);
        let ops = r#gen::ops(r, &m, n);
        case_of("structure", &els, ops, r.next())
    } else {
        let m = Mix { undo: 1, group: 0, import: 0, ..Mix::all() };
        let mut ops = vec![if r.chance(1, 2) { Op::SetHtml { t: r#gen::html(r) } } else { Op::SetMd { t: r#gen::md(r) } }];
        let n = r.range(2, 16);
        ops.extend(r#gen::ops(r, &m, n));
        // (the frame may be the hidden one that anchors a table)
        ops.retain(|o| !matches!(o, Op::FrFmt { .. }));
        case_of("edited", &[], ops, r.next())
    }
}
fn gen_md(r: &mut Rng, i: u64, _: Tier) -> Case {
    let els = structure(r, true);
    let mut ops = vec![];
    if i % 3 == 0 {
        for _ in 0..r.range(1, 4) {
            ops.push(match r.below(3) {
                0 => Op::Text { c: 0, t: word(r, true) },
                1 => Op::BFmt { c: 0, f: BFmt { heading: Some(r.range(1, 6) as u8), ..Default::default() } },
                _ => Op::Title { t: "t".into() },
            });
        }
    }
    case_of("md", &els, ops, r.next())
}

// ── writing a structure as HTML ──────────────────────────────────────

fn esc(r: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '&' => "&amp;".to_string(),
            '<' => "&lt;".to_string(),
            '>' => (*r.pick(&["&gt;", ">"])).to_string(),
            '"' => (*r.pick(&["&quot;", "&#34;"])).to_string(),
            '\'' => (*r.pick(&["'", "&#39;", "&#x27;"])).to_string(),
            c => c.to_string(),
        })
        .collect()
}
fn inline_html(r: &mut Rng, runs: &Runs) -> String {
    let mut s = String::new();
    for (t, k) in runs {
        let mut x = esc(r, t);
        let mut wraps: Vec<(String, &str)> = vec![];
        if k.b {
            wraps.push(("".into(), r.pick(&["b", "strong"])));
        }
        if k.i {
            wraps.push(("".into(), r.pick(&["i", "em"])));
        }
        if k.u {
            wraps.push(("".into(), r.pick(&["u", "ins"])));
        }
        if k.s {
            wraps.push(("".into(), r.pick(&["s", "del", "strike"])));
        }
        if k.code {
            wraps.push(("".into(), "code"));
        }
        if let Some(h) = &k.href {
            wraps.push((format!(" href=\"{}\"", esc(r, h)), "a"));
        }
        for i in (1..wraps.len()).rev() {
            let j = r.below(i + 1);
            wraps.swap(i, j);
        }
        for (attr, tag) in wraps {
            x = format!("<{tag}{attr}>{x}</{tag}>");
        }
        if r.chance(1, 6) {
            x = format!("<span>{x}</span>");
        }
        s += &x;
    }
    s
}
fn write_html(r: &mut Rng, els: &[El]) -> String {
    let mut out = String::new();
    let mut q = 0;
    let mut i = 0;
    let mut bare = false;
    while i < els.len() {
        let eq = match &els[i] {
            El::P { q, .. } | El::Item { q, .. } | El::Code { q, .. } | El::Table { q, .. } => *q,
        };
        if q != eq {
            bare = false;
        }
        while q > eq {
            out += "</blockquote>";
            q -= 1;
        }
        while q < eq {
            out += "<blockquote>";
            q += 1;
        }
        let bare_next = matches!(&els[i], El::P { h: None, css, .. } if css.is_empty()) && !bare && r.chance(1, 5);
        let gap = if !bare_next && r.chance(1, 4) { *r.pick(&["\n", "  ", "\n\n  ", "\t"]) } else { "" };
        out += gap;
        let mut now_bare = false;
        match &els[i] {
            El::P { h, runs, css, .. } => {
                let x = inline_html(r, runs);
                let mut st: Vec<String> = vec![];
                for (k, v) in css {
                    st.push(match k.as_str() {
                        "line-height" => format!("line-height: {}", v.parse::<f64>().unwrap_or(0.0) / 1000.0),
                        "white-space" => format!("white-space:{}", r.pick(&["pre", "nowrap", "pre-wrap"])),
                        k => format!("{k}: {v}"),
                    });
                }
                let style = if st.is_empty() { String::new() } else { format!(" style=\"{}\"", st.join(";")) };
                match h {
                    Some(h) => out += &format!("<h{h}{style}>{x}</h{h}>"),
                    None if bare_next => {
                        now_bare = true;
                        out += &x;
                    }
                    None => {
                        let t = *r.pick(&["p", "div", "p"]);
                        out += &format!("<{t}{style}>{x}</{t}>");
                    }
                }
            }
            El::Code { lang, t, .. } => {
                out += &format!("<pre><code{}>{}</code></pre>", lang.as_ref().map_or(String::new(), |l| format!(" class=\"language-{l}\"")), esc(r, t));
            }
            El::Table { rows, .. } => {
                out += "<table>";
                // a row may be short of its last cells when they are empty
                let ragged = r.chance(1, 3);
                let full = r.below(rows.len());
                for (k, row) in rows.iter().enumerate() {
                    let mut row = &row[..];
                    while ragged && k != full && row.len() > 1 && row.last().unwrap().is_empty() {
                        row = &row[..row.len() - 1];
                    }
                    let td = if k == 0 && r.chance(1, 2) { "th" } else { "td" };
                    out += "<tr>";
                    for c in row {
                        out += &format!("<{td}>{}</{td}>{}", inline_html(r, c), if r.chance(1, 6) { "\n" } else { "" });
                    }
                    out += "</tr>";
                }
                out += "</table>";
            }
            El::Item { .. } => {
                // the whole list
                let mut open: Vec<bool> = vec![];
                while let Some(El::Item { q: iq, ord, ind, runs }) = els.get(i) {
                    if *iq != eq {
                        break;
                    }
                    while open.len() > ind + 1 || (open.len() == ind + 1 && open[*ind] != *ord) {
                        out += if open.pop().unwrap() { "</li></ol>" } else { "</li></ul>" };
                    }
                    if open.len() == ind + 1 {
                        out += "</li>";
                    }
                    while open.len() <= *ind {
                        out += if *ord { "<ol>" } else { "<ul>" };
                        open.push(*ord);
                    }
                    if r.chance(1, 6) {
                        out += "\n  ";
                    }
                    out += &format!("<li>{}", inline_html(r, runs));
                    i += 1;
                }
                while let Some(o) = open.pop() {
                    out += if o { "</li></ol>" } else { "</li></ul>" };
                }
                i -= 1;
            }
        }
        bare = now_bare;
        i += 1;
    }
    while q > 0 {
        out += "</blockquote>";
        q -= 1;
    }
    out
}

// ── writing a structure as Markdown ──────────────────────────────────

fn md_esc(s: &str) -> String {
    s.chars().flat_map(|c| if c.is_ascii_punctuation() { vec!['\\', c] } else { vec![c] }).collect()
}
fn inline_md(runs: &Runs) -> String {
    runs.iter()
        .map(|(t, k)| {
            let mut x = if k.code { format!("`{t}`") } else { md_esc(t) };
            if k.s {
                x = format!("~~{x}~~");
            }
            if k.b {
                x = format!("**{x}**");
            }
            if k.i {
                x = format!("*{x}*");
            }
            if let Some(h) = &k.href {
                x = format!("[{x}]({h})");
            }
            x
        })
        .collect()
}
fn write_md(els: &[El]) -> String {
    let mut parts: Vec<String> = vec![];
    let mut i = 0;
    while i < els.len() {
        let (q, body) = match &els[i] {
            El::P { q, h, runs, .. } => (*q, format!("{}{}", h.map_or(String::new(), |h| "#".repeat(h as usize) + " "), inline_md(runs))),
            El::Code { q, lang, t } => (*q, format!("```{}\n{t}\n```", lang.clone().unwrap_or_default())),
            El::Table { q, rows } => {
                let line = |row: &Vec<Runs>| format!("| {} |", row.iter().map(inline_md).collect::<Vec<_>>().join(" | "));
                let mut ls = vec![line(&rows[0]), format!("|{}", "---|".repeat(rows[0].len()))];
                ls.extend(rows[1..].iter().map(line));
                (*q, ls.join("\n"))
            }
            El::Item { q, .. } => {
                let q = *q;
                let mut ls: Vec<String> = vec![];
                let mut offs: Vec<(usize, bool, usize)> = vec![]; // indentation of the marker, ordered, number
                while let Some(El::Item { q: iq, ord, ind, runs }) = els.get(i) {
                    if *iq != q {
                        break;
                    }
                    offs.truncate(ind + 1);
                    if offs.len() == ind + 1 && offs[*ind].1 != *ord {
                        offs.pop();
                    }
                    while offs.len() <= *ind {
                        let at = offs.last().map_or(0, |(a, o, n)| a + if *o { format!("{n}. ").len() } else { 2 });
                        offs.push((at, *ord, 0));
                    }
                    let o = &mut offs[*ind];
                    o.2 += 1;
                    let mark = if *ord { format!("{}. ", o.2) } else { "- ".into() };
                    ls.push(format!("{}{mark}{}", " ".repeat(o.0), inline_md(runs)));
                    i += 1;
                }
                i -= 1;
                (q, ls.join("\n"))
            }
        };
        let p = "> ".repeat(q);
        parts.push(body.split('\n').map(|l| format!("{p}{l}")).collect::<Vec<_>>().join("\n"));
        i += 1;
    }
    parts.join("\n\n")
}

// ── strict reader of exported HTML ───────────────────────────────────

#[derive(Debug)]
enum Tok {
    Open(String, Vec<(String, String)>, bool),
    Close(String),
    Text(String),
}
pub fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out += &rest[..i];
        rest = &rest[i..];
        let Some(e) = rest.find(';') else { return Err(format!("a bare & in {s:?}")) };
        let name = &rest[1..e];
        let c = match name {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            n if n.starts_with("#x") => u32::from_str_radix(&n[2..], 16).ok().and_then(char::from_u32).ok_or(format!("entity {n}"))?,
            n if n.starts_with('#') => n[1..].parse::<u32>().ok().and_then(char::from_u32).ok_or(format!("entity {n}"))?,
            n => return Err(format!("unknown entity &{n}; in {s:?}")),
        };
        out.push(c);
        rest = &rest[e + 1..];
    }
    out += rest;
    Ok(out)
}
fn tokens(h: &str) -> Result<Vec<Tok>, String> {
    let mut out = vec![];
    let mut rest = h;
    while !rest.is_empty() {
        if !rest.starts_with('<') {
            let n = rest.find('<').unwrap_or(rest.len());
            if rest[..n].contains('>') {
                return Err(format!("a bare > in {:?}", &rest[..n]));
            }
            out.push(Tok::Text(unescape(&rest[..n])?));
            rest = &rest[n..];
            continue;
        }
        // up to the closing >, outside quotes
        let mut quoted = false;
        let mut end = None;
        for (i, c) in rest.char_indices().skip(1) {
            match c {
                '"' => quoted = !quoted,
                '>' if !quoted => {
                    end = Some(i);
                    break;
                }
                '<' => return Err(format!("a < inside a tag: {:?}", rest.chars().take(60).collect::<String>())),
                _ => {}
            }
        }
        let Some(end) = end else { return Err("an unfinished tag".into()) };
        let body = &rest[1..end];
        rest = &rest[end + 1..];
        if let Some(n) = body.strip_prefix('/') {
            if n.is_empty() || !n.chars().all(|c| c.is_ascii_alphanumeric()) {
                return Err(format!("closing tag {n:?}"));
            }
            out.push(Tok::Close(n.into()));
            continue;
        }
        let own = body.ends_with('/');
        let body = body.strip_suffix('/').unwrap_or(body).trim_end();
        let (name, mut attrs) = body.split_once(' ').map_or((body, ""), |(n, a)| (n, a.trim_start()));
        if name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric()) {
            return Err(format!("tag name {name:?}"));
        }
        let mut list = vec![];
        while !attrs.is_empty() {
            let Some((k, r)) = attrs.split_once("=\"") else { return Err(format!("attribute {attrs:?} of <{name}>")) };
            let Some((v, r)) = r.split_once('"') else { return Err(format!("attribute {attrs:?} of <{name}>")) };
            if k.is_empty() || !k.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') {
                return Err(format!("attribute name {k:?} of <{name}>"));
            }
            list.push((k.to_string(), unescape(v)?));
            attrs = r.trim_start();
        }
        let own = own || name == "br" || name == "img" || name == "meta";
        out.push(Tok::Open(name.to_string(), list, own));
    }
    Ok(out)
}
type ReadBack = (Node, Option<usize>);
/// Reads exported HTML: blocks in order, with the number of the list element an item is in.
pub fn parse(html: &str) -> Result<Vec<ReadBack>, String> {
    let toks = tokens(html)?;
    let mut stack: Vec<(String, Vec<(String, String)>)> = vec![];
    let mut out: Vec<ReadBack> = vec![];
    let mut lists = 0usize;
    let mut cur: Option<Runs> = None; // runs of the open block or cell part
    let mut css: BTreeMap<String, String> = BTreeMap::new();
    let mut table: Option<(usize, Vec<Vec<(usize, usize, Vec<Runs>)>>)> = None;
    for t in toks {
        let q = stack.iter().filter(|s| s.0 == "blockquote").count();
        match t {
            Tok::Text(x) => match &mut cur {
                Some(r) => {
                    let mut k = Key::default();
                    for (n, a) in &stack {
                        match n.as_str() {
                            "strong" | "b" => k.b = true,
                            "em" | "i" => k.i = true,
                            "u" => k.u = true,
                            "s" | "del" => k.s = true,
                            "code" if !stack.iter().any(|s| s.0 == "pre") => k.code = true,
                            "a" => k.href = a.iter().find(|a| a.0 == "href").map(|a| a.1.clone()),
                            _ => {}
                        }
                    }
                    r.push((x, k));
                }
                None if x.trim().is_empty() => {}
                None => return Err(format!("text {x:?} outside a block")),
            },
            Tok::Open(n, a, own) => {
                let attr = |k: &str| a.iter().find(|x| x.0 == k).map(|x| x.1.clone());
                match n.as_str() {
                    "html" | "head" | "body" | "meta" | "blockquote" | "tr" => {
                        if n == "blockquote" && cur.is_some() {
                            return Err("a blockquote inside a block".into());
                        }
                        if n == "tr" {
                            match &mut table {
                                Some(t) => t.1.push(vec![]),
                                None => return Err("a row outside a table".into()),
                            }
                        }
                    }
                    "p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "li" | "pre" => {
                        if cur.is_some() || table.is_some() {
                            return Err(format!("<{n}> inside another block"));
                        }
                        if n == "li" && !matches!(stack.last(), Some(s) if s.0 == "ul" || s.0 == "ol") {
                            return Err("<li> outside a list".into());
                        }
                        css.clear();
                        for part in attr("style").unwrap_or_default().split(';').filter(|p| !p.trim().is_empty()) {
                            let Some((k, v)) = part.split_once(':') else { return Err(format!("style {part:?}")) };
                            let (k, mut v) = (k.trim().to_string(), v.trim().to_string());
                            if k == "line-height" {
                                v = format!("{}", (v.parse::<f64>().map_err(|e| e.to_string())? * 1000.0).round() as i64);
                            }
                            css.insert(k, v);
                        }
                        cur = Some(vec![]);
                    }
                    "ul" | "ol" => lists += 1,
                    "table" => table = Some((q, vec![])),
                    "td" | "th" => {
                        let Some(t) = &mut table else { return Err("a cell outside a table".into()) };
                        let n = |k: &str| attr(k).map_or(Ok(1), |v| v.parse::<usize>()).map_err(|e| e.to_string());
                        let Some(row) = t.1.last_mut() else { return Err("a cell outside a row".into()) };
                        row.push((n("rowspan")?, n("colspan")?, vec![]));
                        cur = Some(vec![]);
                    }
                    "br" => match (&mut table, &mut cur) {
                        (Some(t), Some(c)) => t.1.last_mut().unwrap().last_mut().unwrap().2.push(merged(std::mem::take(c))),
                        _ => return Err("a line break outside a cell".into()),
                    },
                    "img" => match &mut cur {
                        Some(c) => c.push((format!("\u{fffc}{}", attr("src").unwrap_or_default()), Key::default())),
                        None => return Err("an image outside a block".into()),
                    },
                    "strong" | "b" | "em" | "i" | "u" | "s" | "del" | "a" | "code" => {
                        if cur.is_none() {
                            return Err(format!("<{n}> outside a block"));
                        }
                    }
                    _ => return Err(format!("unknown tag <{n}>")),
                }
                if !own {
                    stack.push((n, a));
                }
            }
            Tok::Close(n) => {
                let Some((open, attrs)) = stack.pop() else { return Err(format!("</{n}> closes nothing")) };
                if open != n {
                    return Err(format!("</{n}> closes <{open}>"));
                }
                match n.as_str() {
                    "p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => out.push((Node::Block { q, kind: n, css: std::mem::take(&mut css), runs: merged(cur.take().unwrap_or_default()) }, None)),
                    "li" => {
                        let kind = stack.last().map_or(String::new(), |s| s.0.clone());
                        out.push((Node::Block { q, kind, css: Default::default(), runs: merged(cur.take().unwrap_or_default()) }, Some(lists)))
                    }
                    "code" if stack.iter().any(|s| s.0 == "pre") => {
                        let lang = attrs.iter().find(|a| a.0 == "class").map_or(String::new(), |a| a.1.strip_prefix("language-").unwrap_or(&a.1).to_string());
                        out.push((Node::Block { q, kind: format!("pre:{lang}"), css: Default::default(), runs: merged(cur.take().unwrap_or_default()) }, None))
                    }
                    "td" | "th" => {
                        let part = merged(cur.take().unwrap_or_default());
                        table.as_mut().unwrap().1.last_mut().unwrap().last_mut().unwrap().2.push(part);
                    }
                    "table" => {
                        let (q, rows) = table.take().unwrap();
                        // place the cells as a browser does
                        let mut used: BTreeMap<(usize, usize), ()> = BTreeMap::new();
                        let mut cells = vec![];
                        let mut cols = 0;
                        for (r, row) in rows.iter().enumerate() {
                            let mut c = 0;
                            for (rs, cs, parts) in row {
                                while used.contains_key(&(r, c)) {
                                    c += 1;
                                }
                                for x in r..r + rs {
                                    for y in c..c + cs {
                                        used.insert((x, y), ());
                                    }
                                }
                                cols = cols.max(c + cs);
                                cells.push((r, c, *rs, *cs, parts.iter().filter(|p| !p.is_empty()).cloned().collect::<Vec<_>>()));
                            }
                        }
                        out.push((Node::Table { q, rows: rows.len(), cols, cells }, None));
                    }
                    _ => {}
                }
            }
        }
    }
    if let Some((n, _)) = stack.last() {
        return Err(format!("<{n}> is not closed"));
    }
    Ok(out)
}

// ── checks ───────────────────────────────────────────────────────────

fn import(doc: &TextDocument, html: bool, t: &str) -> Result<(), Viol> {
    let r = if html { doc.set_html(t).and_then(|o| quick_wait(o).map(|_| ())) } else { doc.set_markdown(t).and_then(|o| quick_wait(o).map(|_| ())) };
    r.map_err(|e| Viol { sig: format!("refused:{}", if html { "html" } else { "md" }), msg: format!("import of {t:?} failed: {e:#}") })
}
fn strip(v: Vec<(Node, Option<usize>)>) -> Vec<Node> {
    v.into_iter().map(|x| x.0).collect()
}
fn what(a: &Node, b: Option<&Node>) -> &'static str {
    match (a, b) {
        (Node::Block { kind, .. }, Some(Node::Block { kind: k2, .. })) if kind != k2 => "kind",
        (Node::Block { q, .. }, Some(Node::Block { q: q2, .. })) if q != q2 => "quote",
        (Node::Block { runs, .. }, Some(Node::Block { runs: r2, .. })) if plain(runs) != plain(r2) => "text",
        (Node::Block { runs, .. }, Some(Node::Block { runs: r2, .. })) if runs != r2 => "format",
        (Node::Block { .. }, Some(Node::Block { .. })) => "style",
        (Node::Table { .. }, Some(Node::Table { .. })) => "table",
        _ => "structure",
    }
}
pub fn same(got: &[Node], want: &[Node], sig: &str, ctx: &str) -> Verdict {
    let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    if n == got.len() && n == want.len() {
        return Ok(());
    }
    let w = match (got.get(n), want.get(n)) {
        (Some(a), b) => what(a, b),
        _ => "missing",
    };
    viol(format!("{sig}:{w}"), format!("{ctx}: element {n} is {:?}, expected {:?}", got.get(n), want.get(n)))
}

fn run_html(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    let mut rng = Rng::new(c.nums.first().copied().unwrap_or(1));
    let els = els_of(c);
    if c.kind == "structure" && !els.is_empty() {
        let h = write_html(&mut rng, &els);
        import(&env.doc, true, &h)?;
        let want: Vec<Node> = els.iter().map(|e| e.node()).collect();
        same(&strip(read(&env.doc)), &want, "import", &format!("importing {h:?}"))?;
        obs.hit("imports_compared");
    }
    for op in &c.ops {
        env.apply(op);
    }
    let doc = &env.doc;
    let h = doc.to_html().map_err(|e| Viol { sig: "refused:export".into(), msg: format!("to_html failed: {e:#}") })?;
    let back = match parse(&h) {
        Ok(b) => b,
        Err(e) => return viol("malformed", format!("{e} in {h}")),
    };
    let now = read(doc);
    // what the export should say
    let said: Vec<Node> = now
        .iter()
        .enumerate()
        .map(|(i, (n, _))| match n.clone() {
            Node::Block { q, kind, runs, .. } if kind == "code-item" => match back.get(i) {
                Some((Node::Block { kind, runs: r, .. }, _)) if plain(r) == plain(&runs) => Node::Block { q, kind: kind.clone(), css: Default::default(), runs: r.clone() },
                _ => n.clone(),
            },
            Node::Block { q, kind, css, runs } => Node::Block { q, kind: if kind.starts_with("ul") || kind.starts_with("ol") { kind[..2].to_string() } else { kind }, css, runs },
            Node::Table { q, rows, cols, cells } => Node::Table { q, rows, cols, cells: cells.into_iter().map(|(r, c, a, b, p)| (r, c, a, b, p.into_iter().filter(|p| !p.is_empty()).collect())).collect() },
        })
        .collect();
    same(&strip(back.clone()), &said, "export", &format!("the export {h:?}"))?;
    // items of one list stay in one list element, items of different lists do not share one
    let frames = doc.snapshot_flow().elements.iter().any(|e| matches!(e, FlowElementSnapshot::Frame(_)));
    for (k, w) in back.windows(2).enumerate() {
        if let (Some(a), Some(b), Some(x), Some(y)) = (w[0].1, w[1].1, now[k].1, now[k + 1].1) {
            ensure!((a == b) == (x == y) || (x == y && frames), "export:lists", "two adjacent items of {} share {} list element in {h:?}", if x == y { "one list" } else { "two lists" }, if a == b { "a" } else { "no" });
        }
    }
    obs.hit("exports_compared");
    let (mut spans, mut blocks) = (false, 0);
    for n in &said {
        match n {
            Node::Table { cells, q, .. } => {
                obs.hit("tables_exported");
                spans |= cells.iter().any(|c| c.2 * c.3 > 1);
                obs.add("quotes_exported", (*q > 0) as u64);
            }
            Node::Block { q, kind, runs, .. } => {
                blocks += 1;
                obs.add("quotes_exported", (*q > 0) as u64);
                obs.add("lists_exported", (kind == "ul" || kind == "ol") as u64);
                obs.add("code_exported", kind.starts_with("pre") as u64);
                obs.add("escaped_text", plain(runs).contains(['<', '>', '&', '"', '\'']) as u64);
            }
        }
    }
    if blocks >= 2 {
        obs.distinct(&h);
    }
    if spans {
        return Ok(());
    }
    // and back
    let other = TextDocument::new();
    import(&other, true, &h)?;
    let norm = |v: Vec<Node>, first: bool| -> Vec<Node> {
        v.into_iter()
            .filter_map(|n| match n {
                Node::Block { q, kind, mut css, runs } => {
                    css.remove("text-align");
                    if let Some(c) = css.get_mut("background-color") {
                        *c = c.trim().to_string();
                    }
                    let list = kind.starts_with("ul") || kind.starts_with("ol");
                    let kind = if list { kind[..2].to_string() } else { kind };
                    if runs.is_empty() && !kind.starts_with('h') {
                        return None;
                    }
                    Some(Node::Block { q, kind, css, runs })
                }
                Node::Table { q, rows, cols, cells } => Some(Node::Table {
                    q,
                    rows,
                    cols,
                    cells: cells
                        .into_iter()
                        .map(|(r, c, a, b, p)| {
                            let parts: Vec<Runs> = p.into_iter().filter(|p| !p.is_empty()).collect();
                            let mut joined: Runs = vec![];
                            for (i, p) in parts.into_iter().enumerate() {
                                if i > 0 && first {
                                    joined.push((" ".into(), Key::default()));
                                }
                                joined.extend(p);
                            }
                            (r, c, a, b, vec![merged(joined)])
                        })
                        .collect(),
                }),
            })
            .collect()
    };
    same(&norm(strip(read(&other)), false), &norm(said.clone(), true), "round-trip", &format!("importing the export {h:?}"))?;
    obs.hit("round_trips");
    // the same document as a fragment (which knows no quotes and writes few block styles)
    if let Ok(f) = DocumentFragment::from_document(doc)
        && !f.is_empty()
        && !frames
        && !now.iter().any(|n| matches!(&n.0, Node::Block { kind, .. } if kind == "code-item"))
    {
        let bare = |v: Vec<Node>| -> Vec<Node> {
            v.into_iter()
                .map(|n| match n {
                    Node::Block { q, kind, runs, .. } => Node::Block { q, kind, css: Default::default(), runs },
                    // (how the blocks of a cell are told apart is not judged)
                    Node::Table { q, rows, cols, cells } => Node::Table {
                        q,
                        rows,
                        cols,
                        cells: cells.into_iter().map(|(r, c, a, b, p)| (r, c, a, b, vec![merged(p.into_iter().flatten().map(|(t, k)| (t.replace([' ', '\n'], ""), k)).filter(|x| !x.0.is_empty()))])).collect(),
                    },
                })
                .collect()
        };
        let h = f.to_html();
        // (a single paragraph without a style is written without its element)
        if let Err(e) = parse(&h)
            && !e.contains("outside a block")
        {
            return viol("malformed", format!("{e} in the fragment export {h}"));
        }
        let other = TextDocument::new();
        import(&other, true, &h)?;
        same(&bare(norm(strip(read(&other)), false)), &bare(norm(said, true)), "fragment", &format!("importing the export of the fragment {h:?}"))?;
        obs.hit("fragment_exports");
    }
    Ok(())
}

fn run_md(c: &Case, obs: &mut Obs) -> Verdict {
    let els = els_of(c);
    if els.is_empty() {
        return Ok(());
    }
    let mut env = Env::new();
    let t = write_md(&els);
    import(&env.doc, false, &t)?;
    let want: Vec<Node> = els.iter().map(|e| e.node()).collect();
    same(&strip(read(&env.doc)), &want, "import", &format!("importing {t:?}"))?;
    obs.hit("imports_compared");
    for e in &els {
        match e {
            El::P { q, runs, .. } => {
                obs.add("quotes", (*q > 0) as u64);
                obs.add("inline_formats", runs.iter().any(|r| r.1 != Key::default()) as u64);
            }
            El::Item { .. } => obs.hit("lists"),
            El::Code { .. } => obs.hit("code_blocks"),
            El::Table { .. } => obs.hit("tables"),
        }
    }
    for op in &c.ops {
        // edits inside the first plain paragraph
        let first = env.doc.blocks().into_iter().find(|b| b.length() > 0);
        if let Some(b) = first {
            env.cur(0).set_position(b.position(), MoveMode::MoveAnchor);
            if let Op::Text { t, .. } = op {
                // a plain word before the first one
                let w: String = clean(t);
                if !w.is_empty() && env.cur(0).insert_formatted_text(&format!("{w} "), &TextFormat::default()).is_ok() {
                    obs.hit("edited");
                }
                continue;
            }
            if b.list().is_some() {
                continue;
            }
        }
        if env.apply(op).is_ok() {
            obs.hit("edited");
        }
    }
    let doc = &env.doc;
    let m = doc.to_markdown().map_err(|e| Viol { sig: "refused:export".into(), msg: format!("to_markdown failed: {e:#}") })?;
    let other = TextDocument::new();
    import(&other, false, &m)?;
    let norm = |v: Vec<Node>| -> Vec<Node> {
        v.into_iter()
            .map(|n| match n {
                n => n,
            })
            .collect()
    };
    same(&norm(strip(read(&other))), &norm(strip(read(doc))), "round-trip", &format!("importing the export {m:?}"))?;
    obs.hit("round_trips");
    // the same document as a fragment (which knows no quotes)
    if let Ok(f) = DocumentFragment::from_document(doc)
        && !f.is_empty()
        && read(doc).iter().all(|n| matches!(n.0, Node::Block { q: 0, .. } | Node::Table { q: 0, .. }))
    {
        let m = f.to_markdown();
        let other = TextDocument::new();
        import(&other, false, &m)?;
        same(&norm(strip(read(&other))), &norm(strip(read(doc))), "fragment", &format!("importing the export of the fragment {m:?}"))?;
        obs.hit("fragment_exports");
    }
    if els.len() >= 2 {
        obs.distinct(&t);
    }
    Ok(())
}
