//! Edits inside tables, quotes and frames: what an edit names changes, nothing else.

use crate::ensure;
use crate::r#gen::{self, Mix};
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P11",
        quick: 18000,
        thorough: 1500000,
        level: "exploration",
        rule: "Each case builds a document of paragraphs, lists, quotes, nested frames and tables with several blocks per cell, then edits at random \
               places: typing, splitting, joining, deleting, pasting lines, formats, list membership. After each edit the whole flow, container by container, \
               is compared with what the edit named: the block(s) at the cursor take exactly the new text and keep the formats of the characters that stay, \
               new blocks appear in the same cell, quote or frame, every other block, cell, table, frame and list is as before, and Delete and Backspace \
               at the border of a cell change nothing. Non-trivial: an edit in a cell or nested frame; distinct: by flow shape and edit.",
        assumptions: &["a selection across containers is only executed, not judged here (P01, P04, P05 judge it)", "joining across the border of a quote may either join or do nothing, and a quote emptied by it may stay as an empty frame"],
        must_observe: &["typed", "split", "joined", "deleted_chars", "deleted_selections", "pasted_lines", "char_formats", "block_formats", "list_edits", "frame_formats", "cell_border_kept", "in_cell", "in_nested", "bystanders_compared"],
        generate: gen_local,
        run: run_local,
        workers: 8,
        repeat_on_shrink: 1,
    }]
}

fn quote(r: &mut Rng) -> String {
    match r.below(3) {
        0 => format!("<blockquote><p>{}</p><p>{}</p></blockquote>", r#gen::esc(&r#gen::line(r, 2)), r#gen::esc(&r#gen::word(r))),
        1 => format!("<blockquote><p>{}</p><blockquote><p>{}</p></blockquote></blockquote>", r#gen::esc(&r#gen::word(r)), r#gen::esc(&r#gen::word(r))),
        _ => format!("<blockquote><ul><li>{}</li><li>{}</li></ul></blockquote>", r#gen::esc(&r#gen::word(r)), r#gen::esc(&r#gen::word(r))),
    }
}
pub fn table_html(r: &mut Rng) -> String {
    let (rows, cols) = (r.range(1, 3), r.range(1, 3));
    let mut s = String::from("<table>");
    for _ in 0..rows {
        s.push_str("<tr>");
        for _ in 0..cols {
            let w = r#gen::esc(&r#gen::line(r, 2));
            s.push_str(&match r.below(4) {
                0 => format!("<td><p>{w}</p><p>{}</p></td>", r#gen::esc(&r#gen::word(r))),
                1 => format!("<td><b>{w}</b></td>"),
                _ => format!("<td>{w}</td>"),
            });
        }
        s.push_str("</tr>");
    }
    s + "</table>"
}
/// A document with containers of every kind next to each other.
pub fn structured(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(2, 6) {
        s += &match r.below(7) {
            0 | 1 => table_html(r),
            2 | 3 => quote(r),
            4 => r#gen::html(r),
            _ => format!("<p>{}</p>", r#gen::esc(&r#gen::line(r, 3))),
        };
    }
    s
}

fn gen_local(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let mut ops = if i % 5 == 4 {
        vec![Op::SetMd { t: r#gen::md(r) }, Op::Pos { c: 0, p: r.below(1000), keep: false }, Op::Table { c: 0, r: r.range(1, 3), k: r.range(1, 3) }]
    } else {
        vec![Op::SetHtml { t: structured(r) }]
    };
    let m = Mix { text: 6, block: 4, delete: 8, format: 3, bformat: 3, list: 3, paste: 4, frame: 1, props: 1, cursor: 4, ..Mix::none() };
    let n = r.range(6, 24);
    for op in r#gen::ops(r, &m, n) {
        // mostly near selections, which stay within one container
        match op {
            Op::Sel { c, a, .. } if r.chance(3, 4) => ops.push(Op::Sel { c, a, b: a + r.below(9) }),
            Op::Text { c, t } => ops.push(Op::Text { c, t: t.replace('\n', " ") }),
            Op::FText { c, t, f } => ops.push(Op::FText { c, t: t.replace('\n', " "), f }),
            o => ops.push(o),
        }
    }
    Case { kind: "local".into(), ops, ..Default::default() }
}

#[derive(Clone, PartialEq, Debug)]
pub enum E {
    /// begin or end of a frame, table or cell, with its looks; the first field is the entity id
    Mark(usize, String),
    Block(B),
}
#[derive(Clone, PartialEq, Debug)]
pub struct B {
    pub id: usize,
    pub cont: Option<usize>,
    pub chars: Vec<(char, TextFormat)>,
    pub bf: BlockFormat,
    pub list: Option<(usize, ListStyle, u8)>,
    /// position range, not part of the comparison
    pub at: Pos,
}
#[derive(Clone, Copy, Debug)]
pub struct Pos(pub usize, pub usize);
impl PartialEq for Pos {
    fn eq(&self, _: &Pos) -> bool {
        true
    }
}
pub fn flatten(e: &[FlowElementSnapshot], out: &mut Vec<E>) {
    fn block(b: &BlockSnapshot, out: &mut Vec<E>) {
        let mut chars = vec![];
        for f in &b.fragments {
            if let FragmentContent::Text { text, format, .. } = f {
                chars.extend(text.chars().map(|c| (c, format.clone())));
            }
        }
        out.push(E::Block(B {
            id: b.block_id,
            cont: b.parent_frame_id,
            chars,
            bf: b.block_format.clone(),
            list: b.list_info.as_ref().map(|l| (l.list_id, l.style.clone(), l.indent)),
            at: Pos(b.position, b.position + b.length),
        }));
    }
    for x in e {
        match x {
            FlowElementSnapshot::Block(b) => block(b, out),
            FlowElementSnapshot::Frame(f) => {
                out.push(E::Mark(f.frame_id, format!("frame {} {:?}", f.frame_id, f.format)));
                flatten(&f.elements, out);
                out.push(E::Mark(f.frame_id, format!("frame end {}", f.frame_id)));
            }
            FlowElementSnapshot::Table(t) => {
                out.push(E::Mark(0, format!("table {} {}x{} {:?} {:?}", t.table_id, t.rows, t.columns, t.format, t.column_widths)));
                for c in &t.cells {
                    out.push(E::Mark(0, format!("cell {},{} {}x{} {:?}", c.row, c.column, c.row_span, c.column_span, c.format)));
                    c.blocks.iter().for_each(|b| block(b, out));
                }
                out.push(E::Mark(0, format!("table end {}", t.table_id)));
            }
        }
    }
}

/// What an edit leaves in place of one entry.
#[derive(Debug)]
enum Want {
    Same(E),
    /// text with formats (None: any), id (None: a new one), container
    Text { id: Option<usize>, cont: Option<usize>, chars: Vec<(char, Option<TextFormat>)> },
    /// the same block, allowed to differ in some respects
    Loose { b: B, chars: bool, bf: bool, list: bool },
    AnyMark(usize),
}
fn kept(v: &[(char, TextFormat)]) -> Vec<(char, Option<TextFormat>)> {
    v.iter().map(|(c, f)| (*c, Some(f.clone()))).collect()
}
fn typed(t: &str) -> Vec<(char, Option<TextFormat>)> {
    t.chars().map(|c| (c, None)).collect()
}
fn show(e: &E) -> String {
    match e {
        E::Mark(_, s) => s.chars().take(60).collect(),
        E::Block(b) => format!("block {} in {:?} {:?} list {:?} {:?}", b.id, b.cont, b.chars.iter().map(|c| c.0).collect::<String>(), b.list, b.bf).chars().take(200).collect(),
    }
}

fn matches(w: &Want, e: &E) -> std::result::Result<(), String> {
    match (w, e) {
        (Want::Same(a), b) => {
            if a == b {
                Ok(())
            } else {
                Err(format!("a bystander changed: {} became {}", show(a), show(b)))
            }
        }
        (Want::AnyMark(id), E::Mark(i, _)) if id == i => Ok(()),
        (Want::Text { id, cont, chars }, E::Block(b)) => {
            if id.is_some_and(|i| i != b.id) {
                return Err(format!("block {:?} became block {}", id, b.id));
            }
            if *cont != b.cont {
                return Err(format!("the text is in frame {:?}, expected {:?}", b.cont, cont));
            }
            let (x, y): (String, String) = (chars.iter().map(|c| c.0).collect(), b.chars.iter().map(|c| c.0).collect());
            if x != y {
                return Err(format!("the edited block is {y:?}, expected {x:?}"));
            }
            for (i, (w, g)) in chars.iter().zip(&b.chars).enumerate() {
                if w.1.as_ref().is_some_and(|f| *f != g.1) {
                    return Err(format!("character {i} of {x:?} changed its format from {:?} to {:?}", w.1, g.1));
                }
            }
            Ok(())
        }
        (Want::Loose { b, chars, bf, list }, E::Block(g)) => {
            let mut n = g.clone();
            if *chars {
                if g.chars.iter().map(|c| c.0).ne(b.chars.iter().map(|c| c.0)) {
                    return Err(format!("a format edit changed the text of block {}", b.id));
                }
                n.chars = b.chars.clone();
            }
            if *bf {
                n.bf = b.bf.clone();
            }
            if *list {
                n.list = b.list.clone();
            }
            if n == *b { Ok(()) } else { Err(format!("the edit changed more than it names: {} became {}", show(&E::Block(b.clone())), show(e))) }
        }
        (w, e) => Err(format!("expected {w:?}, got {}", show(e))),
    }
}
fn check(op: &Op, wants: &[Vec<Want>], post: &[E], obs: &mut Obs) -> Verdict {
    let mut why: Vec<String> = vec![];
    for w in wants {
        let r = w.iter().zip(post).enumerate().find_map(|(i, (w, e))| matches(w, e).err().map(|m| (i, m)));
        match r {
            None if w.len() == post.len() => {
                obs.add("bystanders_compared", post.len() as u64);
                return Ok(());
            }
            None => why.push(format!("the flow has {} entries, expected {}: last {}", post.len(), w.len(), post.last().map(show).unwrap_or_default())),
            Some((i, m)) => why.push(format!("entry {i}: {m}")),
        }
    }
    viol(op.name(), format!("{op:?}: {}", why.join(" OR ")))
}
fn same(v: &[E]) -> Vec<Want> {
    v.iter().cloned().map(Want::Same).collect()
}
/// Replace entries i..=j by `mid`.
fn with(pre: &[E], i: usize, j: usize, mid: Vec<Want>) -> Vec<Want> {
    let mut v = same(&pre[..i]);
    v.extend(mid);
    v.extend(same(&pre[j + 1..]));
    v
}
fn blk(e: &E) -> Option<&B> {
    match e {
        E::Block(b) => Some(b),
        _ => None,
    }
}
fn entry_at(v: &[E], p: usize) -> Option<usize> {
    v.iter().position(|e| blk(e).is_some_and(|b| b.at.0 <= p && p <= b.at.1))
}

fn run_local(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    for op in &c.ops {
        let mut pre = vec![];
        flatten(&env.doc.snapshot_flow().elements, &mut pre);
        let cur = env.cur(cursor_of(op));
        let (p, a) = (cur.position(), cur.anchor());
        let (lo, hi) = (p.min(a), p.max(a));
        let ids: Vec<usize> = env.doc.blocks().iter().map(|b| b.id()).collect();
        let ls = lists(&env.doc);
        let fs = frames(&env.doc);
        let out = env.apply(op);
        let mut post = vec![];
        flatten(&env.doc.snapshot_flow().elements, &mut post);
        if !op.is_edit() {
            if !matches!(op, Op::SetHtml { .. } | Op::SetMd { .. } | Op::SetPlain { .. } | Op::Clear) {
                check(op, &[same(&pre)], &post, obs)?;
            }
            continue;
        }
        if !out.is_ok() {
            check(op, &[same(&pre)], &post, obs)?;
            continue;
        }
        let (Some(i), Some(j)) = (entry_at(&pre, lo), entry_at(&pre, hi)) else { continue };
        let (bi, bj) = (blk(&pre[i]).unwrap().clone(), blk(&pre[j]).unwrap().clone());
        let here = pre[i..=j].iter().all(|e| blk(e).is_some_and(|b| b.cont == bi.cont));
        let (oi, oj) = (lo - bi.at.0, hi - bj.at.0);
        let cell = {
            // a cell's frame never shows as a frame in the flow
            let mut k = i;
            loop {
                if k == 0 {
                    break false;
                }
                k -= 1;
                match &pre[k] {
                    E::Mark(_, s) if s.starts_with("cell ") => break true,
                    E::Mark(_, _) => break false,
                    _ => {}
                }
            }
        };
        if cell {
            obs.hit("in_cell");
        } else if pre.iter().any(|e| matches!(e, E::Mark(id, _) if Some(*id) == bi.cont)) {
            obs.hit("in_nested");
        }
        let head = kept(&bi.chars[..oi.min(bi.chars.len())]);
        let tail = kept(&bj.chars[oj.min(bj.chars.len())..]);
        let key = || (op.name(), pre.iter().map(|e| matches!(e, E::Block(_))).collect::<Vec<_>>(), i, j, cell);
        obs.distinct(&key());
        match op {
            Op::Text { t, .. } | Op::FText { t, .. } if here && !t.is_empty() => {
                obs.hit("typed");
                let mut chars = head;
                chars.extend(typed(t));
                chars.extend(tail);
                check(op, &[with(&pre, i, j, vec![Want::Text { id: Some(bi.id), cont: bi.cont, chars }])], &post, obs)?;
            }
            Op::Block { .. } if here => {
                obs.hit("split");
                let mid = vec![Want::Text { id: Some(bi.id), cont: bi.cont, chars: head }, Want::Text { id: None, cont: bi.cont, chars: tail }];
                check(op, &[with(&pre, i, j, mid)], &post, obs)?;
            }
            Op::PasteText { t, .. } if here && !t.is_empty() => {
                obs.hit("pasted_lines");
                let lines: Vec<&str> = t.split('\n').collect();
                let mut mid = vec![];
                for (n, l) in lines.iter().enumerate() {
                    let mut chars = if n == 0 { head.clone() } else { vec![] };
                    chars.extend(typed(l));
                    if n + 1 == lines.len() {
                        chars.extend(tail.clone());
                    }
                    mid.push(Want::Text { id: None, cont: bi.cont, chars });
                }
                check(op, &[with(&pre, i, j, mid)], &post, obs)?;
            }
            Op::DelSel { .. } | Op::DelNext { .. } | Op::DelPrev { .. } if lo != hi => {
                if here {
                    obs.hit("deleted_selections");
                    let mut chars = head;
                    chars.extend(tail);
                    check(op, &[with(&pre, i, j, vec![Want::Text { id: Some(bi.id), cont: bi.cont, chars }])], &post, obs)?;
                }
            }
            Op::DelSel { .. } => check(op, &[same(&pre)], &post, obs)?,
            Op::DelNext { .. } | Op::DelPrev { .. } => {
                let next = matches!(op, Op::DelNext { .. });
                let inside = if next { oi < bi.chars.len() } else { oi > 0 };
                if inside {
                    obs.hit("deleted_chars");
                    // how many characters make up one user-perceived character is judged by P04
                    let n = post.get(i).and_then(blk).map(|b| bi.chars.len().saturating_sub(b.chars.len())).unwrap_or(0);
                    ensure!(n > 0, "deletes-nothing", "{op:?} at offset {oi} of block {} removed nothing", bi.id);
                    let mut chars = bi.chars.clone();
                    if next {
                        chars.drain(oi..(oi + n).min(bi.chars.len()));
                    } else {
                        chars.drain(oi.saturating_sub(n)..oi);
                    }
                    check(op, &[with(&pre, i, i, vec![Want::Text { id: Some(bi.id), cont: bi.cont, chars: kept(&chars) }])], &post, obs)?;
                    continue;
                }
                // at the edge of the block: the neighbour in the flow
                let (x, y) = if next { (i, pre[i + 1..].iter().position(|e| blk(e).is_some()).map(|k| i + 1 + k)) } else { (pre[..i].iter().rposition(|e| blk(e).is_some()).unwrap_or(i), Some(i)) };
                let Some(y) = y else {
                    check(op, &[same(&pre)], &post, obs)?;
                    continue;
                };
                if x == y {
                    check(op, &[same(&pre)], &post, obs)?;
                    continue;
                }
                let (bx, by) = (blk(&pre[x]).unwrap(), blk(&pre[y]).unwrap());
                if pre[x..=y].iter().any(|e| matches!(e, E::Mark(0, _))) {
                    obs.hit("cell_border_kept");
                    check(op, &[same(&pre)], &post, obs)?;
                    continue;
                }
                let mut chars = kept(&bx.chars);
                chars.extend(kept(&by.chars));
                let joined = Want::Text { id: Some(bx.id), cont: bx.cont, chars };
                if bx.cont == by.cont && y == x + 1 {
                    obs.hit("joined");
                    check(op, &[with(&pre, x, y, vec![joined])], &post, obs)?;
                } else {
                    // across the border of a quote: join or nothing
                    obs.hit("quote_border");
                    let mut chars = kept(&bx.chars);
                    chars.extend(kept(&by.chars));
                    let mut shell = same(&pre[..x]);
                    shell.push(Want::Text { id: Some(bx.id), cont: bx.cont, chars });
                    let mut v = same(&pre[..x]);
                    v.push(joined);
                    let mut rest: Vec<E> = pre[x + 1..y].to_vec();
                    rest.extend(pre[y + 1..].iter().cloned());
                    shell.extend(same(&rest));
                    // drop pairs "frame begin, frame end" that have become empty
                    while let Some(k) = rest.windows(2).position(|w| matches!((&w[0], &w[1]), (E::Mark(a, s), E::Mark(b, t)) if *a != 0 && a == b && !s.starts_with("frame end") && t.starts_with("frame end"))) {
                        rest.drain(k..k + 2);
                    }
                    v.extend(same(&rest));
                    check(op, &[same(&pre), v, shell], &post, obs)?;
                }
            }
            Op::SetFmt { .. } | Op::MergeFmt { .. } => {
                obs.hit("char_formats");
                let w = pre
                    .iter()
                    .map(|e| match e {
                        E::Block(b) if lo < hi && b.at.0 < hi && b.at.1 > lo => Want::Loose { b: b.clone(), chars: true, bf: false, list: false },
                        e => Want::Same(e.clone()),
                    })
                    .collect();
                check(op, &[w], &post, obs)?;
            }
            Op::BFmt { .. } => {
                obs.hit("block_formats");
                let w = pre
                    .iter()
                    .map(|e| match e {
                        E::Block(b) if b.at.0 <= hi && b.at.1 >= lo => Want::Loose { b: b.clone(), chars: false, bf: true, list: false },
                        e => Want::Same(e.clone()),
                    })
                    .collect();
                check(op, &[w], &post, obs)?;
            }
            Op::MkList { .. } | Op::AddList { .. } | Op::RmList { .. } | Op::LFmt { .. } => {
                obs.hit("list_edits");
                let w = pre
                    .iter()
                    .map(|e| match e {
                        E::Block(b) => {
                            let named = match op {
                                Op::MkList { .. } => b.at.0 <= hi && b.at.1 >= lo,
                                Op::AddList { b: n, .. } | Op::RmList { b: n, .. } => b.id == ids[n % ids.len()],
                                Op::LFmt { l, .. } => b.list.as_ref().is_some_and(|x| x.0 == ls[l % ls.len()]),
                                _ => false,
                            };
                            if named { Want::Loose { b: b.clone(), chars: false, bf: false, list: true } } else { Want::Same(e.clone()) }
                        }
                        e => Want::Same(e.clone()),
                    })
                    .collect();
                check(op, &[w], &post, obs)?;
            }
            Op::FrFmt { fr, .. } => {
                obs.hit("frame_formats");
                let id = fs[fr % fs.len()];
                let w = pre.iter().map(|e| if matches!(e, E::Mark(i, _) if *i == id) { Want::AnyMark(id) } else { Want::Same(e.clone()) }).collect();
                check(op, &[w], &post, obs)?;
            }
            Op::Title { .. } | Op::Dir { .. } | Op::Wrap { .. } | Op::Resource { .. } => {
                obs.hit("properties");
                check(op, &[same(&pre)], &post, obs)?;
            }
            _ => obs.hit("not_judged"),
        }
    }
    Ok(())
}

pub fn cursor_of(op: &Op) -> usize {
    let v = serde_json::to_value(op).unwrap_or_default();
    v.as_object().and_then(|o| o.values().next()).and_then(|x| x.get("c")).and_then(|c| c.as_u64()).unwrap_or(0) as usize
}
