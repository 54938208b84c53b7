//! Character and block formatting against a per-character model.

use crate::ensure;
use crate::r#gen::{self, Mix};
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P10",
        quick: 80000,
        thorough: 3000000,
        level: "exploration",
        rule: "Each case imports a document (plain, Markdown or HTML, some with tables), then applies character and block formats \
               over random selections mixed, in documents without tables, with typing, deleting, splitting and joining. After each \
               operation the format of every character and block, read through fragments and through the point query, is compared \
               with a per-character model: inside the selection exactly the given attributes change, outside nothing does, text \
               that stays keeps its format, typed text takes the format around it. At the end frame formats are set: a frame takes \
               exactly the given attributes and nothing else in the document changes. Non-trivial: at least two format changes; \
               distinct: by operation list.",
        assumptions: &[
            "set covers family, size, weight, bold, italic, underline, overline, strikeout, spacing, underline style and vertical alignment; merge covers family, bold, italic, underline and strikeout",
            "a block that a selection only touches at its edge may or may not take a block format",
        ],
        must_observe: &["formats_set", "formats_merged", "block_formats", "typed_inside_run", "chars_compared", "joins_kept", "point_queries", "frames_formatted"],
        generate: gen_fmt,
        run: run_fmt,
        workers: 8,
        repeat_on_shrink: 1,
    }]
}

fn gen_fmt(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let mut ops = match i % 4 {
        0 | 1 => vec![Op::SetPlain { t: super::text::plain(r) }],
        2 => vec![Op::SetMd { t: r#gen::md(r) }],
        _ => vec![Op::SetHtml { t: r#gen::html(r) }],
    };
    let m = Mix { text: 5, block: 2, delete: 4, format: 10, bformat: 3, cursor: 4, paste: 1, ..Mix::none() };
    let n = r.range(3, 18);
    ops.extend(r#gen::ops(r, &m, n).into_iter().filter(|o| !matches!(o, Op::Copy { .. } | Op::Paste { .. })));
    Case { kind: "fmt".into(), ops, nums: vec![r.next()], ..Default::default() }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Ch {
    pub c: char,
    pub sep: bool,
    pub f: TextFormat,
}
/// The document as one sequence of formatted characters, blocks in position order.
pub fn chars(doc: &TextDocument) -> std::result::Result<(Vec<Ch>, Vec<BlockFormat>), Viol> {
    let mut bs = doc.blocks();
    bs.sort_by_key(|b| b.position());
    let mut v: Vec<Ch> = vec![];
    let mut bf = vec![];
    for (i, b) in bs.iter().enumerate() {
        if i > 0 {
            v.push(Ch { c: '\n', sep: true, f: TextFormat::default() });
        }
        let start = v.len();
        let mut off = 0;
        for fr in b.fragments() {
            match fr {
                FragmentContent::Text { text, format, offset, length, .. } => {
                    ensure!(offset == off && length == text.chars().count(), "fragment-offset", "fragment {text:?} says offset {offset} length {length}, expected offset {off}");
                    off += length;
                    v.extend(text.chars().map(|c| Ch { c, sep: false, f: format.clone() }));
                }
                FragmentContent::Image { .. } => return viol("harness", "image in a workload without images"),
            }
        }
        let t: String = v[start..].iter().map(|c| c.c).collect();
        ensure!(t == b.text(), "fragment-text", "fragments spell {t:?}, the block is {:?}", b.text());
        bf.push(b.block_format());
    }
    Ok((v, bf))
}
pub fn overlay_set(f: &TextFormat, g: &TextFormat) -> TextFormat {
    let mut o = f.clone();
    macro_rules! take { ($($x:ident),*) => { $( if g.$x.is_some() { o.$x = g.$x.clone(); } )* } }
    take!(font_family, font_point_size, font_weight, font_bold, font_italic, font_underline, font_overline, font_strikeout, letter_spacing, word_spacing, underline_style, vertical_alignment);
    o
}
pub fn overlay_merge(f: &TextFormat, g: &TextFormat) -> TextFormat {
    let mut o = f.clone();
    macro_rules! take { ($($x:ident),*) => { $( if g.$x.is_some() { o.$x = g.$x.clone(); } )* } }
    if g.font_family.as_deref() != Some("") {
        take!(font_family);
    }
    take!(font_bold, font_italic, font_underline, font_strikeout);
    o
}
pub fn overlay_block(f: &BlockFormat, g: &BlockFormat) -> BlockFormat {
    let mut o = f.clone();
    macro_rules! take { ($($x:ident),*) => { $( if g.$x.is_some() { o.$x = g.$x.clone(); } )* } }
    take!(alignment, top_margin, bottom_margin, left_margin, right_margin, heading_level, indent, text_indent, marker, line_height, non_breakable_lines, direction, background_color, is_code_block, code_language);
    o
}

fn run_fmt(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    let mut rng = Rng::new(c.nums.first().copied().unwrap_or(1));
    let mut fmts = 0;
    for op in &c.ops {
        let name = op.name();
        if matches!(op, Op::SetPlain { .. } | Op::SetMd { .. } | Op::SetHtml { .. }) {
            env.apply(op);
            continue;
        }
        let flat = tables(&env.doc).is_empty() && frames(&env.doc).len() == 1;
        let (m, bf) = chars(&env.doc)?;
        let cu = match op {
            Op::SetFmt { c, .. } | Op::MergeFmt { c, .. } | Op::BFmt { c, .. } | Op::Text { c, .. } | Op::FText { c, .. } | Op::Block { c } | Op::DelNext { c } | Op::DelPrev { c } | Op::DelSel { c } | Op::PasteText { c, .. } => Some(*c),
            _ => None,
        };
        let Some(cu) = cu else {
            env.apply(op);
            let (n, nbf) = chars(&env.doc)?;
            ensure!(n == m && nbf == bf, format!("touched:{name}"), "{op:?} changed formatting");
            continue;
        };
        let (p, an) = (env.cur(cu).position(), env.cur(cu).anchor());
        let (a, b) = (p.min(an), p.max(an));
        let is_fmt = matches!(op, Op::SetFmt { .. } | Op::MergeFmt { .. } | Op::BFmt { .. });
        if !is_fmt && !flat {
            continue;
        }
        let out = env.apply(op);
        if out.is_err() {
            return viol(format!("refused:{name}"), format!("{op:?} failed: {out:?}"));
        }
        let (n, nbf) = chars(&env.doc)?;
        // block ranges before
        let mut ranges = vec![];
        let mut s = 0;
        for i in 0..=m.len() {
            if i == m.len() || m[i].sep {
                ranges.push((s, i));
                s = i + 1;
            }
        }
        match op {
            Op::SetFmt { f, .. } | Op::MergeFmt { f, .. } => {
                let g = f.to_text();
                let set = matches!(op, Op::SetFmt { .. });
                ensure!(n.len() == m.len(), format!("text:{name}"), "{op:?} changed the text");
                for i in 0..m.len() {
                    ensure!(n[i].c == m[i].c && n[i].sep == m[i].sep, format!("text:{name}"), "{op:?} changed the text");
                    if m[i].sep {
                        continue;
                    }
                    let want = if a <= i && i < b {
                        if set { overlay_set(&m[i].f, &g) } else { overlay_merge(&m[i].f, &g) }
                    } else {
                        m[i].f.clone()
                    };
                    ensure!(n[i].f == want, format!("range:{name}"), "{op:?} over {a}..{b}: character {i} {:?} has {:?}, expected {want:?}", m[i].c, n[i].f);
                    obs.hit("chars_compared");
                }
                ensure!(nbf == bf, format!("block-format:{name}"), "{op:?} changed a block format");
                if a < b {
                    fmts += 1;
                    obs.hit(if set { "formats_set" } else { "formats_merged" });
                }
            }
            Op::BFmt { f, .. } => {
                ensure!(n == m, format!("chars:{name}"), "{op:?} changed characters or their formats");
                let g = f.to_block();
                for (k, (s, e)) in ranges.iter().enumerate() {
                    let want = overlay_block(&bf[k], &g);
                    let must = if a == b { *s <= a && a <= *e } else { *s < b && *e > a };
                    let may = *s <= b && *e >= a;
                    if must {
                        ensure!(nbf[k] == want, "range:BFmt", "{op:?} at {a}..{b}: block {k} ({s}..{e}) has {:?}, expected {want:?}", nbf[k]);
                        obs.hit("block_formats");
                    } else if may {
                        ensure!(nbf[k] == want || nbf[k] == bf[k], "edge:BFmt", "{op:?} at {a}..{b}: block {k} ({s}..{e}) has {:?}", nbf[k]);
                    } else {
                        ensure!(nbf[k] == bf[k], "outside:BFmt", "{op:?} at {a}..{b}: block {k} ({s}..{e}) outside changed to {:?}", nbf[k]);
                    }
                }
                fmts += 1;
            }
            _ => {
                // a text edit: common prefix and suffix must keep their formats
                let (lo, hi) = match op {
                    Op::DelNext { .. } | Op::DelPrev { .. } if a == b => {
                        let rem = m.len() - n.len();
                        if matches!(op, Op::DelNext { .. }) { (a, a + rem) } else { (a - rem, a) }
                    }
                    _ => (a, b),
                };
                if n.len() + (hi - lo) < m.len() {
                    return viol(format!("length:{name}"), format!("{op:?}: {} characters before, {} after", m.len(), n.len()));
                }
                let ins = n.len() + (hi - lo) - m.len();
                for i in 0..lo {
                    ensure!(n[i] == m[i], format!("kept:{name}"), "{op:?} at {a}..{b}: character {i} {:?} went from {:?} to {:?}", m[i].c, m[i].f, n[i].f);
                    obs.hit("chars_compared");
                }
                for i in hi..m.len() {
                    let j = i - (hi - lo) + ins;
                    ensure!(n[j] == m[i], format!("kept:{name}"), "{op:?} at {a}..{b}: character {i} {:?} went from {:?} to {:?}", m[i].c, m[i].f, n[j].f);
                    obs.hit("chars_compared");
                }
                if m[lo..hi].iter().any(|c| c.sep) {
                    obs.hit("joins_kept");
                }
                match op {
                    Op::FText { f, .. } => {
                        let g = f.to_text();
                        for x in &n[lo..lo + ins] {
                            ensure!(x.f.font_bold.unwrap_or(false) == g.font_bold.unwrap_or(false) && x.f.font_italic.unwrap_or(false) == g.font_italic.unwrap_or(false) && x.f.font_underline.unwrap_or(false) == g.font_underline.unwrap_or(false) && x.f.font_family == g.font_family && x.f.font_point_size == g.font_point_size,
                                "inserted:FText", "{op:?}: {:?} got {:?}", x.c, x.f);
                        }
                    }
                    Op::Text { .. } if lo == hi => {
                        let prev = (lo > 0 && !m[lo - 1].sep).then(|| &m[lo - 1].f);
                        let next = (lo < m.len() && !m[lo].sep).then(|| &m[lo].f);
                        let dflt = TextFormat::default();
                        let ok: Vec<&TextFormat> = match (prev, next) {
                            (Some(x), Some(y)) if x == y => {
                                obs.hit("typed_inside_run");
                                vec![x]
                            }
                            (Some(x), Some(y)) => vec![x, y],
                            (Some(x), None) => vec![x],
                            (None, Some(y)) => vec![y, &dflt],
                            (None, None) => vec![&dflt],
                        };
                        for x in &n[lo..lo + ins] {
                            ensure!(ok.contains(&&x.f), "typed:Text", "{op:?} at {lo} between {prev:?} and {next:?}: {:?} got {:?}", x.c, x.f);
                        }
                        if ins > 0 {
                            let f0 = &n[lo].f;
                            ensure!(n[lo..lo + ins].iter().all(|x| &x.f == f0), "typed:Text", "{op:?}: the typed text has more than one format");
                        }
                    }
                    _ => {}
                }
                // block formats of untouched blocks
                let first = ranges.iter().position(|(s, e)| *s <= lo && lo <= *e).unwrap_or(0);
                let last = ranges.iter().position(|(s, e)| *s <= hi && hi <= *e).unwrap_or(0);
                let tail = ranges.len() - 1 - last;
                ensure!(nbf[..first] == bf[..first], format!("block-kept:{name}"), "{op:?} changed the format of a block before it");
                ensure!(nbf[nbf.len() - tail..] == bf[bf.len() - tail..], format!("block-kept:{name}"), "{op:?} changed the format of a block behind it");
                if matches!(op, Op::Text { .. } | Op::FText { .. } | Op::DelNext { .. } | Op::DelPrev { .. } | Op::DelSel { .. }) && !m[lo..hi].iter().any(|c| c.sep) {
                    ensure!(nbf == bf, format!("block-kept:{name}"), "{op:?} inside a block changed a block format");
                }
            }
        }
        // point queries
        let q = rng.below(n.len() + 1);
        let pc = env.doc.cursor_at(q);
        let q = pc.position();
        let f = pc.char_format().map_err(|e| Viol { sig: "char_format".into(), msg: format!("char_format at {q} failed: {e}") })?;
        if q < n.len() && !n[q].sep {
            ensure!(f == n[q].f, "char_format", "char_format at {q} is {f:?}, the character has {:?}", n[q].f);
            obs.hit("point_queries");
        }
        let k = n[..q].iter().filter(|c| c.sep).count();
        let g = pc.block_format().map_err(|e| Viol { sig: "block_format".into(), msg: format!("block_format at {q} failed: {e}") })?;
        ensure!(g == nbf[k], "block_format", "block_format at {q} is {g:?}, block {k} has {:?}", nbf[k]);
    }
    if fmts >= 2 {
        obs.distinct(&format!("{:?}", c.ops));
    }
    frame_formats(&env, &mut rng, obs)
}

/// A frame takes exactly the given attributes; nothing else in the document changes; undo and redo restore them.
fn frame_formats(env: &Env, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    fn collect(els: &[FlowElementSnapshot], out: &mut Vec<(usize, FrameFormat)>) {
        for e in els {
            if let FlowElementSnapshot::Frame(f) = e {
                out.push((f.frame_id, f.format.clone()));
                collect(&f.elements, out);
            }
        }
    }
    let all = |doc: &TextDocument| {
        let mut v = vec![];
        collect(&doc.snapshot_flow().elements, &mut v);
        v
    };
    let mut dropped = None;
    for _ in 0..2 {
        let ids = frames(&env.doc);
        let before = all(&env.doc);
        // mostly frames that a user can see
        let id = if !before.is_empty() && rng.chance(3, 4) { before[rng.below(before.len())].0 } else { ids[rng.below(ids.len())] };
        let mut opt = |n: usize| rng.chance(1, 3).then(|| rng.below(n) as i32);
        let f = FrameFormat {
            height: opt(900),
            width: opt(900),
            top_margin: opt(50),
            bottom_margin: opt(50),
            left_margin: opt(50),
            right_margin: opt(50),
            padding: opt(20),
            border: opt(9),
            position: rng.chance(1, 12).then(|| [FramePosition::InFlow, FramePosition::FloatLeft, FramePosition::FloatRight][rng.below(3)].clone()),
            is_blockquote: None,
        };
        let s0 = crate::observe::store_of(&env.doc);
        let p = rng.below(env.doc.character_count() + 1);
        let cur = env.doc.cursor_at(p);
        let r = cur.set_frame_format(id, &f);
        ensure!(r.is_ok(), "frame:error", "set_frame_format({id}, {f:?}) failed: {:?}", r.err());
        let after = all(&env.doc);
        ensure!(before.len() == after.len(), "frame:list", "set_frame_format({id}, {f:?}) changed the frames of the flow: {before:?} -> {after:?}");
        for ((i, x), (j, y)) in before.iter().zip(&after) {
            let mut want = x.clone();
            if *i == id {
                macro_rules! take { ($($k:ident),*) => { $( if f.$k.is_some() { want.$k = f.$k; } )* } }
                take!(height, width, top_margin, bottom_margin, left_margin, right_margin, padding, border);
                obs.hit("frames_formatted");
            }
            let mut got = y.clone();
            got.position = want.position.clone();
            ensure!(i == j && got == want, "frame:format", "set_frame_format({id}, {f:?}): frame {i} went from {x:?} to {y:?}, expected {want:?}");
            if *i == id && f.position.is_some() {
                // reported at the end, so that what follows is still judged
                if y.position != f.position {
                    ensure!(y.position == x.position, "frame:format", "set_frame_format({id}, {f:?}): the position of frame {i} went from {:?} to {:?}", x.position, y.position);
                    dropped = Some(format!("set_frame_format({id}, {f:?}): the position of frame {i} is {:?}", y.position));
                }
            } else {
                ensure!(y.position == x.position, "frame:format", "set_frame_format({id}, {f:?}): the position of frame {i} went from {:?} to {:?}", x.position, y.position);
            }
        }
        // nothing but this frame
        let s1 = crate::observe::store_of(&env.doc);
        let mut s2 = s1.clone();
        s2.frames.insert(id as u64, s0.frames[&(id as u64)].clone());
        if let Some((path, d)) = crate::observe::store_diff(&s0, &s2) {
            ensure!(false, format!("frame:other:{path}"), "set_frame_format({id}, {f:?}) changed something else: {d}");
        }
    }
    if let Some(d) = dropped {
        ensure!(false, "frame:position-dropped", "{d}");
    }
    Ok(())
}
