//! Generators: hostile texts, formats, markup and operation sequences.

use crate::ops::*;
use crate::rng::Rng;

pub const WORDS: &[&str] = &[
    "alpha", "beta", "the", "Quick", "fox", "x", "foo", "bar", "Foo", "straße", "ÉCOLE", "été",
    "naïve", "日本語", "данные", "don't", "a_b", "42", "3.14", "e\u{301}te\u{301}", "👩\u{200d}👩\u{200d}👧",
    "🇫🇷", "👋🏻", "ﬁn", "İ", "ǅ", "नमस्ते", "한국", "\u{200b}zw", "a\u{308}", "tab\tbed",
];

pub fn word(r: &mut Rng) -> String {
    (*r.pick(WORDS)).to_string()
}

/// One line of text (no newline), length-biased to small.
pub fn line(r: &mut Rng, max_words: usize) -> String {
    let n = r.below(max_words + 1);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(*r.pick(&[" ", " ", " ", "  ", ", ", "-", ". "]));
        }
        s.push_str(r.pick(WORDS));
    }
    s
}

pub fn ascii_line(r: &mut Rng, max_words: usize) -> String {
    let n = r.below(max_words + 1);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        for _ in 0..r.range(1, 6) {
            s.push((b'a' + r.below(26) as u8) as char);
        }
    }
    s
}

pub fn text(r: &mut Rng, lines: usize, words: usize) -> String {
    let n = r.range(1, lines.max(1));
    (0..n).map(|_| line(r, words)).collect::<Vec<_>>().join("\n")
}

/// Insertable snippet: short, sometimes multi-line, sometimes empty.
pub fn snippet(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => text(r, 3, 2),
        2 => "\n".into(),
        3 => " ".into(),
        4 => word(r) + "\n",
        5 | 6 => ((b'a' + r.below(26) as u8) as char).to_string(),
        _ => line(r, 2),
    }
}

pub fn fmt(r: &mut Rng) -> Fmt {
    let mut f = Fmt::default();
    for _ in 0..r.range(1, 3) {
        match r.below(14) {
            0 => f.family = Some((*r.pick(&["Serif", "Mono", "Sans"])).into()),
            1 => f.size = Some(r.range(6, 40) as u32),
            2 => f.weight = Some(*r.pick(&[300u32, 400, 700])),
            3 | 4 => f.bold = Some(r.chance(3, 4)),
            5 | 6 => f.italic = Some(r.chance(3, 4)),
            7 => f.underline = Some(r.chance(1, 2)),
            8 => f.overline = Some(r.chance(1, 2)),
            9 => f.strike = Some(r.chance(1, 2)),
            10 => f.letter = Some(r.range(1, 5) as i32),
            11 => f.word = Some(r.range(1, 5) as i32),
            12 => f.valign = Some(r.below(7) as u8),
            _ => f.ustyle = Some(r.below(8) as u8),
        }
    }
    f
}

pub fn bfmt(r: &mut Rng) -> BFmt {
    let mut f = BFmt::default();
    for _ in 0..r.range(1, 3) {
        match r.below(14) {
            0 => f.align = Some(r.below(4) as u8),
            1 => f.top = Some(r.range(0, 30) as i32),
            2 => f.bottom = Some(r.range(0, 30) as i32),
            3 => f.left = Some(r.range(0, 30) as i32),
            4 => f.right = Some(r.range(0, 30) as i32),
            5 => f.heading = Some(r.range(1, 6) as u8),
            6 => f.indent = Some(r.range(0, 4) as u8),
            7 => f.text_indent = Some(r.range(0, 20) as i32),
            8 => f.marker = Some(r.below(3) as u8),
            9 => f.line_height_x4 = Some(r.range(2, 12) as u8),
            10 => f.nbl = Some(r.chance(1, 2)),
            11 => f.rtl = Some(r.chance(1, 2)),
            12 => f.bg = Some((*r.pick(&["#ff0000", "#00ff00"])).into()),
            _ => f.code = Some(r.chance(1, 2)),
        }
    }
    f
}

pub fn html(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        let k = r.below(12);
        match k {
            0 => s += &format!("<p>{}</p>", esc(&line(r, 3))),
            1 => s += &format!("<p>{} <b>{}</b> {}</p>", esc(&line(r, 2)), esc(&word(r)), esc(&word(r))),
            2 => s += &format!("<h{0}>{1}</h{0}>", r.range(1, 6), esc(&line(r, 2))),
            3 => s += &format!("<ul><li>{}</li><li>{}</li></ul>", esc(&word(r)), esc(&word(r))),
            4 => s += &format!("<ol><li>{}</li><li><i>{}</i></li></ol>", esc(&word(r)), esc(&word(r))),
            5 => s += &format!("<i>{}</i>", esc(&word(r))),
            6 => s += &format!("<blockquote><p>{}</p></blockquote>", esc(&line(r, 2))),
            7 => s += &format!("<pre><code>{}</code></pre>", esc(&line(r, 2))),
            8 => s += &format!("<a href=\"http://e.x/{}\">{}</a>", r.below(9), esc(&word(r))),
            9 => s += &esc(&line(r, 2)),
            10 => {
                s += &format!(
                    "<table><tr><td>{}</td><td>{}</td></tr><tr><td>{}</td><td></td></tr></table>",
                    esc(&word(r)), esc(&word(r)), esc(&word(r))
                )
            }
            _ => s += "<br>",
        }
    }
    s
}
pub fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}
pub fn md(r: &mut Rng) -> String {
    let mut parts = vec![];
    for _ in 0..r.range(1, 3) {
        let k = r.below(10);
        parts.push(match k {
            0 => format!("{} {}", "#".repeat(r.range(1, 6)), ascii_line(r, 3)),
            1 => format!("- {}\n- {}", ascii_line(r, 2), word(r)),
            2 => format!("1. {}\n2. {}", ascii_line(r, 2), word(r)),
            3 => format!("**{}** and *{}*", word(r), word(r)),
            4 => format!("> {}", line(r, 2)),
            5 => format!("```\n{}\n```", line(r, 2)),
            6 => format!("| a | b |\n|---|---|\n| {} | {} |", word(r), word(r)),
            7 => format!("[{}](http://e.x/1)", word(r)),
            8 => format!("~~{}~~ `{}`", word(r), word(r)),
            _ => line(r, 3),
        });
    }
    parts.join("\n\n")
}

/// Which families of operation a generated sequence draws from.
#[derive(Clone, Copy)]
pub struct Mix {
    pub text: usize,
    pub block: usize,
    pub delete: usize,
    pub format: usize,
    pub bformat: usize,
    pub image: usize,
    pub frame: usize,
    pub table: usize,
    pub tablefmt: usize,
    pub list: usize,
    pub paste: usize,
    pub markup: usize,
    pub replace: usize,
    pub undo: usize,
    pub group: usize,
    pub props: usize,
    pub import: usize,
    pub cursor: usize,
}
impl Mix {
    pub const fn none() -> Mix {
        Mix {
            text: 0, block: 0, delete: 0, format: 0, bformat: 0, image: 0, frame: 0, table: 0,
            tablefmt: 0, list: 0, paste: 0, markup: 0, replace: 0, undo: 0, group: 0, props: 0,
            import: 0, cursor: 0,
        }
    }
    pub const fn all() -> Mix {
        Mix {
            text: 10, block: 5, delete: 8, format: 6, bformat: 3, image: 0, frame: 1, table: 6,
            tablefmt: 2, list: 5, paste: 4, markup: 3, replace: 2, undo: 6, group: 2, props: 2,
            import: 1, cursor: 10,
        }
    }
}

pub fn op(r: &mut Rng, m: &Mix) -> Op {
    let ws = [
        m.text, m.block, m.delete, m.format, m.bformat, m.image, m.frame, m.table, m.tablefmt,
        m.list, m.paste, m.markup, m.replace, m.undo, m.group, m.props, m.import, m.cursor,
    ];
    let c = r.below(3);
    let big = || 0usize;
    let _ = big;
    match r.weighted(&ws) {
        0 => {
            if r.chance(1, 4) {
                let f = Fmt {
                    bold: Some(r.chance(1, 2)),
                    italic: Some(r.chance(1, 2)),
                    underline: if r.chance(1, 3) { Some(true) } else { None },
                    family: if r.chance(1, 4) { Some("Mono".into()) } else { None },
                    size: if r.chance(1, 4) { Some(17) } else { None },
                    ..Default::default()
                };
                Op::FText { c, t: snippet(r), f }
            } else {
                Op::Text { c, t: snippet(r) }
            }
        }
        1 => Op::Block { c },
        2 => match r.below(3) {
            0 => Op::DelNext { c },
            1 => Op::DelPrev { c },
            _ => Op::DelSel { c },
        },
        3 => {
            if r.chance(1, 2) {
                Op::SetFmt { c, f: fmt(r) }
            } else {
                Op::MergeFmt { c, f: fmt(r) }
            }
        }
        4 => Op::BFmt { c, f: bfmt(r) },
        5 => Op::Image { c, n: format!("img{}", r.below(3)), w: r.range(1, 300) as u32, h: r.range(1, 300) as u32 },
        6 => {
            if r.chance(1, 3) {
                Op::FrFmt { c, fr: r.below(8), top: Some(r.below(9) as i32), bq: if r.chance(1, 3) { Some(true) } else { None }, border: None }
            } else {
                Op::Frame { c }
            }
        }
        7 => match r.below(10) {
            0 | 1 => Op::Table { c, r: r.range(1, 3), k: r.range(1, 3) },
            2 => Op::RmTable { c, t: r.below(4) },
            3 => Op::InsRow { c, t: r.below(4), i: r.below(5) },
            4 => Op::InsCol { c, t: r.below(4), i: r.below(5) },
            5 => Op::RmRow { c, t: r.below(4), i: r.below(5) },
            6 => Op::RmCol { c, t: r.below(4), i: r.below(5) },
            7 | 8 => Op::Merge { c, t: r.below(4), r0: r.below(4), c0: r.below(4), r1: r.below(4), c1: r.below(4) },
            _ => Op::Split { c, t: r.below(4), i: r.below(9), r: r.range(1, 3), k: r.range(1, 3) },
        },
        8 => {
            if r.chance(1, 2) {
                Op::TFmt { c, t: r.below(3), border: Some(r.below(5) as i32), width: None, al: Some(r.below(4) as u8) }
            } else {
                Op::CFmt { c, t: r.below(3), i: r.below(9), pad: Some(r.below(9) as i32), bg: None, va: Some(r.below(3) as u8) }
            }
        }
        9 => match r.below(6) {
            0 | 1 => Op::MkList { c, s: r.below(8) as u8 },
            2 => Op::InsList { c, s: r.below(8) as u8 },
            3 => Op::LFmt { c, l: r.below(4), s: Some(r.below(8) as u8), ind: if r.chance(1, 2) { Some(r.below(4) as u8) } else { None }, pre: if r.chance(1, 3) { Some("(".into()) } else { None }, suf: if r.chance(1, 3) { Some(")".into()) } else { None } },
            4 => Op::AddList { c, b: r.below(20), l: r.below(4) },
            _ => Op::RmList { c, b: r.below(20) },
        },
        10 => match r.below(5) {
            0 | 1 => Op::Copy { c },
            2 | 3 => Op::Paste { c },
            _ => Op::PasteText { c, t: snippet(r) },
        },
        11 => {
            if r.chance(1, 2) {
                Op::Html { c, h: html(r) }
            } else {
                Op::Md { c, m: md(r) }
            }
        }
        12 => Op::Replace {
            q: if r.chance(1, 3) { (*r.pick(&["a", "o", "e", "fo", " "])).into() } else { word(r) },
            r: if r.chance(1, 4) { String::new() } else { word(r) },
            all: r.chance(2, 3),
            cs: r.chance(1, 2),
            ww: r.chance(1, 4),
            re: false,
        },
        13 => if r.chance(3, 5) { Op::Undo } else { Op::Redo },
        14 => if r.chance(1, 2) { Op::Begin { c } } else { Op::End { c } },
        15 => match r.below(4) {
            0 => Op::Title { t: line(r, 2) },
            1 => Op::Dir { rtl: r.chance(1, 2) },
            2 => Op::Wrap { w: r.below(4) as u8 },
            _ => Op::Resource { n: format!("r{}", r.below(3)), ty: r.below(3) as u8, d: (0..r.below(8)).map(|_| r.below(256) as u8).collect() },
        },
        16 => match r.below(4) {
            0 => Op::SetPlain { t: text(r, 4, 3) },
            1 => Op::SetMd { t: md(r) },
            2 => Op::SetHtml { t: html(r) },
            _ => Op::Clear,
        },
        _ => match r.below(10) {
            0..=2 => Op::Pos { c, p: r.below(1000), keep: r.chance(1, 3) },
            3..=5 => {
                let a = r.below(1000);
                let b = if r.chance(1, 2) { a + r.below(12) } else { r.below(1000) };
                Op::Sel { c, a, b }
            }
            6 | 7 => Op::Move { c, m: r.below(21) as u8, keep: r.chance(1, 3), n: r.range(1, 3) },
            8 => Op::Select { c, k: r.below(4) as u8 },
            _ => if r.chance(1, 2) { Op::NewCursor { p: r.below(1000) } } else { Op::DropCursor { c: r.below(5) } },
        },
    }
}

/// A sequence in which every edit is preceded, most of the time, by a cursor placement.
pub fn ops(r: &mut Rng, m: &Mix, n: usize) -> Vec<Op> {
    let mut v = vec![];
    let cm = Mix { cursor: 1, ..Mix::none() };
    while v.len() < n {
        if r.chance(2, 5) {
            v.push(op(r, &cm));
        }
        v.push(op(r, m));
    }
    v
}
