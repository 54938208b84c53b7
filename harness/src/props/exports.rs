//! LaTeX and DOCX exports, read back by parsers written for this check.

use super::markup::{Key, Node, Runs, merged, read};
use crate::ensure;
use crate::r#gen;
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use std::collections::BTreeMap;
use text_document::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P30",
        quick: 40000,
        thorough: 1500000,
        level: "exploration",
        rule: "Each case builds a random document (imports, edits, tables with merged cells, lists, quotes, code blocks, text full of LaTeX and XML punctuation) and exports it \
               to LaTeX, with and without preamble, and one in four to a DOCX file. A strict LaTeX reader (braces and environments balanced, every special character escaped) and a \
               DOCX reader (archive, well-formed XML) rebuild from them the sequence of paragraphs, headings, list items, quotes, code blocks and table grids \
               with texts and formats; that must be the document as read through its flow snapshot, in order, nothing lost or repeated. The document must be unchanged. Non-trivial: at least two blocks; distinct: by LaTeX text.",
        assumptions: &["LaTeX and DOCX exports flatten the nesting of lists, and LaTeX drops empty paragraphs; DOCX carries no lists, quotes and links, as implemented", "documents with line breaks inside a block are not judged"],
        must_observe: &["latex", "docx", "items", "tables", "merged_cells", "quotes", "verbatim", "headings", "escapes", "links", "wrappers", "docx_tables", "docx_merged"],
        generate: gen_exports,
        run: run_exports,
        workers: 8,
        repeat_on_shrink: 1,
    }]
}

fn gen_exports(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let mut m = super::undo::general_mix(i);
    m.group = 0;
    m.image = 0;
    let mut ops = match r.below(4) {
        0 => {
            let t = (0..r.range(1, 5)).map(|_| nasty(r)).collect::<Vec<_>>().join("\n");
            vec![Op::SetPlain { t }]
        }
        _ => super::undo::start(r),
    };
    let n = r.range(0, 8);
    for mut o in r#gen::ops(r, &m, n) {
        if let Op::FrFmt { bq, .. } = &mut o {
            *bq = None;
        }
        ops.push(o);
        let c = r.below(2);
        match r.below(8) {
            0 => {
                ops.push(Op::Pos { c, p: r.below(1000), keep: false });
                ops.push(Op::Text { c, t: nasty(r) });
            }
            1 => {
                ops.push(Op::Pos { c, p: r.below(1000), keep: false });
                ops.push(Op::BFmt { c, f: r#gen::bfmt(r) });
            }
            2 => {
                ops.push(Op::Sel { c, a: r.below(1000), b: r.below(1000) });
                ops.push(Op::MkList { c, s: r.below(8) as u8 });
            }
            3 if m.table > 0 => {
                let (a, b) = (r.below(3), r.below(3));
                ops.push(Op::Merge { c, t: 0, r0: a, c0: b, r1: a + r.below(3), c1: b + r.below(3) });
            }
            _ => (),
        }
    }
    Case { kind: "exports".into(), ops, nums: vec![(r.chance(1, 4)) as u64], ..Default::default() }
}
fn nasty(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 4) {
        s.push_str(*r.pick(&["[x]", "\\", "{", "}", "a_b", "50%", "$x^2$", "#1", " & ", "~", "\\\\", "\\item", "\\end{verbatim}", "<b>", "&amp;", "]]>", "\"q\"", "'", "word", " ", "%%", "--", "\\end{quote}", "^", "\u{b}", "\u{1}", "\u{0}"]));
    }
    s
}

// ── what an export should say ────────────────────────────────────────

#[derive(Clone, Debug, PartialEq)]
enum Part {
    Block { q: usize, kind: String, css: BTreeMap<String, String>, runs: Runs },
    /// rows of (row span, column span, content); row span 0 continues a cell above
    Table { q: usize, cols: usize, rows: Vec<Vec<(usize, usize, Vec<Runs>)>> },
}
fn grid(rows: usize, cols: usize, cells: &[(usize, usize, usize, usize, Vec<Runs>)]) -> Vec<Vec<(usize, usize, Vec<Runs>)>> {
    (0..rows)
        .map(|r| {
            let mut row = vec![];
            let mut c = 0;
            while c < cols {
                let Some(x) = cells.iter().find(|x| x.0 <= r && r < x.0 + x.2 && x.1 <= c && c < x.1 + x.3) else {
                    row.push((1, 1, vec![]));
                    c += 1;
                    continue;
                };
                row.push(if x.0 == r { (x.2, x.3, x.4.clone()) } else { (0, x.3, vec![]) });
                c += x.3.max(1);
            }
            row
        })
        .collect()
}

// ── LaTeX ────────────────────────────────────────────────────────────

fn want_latex(doc: &TextDocument) -> Vec<Part> {
    let mut out = vec![];
    let mut handles = doc.blocks().into_iter().filter(|b| b.table_cell().is_none());
    for (n, list) in read(doc) {
        match n {
            Node::Block { q, mut kind, css, runs } => {
                let style = handles.next().and_then(|b| b.list()).map(|l| l.style());
                if kind == "code-item" && style.is_some_and(|s| super::markup::ordered(&s)) {
                    kind = "ol".into();
                }
                let text: String = runs.iter().map(|r| r.0.as_str()).collect();
                let level = kind.strip_prefix('h').and_then(|l| l.parse::<usize>().ok());
                let (kind, mut css) = if list.is_some() {
                    (if kind.starts_with("ol") { "ol" } else { "ul" }.to_string(), BTreeMap::new())
                } else if kind.starts_with("pre:") {
                    ("pre".into(), BTreeMap::new())
                } else if let Some(l) = level {
                    (format!("h{}", l.min(4)), css)
                } else {
                    ("p".into(), css)
                };
                css.remove("text-align");
                if let Some(l) = css.get("line-height").cloned() {
                    css.insert("line-height".into(), format!("{:.2}", l.parse::<f64>().unwrap_or(0.0) / 1000.0));
                }
                if let Some(c) = css.get("background-color").cloned() {
                    css.insert("background-color".into(), c.trim_start_matches('#').to_uppercase());
                }
                if text.is_empty() && (kind == "p" || kind.starts_with('h')) {
                    continue;
                }
                if kind == "pre" && text.contains("\\end{verbatim}") {
                    out.push(Part::Block { q, kind: "p".into(), css, runs: merged([(text, Key { code: true, ..Default::default() })]) });
                    continue;
                }
                out.push(Part::Block { q, kind, css, runs });
            }
            Node::Table { q, rows, cols, cells } => {
                let one = |bs: Vec<Runs>| {
                    let mut v: Runs = vec![];
                    for b in bs.into_iter().filter(|b| !b.is_empty()) {
                        if !v.is_empty() {
                            v.push((" ".into(), Key::default()));
                        }
                        v.extend(b);
                    }
                    vec![merged(v)]
                };
                let rows = grid(rows, cols, &cells).into_iter().map(|r| r.into_iter().map(|(a, b, c)| (a, b, one(c))).collect()).collect();
                out.push(Part::Table { q, cols, rows });
            }
        }
    }
    out
}

struct Tex<'a> {
    s: &'a [char],
    i: usize,
    out: Vec<Part>,
}
type R<T> = std::result::Result<T, String>;
impl Tex<'_> {
    fn at(&self, t: &str) -> bool {
        t.chars().enumerate().all(|(k, c)| self.s.get(self.i + k) == Some(&c))
    }
    fn eat(&mut self, t: &str) -> bool {
        let y = self.at(t);
        if y {
            self.i += t.chars().count();
        }
        y
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) { Ok(()) } else { Err(format!("expected {t:?} at {:?}", self.rest())) }
    }
    fn rest(&self) -> String {
        self.s[self.i.min(self.s.len())..].iter().take(40).collect()
    }
    /// `{raw}` without nesting
    fn raw_arg(&mut self) -> R<String> {
        self.need("{")?;
        let a = self.i;
        while self.s.get(self.i).is_some_and(|c| *c != '}' && *c != '{' && *c != '\n') {
            self.i += 1;
        }
        let t = self.s[a..self.i].iter().collect();
        self.need("}")?;
        Ok(t)
    }
    fn num_arg(&mut self) -> R<usize> {
        let t = self.raw_arg()?;
        t.parse().map_err(|_| format!("{t:?} is no number"))
    }
    /// Inline text up to an unescaped `}` or `&`, a row end, a line end or the end.
    fn inline(&mut self, key: &Key, css: &mut BTreeMap<String, String>, kind: &mut String) -> R<Runs> {
        let mut out: Runs = vec![];
        while let Some(&c) = self.s.get(self.i) {
            match c {
                '\n' | '}' | '&' => break,
                '%' | '$' | '#' | '_' | '^' | '~' => return Err(format!("{c:?} is not escaped at {:?}", self.rest())),
                '{' => {
                    self.i += 1;
                    if self.eat("\\setstretch") {
                        let v = self.raw_arg()?;
                        css.insert("line-height".into(), v);
                    }
                    out.extend(self.inline(key, css, kind)?);
                    self.need("}")?;
                }
                '\\' => {
                    if self.at("\\\\") {
                        break;
                    }
                    let next = self.s.get(self.i + 1).copied().unwrap_or(' ');
                    if "&%$#_{}".contains(next) {
                        self.i += 2;
                        out.push((next.to_string(), key.clone()));
                        continue;
                    }
                    let a = self.i + 1;
                    let mut b = a;
                    while self.s.get(b).is_some_and(|c| c.is_ascii_alphabetic()) {
                        b += 1;
                    }
                    let name: String = self.s[a..b].iter().collect();
                    self.i = b;
                    let mut k = key.clone();
                    match name.as_str() {
                        "textbackslash" | "textasciitilde" | "textasciicircum" => {
                            self.need("{}")?;
                            out.push((match name.as_str() { "textbackslash" => "\\", "textasciitilde" => "~", _ => "^" }.into(), k));
                            continue;
                        }
                        "texttt" => k.code = true,
                        "textbf" => k.b = true,
                        "textit" => k.i = true,
                        "underline" => k.u = true,
                        "sout" => k.s = true,
                        "href" => {
                            self.need("{")?;
                            let u = self.inline(&Key::default(), &mut BTreeMap::new(), &mut String::new())?;
                            self.need("}")?;
                            k.href = Some(u.into_iter().map(|x| x.0).collect());
                        }
                        "section" => *kind = "h1".into(),
                        "subsection" => *kind = "h2".into(),
                        "subsubsection" => *kind = "h3".into(),
                        "paragraph" => *kind = "h4".into(),
                        "RL" => {
                            css.insert("direction".into(), "rtl".into());
                        }
                        "mbox" => {
                            css.insert("white-space".into(), "pre".into());
                        }
                        "colorbox" => {
                            let html = self.eat("[HTML]");
                            let v = self.raw_arg()?;
                            if html && (v.len() != 6 || !v.chars().all(|c| c.is_ascii_digit() || ('A'..='F').contains(&c))) {
                                return Err(format!("{v:?} is no HTML color"));
                            }
                            css.insert("background-color".into(), v);
                            self.need("{\\parbox{\\linewidth}")?;
                            self.need("{")?;
                            out.extend(self.inline(&k, css, kind)?);
                            self.need("}}")?;
                            continue;
                        }
                        _ => return Err(format!("unexpected command \\{name} at {:?}", self.rest())),
                    }
                    self.need("{")?;
                    out.extend(self.inline(&k, css, kind)?);
                    self.need("}")?;
                }
                _ => {
                    self.i += 1;
                    out.push((c.to_string(), key.clone()));
                }
            }
        }
        Ok(out)
    }
    fn line(&mut self) -> R<(Runs, BTreeMap<String, String>, String)> {
        let (mut css, mut kind) = (BTreeMap::new(), "p".to_string());
        let r = self.inline(&Key::default(), &mut css, &mut kind)?;
        if self.s.get(self.i).is_some_and(|c| *c != '\n') {
            return Err(format!("stray {:?}", self.rest()));
        }
        Ok((merged(r), css, kind))
    }
    fn blocks(&mut self, q: usize) -> R<()> {
        loop {
            while self.eat("\n") {}
            if self.i >= self.s.len() || self.at("\\end{") {
                return Ok(());
            }
            if self.eat("\\begin{quote}\n") {
                self.blocks(q + 1)?;
                self.need("\\end{quote}")?;
            } else if self.at("\\begin{itemize}\n") || self.at("\\begin{enumerate}\n") {
                let env = if self.at("\\begin{itemize}") { "itemize" } else { "enumerate" };
                self.need(&format!("\\begin{{{env}}}\n"))?;
                while self.eat("\\item ") {
                    if self.at("[") {
                        return Err(format!("the text {:?} is taken for a label", self.rest()));
                    }
                    let (runs, css, _) = self.line()?;
                    self.out.push(Part::Block { q, kind: if env == "itemize" { "ul" } else { "ol" }.into(), css, runs });
                    self.need("\n")?;
                }
                self.need(&format!("\\end{{{env}}}"))?;
            } else if self.eat("\\begin{verbatim}\n") {
                let a = self.i;
                while !self.at("\n\\end{verbatim}") && self.i < self.s.len() {
                    if self.at("\\end{verbatim}") {
                        return Err("the text ends the verbatim environment".into());
                    }
                    self.i += 1;
                }
                let t: String = self.s[a..self.i].iter().collect();
                self.need("\n\\end{verbatim}")?;
                self.out.push(Part::Block { q, kind: "pre".into(), css: BTreeMap::new(), runs: merged([(t, Key::default())]) });
            } else if self.eat("\\begin{tabular}") {
                let spec = self.raw_arg()?;
                let cols = spec.matches('l').count();
                self.need("\n\\hline")?;
                let mut rows = vec![];
                while !self.at("\n\\end{tabular}") {
                    self.need("\n")?;
                    let mut row = vec![];
                    loop {
                        let (mut rs, mut cs, mut close) = (1, 1, 0);
                        if self.eat("\\multicolumn") {
                            cs = self.num_arg()?;
                            self.need("{|l|}{")?;
                            close += 1;
                        }
                        if self.eat("\\multirow") {
                            rs = self.num_arg()?;
                            self.need("{*}{")?;
                            close += 1;
                        }
                        let mut runs = self.inline(&Key::default(), &mut BTreeMap::new(), &mut String::new())?;
                        for _ in 0..close {
                            self.need("}")?;
                        }
                        // the space before the separator
                        if close > 0 {
                            self.need(" ")?;
                        } else if runs.last().is_some_and(|x| x.0 == " " && x.1 == Key::default()) {
                            runs.pop();
                        } else {
                            return Err(format!("no space before a cell's end at {:?}", self.rest()));
                        }
                        row.push((rs, cs, vec![merged(runs)]));
                        if self.eat("& ") {
                            continue;
                        }
                        self.need("\\\\")?;
                        self.need("\n\\hline")?;
                        break;
                    }
                    rows.push(row);
                }
                self.need("\n\\end{tabular}")?;
                self.out.push(Part::Table { q, cols, rows });
            } else {
                let (runs, css, kind) = self.line()?;
                if !runs.is_empty() {
                    self.out.push(Part::Block { q, kind, css, runs });
                }
            }
            if self.i < self.s.len() && !self.at("\n") {
                return Err(format!("{:?} follows a block", self.rest()));
            }
        }
    }
}
fn read_latex(t: &str) -> R<Vec<Part>> {
    let s: Vec<char> = t.chars().collect();
    let mut x = Tex { s: &s, i: 0, out: vec![] };
    x.blocks(0)?;
    if x.i < s.len() {
        return Err(format!("left over: {:?}", x.rest()));
    }
    Ok(x.out)
}

/// In a grid read back, an empty cell below a spanning one continues it.
fn mark(parts: &mut [Part]) {
    for p in parts {
        if let Part::Table { cols, rows, .. } = p {
            let mut below = vec![0usize; *cols];
            for row in rows.iter_mut() {
                let mut c = 0;
                for cell in row.iter_mut() {
                    let n = cell.1.max(1);
                    if c < *cols && below[c] > 0 {
                        if cell.2.iter().all(|r| r.is_empty()) && cell.0 <= 1 {
                            cell.0 = 0;
                        }
                        for k in c..(c + n).min(*cols) {
                            below[k] = below[k].saturating_sub(1);
                        }
                    } else {
                        for k in c..(c + n).min(*cols) {
                            below[k] = cell.0.saturating_sub(1);
                        }
                    }
                    c += n;
                }
            }
        }
    }
}

fn same(got: &[Part], want: &[Part], sig: &str, ctx: &str) -> Verdict {
    for k in 0..got.len().max(want.len()) {
        let (g, w) = (got.get(k), want.get(k));
        if g != w {
            let part = match (g, w) {
                (Some(Part::Block { q: a, kind: b, css: c, runs: d }), Some(Part::Block { q: e, kind: f, css: h, runs: i })) => {
                    let t = |r: &Runs| r.iter().map(|x| x.0.as_str()).collect::<String>();
                    if t(d) != t(i) { "text" } else if a != e { "quote" } else if b != f { "kind" } else if c != h { "wrapper" } else { "format" }
                }
                (Some(Part::Table { .. }), Some(Part::Table { .. })) => "table",
                _ => "structure",
            };
            return viol(&format!("{sig}-{part}"), format!("{ctx}: part {k} reads {g:?}, the document says {w:?}"));
        }
    }
    Ok(())
}

fn run_exports(case: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    for o in &case.ops {
        env.apply(o);
    }
    let doc = &env.doc;
    let bs = crate::observe::flat_blocks(&doc.snapshot_flow());
    if bs.iter().any(|b| b.text.contains(['\n', '\r'])) {
        return Ok(());
    }
    let before = crate::observe::store_of(doc);
    let tex = doc.to_latex("article", false).or_else(|e| viol("refused", format!("to_latex: {e}")))?;
    let want = want_latex(doc);
    let mut got = read_latex(&tex).or_else(|e| viol("latex-syntax", format!("the LaTeX export cannot be read: {e}\n{tex:?}")))?;
    mark(&mut got);
    same(&got, &want, "latex", &format!("LaTeX {tex:?}"))?;
    obs.hit("latex");
    for p in &want {
        match p {
            Part::Block { q, kind, css, runs } => {
                if *q > 0 {
                    obs.hit("quotes");
                }
                match kind.as_str() {
                    "ol" | "ul" => obs.hit("items"),
                    "pre" => obs.hit("verbatim"),
                    "p" => (),
                    _ => obs.hit("headings"),
                }
                if !css.is_empty() {
                    obs.hit("wrappers");
                }
                for r in runs {
                    if r.0.contains(['\\', '{', '}', '&', '%', '$', '#', '_', '~', '^']) {
                        obs.hit("escapes");
                    }
                    if r.1.href.is_some() {
                        obs.hit("links");
                    }
                }
            }
            Part::Table { rows, .. } => {
                obs.hit("tables");
                if rows.iter().flatten().any(|c| c.0 > 1 || c.1 > 1) {
                    obs.hit("merged_cells");
                }
            }
        }
    }
    if bs.len() > 1 {
        obs.distinct(&tex);
    }
    let full = doc.to_latex("book", true).or_else(|e| viol("refused", format!("to_latex: {e}")))?;
    let (head, rest) = full.split_once("\\begin{document}").unwrap_or(("", &full));
    ensure!(head.starts_with("\\documentclass{book}") && rest.trim_end().strip_suffix("\\end{document}").map(|b| b.trim_matches('\n')) == Some(tex.trim_matches('\n')), "latex-preamble", "with preamble the export reads {full:?}, without {tex:?}");
    for (cmd, pkg) in [("\\href{", "hyperref"), ("\\sout{", "ulem"), ("\\setstretch{", "setspace"), ("\\colorbox", "xcolor"), ("\\multirow{", "multirow")] {
        ensure!(!tex.contains(cmd) || head.contains(&format!("{{{pkg}}}")), "latex-package", "the export uses {cmd} without the package {pkg}");
    }
    ensure!(doc.to_latex("", true).ok().is_some_and(|t| t.starts_with("\\documentclass{article}")), "latex-preamble", "an empty document class does not stand for article");
    if case.nums.first() == Some(&1) {
        docx(doc, obs)?;
    }
    ensure!(crate::observe::store_of(doc) == before, "changed", "exporting changed the document");
    Ok(())
}

// ── DOCX ─────────────────────────────────────────────────────────────

#[derive(Debug, Clone, Default)]
struct Elem {
    name: String,
    attrs: BTreeMap<String, String>,
    kids: Vec<Elem>,
    text: String,
}
impl Elem {
    fn kid(&self, n: &str) -> Option<&Elem> {
        self.kids.iter().find(|k| k.name == n)
    }
    fn val(&self) -> Option<&str> {
        self.attrs.get("w:val").map(|s| s.as_str())
    }
}
fn xml(t: &str) -> R<Elem> {
    if let Some(c) = t.chars().find(|c| *c < ' ' && !"\t\n\r".contains(*c) || *c == '\u{fffe}' || *c == '\u{ffff}') {
        return Err(format!("the character {c:?} is not allowed in XML"));
    }
    let un = |s: &str| super::markup::unescape(s);
    let mut stack = vec![Elem::default()];
    let mut rest = t;
    while !rest.is_empty() {
        let Some(p) = rest.find('<') else {
            stack.last_mut().ok_or("no root")?.text += &un(rest)?;
            break;
        };
        let top = stack.last_mut().ok_or("no root")?;
        if rest[..p].contains("]]>") {
            return Err("]]> in text".into());
        }
        top.text += &un(&rest[..p])?;
        let e = rest[p..].find('>').ok_or("a tag without end")? + p;
        let tag = &rest[p + 1..e];
        rest = &rest[e + 1..];
        if tag.starts_with('?') || tag.starts_with('!') {
            continue;
        }
        if let Some(n) = tag.strip_prefix('/') {
            let x = stack.pop().ok_or("an end too many")?;
            if x.name != n.trim() {
                return Err(format!("</{n}> ends <{}>", x.name));
            }
            stack.last_mut().ok_or("an end too many")?.kids.push(x);
            continue;
        }
        let (tag, closed) = match tag.strip_suffix('/') {
            Some(t) => (t, true),
            None => (tag, false),
        };
        let (name, mut at) = tag.split_once(char::is_whitespace).unwrap_or((tag, ""));
        let mut el = Elem { name: name.into(), ..Default::default() };
        loop {
            at = at.trim_start();
            if at.is_empty() {
                break;
            }
            let (k, r) = at.split_once("=\"").ok_or(format!("attribute {at:?}"))?;
            let (v, r) = r.split_once('"').ok_or(format!("attribute {at:?}"))?;
            el.attrs.insert(k.trim().into(), un(v)?);
            at = r;
        }
        if closed {
            stack.last_mut().ok_or("no root")?.kids.push(el);
        } else {
            stack.push(el);
        }
    }
    if stack.len() != 1 {
        return Err(format!("{} elements are not ended", stack.len() - 1));
    }
    stack.pop().unwrap().kids.pop().ok_or("no root".into())
}
fn para(p: &Elem) -> R<(String, BTreeMap<String, String>, Runs)> {
    let mut kind = "p".to_string();
    let mut css = BTreeMap::new();
    let mut runs = vec![];
    for k in &p.kids {
        match k.name.as_str() {
            "w:pPr" => {
                for x in &k.kids {
                    match x.name.as_str() {
                        "w:pStyle" => kind = x.val().unwrap_or("").replace("Heading", "h"),
                        "w:keepLines" => {
                            css.insert("white-space".into(), "pre".into());
                        }
                        "w:spacing" => {
                            if let Some(l) = x.attrs.get("w:line") {
                                css.insert("line-height".into(), l.clone());
                            }
                        }
                        _ => (),
                    }
                }
            }
            "w:r" => {
                let mut key = Key::default();
                for x in &k.kids {
                    match x.name.as_str() {
                        "w:rPr" => {
                            for f in &x.kids {
                                match f.name.as_str() {
                                    "w:b" => key.b = true,
                                    "w:i" => key.i = true,
                                    "w:u" => key.u = true,
                                    "w:strike" => key.s = true,
                                    "w:rFonts" => key.code = true,
                                    _ => (),
                                }
                            }
                        }
                        "w:t" => runs.push((x.text.clone(), key.clone())),
                        n => return Err(format!("a run with {n}")),
                    }
                }
            }
            n => return Err(format!("a paragraph with {n}")),
        }
    }
    Ok((kind, css, merged(runs)))
}
/// What a text keeps in DOCX: no links, and no characters that XML cannot hold.
fn carried(r: &Runs) -> Runs {
    merged(r.iter().map(|(t, k)| (t.chars().filter(|c| *c >= ' ' || *c == '\t').collect(), Key { href: None, ..k.clone() })))
}
fn docx(doc: &TextDocument, obs: &mut Obs) -> Verdict {
    let dir = super::longops::scratch();
    let path = dir.0.join("x.docx").to_string_lossy().to_string();
    let res = match doc.to_docx(&path) {
        Ok(op) => quick_wait(op).or_else(|e| viol("docx-refused", format!("to_docx: {e}")))?,
        Err(e) => return viol("docx-refused", format!("to_docx: {e}")),
    };
    let bytes = std::fs::read(&path).or_else(|e| viol("docx-file", format!("{e}")))?;
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(bytes)).or_else(|e| viol("docx-file", format!("no archive: {e}")))?;
    let mut t = String::new();
    {
        let mut f = z.by_name("word/document.xml").or_else(|e| viol("docx-file", format!("{e}")))?;
        std::io::Read::read_to_string(&mut f, &mut t).or_else(|e| viol("docx-file", format!("{e}")))?;
    }
    let root = xml(&t).or_else(|e| viol("docx-xml", format!("the DOCX document is not well-formed: {e}")))?;
    let Some(body) = root.kid("w:body") else { return viol("docx-xml", "no body") };
    let mut got = vec![];
    for k in &body.kids {
        match k.name.as_str() {
            "w:p" => {
                let (kind, css, runs) = para(k).or_else(|e| viol("docx-structure", e))?;
                got.push(Part::Block { q: 0, kind, css, runs });
            }
            "w:tbl" => {
                let mut rows = vec![];
                for r in k.kids.iter().filter(|r| r.name == "w:tr") {
                    let mut row = vec![];
                    for c in r.kids.iter().filter(|c| c.name == "w:tc") {
                        let p = c.kid("w:tcPr");
                        let span = p.and_then(|p| p.kid("w:gridSpan")).and_then(|s| s.val()?.parse().ok()).unwrap_or(1);
                        let merge = p.and_then(|p| p.kid("w:vMerge")).map(|m| m.val().unwrap_or("continue").to_string());
                        let mut runs = vec![];
                        for x in c.kids.iter().filter(|x| x.name == "w:p") {
                            runs.push(para(x).or_else(|e| viol("docx-structure", e))?.2);
                        }
                        ensure!(!runs.is_empty(), "docx-structure", "a cell without a paragraph");
                        row.push((match merge.as_deref() { None => 1, Some("restart") => 2, _ => 0 }, span, runs));
                    }
                    rows.push(row);
                }
                let cols = k.kid("w:tblGrid").map_or(0, |g| g.kids.len());
                got.push(Part::Table { q: 0, cols, rows });
            }
            _ => (),
        }
    }
    let mut want = vec![];
    for (n, _) in read(doc) {
        match n {
            Node::Block { kind, css, runs, .. } => {
                let pre = kind.starts_with("pre:");
                let kind = if kind.len() == 2 && kind.starts_with('h') { kind } else { "p".into() };
                want.push((Part::Block { q: 0, kind, css, runs: carried(&runs) }, pre));
            }
            Node::Table { rows, cols, cells, .. } => {
                let rows: Vec<Vec<(usize, usize, Vec<Runs>)>> = grid(rows, cols, &cells)
                    .into_iter()
                    .map(|r| {
                        r.into_iter()
                            .map(|(a, b, c)| (a.min(2), b, if c.is_empty() { vec![vec![]] } else { c.iter().map(carried).collect() }))
                            .collect()
                    })
                    .collect();
                obs.hit("docx_tables");
                if rows.iter().flatten().any(|c| c.0 > 1 || c.1 > 1) {
                    obs.hit("docx_merged");
                }
                want.push((Part::Table { q: 0, cols, rows }, false));
            }
        }
    }
    ensure!(res.paragraph_count == want.len(), "docx-count", "the export reports {} paragraphs, the document has {}", res.paragraph_count, want.len());
    ensure!(got.len() == want.len(), "docx-structure", "the DOCX file holds {} paragraphs and tables, the document {}", got.len(), want.len());
    let blocks: std::collections::VecDeque<_> = doc.blocks().into_iter().filter(|b| b.table_cell().is_none()).map(|b| b.block_format()).collect();
    let mut fmts = blocks;
    for (k, (g, (w, pre))) in got.iter_mut().zip(&mut want).enumerate() {
        match (&mut *g, &mut *w) {
            (Part::Block { kind: gk, css: gc, runs: gr, .. }, Part::Block { kind: wk, css: wc, runs: wr, .. }) => {
                let f = fmts.pop_front().unwrap_or_default();
                *wk = f.heading_level.map_or("p".into(), |h| format!("h{}", h.clamp(1, 6)));
                wc.clear();
                if let Some(l) = f.line_height {
                    wc.insert("line-height".into(), format!("{}", (l as f64 * 240.0) as i32));
                }
                if f.non_breakable_lines == Some(true) {
                    wc.insert("white-space".into(), "pre".into());
                }
                if *pre {
                    let t = |r: &Runs| merged([(r.iter().map(|x| x.0.as_str()).collect::<String>(), Key::default())]);
                    *gr = t(gr);
                    *wr = t(wr);
                }
                let _ = (gk, gc);
            }
            (Part::Table { cols, .. }, Part::Table { cols: wc, .. }) => *cols = *wc,
            _ => (),
        }
        ensure!(g == w, "docx", "part {k} of the DOCX file reads {g:?}, the document says {w:?}");
    }
    obs.hit("docx");
    Ok(())
}
