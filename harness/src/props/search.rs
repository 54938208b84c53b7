//! Search and replace against a naive scan of the document's characters.

use crate::ensure;
use crate::r#gen::{self, Mix};
use crate::observe;
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;
use text_document::*;
use unicode_segmentation::UnicodeSegmentation;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P12",
        quick: 40000,
        thorough: 1500000,
        level: "exploration",
        rule: "Each case builds a document (plain, Markdown or HTML, tables and quotes included), edits it, then runs literal, case-insensitive, \
               whole-word and regular-expression searches for text cut out of the document, mutated or foreign. All matches, the next match \
               forwards and backwards from random positions, and the text, characters' formats and count after replacing one or all are compared \
               with a naive scan over the characters in reading order. Non-trivial: some search with a match; distinct: by document and query.",
        assumptions: &[
            "matches may span a block boundary when searching; replacing skips those",
            "a whole word begins and ends at a Unicode word boundary or at the ends of the text; regular expressions follow the regex crate, without anchors; matches of nothing are not replaced",
            "case-insensitive queries avoid characters whose lower case is ambiguous (dotted capital I, sigma)",
        ],
        must_observe: &["matches_compared", "case_insensitive_hits", "whole_word_hits", "unicode_word_hits", "regex_hits", "regex_word_hits", "backward_hits", "replacements", "overlapping_queries", "table_documents"],
        generate: gen_search,
        run: run_search,
        workers: 8,
        repeat_on_shrink: 1,
    }]
}

fn gen_search(r: &mut Rng, i: u64, _t: Tier) -> Case {
    let ascii = i % 3 == 0;
    let mut ops = if ascii {
        let n = r.range(1, 4);
        let pool = ["aa", "aaa", "abab", "foo", "Foo", "foofoo", "bar", "a", "ab"];
        let t: Vec<String> = (0..n)
            .map(|_| {
                let k = r.below(6);
                (0..k).map(|_| *r.pick(&pool)).collect::<Vec<_>>().join(if r.chance(1, 4) { "" } else { " " })
            })
            .collect();
        vec![Op::SetPlain { t: t.join("\n") }]
    } else {
        super::undo::start(r)
    };
    let m = if ascii { Mix { text: 4, block: 2, delete: 3, format: 2, cursor: 4, undo: 1, ..Mix::none() } } else { super::undo::general_mix(i) };
    let n = r.range(0, 8);
    let mut o2 = r#gen::ops(r, &m, n);
    if ascii {
        for o in &mut o2 {
            if let Op::Text { t, .. } = o {
                *t = (*r.pick(&["a", "b", " ", "foo", "ab", "A"])).into();
            }
        }
        o2.retain(|o| !matches!(o, Op::FText { .. } | Op::PasteText { .. }));
    }
    ops.extend(o2);
    let foreign = r#gen::word(r);
    let rep = match r.below(5) {
        0 => String::new(),
        1 => "a".into(),
        2 => r#gen::word(r),
        3 => "$1\\n".into(),
        _ => r#gen::line(r, 2),
    };
    Case { kind: if ascii { "ascii" } else { "any" }.into(), ops, texts: vec![foreign, rep], nums: vec![r.next()] }
}

fn fold(c: char) -> String {
    c.to_lowercase().collect()
}
fn naive(t: &[char], q: &[char], ci: bool) -> Vec<usize> {
    if q.is_empty() || q.len() > t.len() {
        return vec![];
    }
    (0..=t.len() - q.len()).filter(|&i| (0..q.len()).all(|k| t[i + k] == q[k] || (ci && fold(t[i + k]) == fold(q[k])))).collect()
}

fn run_search(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    for op in &c.ops {
        env.apply(op);
    }
    let doc = &env.doc;
    let mut rng = Rng::new(c.nums.first().copied().unwrap_or(1));
    let foreign = c.texts.first().cloned().unwrap_or_default();
    let rep = c.texts.get(1).cloned().unwrap_or_default();
    let e = |what: &str, e: anyhow::Error| Viol { sig: format!("refused:{what}"), msg: format!("{what} failed: {e:#}") };
    for round in 0..4 {
        let bs = observe::flat_blocks(&doc.snapshot_flow());
        let text: Vec<char> = bs.iter().map(|b| b.text.as_str()).collect::<Vec<_>>().join("\n").chars().collect();
        if !tables(doc).is_empty() {
            obs.hit("table_documents");
        }
        // a query
        let mut q: Vec<char> = if rng.chance(1, 8) || text.is_empty() {
            foreign.chars().collect()
        } else {
            let a = rng.below(text.len());
            let n = rng.range(1, 5).min(text.len() - a);
            text[a..a + n].to_vec()
        };
        let cs = rng.chance(1, 2);
        if !cs {
            q.retain(|c| !"iIİıΣσς\u{307}".contains(*c) && fold(*c).chars().count() == 1);
            for c in &mut q {
                if rng.chance(1, 2) {
                    let u: Vec<char> = c.to_uppercase().collect();
                    if u.len() == 1 && fold(u[0]) == fold(*c) {
                        *c = u[0];
                    }
                }
            }
        }
        let ww = rng.chance(1, 3);
        let re = rng.chance(1, 4);
        let mut qs: String = q.iter().collect();
        if re {
            let lit = regex::escape(&qs);
            qs = match rng.below(14) {
                0..=2 => lit,
                3 => format!("{lit}+"),
                4 => format!("{lit}.{{1,2}}"),
                5 => format!("{lit}|{}", regex::escape(&foreign)),
                6 => "\\w+".into(),
                7 => "\\b\\w".into(),
                8 => "[a-f]+".into(),
                9 => "\\s+".into(),
                10 => ".".into(),
                11 => "(\\p{L})[^\\s]*".into(),
                12 => format!("{lit}?"),
                _ => format!("[{}a]{{2}}", q.iter().filter(|c| c.is_alphanumeric()).collect::<String>()),
            };
        }
        let opts = FindOptions { case_sensitive: cs, whole_word: ww, use_regex: re, search_backward: false };
        let back = FindOptions { search_backward: true, ..opts.clone() };
        let whole: String = text.iter().collect();
        // every occurrence (position, length)
        let base: Vec<(usize, usize)> = if re && !qs.is_empty() {
            let Ok(x) = regex::RegexBuilder::new(&qs).case_insensitive(!cs).build() else { continue };
            let at = |b: usize| whole[..b].chars().count();
            x.find_iter(&whole).map(|m| (at(m.start()), m.as_str().chars().count())).collect()
        } else {
            naive(&text, &q, !cs).into_iter().map(|i| (i, q.len())).collect()
        };
        let bounds: std::collections::HashSet<usize> = {
            let mut v: std::collections::HashSet<usize> = [0, text.len()].into();
            for (b, w) in whole.unicode_word_indices() {
                let i = whole[..b].chars().count();
                v.insert(i);
                v.insert(i + w.chars().count());
            }
            v
        };
        let want: Vec<(usize, usize)> = base.iter().copied().filter(|&(i, n)| !ww || (bounds.contains(&i) && bounds.contains(&(i + n)))).collect();
        let got: Vec<(usize, usize)> = doc.find_all(&qs, &opts).map_err(|x| e("find_all", x))?.iter().map(|m| (m.position, m.length)).collect();
        for m in &got {
            ensure!(want.contains(m), format!("not-a-match:{}", tag(&opts)), "{qs:?} {opts:?}: {m:?} is no match in {whole:?}");
        }
        ensure!(got.windows(2).all(|w| w[0].0 + w[0].1 <= w[1].0 && w[0].0 < w[1].0), "overlap", "{qs:?}: matches {got:?} overlap or are not in order");
        // every occurrence is found, or overlaps one that is
        for &(i, n) in &want {
            let covered = got.contains(&(i, n)) || got.iter().any(|&(g, l)| g < i && i < g + l);
            ensure!(covered, format!("missed:{}", tag(&opts)), "{qs:?} {opts:?}: occurrence at {i} not found (found {got:?}) in {whole:?}");
        }
        obs.add("matches_compared", got.len() as u64);
        if !got.is_empty() {
            if !cs {
                obs.hit("case_insensitive_hits");
            }
            if ww {
                obs.hit("whole_word_hits");
            }
            if ww && got.iter().any(|&(i, n)| text[i..i + n].iter().any(|c| !c.is_ascii())) {
                obs.hit("unicode_word_hits");
            }
            if re {
                obs.hit("regex_hits");
            }
            if re && ww {
                obs.hit("regex_word_hits");
            }
            obs.distinct(&(text.clone(), qs.clone()));
        }
        if want.windows(2).any(|w| w[1].0 < w[0].0 + w[0].1) {
            obs.hit("overlapping_queries");
        }
        for _ in 0..2 {
            let from = rng.below(text.len() + 2);
            // forward: the first occurrence at or behind `from`; backward: the last one before it
            let f = doc.find(&qs, from, &opts).map_err(|x| e("find", x))?.map(|m| (m.position, m.length));
            let b = doc.find(&qs, from, &back).map_err(|x| e("find", x))?.map(|m| (m.position, m.length));
            let fw = want.iter().find(|&&(i, _)| i >= from).copied();
            let bw = want.iter().rev().find(|&&(i, _)| i < from).copied();
            ensure!(f == fw, "find", "{qs:?} {opts:?} from {from}: {f:?}, expected {fw:?} of {got:?}");
            ensure!(b == bw, "find-backward", "{qs:?} {opts:?} back from {from}: {b:?}, expected {bw:?} of {got:?}");
            if b.is_some() {
                obs.hit("backward_hits");
            }
        }
        // replace
        if round < 1 || qs.is_empty() || got.iter().any(|m| m.1 == 0) {
            continue;
        }
        let every = rng.chance(2, 3);
        let (m, bf) = super::format::chars(doc)?;
        let seps: Vec<usize> = {
            let mut p = 0;
            bs.iter().map(|b| {
                p += b.length + 1;
                p - 1
            }).collect()
        };
        let crosses = |i: usize, n: usize| seps.iter().any(|s| i <= *s && *s < i + n);
        let mut spots: Vec<(usize, usize)> = got.iter().copied().filter(|&(g, n)| !crosses(g, n)).collect();
        if !every {
            spots.truncate(1);
        }
        let n = doc.replace_text(&qs, &rep, every, &opts).map_err(|x| e("replace_text", x))?;
        let rc: Vec<char> = rep.chars().collect();
        let mut exp: Vec<(char, Option<TextFormat>)> = vec![];
        let mut i = 0;
        while i < m.len() {
            if let Some(&(_, n)) = spots.iter().find(|x| x.0 == i) {
                exp.extend(rc.iter().map(|c| (*c, None)));
                i += n;
            } else {
                exp.push((m[i].c, Some(m[i].f.clone())));
                i += 1;
            }
        }
        let (after, abf) = super::format::chars(doc)?;
        let show = |v: &[char]| v.iter().collect::<String>();
        let at: Vec<char> = after.iter().map(|c| c.c).collect();
        let et: Vec<char> = exp.iter().map(|c| c.0).collect();
        ensure!(at == et, format!("replaced-text:{}", tag(&opts)), "replacing {qs:?} by {rep:?} (all: {every}) in {:?} gives {:?}, expected {:?}", show(&text), show(&at), show(&et));
        ensure!(n == spots.len(), "replaced-count", "replacing {qs:?} reports {n}, {} places were replaced", spots.len());
        for (x, (_, f)) in after.iter().zip(&exp) {
            if let Some(f) = f {
                ensure!(x.f == *f, "replaced-format", "replacing {qs:?} by {rep:?}: {:?} went from {f:?} to {:?}", x.c, x.f);
            }
        }
        ensure!(abf == bf, "replaced-blocks", "replacing {qs:?} by {rep:?} changed a block format");
        obs.add("replacements", n as u64);
    }
    Ok(())
}
fn tag(o: &FindOptions) -> &'static str {
    if o.use_regex {
        "regex"
    } else if o.whole_word {
        "word"
    } else if o.case_sensitive {
        "literal"
    } else {
        "nocase"
    }
}
