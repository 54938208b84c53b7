//! Structural integrity after every operation.
use crate::r#gen::{self, Mix};
use crate::integrity;
use crate::observe::*;
use crate::ops::*;
use crate::rng::Rng;
use crate::runner::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P05",
        quick: 120000,
        thorough: 1500000,
        level: "exploration",
        rule: "Each case is a random history of 2-24 operations of every kind (imports, edits, tables, lists, frames, paste, \
                   markup, replace, undo, redo). After each operation that changed the store the whole store is walked: \
                   reachability, back references, table grids, text and format coverage, rope and offset index, positions \
                   and counters. Non-trivial: at least one changed state; distinct: by operation list.",
        assumptions: &["images, tables nested in cells and frames in cells are outside the workload (see known_findings.jsonl)"],
        must_observe: &["states_checked"],
        generate: |r, i, _| {
            let mut m = Mix::all();
            m.group = 0;
            match i % 4 {
                0 => {
                    m.table = 0;
                    m.frame = 0;
                    m.tablefmt = 0;
                }
                1 => m.frame = 0,
                _ => {}
            }
            super::undo::region(&mut m);
            let n = super::undo::length(r);
            let mut ops = super::undo::start(r);
            ops.extend(r#gen::ops(r, &m, n));
            Case::ops("integrity", ops)
        },
        run,
        workers: 8,
        repeat_on_shrink: 1,
    }]
}
fn run(c: &Case, obs: &mut Obs) -> Verdict {
    let mut env = Env::new();
    let mut prev = store_of(&env.doc);
    for op in &c.ops {
        env.apply(op);
        let s = store_of(&env.doc);
        if s == prev {
            continue;
        }
        obs.hit("states_checked");
        if let Err((rule, d)) = integrity::check(&s) {
            return viol(format!("{}:{}", rule, op.name()), format!("after {op:?}: {d}"));
        }
        prev = s;
    }
    obs.distinct(&format!("{:?}", c.ops));
    Ok(())
}
