mod r#gen;
mod integrity;
mod observe;
mod ops;
mod props;
mod rng;
mod runner;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let root = std::env::var("VMON_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });
    let tier = |s: Option<&str>| if s == Some("thorough") { runner::Tier::Thorough } else { runner::Tier::Quick };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let t = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok());
            runner::check(find(&a[2]), seed, tier(t.as_deref()), &root)
        }
        Some("worker") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            runner::worker(find(&a[2]), n(3), tier(Some(&a[4])), n(5), n(6), n(7), n(8), a[9].parse().unwrap(), &root);
            0
        }
        Some("shrink") => {
            runner::shrink_main(find(&a[2]), a[3].parse().unwrap());
            0
        }
        Some("replay") => runner::replay(&props, &a[2]),
        Some("probe") => {
            // run a list of operations and print what an observer sees (a debugging aid)
            let v: Vec<ops::Op> = serde_json::from_str(&a[2]).expect("ops json");
            let mut env = ops::Env::new();
            for op in &v {
                let out = env.apply(op);
                let cs: Vec<_> = env.cursors.iter().map(|c| (c.position(), c.anchor())).collect();
                println!("{op:?} => {out:?} cursors {cs:?}");
            }
            let w = observe::view(&env.doc);
            println!("text {:?}\nmd {:?}\nhtml {}\nstats {:?}", w.text, w.markdown, w.html, w.stats);
            if a.len() > 3 {
                println!("{}", serde_json::to_string_pretty(&observe::store_of(&env.doc).json()).unwrap());
            }
            0
        }
        Some("list") => {
            props.iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => {
            eprintln!("usage: vmon check ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
