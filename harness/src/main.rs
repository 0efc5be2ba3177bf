mod conc;
mod core;
mod gen;
mod model;
mod plants;
mod props;
mod rng;
mod stats;
mod svgx;
mod turtle;

use crate::core::{Opts, Tier};

#[cfg(not(miri))]
#[global_allocator]
static HEAP: conc::Perturbing = conc::Perturbing;

fn main() {
    core::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let prop = args.first().cloned().unwrap_or_default();
    if prop == "DRAWS" {
        let d = props::c04::draws(256).expect("draws");
        print!("{}", d.iter().map(|x| x.to_string()).collect::<String>());
        return;
    }
    if prop == "NOTHING" {
        return;
    }
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let num = |name: &str, default: u64| get(name).map_or(default, |v| v.parse().expect("a number"));
    if prop == "MIRI" {
        // Every Miri seed gives another hash state, hence another case.
        use std::hash::{BuildHasher, Hasher};
        let salt = std::collections::hash_map::RandomState::new().build_hasher().finish();
        let mut rng = rng::Rng::new(num("--seed", 1), &args[1], salt);
        match core::lib("the scenario", || props::miri(&args[1], &mut rng)).unwrap_or_else(Err) {
            Ok(o) => println!("OBS {o}"),
            Err(w) => {
                println!("MON-VIOLATION {w}");
                std::process::exit(1);
            }
        }
        return;
    }
    let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let Some((case, quick, thorough)) = props::cases(&prop) else {
        eprintln!("unknown property {prop:?}");
        std::process::exit(3);
    };
    let default = if tier == Tier::Quick { quick } else { thorough };
    let o = Opts {
        seed: num("--seed", 1),
        tier,
        shard: num("--shard", 0),
        nshards: num("--nshards", 1),
        cases: num("--cases", default),
        out: get("--out").unwrap_or_else(|| format!("/tmp/mon-{prop}.json")),
        progress: get("--progress").unwrap_or_else(|| format!("/tmp/mon-{prop}.progress")),
        only: get("--only").map(|v| v.parse().expect("a number")),
        budget: num("--budget", 100_000),
        prop,
    };
    std::process::exit(core::run(&o, &case));
}
