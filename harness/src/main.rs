mod driver;
mod mem;
mod obs;
mod rng;
mod dom;
mod gen;
mod logger;
mod names;
mod snap;
mod xml;
mod props;

use std::path::PathBuf;

use driver::Tier;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
    logger::install();
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| props::all().into_iter().find(|p| p.id == id);
    let code = match mode {
        "run" | "worker" | "case" | "plain" => match args.get(2).and_then(|id| find(id)) {
            Some(p) => match mode {
                "worker" => driver::worker(&p, &args[3..]),
                "plain" => driver::plain(&p, &args[3..]),
                "case" => driver::single(&p, &args[3..]),
                _ => {
                    let tier = if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
                    let seed: u64 = args[4].parse().unwrap_or(1);
                    let extra = args.get(6).cloned().unwrap_or_default();
                    driver::run(&p, tier, seed, &PathBuf::from(&args[5]), &extra)
                }
            },
            None => {
                eprintln!("unknown property");
                2
            }
        },
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mon run ID TIER SEED VERIF_DIR | mon case ID TIER SEED IDX | mon list");
            2
        }
    };
    std::process::exit(code);
}
