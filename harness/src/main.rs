mod engine;
mod util;
mod props;

use engine::*;
use std::path::PathBuf;

#[global_allocator]
static ALLOC: util::alloc::Counting = util::alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let run_dir = std::env::var("PBT_RUN_DIR").map(PathBuf::from).unwrap_or_else(|_| {
        std::env::temp_dir().join(format!("pbt-run-{}", std::process::id()))
    });
    let own_dir = std::env::var("PBT_RUN_DIR").is_err();
    std::fs::create_dir_all(&run_dir).unwrap();
    let mut env = Env {
        verif,
        seed,
        thorough,
        run_dir: run_dir.clone(),
    };
    let props = props::all();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {id}");
            std::process::exit(2)
        })
    };
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => run_parent(find(&args[1]), &env),
        Some("child") => run_child(find(&args[1]), &env),
        Some("fuzz") => fuzz::search(find(&args[1]), &env, args[2].parse().unwrap()),
        Some("fuzzer") => {
            let n = |i: usize| args[i].parse().unwrap();
            fuzz::worker(find(&args[1]), &env, &args[2], n(3), n(4), args[5].parse().unwrap())
        }
        Some("one") => {
            let choices = args.get(5).map(|f| {
                serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap()
            });
            run_one(
                find(&args[1]),
                &env,
                &args[2],
                args[3].parse().unwrap(),
                choices,
                args.get(4).filter(|s| !s.is_empty()).map(|s| PathBuf::from(s)).as_deref(),
            )
        }
        Some("replay") => replay(&props, &mut env, &PathBuf::from(&args[1])),
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: pbt check|replay|list ...");
            2
        }
    };
    if own_dir {
        let _ = std::fs::remove_dir_all(&run_dir);
    }
    std::process::exit(code);
}
