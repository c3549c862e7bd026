#![allow(dead_code)]
mod alloc;
mod crypto;
mod glue;
mod nz;
mod props;
mod rng;
mod runner;
mod scenario;
mod sched;
mod seams;
mod streams;
mod wire;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| -> &runner::Prop {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {:?}", id);
            std::process::exit(2)
        })
    };
    if let Err(e) = crypto::selftest() {
        eprintln!("internal error: {}", e);
        std::process::exit(2);
    }
    runner::install_hook();
    let code = match arg(1) {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            runner::check(find(arg(2)), seed, &tier, &runner::verif_dir())
        }
        "worker" => {
            seams::warm_up();
            let n = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
            runner::worker(
                find(arg(2)),
                n(3),
                arg(4) == "thorough",
                n(5),
                n(6),
                n(7),
                arg(8).parse().unwrap_or(60.0),
                std::path::Path::new(arg(9)),
            )
        }
        "exec" => {
            seams::warm_up();
            runner::exec_file(&props, std::path::Path::new(arg(2)), false)
        }
        "replay" => {
            seams::warm_up();
            runner::exec_file(&props, std::path::Path::new(arg(2)), true)
        }
        "keys" => {
            props::c15::child(arg(2).parse().unwrap_or(0), arg(3).parse().unwrap_or(0));
            0
        }
        "digests" => {
            seams::warm_up();
            let n = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
            runner::digests(find(arg(2)), n(3), arg(4) == "thorough", n(5), n(6));
            0
        }
        _ => {
            eprintln!("usage: vsim check ID | replay FILE | digests ID SEED TIER FROM TO");
            2
        }
    };
    std::process::exit(code);
}
