#[macro_use]
mod core;
mod dut;
mod rawview;
mod emit;
mod engine;
mod gen;
mod io;
mod json;
mod model;
mod simserde;
mod text;
mod views;
mod props;
mod sched;
mod wire;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let (Some(plan), Some("--include_imports")) = (std::env::var_os("PSIM_PROTOC_PLAN"), a.get(1).map(String::as_str)) {
        std::process::exit(props::builder::fake_protoc(std::path::Path::new(&plan), &a[1..]));
    }
    let arg = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let prop = |id: &str| -> &'static engine::Prop {
        props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
            println!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let workers = std::env::var("PSIM_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()) as u64);
    let code = match arg(1) {
        "check" => {
            let thorough = arg(3) == "thorough";
            let runs = std::env::var("PSIM_RUNS").ok().and_then(|s| s.parse().ok());
            engine::check(prop(arg(2)), thorough, seed, runs, workers)
        }
        "worker" => {
            engine::worker(prop(arg(2)), num(3), arg(4) == "thorough", num(5), num(6), num(7), num(8));
            0
        }
        "serve" => {
            engine::serve(prop(arg(2)), arg(3) == "thorough", num(4));
            0
        }
        "record" => {
            engine::record(prop(arg(2)), arg(3) == "thorough", num(4), num(5), a.get(6).cloned());
            0
        }
        "replay" => engine::replay(arg(2), props::PROPS),
        "selftest" => engine::selftest(prop(arg(2)), seed, std::env::var("PSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(2000)),
        "list" => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: psim check|replay|selftest|list ...");
            2
        }
    };
    std::process::exit(code);
}
