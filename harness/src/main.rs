#![allow(dead_code)]
mod chain;
mod engine;
mod dd;
mod exact;
mod gen;
mod pools;
mod props;
mod world;

fn main() {
    // contract panics are traps: expected, handled and counted by the simulated chain
    let verbose = std::env::var("VP_PANICS").is_ok();
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if verbose || std::thread::current().name() == Some("main") {
            hook(i)
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("replay") => engine::replay(&props, &args[2]),
        Some("check") => {
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            let thorough = args.get(3).map(|s| s == "thorough").unwrap_or(false);
            let scale = std::env::var("VP_SCALE")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1.0);
            match props.iter().find(|p| p.id == args[2]) {
                Some(p) => engine::check(p, thorough, seed, scale),
                None => {
                    eprintln!("unknown property {}", args[2]);
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: vp list | check <id> [quick|thorough] | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
