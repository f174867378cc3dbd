//! Deterministic simulation with fault injection for the sgp4 crate.
mod bytes;
mod child;
mod hooks;
mod omm;
mod ops;
mod plan;
mod props;
mod rng;
mod sat;
mod sched;
mod stats;
mod store;
mod supervisor;
mod tle;
mod worker;

fn main() {
    // stack traces of the aborts that are provoked would only cost time
    std::env::set_var("RUST_BACKTRACE", "0");
    hooks::install_panic_hook();
    hooks::locate_static_data();
    hooks::create_arenas();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => supervisor::check(&args[2..]),
        Some("worker") => worker::worker(&args[2..]),
        Some("exec") => worker::exec(&args[2..]),
        Some("replay") => supervisor::replay(&args[2..]),
        Some("plan") => worker::show_plan(&args[2..]),
        _ => {
            eprintln!("usage: sim check|worker|exec|replay|plan ...");
            2
        }
    };
    std::process::exit(code);
}
