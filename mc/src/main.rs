mod b2;
mod checks;
mod cli;
mod codec;
mod e1;
mod explore;
mod forge;
mod gen;
mod golden;
mod hist;
mod repo;
mod report;
mod scen;
mod twin;
mod util;
mod variants;
mod zoo;
mod view;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|a| a == "--filter").unwrap_or(false) {
        std::process::exit(codec::main(&args[2..]));
    }
    if args.get(1).map(|a| a == "golden").unwrap_or(false) {
        util::init_run("golden");
        golden::make(std::path::Path::new(&args[2]));
        util::rm_rf(util::scratch_base());
        return;
    }
    let prop = args.get(1).cloned().unwrap_or_default();
    util::init_run(&prop);
    // Scratch space goes away even when a check panics.
    let r = std::panic::catch_unwind(|| checks::dispatch(&prop));
    util::rm_rf(util::scratch_base());
    let code = match r {
        Ok(Some((level, rule, ex))) => report::finish(level, rule, ex),
        Ok(None) => {
            eprintln!("unknown property {prop:?}");
            2
        }
        Err(_) => {
            eprintln!("the harness itself panicked");
            // Violations already established still stand.
            if !util::run().violations.lock().map(|v| v.is_empty()).unwrap_or(true) {
                report::finish("exploration", "aborted", false)
            } else {
                2
            }
        }
    };
    std::process::exit(code);
}
