mod cases;
mod exec;
mod geom;
mod num;
mod oracle;
mod plan;
mod poly;
mod rat;
mod record;
mod replay;
mod run;
mod solver;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    run::quiet_panics();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(run::check(&args[2..])),
        Some("replay") => std::process::exit(replay::main(&args[2])),
        Some("native") => std::process::exit(replay::native(&args[2])),
        _ => {
            eprintln!("usage: symtri check PROPERTY TIER OUT.json SECONDS | replay FILE");
            std::process::exit(2);
        }
    }
}
