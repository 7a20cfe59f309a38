mod chain;
mod driver;
mod gen;
mod model;
mod props;
mod world;

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("OB_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
    driver::catch_aborts();
    let args: Vec<String> = std::env::args().collect();
    let verif = verif_dir();
    if let (Some("record"), Some(path)) = (args.get(1).map(|s| s.as_str()), args.get(2)) {
        return props::upgrade::record(path);
    }
    let (cmd, id) = match (args.get(1), args.get(2)) {
        (Some(c), Some(i)) => (c.as_str(), i.as_str()),
        _ => {
            eprintln!("obcheck run|replay <ID> [file]");
            std::process::exit(2);
        }
    };
    let Some(p) = props::get(id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    // a run that does not end is an error, never a verdict
    std::thread::spawn(|| {
        let limit: u64 = if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") {
            6 * 3600
        } else {
            840
        };
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("time limit reached");
        std::process::exit(3);
    });
    let code = match cmd {
        "run" => driver::run(&p, &verif),
        "replay" => driver::replay(&p, args.get(3).map_or("", |s| s)),
        _ => 2,
    };
    std::process::exit(code);
}
