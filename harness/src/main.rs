mod checks;
mod cli;
mod docgen;
mod engine;
mod explore;
mod fake;
mod md;
mod opts;
mod settings;

fn main() {
    // Panics of the code under test are caught and reported; errors of the harness are shown.
    std::panic::set_hook(Box::new(|i| {
        let p = i.payload();
        let m = p.downcast_ref::<String>().map(|s| s.as_str());
        if let Some(m) = m.or(p.downcast_ref::<&str>().copied())
            && m.starts_with("HARNESS:")
        {
            eprintln!("{m}");
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        // hv check ID quick|thorough
        "check" => {
            let cs = checks::all();
            let Some(c) = cs.iter().find(|c| c.id == args[2]) else {
                eprintln!("no check {}", args[2]);
                std::process::exit(2)
            };
            std::process::exit(engine::run_check(
                c,
                args.get(3).map(|s| s.as_str()) == Some("thorough"),
            ))
        }
        "cascade" => cascade(&args[2]),
        "fake" => fake::main(&args[2], &args[3]),
        "replay" => std::process::exit(engine::run_replay(&checks::all(), &args[2])),
        "explore" => explore::run(&args[2..]),
        // hv fmt [p|d] [width]: format stdin; also print the tree differences
        "fmt" => {
            let mut d = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut d).unwrap();
            let mut o = if args.get(2).map(|s| s.as_str()) == Some("d") {
                hongdown::Options::default()
            } else {
                opts::plain()
            };
            if let Some(w) = args.get(3) {
                o.line_width = hongdown::LineWidth::new(w.parse().unwrap()).unwrap();
            }
            let out = explore::fmt(&d, &o);
            print!("{out}");
            let f = md::fold_of(&o);
            println!(
                "--mean {:?}",
                md::diff(&md::parse(&d, &f).dump(), &md::parse(&out, &f).dump())
            );
            let o2 = explore::fmt(&out, &o);
            println!("--idem {}", o2 == out);
        }
        "pos" => {
            let mut d = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut d).unwrap();
            let arena = comrak::Arena::new();
            let root = comrak::parse_document(&arena, &d, &md::copts());
            for n in root.descendants() {
                let x = n.data.borrow();
                println!("{:?} {}", x.value, x.sourcepos);
            }
        }
        "tree" => {
            let mut d = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut d).unwrap();
            print!("{}", md::parse(&d, &md::Fold::default()).dump());
        }
        _ => panic!(),
    }
}

/// hv cascade DIR: compares the configuration found from a directory with the one on stdin.
fn cascade(dir: &str) {
    use hongdown::config::Config;
    let mut want = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut want).unwrap();
    let want = Config::from_toml(&want).expect("HARNESS: model");
    match Config::load_cascading(std::path::Path::new(dir)) {
        Err(e) => println!("error: {e}"),
        Ok((mut got, path)) => {
            got.no_inherit = want.no_inherit;
            if got != want {
                println!("expected {want:?}\n     got {got:?}");
            }
            println!(
                "project: {}",
                path.map(|p| p.display().to_string()).unwrap_or_default()
            );
        }
    }
}
