//! Shows what the code under test does with standard input.
use oxvg_ast::parse::roxmltree::parse;
use oxvg_ast::serialize::{Node as _, Options};
use oxvg_ast::visitor::Info;
use oxvg_optimiser::Jobs;
use std::io::Read as _;

pub fn main(args: &[String]) {
    let mut src = String::new();
    std::io::stdin().read_to_string(&mut src).unwrap();
    let mode = args.first().map_or("ser", String::as_str);
    match mode {
        "path" => {
            use oxvg_parse::Parse as _;
            let p = oxvg_path::Path::parse_string(src.trim());
            println!("{:?}", p.map(|p| p.to_string()));
        }
        "ser" | "pretty" | "opt" | "safe" | "jobs" | "debug" => {
            let r = parse(&src, |dom, allocator| {
                let jobs = match mode {
                    "opt" => Some(Jobs::default()),
                    "safe" => Some(Jobs::safe()),
                    "jobs" => Some(serde_json::from_str::<Jobs>(&args[1]).expect("jobs")),
                    _ => None,
                };
                if mode == "debug" {
                    println!("{dom:#?}");
                }
                if let Some(jobs) = jobs {
                    let info = Info::new(allocator);
                    if let Err(e) = jobs.run(dom, &info) {
                        return format!("JOB ERROR {e}");
                    }
                }
                let r = if mode == "pretty" { dom.serialize_with_options(Options::pretty()) } else { dom.serialize() };
                match r {
                    Ok(s) => s,
                    Err(e) => format!("WRITE ERROR {e}"),
                }
            });
            match r {
                Ok(s) => println!("{s}"),
                Err(e) => println!("PARSE ERROR {e}"),
            }
        }
        _ => println!("unknown mode"),
    }
}
