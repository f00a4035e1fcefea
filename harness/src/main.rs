mod fw;
mod actions;
mod cli;
mod config;
mod css;
mod doc;
mod ids;
mod jsx;
mod jsxread;
mod lint;
mod dom;
mod drawing;
mod named;
mod names;
mod paths;
mod probe;
mod refpath;
mod render;
mod rendering;
mod select;
mod typed;
mod values;
mod xml;

use fw::*;
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Check = fn(&Ctx);

const CHECKS: &[(&str, Check)] = &[
    ("P01", paths::syntax),
    ("P02", paths::optimise),
    ("P03", xml::round_trip),
    ("P04", xml::layout),
    ("P05", rendering::default_jobs),
    ("P06", select::selectors),
    ("P07", select::styles),
    ("P08", dom::edits),
    ("P09", named::exact),
    ("P10", typed::kinds),
    ("P11", rendering::selected_jobs),
    ("P12", ids::references),
    ("P13", cli::files),
    ("P14", config::meaning),
    ("P15", lint::reports),
    ("P16", actions::edits),
    ("P17", jsx::components),
];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    if prop == "probe" {
        return probe::main(&args[2..]);
    }
    let Some((_, check)) = CHECKS.iter().find(|(p, _)| *p == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let tier = match opt("--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = opt("--case").and_then(|s| {
        let (g, c) = s.rsplit_once(':')?;
        Some((g.to_string(), c.parse().ok()?))
    });
    let budget = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 420,
        Tier::Thorough => 3 * 3600,
    });
    let threads = if only.is_some() { 1 } else { opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8) };
    let journal = opt("--journal").and_then(|p| std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(p).ok());
    install_panic_hook();
    let ctx = Ctx {
        prop,
        tier,
        seed,
        threads,
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        only,
        root: PathBuf::from(opt("--root").unwrap_or_else(|| "/verif".into())),
        journal,
        obs: Mutex::default(),
        rule: Mutex::default(),
        assumptions: Mutex::default(),
        panics_violate: true,
    };
    check(&ctx);
    std::process::exit(ctx.finish());
}
