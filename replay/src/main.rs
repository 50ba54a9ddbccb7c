//! Looks for concrete inputs that break a property, through the public API of the real crates.
//! replay <property> <tier> <seconds>: prints "FAIL {json}" per failing case and ends with "DONE {json}".
mod ctx;
mod dict;
mod io;
mod more;
mod msgs;
mod tables;
mod types;
use serde_json::json;
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("--child") {
        return io::child(&a[2]);
    }
    if a.get(1).map(|s| s.as_str()) == Some("--literals") {
        let mut v = dict::all();
        v.sort();
        v.dedup();
        return v.iter().for_each(|l| println!("{l}"));
    }
    std::panic::set_hook(Box::new(|_| {}));
    let secs: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(60);
    let mut c = ctx::Ctx {
        prop: a[1].clone(),
        thorough: a.get(2).map_or(false, |t| t == "thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        deadline: Instant::now() + Duration::from_secs(secs),
        cases: 0,
        fails: 0,
        samples: vec![],
    };
    match a[1].as_str() {
        "C01" => io::c01(&mut c),
        "C02" => io::c02(&mut c),
        "C03" => io::c03(&mut c),
        "C04" => io::c04(&mut c),
        "C12" | "C13" => io::c12_c13(&mut c),
        "C14" => io::c14(&mut c),
        "C16" => io::c16(&mut c),
        "C17" => io::c17(&mut c),
        "C21" => io::c21(&mut c),
        "C22" => io::c22(&mut c),
        "C05" => msgs::c05(&mut c),
        "C06" => msgs::c06(&mut c),
        "C07" => msgs::c07(&mut c),
        "C08" => msgs::c08(&mut c),
        "C09" => msgs::c09(&mut c),
        "C10" => msgs::c10(&mut c),
        "C11" => msgs::c11(&mut c),
        "C15" => msgs::c15(&mut c),
        "C18" => types::c18(&mut c),
        "C19" => types::c19(&mut c),
        "C20" => types::c20(&mut c),
        "C23" => more::c23(&mut c),
        "C24" => more::c24(&mut c),
        "C25" => more::c25(&mut c),
        p => {
            eprintln!("no cases for {p}");
            std::process::exit(4)
        }
    }
    let cut = Instant::now() > c.deadline;
    println!("DONE {}", json!({"cases": c.cases, "failed": c.fails, "stopped_at_the_time_limit": cut, "samples": c.samples}));
    std::process::exit(if c.fails > 0 { 1 } else { 0 })
}
