#![allow(dead_code)]
mod core;
mod props;
use core::*;
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: fqcheck <verif-dir> <property> [quick|thorough] [--replay FILE] [--only NAME] [--scale X]");
        std::process::exit(2);
    }
    #[cfg(feature = "p01")]
    if args[2] == "--dump-calendars" {
        props::calrules::dump_golden();
        return;
    }
    let verif = args[1].clone();
    let pid = args[2].clone();
    let tier_s = args
        .get(3)
        .filter(|a| !a.starts_with("--"))
        .cloned()
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let tier = if tier_s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .map(|x| x as u64)
        .unwrap_or(1);
    install_panic_hook();
    let started = Instant::now();
    let known = KnownFindings::load(&format!("{verif}/known_findings.txt"));
    let mut suite = Suite::new(&pid, tier, seed, known);
    // Sub-checks' case counts are relative to one another; this brings a quick run to some seconds.
    suite.scale = match pid.as_str() {
        "P35" => 0.5,
        "P14" | "P16" => 2.0,
        "P11" | "P18" | "P19" => 4.0,
        "P24" | "P27" => 8.0,
        "P20" | "P21" | "P22" | "P34" => 12.0,
        _ => 20.0,
    };
    if tier == Tier::Quick {
        suite.scale *= 3.0;
    }
    let mut i = 3;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                let body: serde_json::Value =
                    serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).unwrap()).unwrap();
                suite.replay = Some((
                    body["check"].as_str().unwrap().to_string(),
                    body["input"].clone(),
                ));
                i += 1;
            }
            "--only" => {
                suite.only = Some(args[i + 1].clone());
                i += 1;
            }
            "--scale" => {
                suite.scale *= args[i + 1].parse::<f64>().unwrap();
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    // Watchdog: a run that is merely slow gives no verdict (exit 3); a single case that hangs is reported by execute().
    if suite.replay.is_some() {
        std::thread::spawn(|| {
            std::thread::sleep(std::time::Duration::from_secs(300));
            println!("replay: FAILS: the case does not finish");
            std::process::exit(1);
        });
    }
    let limit = if tier == Tier::Quick { 840 } else { 6 * 3600 };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("watchdog: no verdict within {limit}s");
        std::process::exit(3);
    });
    if !props::register(&mut suite) {
        eprintln!("unknown property {pid}");
        std::process::exit(2);
    }
    if suite.replay.is_some() {
        let bad = !suite.replay_failed.lock().unwrap().is_empty();
        std::process::exit(if bad { 1 } else { 0 });
    }
    suite.execute();
    let code = finish(&suite, started, &verif);
    std::process::exit(code);
}
