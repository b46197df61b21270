mod explore;
mod iface;
mod props;
mod rat;
mod sys;
mod val;
mod world;

use explore::*;
use serde_json::{json, Value};
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = "usage: mc check PROPERTY quick|thorough EVIDENCE_DIR KNOWN_FINDINGS | mc replay FILE | mc list";
    // Refused calls make the host panic inside and be caught: no messages for those.
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                for t in [Tier::Quick, Tier::Thorough] {
                    let n: Vec<String> = (p.scenarios)(t).iter().map(|s| s.name()).collect();
                    println!("{} {t:?}: {}", p.id, n.join(", "));
                }
            }
        }
        Some("iface") => {
            for n in &args[2..] {
                let f = iface::read(&world::wasm(n));
                println!("{n}");
                for (x, i) in &f.fns {
                    println!("  {x}({})", i.iter().map(|(n, t)| format!("{n}: {}", iface::type_text(t))).collect::<Vec<_>>().join(", "));
                }
                for (x, i) in &f.structs {
                    println!("  struct {x} {{{}}}", i.iter().map(|(n, t)| format!("{n}: {}", iface::type_text(t))).collect::<Vec<_>>().join(", "));
                }
                for (x, i) in &f.unions {
                    println!("  union {x} {:?}", i.iter().map(|(n, _)| n).collect::<Vec<_>>());
                }
                for (x, i) in &f.enums {
                    println!("  enum {x} {i:?}");
                }
            }
        }
        Some("check") if args.len() == 6 => check(&args[2], &args[3], &args[4], &args[5]),
        Some("replay") if args.len() == 3 => replay(&args[2]),
        _ => {
            eprintln!("{usage}");
            std::process::exit(2);
        }
    }
}

fn tier_of(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        x => panic!("tier {x}?"),
    }
}

fn check(id: &str, tier_name: &str, dir: &str, known_file: &str) {
    let t0 = Instant::now();
    let tier = tier_of(tier_name);
    let p = props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    let kf: Value = serde_json::from_str(&std::fs::read_to_string(known_file).expect("known findings file")).expect("known findings");
    let known: Vec<(String, String)> = kf["findings"]
        .as_array()
        .unwrap()
        .iter()
        .filter(|f| f["property"] == id)
        .map(|f| (f["key"].as_str().unwrap().to_string(), f["what"].as_str().unwrap().to_string()))
        .collect();
    let secs: u64 = std::env::var("MC_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 240,
        Tier::Thorough => 3600,
    });
    let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let dl = deadline(secs);
    let only = std::env::var("MC_ONLY").ok();
    let mut reports: Vec<Report> = vec![];
    for s in (p.scenarios)(tier) {
        if let Some(o) = &only {
            if !s.name().contains(o.as_str()) {
                continue;
            }
        }
        let name = s.name();
        let is_known = |k: &str| known.iter().any(|(n, _)| n == &format!("{name}:{k}") || n == k);
        let r = quiet(|| s.explore(&Opts { tier, deadline: dl, threads, known: &is_known, max_states: 400_000 })).unwrap_or_else(|e| {
            eprintln!("NO ANSWER: {id} {name}: {}", panic_text(&*e));
            std::process::exit(2);
        });
        eprintln!(
            "{id} {}: {} states, {} transitions, depth {}/{}{}, {:.1}s",
            r.name,
            r.states,
            r.transitions,
            r.depth,
            r.depth_wanted,
            if r.truncated { " (stopped at a limit)" } else { "" },
            r.wall
        );
        if std::env::var("MC_OUTCOMES").is_ok() {
            for (k, v) in &r.outcomes {
                eprintln!("      {k}: {v}");
            }
        }
        reports.push(r);
    }
    let mut bad = 0;
    let mut known_hit: Vec<String> = vec![];
    for r in &reports {
        for (n, f) in r.found.iter().enumerate() {
            let full = format!("{}:{}", r.name, f.v.key);
            if let Some((k, what)) = known.iter().find(|(k, _)| k == &full || k == &f.v.key) {
                if !known_hit.contains(k) {
                    println!("KNOWN-FINDING: property={id} {what} [{}; history: {}]", f.v.msg, f.ops.join(" ; "));
                    known_hit.push(k.clone());
                }
                continue;
            }
            bad += 1;
            let file = format!("{dir}/replay-{id}-{}-{n}.json", r.name.replace(|c: char| !c.is_alphanumeric() && c != '-', "_"));
            let j = json!({"property": id, "tier": tier_name, "scenario": r.name, "path": f.path, "operations": f.ops, "key": f.v.key, "message": f.v.msg});
            std::fs::write(&file, serde_json::to_string_pretty(&j).unwrap()).unwrap();
            eprintln!("violation [{}] in {}: {}\n  history: {}", f.v.key, r.name, f.v.msg, f.ops.join(" ; "));
            println!("VIOLATION property={id} replay={file}");
        }
    }
    let sum = |f: &dyn Fn(&Report) -> u64| reports.iter().map(f).sum::<u64>();
    let limited: Vec<String> = reports.iter().filter(|r| r.truncated).map(|r| format!("{}: complete to depth {}", r.name, r.depth)).collect();
    let ev = json!({
        "property": id,
        "tier": tier_name,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": sum(&|r| r.states),
            "transitions": sum(&|r| r.transitions),
            "traces_validated_against_impl": sum(&|r| r.replayed),
            "contract_calls_executed": sum(&|r| r.calls),
            "distinct_outcomes": reports.iter().map(|r| r.outcomes.len()).sum::<usize>(),
            "exhaustive": limited.is_empty(),
            "stopped_at_a_limit": limited,
            "rule": "Every transition is a call of the real contracts (release wasm built from /repo, in the Soroban host). States are (ledger entries, clock, history model); breadth first, every operation of the alphabet in every state. traces_validated_against_impl counts explored histories that were executed again from the setup on a fresh host, without save and restore, and had to end in the identical state.",
            "scenarios": reports.iter().map(report_json).collect::<Vec<_>>(),
            "samples": reports.iter().filter(|r| !r.sample.is_empty()).map(|r| json!({"scenario": r.name, "history": r.sample})).collect::<Vec<_>>(),
            "known_findings_reproduced": known_hit,
        },
        "assumptions": (p.assumptions)(),
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": bad,
    });
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if bad > 0 {
        std::process::exit(1);
    }
    println!("OK {id} {tier_name}: {} states, {} transitions, {:.1}s", sum(&|r| r.states), sum(&|r| r.transitions), t0.elapsed().as_secs_f64());
}

fn replay(file: &str) {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let p = props::all().into_iter().find(|p| j["property"] == p.id).unwrap();
    let tier = tier_of(j["tier"].as_str().unwrap());
    let s = (p.scenarios)(tier).into_iter().find(|s| j["scenario"] == s.name().as_str()).unwrap();
    let path: Vec<usize> = j["path"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let v = s.replay(&path);
    for x in &v {
        println!("violation [{}]: {}", x.key, x.msg);
    }
    std::process::exit(if v.is_empty() { 0 } else { 1 });
}
