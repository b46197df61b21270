//! Exhaustive exploration of /repo's library packages (curves, decimals, shared helpers) on the real code.
mod core;
mod curves;
mod decimals;

use serde_json::{json, Value};
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
    let ok = match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() == 6 => check(&args[2], &args[3], &args[4], &args[5]),
        Some("replay") if args.len() == 3 => replay(&args[2]),
        _ => {
            eprintln!("usage: pk check PROPERTY quick|thorough EVIDENCE_DIR KNOWN_FINDINGS | pk replay FILE");
            std::process::exit(2);
        }
    };
    std::process::exit(if ok { 0 } else { 1 });
}

fn parts(id: &str) -> Vec<Box<dyn core::Part>> {
    match id {
        "P24" => curves::parts(),
        "P25" => decimals::parts(),
        x => panic!("no property {x}"),
    }
}

fn check(id: &str, tier: &str, dir: &str, known_file: &str) -> bool {
    let t0 = Instant::now();
    let thorough = match tier {
        "quick" => false,
        "thorough" => true,
        x => panic!("tier {x}?"),
    };
    let kf: Value = serde_json::from_str(&std::fs::read_to_string(known_file).expect("known findings file")).expect("known findings");
    let known: Vec<(String, String)> =
        kf["findings"].as_array().unwrap().iter().filter(|f| f["property"] == id).map(|f| (f["key"].as_str().unwrap().into(), f["what"].as_str().unwrap().into())).collect();
    let mut bad = 0;
    let mut hit: Vec<String> = vec![];
    let (mut states, mut transitions, mut again) = (0, 0, 0);
    let (mut reports, mut samples) = (vec![], vec![]);
    for p in parts(id) {
        let t1 = Instant::now();
        let mut r = p.explore(thorough);
        eprintln!("{id} {}: {} states, {} transitions, depth {}, {:.1}s", p.name(), r.states, r.transitions, r.depth, t1.elapsed().as_secs_f64());
        states += r.states;
        transitions += r.transitions;
        // the same cases once more, one after the other, from their written form
        for (n, c) in std::mem::take(&mut r.samples).iter().enumerate() {
            r.find(p.case(c));
            again += 1;
            if n < 3 {
                samples.push(json!({"part": p.name(), "case": c}));
            }
        }
        for (n, f) in r.found.iter().enumerate() {
            let full = format!("{}:{}", p.name(), f.key);
            if let Some((k, what)) = known.iter().find(|(k, _)| k == &full) {
                if !hit.contains(k) {
                    println!("KNOWN-FINDING: property={id} {what} [{}]", f.msg);
                    hit.push(k.clone());
                }
                continue;
            }
            bad += 1;
            let file = format!("{dir}/replay-{id}-{}-{n}.json", p.name().replace(|c: char| !c.is_alphanumeric() && c != '-', "_"));
            let j = json!({"property": id, "part": p.name(), "key": f.key, "message": f.msg, "case": f.case});
            std::fs::write(&file, serde_json::to_string_pretty(&j).unwrap()).unwrap();
            eprintln!("violation [{}] in {}: {}\n  case: {}", f.key, p.name(), f.msg, f.case);
            println!("VIOLATION property={id} replay={file}");
        }
        reports.push(json!({"part": p.name(), "states": r.states, "transitions": r.transitions, "depth": r.depth, "outcomes": r.outcomes, "wall_s": t1.elapsed().as_secs_f64()}));
    }
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": again,
            "exhaustive": true,
            "rule": "Every transition is an execution of the real library (compiled natively from /repo with overflow checks, as the contracts are): every operation with every operand of the alphabet in every state, breadth first, judged by exact rational arithmetic. traces_validated_against_impl counts cases executed once more from their recorded form, on their own.",
            "parts": reports,
            "samples": samples,
            "known_findings_reproduced": hit,
        },
        "assumptions": ["The library behaves natively as it does when compiled to wasm (same overflow checks, same host functions).", "Only the operands and depths listed per part are explored."],
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": bad,
    });
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if bad == 0 {
        println!("OK {id} {tier}: {states} states, {transitions} transitions, {:.1}s", t0.elapsed().as_secs_f64());
    }
    bad == 0
}

fn replay(file: &str) -> bool {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let p = parts(j["property"].as_str().unwrap()).into_iter().find(|p| j["part"] == p.name().as_str()).unwrap();
    println!("case: {}", j["case"]);
    match p.case(&j["case"]) {
        Some(f) => {
            println!("violation [{}]: {}", f.key, f.msg);
            false
        }
        None => true,
    }
}
