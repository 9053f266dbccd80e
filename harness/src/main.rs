mod cpu;
mod dec;
mod diff;
mod exec;
mod gen;
mod mem;
mod props;
mod run;

use run::{Runner, Tier};
use std::cell::{Cell, RefCell};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut prop = String::new();
    let mut tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut replay = None;
    let mut out = String::from("/verif");
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => { i += 1; tier = if args[i] == "thorough" { Tier::Thorough } else { Tier::Quick }; }
            "--seed" => { i += 1; seed = args[i].parse().expect("seed"); }
            "--replay" => { i += 1; replay = Some(args[i].clone()); }
            "--out" => { i += 1; out = args[i].clone(); }
            p => prop = p.to_string(),
        }
        i += 1;
    }
    let Some(p) = props::PROPS.iter().find(|p| p.id == prop) else { eprintln!("unknown property {prop}"); std::process::exit(2) };
    let findings: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(format!("{out}/known_findings.json")).unwrap_or("{\"findings\":[]}".into())).expect("known_findings.json");
    let listed: Vec<String> = findings["findings"].as_array().into_iter().flatten().filter(|f| f["status"] == "known" && f["properties"].as_array().is_some_and(|v| v.iter().any(|x| x == p.id))).map(|f| f["signature"].as_str().unwrap().to_string()).collect();
    let replay = replay.map(|f| {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("replay json");
        if let Some(s) = v["seed"].as_u64() { seed = s; }
        (v["sub"].as_str().unwrap().to_string(), v["case"].clone())
    });
    run::install_panic_hook();
    let is_replay = replay.is_some();
    run::supervise(prop.clone(), out.clone(), tier, seed, is_replay);
    let r = Runner {
        prop: prop.clone(), tier, seed, replay, replay_hit: Cell::new(false), threads: std::thread::available_parallelism().map_or(8, |n| n.get()).min(16),
        total: RefCell::new(Default::default()), subs: RefCell::new(vec![]), violation: RefCell::new(None), listed: listed.clone(),
        scale: std::env::var("HARNESS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(25.0), all_exhaustive: Cell::new(true), start: std::time::Instant::now(),
    };
    (p.run)(&r);
    if is_replay && !r.replay_hit.get() { eprintln!("replay: no such sub-check"); std::process::exit(2); }
    for f in findings["findings"].as_array().into_iter().flatten() {
        let sig = f["signature"].as_str().unwrap_or("");
        if listed.iter().any(|l| l == sig) {
            println!("KNOWN-FINDING: property={prop} {}", f["what"].as_str().unwrap_or(sig));
        }
    }
    if !is_replay {
        std::fs::create_dir_all(format!("{out}/evidence")).unwrap();
        std::fs::write(format!("{out}/evidence/{prop}.json"), serde_json::to_string_pretty(&r.evidence(p.rule, p.assumptions)).unwrap() + "\n").unwrap();
    }
    let code = if let Some(v) = &*r.violation.borrow() {
        let path = format!("{out}/evidence/replay-{prop}.json");
        if !is_replay {
            std::fs::write(&path, serde_json::to_string_pretty(&serde_json::json!({"property": prop, "sub": v.sub, "seed": seed, "message": v.msg, "case": v.case})).unwrap() + "\n").unwrap();
        }
        println!("{prop}/{}: {}", v.sub, v.msg);
        println!("case: {}", v.case);
        println!("VIOLATION property={prop} replay={path}");
        1
    } else {
        let t = r.total.borrow();
        println!("{prop}: held on {} cases ({} distinct non-trivial), {:.1}s", t.evals, t.nontrivial_hashes.len(), r.start.elapsed().as_secs_f64());
        0
    };
    std::process::exit(code);
}
