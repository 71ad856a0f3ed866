//! `hv check <ID>`: decide one property on generated inputs (VERIF_SEED, VERIF_TIER).
//! `hv replay <FILE>`: judge the input of a replay file again.
mod batch;
mod c01;
mod checks;
mod corpus;
mod engine;
mod excerpt;
mod expandck;
mod items;
mod meta;
mod metadata;
mod model;
mod norm;
mod prog;
mod props;
mod reports;
mod settings;
mod src;
mod tomlgen;
use expandck::*;
use serde_json::{Value, json};
use std::path::PathBuf;
use std::time::Instant;

fn root() -> PathBuf {
    match std::env::var("HV_ROOT") {
        Ok(r) => r.into(),
        Err(_) => PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(),
    }
}

/// keys of the findings that are recorded and not repaired: `finding: property=<id> key=<key> <what fails>`
fn findings(root: &std::path::Path, id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix(&format!("finding: property={id} key="))?;
            let (k, w) = r.split_once(' ')?;
            Some((k.to_string(), w.to_string()))
        })
        .collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = root();
    // panics inside a judge are caught and reported as results
    if std::env::var_os("HV_PANIC").is_none() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() > 2 => check(&root, &a[2], a.get(3).map(|s| s.as_str())),
        Some("replay") if a.len() > 2 => replay_file(&root, &a[2]),
        Some("ids") => {
            checks::IDS.iter().for_each(|i| println!("{i}"));
            0
        }
        _ => {
            eprintln!("usage: hv check <ID> [quick|thorough] | hv replay <FILE> | hv ids");
            2
        }
    };
    std::process::exit(code);
}

fn check(root: &std::path::Path, id: &str, tier: Option<&str>) -> i32 {
    let started = Instant::now();
    let seed_text = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    let seed: u64 = seed_text.trim().parse().unwrap_or_else(|_| fnv(&seed_text));
    let tier = tier.map(String::from).or(std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let p = Params { root: root.to_path_buf(), id: id.to_string(), thorough: tier == "thorough", seed, started };
    if !checks::IDS.contains(&id) {
        eprintln!("unknown property {id}");
        return 2;
    }
    let env = match engine::Env::new(root, &format!("{id}-{}", std::process::id()), checks::needs_consume(id)) {
        Ok(e) => e,
        Err(e) => {
            eprintln!("the crates under test do not build: {e}");
            return 2;
        }
    };
    let mut rep = Report::new();
    checks::run(&env, &p, &mut rep);
    let _ = std::fs::remove_dir_all(&env.work);
    let known = findings(root, id);
    let mut new = vec![];
    for f in &rep.failures {
        let key = format!("{:016x}", fnv(&f.replay.to_string()));
        match known.iter().find(|(k, _)| *k == key) {
            Some((_, w)) => println!("KNOWN-FINDING: property={id} {w}"),
            None => new.push((key, f)),
        }
    }
    let mut lines = vec![];
    let dir = root.join("replays");
    for (key, f) in &new {
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}-{key}.json"));
        let mut r = f.replay.clone();
        r["property"] = json!(id);
        r["seed"] = json!(seed);
        r["summary"] = json!(f.summary);
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
        println!("{}", f.summary);
        lines.push(format!("VIOLATION property={id} replay={}", path.display()));
    }
    let ev = json!({
        "property": id,
        "tier": if p.thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rep.evaluations,
            "distinct_nontrivial": rep.nontrivial,
            "rule": checks::rule(id),
            "samples": rep.samples,
            "distribution": rep.tags,
            "discarded": rep.discards,
            "notes": rep.notes,
        },
        "assumptions": checks::ASSUMPTIONS,
        "wall_s": (started.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": new.len(),
    });
    let edir = root.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if let Err(e) = std::fs::write(edir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write the evidence: {e}");
        return 2;
    }
    println!(
        "{id}: {} cases, {} distinct and non-trivial, discarded {:?}, {:.1} s",
        rep.evaluations,
        rep.nontrivial,
        rep.discards,
        started.elapsed().as_secs_f64()
    );
    println!("distribution: {:?}", rep.tags);
    for l in &lines {
        println!("{l}");
    }
    if !new.is_empty() {
        return 1;
    }
    let dropped: u64 = rep.discards.values().sum();
    if rep.evaluations == 0 || rep.nontrivial * 20 < rep.evaluations || dropped * 5 > rep.evaluations {
        eprintln!("the generated cases do not exercise the property");
        return 2;
    }
    0
}

fn replay_file(root: &std::path::Path, file: &str) -> i32 {
    let r: Value = match std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let id = r["property"].as_str().unwrap_or("").to_string();
    let env = match engine::Env::new(root, &format!("replay-{}", std::process::id()), checks::needs_consume(&id)) {
        Ok(e) => e,
        Err(e) => {
            eprintln!("the crates under test do not build: {e}");
            return 2;
        }
    };
    let v = checks::replay(&env, &id, &r);
    let _ = std::fs::remove_dir_all(&env.work);
    match v {
        Ok(Verdict::Fail(m)) => {
            println!("{m}\nVIOLATION property={id} replay={file}");
            1
        }
        Ok(v) => {
            println!("{v:?}");
            0
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}
