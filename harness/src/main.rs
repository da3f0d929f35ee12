use pakecheck::fw::*;
use pakecheck::registry;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| {
        let exe = std::env::current_dir().unwrap();
        exe
    })
}

/// signatures of the open findings of one property, and their descriptions
fn known(prop: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(verif().join("known_findings.txt")) else { return vec![] };
    // lines: "open: property=<id> signature=<sig> <what fails>"
    s.lines()
        .filter_map(|l| {
            let l = l.trim().strip_prefix("open: property=")?;
            let (id, rest) = l.split_once(' ')?;
            if id != prop {
                return None;
            }
            let (sig, what) = rest.strip_prefix("signature=")?.split_once(' ')?;
            Some((sig.to_string(), what.to_string()))
        })
        .collect()
}

fn write_replay(prop: &str, sub: &str, f: &Failure) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}_{sub}.json"));
    let v = json!({"property": prop, "sub": sub, "message": f.message, "case": f.case});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn shorten(v: &Value) -> Value {
    match v {
        Value::String(s) if s.len() > 160 => {
            let head: String = s.chars().take(120).collect();
            Value::String(format!("{head}... ({} chars)", s.len()))
        }
        Value::Array(a) => Value::Array(a.iter().take(40).map(shorten).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), shorten(v))).collect()),
        _ => v.clone(),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let Some(prop) = args.get(1).cloned() else {
        eprintln!("usage: pakecheck <property> [--replay FILE] [--only SUB] [--scale X]");
        std::process::exit(2);
    };
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let known = known(&prop);
    let budget = match tier {
        Tier::Quick => 420,
        Tier::Thorough => std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(6 * 3600),
    };
    let ctx = Ctx {
        prop: prop.clone(),
        tier,
        seed,
        deadline: Instant::now() + Duration::from_secs(budget),
        known: Arc::new(known.iter().map(|k| k.0.clone()).collect::<HashSet<_>>()),
        scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(match tier {
            Tier::Quick => registry::quick_scale(&prop),
            Tier::Thorough => 1.0,
        }),
    };
    install_panic_hook();
    let Some(subs) = registry::subs(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };

    if let Some(file) = opt("--replay") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&file).expect("replay file")).expect("json");
        let sub = v["sub"].as_str().unwrap_or("").to_string();
        let Some(s) = subs.iter().find(|s| s.name() == sub) else {
            eprintln!("no sub-check {sub} in {prop}");
            std::process::exit(2);
        };
        match s.replay(&ctx, &v["case"]) {
            Err(e) => {
                eprintln!("cannot decode the case: {e}");
                std::process::exit(2);
            }
            Ok(Ok(())) => println!("replay: the property holds on this case"),
            Ok(Err(f)) => {
                println!("replay: {}", f.0);
                println!("VIOLATION property={prop} replay={file}");
                std::process::exit(1);
            }
        }
        return;
    }

    let hang_prop = prop.clone();
    start_watchdog(move |sub, case| {
        let f = Failure {
            message: "the case does not terminate (over 100 s of CPU time)".into(),
            case: serde_json::from_str(case).unwrap_or(Value::Null),
        };
        let p = write_replay(&hang_prop, sub, &f);
        println!("{}/{}: {}", hang_prop, sub, f.message);
        println!("VIOLATION property={} replay={}", hang_prop, p.display());
        std::process::exit(1);
    });

    let t0 = Instant::now();
    let only = opt("--only");
    let mut reports = vec![];
    let mut violated = None;
    for s in &subs {
        if only.as_deref().map(|o| o != s.name()).unwrap_or(false) {
            continue;
        }
        let rep = s.run(&ctx);
        println!(
            "{prop}/{}: {} cases ({} planned), {} inner checks, {} distinct non-trivial, {:.1} s{}{}",
            rep.name,
            rep.cases,
            rep.planned,
            rep.inner,
            rep.distinct.len(),
            rep.wall,
            if rep.cut_short { ", cut short by the time budget" } else { "" },
            if rep.failure.is_some() { ", FAILED" } else { "" }
        );
        let failed = rep.failure.clone().map(|f| (s.name().to_string(), f));
        reports.push(rep);
        if let Some((sub, f)) = failed {
            if f.message.starts_with("HARNESS:") {
                eprintln!("{}", f.message);
                std::process::exit(2);
            }
            violated = Some((sub, f));
            break;
        }
    }
    write_evidence(&prop, tier, seed, &reports, t0.elapsed().as_secs_f64(), violated.is_some());
    if std::env::var_os("VERIF_LABELS").is_some() {
        for r in &reports {
            println!("  {}: {:#?}", r.name, r.labels);
        }
    }
    for (sig, what) in &known {
        let n: u64 = reports.iter().filter_map(|r| r.findings.get(sig)).map(|x| x.0).sum();
        if n > 0 {
            println!("KNOWN-FINDING: property={prop} {what} [{sig}, seen {n} times]");
        }
    }
    if let Some((sub, f)) = violated {
        let p = write_replay(&prop, &sub, &f);
        println!("{prop}/{sub}: {}", f.message.chars().take(1500).collect::<String>());
        println!("minimal case: {}", serde_json::to_string(&shorten(&f.case)).unwrap());
        println!("VIOLATION property={prop} replay={}", p.display());
        std::process::exit(1);
    }
    println!("{prop}: held on everything explored");
}

fn write_evidence(prop: &str, tier: Tier, seed: u64, reps: &[SubReport], wall: f64, bad: bool) {
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut samples = vec![];
    let mut per = serde_json::Map::new();
    let mut rules = vec![];
    let (mut eval, mut inner, mut dn) = (0u64, 0u64, 0u64);
    for r in reps {
        eval += r.cases;
        inner += r.inner;
        dn += r.distinct.len() as u64;
        rules.push(format!("{}: {}", r.name, r.rule));
        for s in r.samples.iter().take(2) {
            samples.push(json!({"sub": r.name, "case": shorten(s)}));
        }
        per.insert(
            r.name.clone(),
            json!({
                "cases": r.cases, "planned": r.planned, "inner_checks": r.inner,
                "nontrivial": r.nontrivial, "distinct_nontrivial": r.distinct.len(),
                "labels": r.labels, "enumerated_completely": r.exhaustive,
                "cut_short": r.cut_short, "wall_s": r.wall,
                "known_findings_seen": r.findings.iter().map(|(k, v)| (k.clone(), v.0)).collect::<std::collections::BTreeMap<_, _>>(),
            }),
        );
    }
    let ev = json!({
        "property": prop,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": eval,
            "inner_checks": inner,
            "distinct_nontrivial": dn,
            "rule": rules.join(" | "),
            "samples": samples,
            "per_sub_check": per,
        },
        "assumptions": pakecheck::registry::assumptions(prop),
        "wall_s": wall,
        "violations": i32::from(bad),
    });
    let p: &Path = &dir.join(format!("{prop}.json"));
    if let Err(e) = std::fs::write(p, serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
}
