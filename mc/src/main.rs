//! Explicit exploration of pkstl endpoints: see /verif/DESIGN.md
mod checks;
mod engine;
mod ep;
mod model;
mod race;
mod refp;
mod sut;

use checks::Check;
use engine::{explore, replay, Scenario, Violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn verif() -> PathBuf {
    std::env::var("MC_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Known {
    keys: BTreeMap<String, String>,
}
/// Lines `finding: property=<id> key=<key> :: <what fails>`
fn load_known(id: &str) -> Known {
    let mut keys = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(verif().join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut it = r.splitn(2, " key=");
                let (p, rest) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
                let mut it = rest.splitn(2, " :: ");
                let (k, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == id && !k.is_empty() {
                    keys.insert(k.trim().to_string(), d.to_string());
                }
            }
        }
    }
    Known { keys }
}

static CURRENT: Mutex<(String, bool)> = Mutex::new((String::new(), false));

fn write_replay(id: &str, thorough: bool, v: &Violation) -> PathBuf {
    let dir = verif().join("out").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let h = engine::h64(&(&v.scenario, &v.choices, &v.key));
    let path = dir.join(format!("{}-{:016x}.json", id, h));
    let j = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "scenario": v.scenario,
        "choices": v.choices,
        "key": v.key,
        "what": v.msg,
        "log": v.log,
        "how": "bash /verif/check.sh replay <this file>",
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

/// The code under test hangs or exhausts memory: this run is itself the counterexample.
fn emergency(name: &str, prefix: &[u32], msg: &str) -> ! {
    let (id, thorough) = CURRENT.try_lock().map(|g| g.clone()).unwrap_or_default();
    let v = Violation {
        key: "no-answer".into(),
        msg: msg.into(),
        scenario: name.into(),
        choices: prefix.to_vec(),
        log: vec![],
    };
    let p = write_replay(&id, thorough, &v);
    println!("{}: {}", name, msg);
    println!("VIOLATION property={} replay={}", id, p.display());
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

fn run(check: &Check, thorough: bool, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    *CURRENT.lock().unwrap() = (check.id.to_string(), thorough);
    let known = load_known(check.id);
    let known_keys: HashSet<String> = known.keys.keys().cloned().collect();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let cap = Duration::from_secs(if thorough { 5400 } else { 600 });
    let scenarios: Vec<Scenario> = (check.scenarios)(thorough)
        .into_iter()
        .filter(|s| only.map(|o| s.name.contains(o)).unwrap_or(true))
        .collect();
    let mut stats = Vec::new();
    let mut viols: Vec<(Violation, bool)> = Vec::new();
    let mut seen_known: BTreeMap<String, String> = BTreeMap::new();
    let mut errors: Vec<String> = Vec::new();
    for sc in &scenarios {
        let left = cap.checked_sub(t0.elapsed()).unwrap_or_default();
        let th = if check.single_thread { 1 } else { threads };
        let ex = explore(sc, &known_keys, thorough, th, left);
        println!(
            "{} {}: {} executions ({} pruned), {} transitions, {} states, {} outcomes, depth {}{}, {:.1}s{}",
            check.id,
            sc.name,
            ex.stats.executions,
            ex.stats.pruned,
            ex.stats.transitions,
            ex.stats.states,
            ex.stats.outcomes,
            ex.stats.max_depth,
            if sc.deviations > 0 { format!(", <= {} deviations", sc.deviations) } else { String::new() },
            ex.stats.wall_s,
            if ex.stats.exhausted { "" } else { " (not exhausted)" }
        );
        if let Some(e) = ex.error {
            errors.push(e);
        }
        for k in ex.known {
            seen_known.entry(k.key).or_insert(k.msg);
        }
        if let Some(v) = ex.violations.into_iter().next() {
            // the same choices must give the same observations twice, else the outcome depends on
            // something shared between executions
            let a = replay(sc, &v.choices, &known_keys, thorough);
            let b = replay(sc, &v.choices, &known_keys, thorough);
            let same = a.digest == b.digest
                && a.violation == b.violation
                && a.violation.as_ref().map(|x| &x.0) == Some(&v.key);
            let mut v = v;
            v.log = a.log;
            viols.push((v, same));
        }
        stats.push(ex.stats);
        if !viols.is_empty()
            && (t0.elapsed() > Duration::from_secs(60) || std::env::var_os("MC_FIRST").is_some())
        {
            break;
        }
    }
    for (k, d) in &known.keys {
        if seen_known.contains_key(k) {
            println!("KNOWN-FINDING: property={} {}", check.id, d);
        }
    }
    // ---- evidence
    let sum = |f: &dyn Fn(&engine::ScenarioStats) -> u64| stats.iter().map(f).sum::<u64>();
    let exhaustive = stats.iter().all(|s| s.exhausted) && errors.is_empty() && only.is_none();
    let samples: Vec<Value> = stats
        .iter()
        .take(6)
        .map(|s| json!({"scenario": s.name, "choices": s.sample_choices, "trace": s.sample}))
        .collect();
    let per: Vec<Value> = stats
        .iter()
        .map(|s| {
            json!({"name": s.name, "bounds": s.note, "deviation_bound": s.deviations, "executions": s.executions,
                "executions_with_deviations": s.deviating, "pruned_as_visited": s.pruned,
                "expanded_states": s.visited, "transitions": s.transitions, "distinct_states": s.states,
                "distinct_outcomes": s.outcomes, "max_depth": s.max_depth, "max_choice_points": s.max_choices,
                "exhausted": s.exhausted, "counters": s.counters, "wall_s": s.wall_s})
        })
        .collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let ev = json!({
        "property": check.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": sum(&|s| s.executions),
            "distinct_nontrivial": sum(&|s| s.nontrivial),
            "distinct_outcomes": sum(&|s| s.outcomes),
            "rule": format!("{} Every execution resolves the choice points of its scenario differently, so executions are distinct; one is non-trivial when it ran to its end without being pruned as already visited and executed at least one call of the code under test.", check.rule),
            "states": sum(&|s| s.states),
            "transitions": sum(&|s| s.transitions),
            "traces_validated_against_impl": sum(&|s| s.executions),
            "exhaustive": exhaustive,
            "scenarios": per,
            "samples": samples,
            "known_findings_met": seen_known.keys().cloned().collect::<Vec<_>>(),
            "nondeterminism": "randomness of the code under test is decided by the harness (getrandom interposed), no threads, clocks or I/O inside the code under test; a divergence while replaying a prefix aborts the run",
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viols.len(),
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if only.is_none() {
        if let Err(e) = std::fs::write(
            dir.join(format!("{}.json", check.id)),
            serde_json::to_string_pretty(&ev).unwrap(),
        ) {
            eprintln!("cannot write evidence: {}", e);
            return 2;
        }
    }
    for (i, (v, same)) in viols.iter().enumerate() {
        println!("--- {} [{}] {}", v.scenario, v.key, v.msg);
        // the replay shows the full log of the others
        for l in v.log.iter().rev().take(if i < 2 { 60 } else { 0 }).rev() {
            println!("      {}", l);
        }
        if !same {
            println!("      (a replay of the same choices observes something else: the outcome depends on other sessions of the process)");
        }
        let p = write_replay(check.id, thorough, v);
        println!("VIOLATION property={} replay={}", check.id, p.display());
    }
    if !viols.is_empty() {
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("ERROR: {}", e);
        }
        return 2;
    }
    println!(
        "{}: held on {} executions, {} transitions, {:.1}s",
        check.id,
        sum(&|s| s.executions),
        sum(&|s| s.transitions),
        t0.elapsed().as_secs_f64()
    );
    0
}

fn do_replay(file: &str) -> i32 {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("readable replay file")).expect("JSON");
    let id = j["property"].as_str().unwrap();
    let thorough = j["tier"] == "thorough";
    let choices: Vec<u32> = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    *CURRENT.lock().unwrap() = (id.to_string(), thorough);
    let all = checks::all();
    let check = all.iter().find(|c| c.id == id).expect("known property");
    let name = j["scenario"].as_str().unwrap();
    let scs = (check.scenarios)(thorough);
    let sc = scs.iter().find(|s| s.name == name).expect("known scenario");
    let known: HashSet<String> = load_known(id).keys.keys().cloned().collect();
    let out = replay(sc, &choices, &known, thorough);
    for l in &out.log {
        println!("{}", l);
    }
    if let Some(p) = out.panicked {
        eprintln!("harness panic: {}", p);
        return 2;
    }
    match out.violation {
        Some((k, m)) => {
            println!("[{}] {}", k, m);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        None => {
            println!("no violation on this replay");
            0
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| &s[..]) == Some("race") {
        refp::epk_of([0; 32]);
        std::process::exit(checks::race(&a[2..]))
    }
    sut::init(emergency);
    // the first draw of a process asks whether the kernel call exists
    refp::epk_of([0; 32]);
    let code = match a.get(1).map(|s| &s[..]) {
        Some("list") => {
            for c in checks::all() {
                println!("{} {}", c.id, c.level);
            }
            0
        }
        Some("run") => {
            let thorough = a.iter().any(|x| x == "thorough");
            let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone());
            match checks::all().iter().find(|c| c.id == a[2]) {
                Some(c) => run(c, thorough, only.as_ref().map(|s| &s[..])),
                None => {
                    eprintln!("unknown property {}", a[2]);
                    2
                }
            }
        }
        Some("replay") => do_replay(&a[2]),
        _ => {
            eprintln!("usage: mc run <ID> [quick|thorough] [--only SCENARIO] | mc replay FILE | mc list");
            2
        }
    };
    std::process::exit(code)
}
