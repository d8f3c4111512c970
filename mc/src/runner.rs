//! Runs the spaces of one property, writes the evidence file and reports violations.
use crate::explore::*;
use crate::{props, report};
use std::time::{Duration, Instant};

fn known_keys(prop: &str) -> Vec<(String, String)> {
    // lines: "known: property=<id> key=<key> <what fails>"
    let s = std::fs::read_to_string(report::root().join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.trim().strip_prefix("known: property=")?;
            let (id, rest) = l.split_once(' ')?;
            let (k, what) = rest.strip_prefix("key=")?.split_once(' ')?;
            (id == prop).then(|| (k.to_string(), what.to_string()))
        })
        .collect()
}

pub fn main() -> i32 {
    install_handlers();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick"), a.get(4).map(|s| s.as_str())),
        Some("replay") => replay(&a[2]),
        _ => {
            eprintln!("usage: mc run <property> quick|thorough [space] | mc replay <file>");
            2
        }
    }
}

fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
}

fn run(prop: &str, tier: &str, only: Option<&str>) -> i32 {
    std::env::set_var("MC_TIER", tier);
    *CUR_PROP.lock().unwrap() = prop.to_string();
    let thorough = tier == "thorough";
    let Some(spaces) = props::spaces(prop, thorough) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let known = known_keys(prop);
    let keys: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    let t0 = Instant::now();
    let budget = Duration::from_secs(std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 600 }));
    let deadline = t0 + budget;
    let mut all = U64Set::default();
    let (mut trans, mut traces, mut leaves) = (0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut rows = vec![];
    let mut violations = vec![];
    let mut complete = true;
    let mut seen_known: std::collections::BTreeMap<String, u64> = Default::default();
    for sp in &spaces {
        if only.map_or(false, |o| o != sp.name) {
            continue;
        }
        let r = explore(sp, sp.bound, threads(), Some(deadline), &keys);
        let nstates = r.stats.states.len();
        eprintln!("  {:<28} bound {} leaves {:>10} states {:>10} transitions {:>11} {:>7.1}s{}", sp.name, sp.bound, r.stats.leaves, nstates, r.stats.transitions, r.wall, if r.complete { "" } else { " (stopped)" });
        trans += r.stats.transitions;
        traces += r.stats.traces;
        leaves += r.stats.leaves;
        for (k, n) in &r.stats.known {
            *seen_known.entry(k.clone()).or_default() += n;
        }
        rows.push(serde_json::json!({"space": sp.name, "what": sp.what, "deviation_bound": sp.bound, "executions": r.stats.leaves, "distinct_states": nstates,
            "transitions": r.stats.transitions, "traces_validated": r.stats.traces, "outcomes": r.stats.outcomes, "exhausted": r.complete, "wall_s": r.wall}));
        for s in r.stats.samples.iter().take(2) {
            samples.push(serde_json::json!({"space": sp.name, "case": s}));
        }
        if all.is_empty() {
            all = r.stats.states;
        } else {
            all.extend(r.stats.states);
        }
        if let Some(mut v) = r.violation {
            // look for a counterexample with fewer deviations, then confirm it
            for b in 0..v.cost {
                let r2 = explore(sp, b, threads(), Some(Instant::now() + Duration::from_secs(60)), &keys);
                if let Some(v2) = r2.violation {
                    v = v2;
                    break;
                }
            }
            let mut again = 0;
            for _ in 0..2 {
                let mut st = Stats::default();
                if run_leaf(&sp.body, &v.choices, &mut st, false).0.is_err() {
                    again += 1;
                }
            }
            v.fail.msg = format!("{} [choices {:?}, {} deviation(s), reproduced {again}/2]", v.fail.msg, trim(&v.choices), v.cost);
            violations.push(v);
            complete = false;
            break;
        }
        complete &= r.complete;
    }
    let wall = t0.elapsed().as_secs_f64();
    if only.is_none() {
        let build = if cfg!(feature = "full") { "full" } else { "reduced" };
        let mut j = serde_json::json!({
            "property": prop, "tier": tier, "seed": report::seed(), "level": "model_checking",
            "coverage": {
                "states": all.len(), "transitions": trans, "traces_validated_against_impl": traces,
                "executions": leaves, "exhaustive": complete, "samples": samples, "spaces": rows,
                "method": "stateless bounded-exhaustive exploration of the real code: every choice sequence of each space up to its deviation bound is executed once and compared with an independent reference model; no sampling",
                "known_findings_seen": seen_known,
            },
            "assumptions": props::assumptions(prop),
            "wall_s": wall, "violations": violations.len()
        });
        let p = report::root().join("evidence").join(format!("{prop}.json"));
        if std::env::var("MC_MERGE").is_ok() {
            // a second build of the same property: its figures are added to those of the first
            merge(&mut j, &p, build);
        }
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()) {
            eprintln!("cannot write {}: {e}", p.display());
            return 2;
        }
    }
    for (k, what) in &known {
        let n = seen_known.get(k).copied().unwrap_or(0);
        if n > 0 {
            println!("KNOWN-FINDING: property={prop} {what} ({n} cases)");
        }
    }
    eprintln!("{prop} {tier}: {} states, {trans} transitions, {leaves} executions, {wall:.1}s, exhaustive={complete}", all.len());
    if violations.is_empty() {
        return 0;
    }
    for v in &violations {
        let p = report::write_replay(prop, v);
        println!("  {}: {}", v.space, v.fail.msg);
        println!("VIOLATION property={prop} replay={p}");
    }
    1
}
fn merge(j: &mut serde_json::Value, first: &std::path::Path, build: &str) {
    let Some(a) = std::fs::read_to_string(first).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()) else {
        return;
    };
    let (c, d) = (&mut j["coverage"], &a["coverage"]);
    c["builds"] = serde_json::json!({build: {"states": c["states"], "transitions": c["transitions"], "executions": c["executions"]},
        "full": {"states": d["states"], "transitions": d["transitions"], "executions": d["executions"], "spaces": d["spaces"]}});
    for k in ["states", "transitions", "traces_validated_against_impl", "executions"] {
        c[k] = (c[k].as_u64().unwrap_or(0) + d[k].as_u64().unwrap_or(0)).into();
    }
    c["exhaustive"] = (c["exhaustive"] == true && d["exhaustive"] == true).into();
    j["wall_s"] = (j["wall_s"].as_f64().unwrap_or(0.0) + a["wall_s"].as_f64().unwrap_or(0.0)).into();
}
fn trim(c: &[u32]) -> &[u32] {
    let n = c.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
    &c[..n]
}
fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let j: serde_json::Value = serde_json::from_str(&s).expect("json");
    let prop = j["property"].as_str().unwrap();
    let tier = j["tier"].as_str().unwrap();
    std::env::set_var("MC_TIER", tier);
    *CUR_PROP.lock().unwrap() = prop.to_string();
    let choices: Vec<u32> = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let spaces = props::spaces(prop, tier == "thorough").expect("property");
    let sp = spaces.iter().find(|s| s.name == j["space"].as_str().unwrap()).expect("space");
    let mut st = Stats::default();
    let (r, trace, cost) = run_leaf(&sp.body, &choices, &mut st, true);
    println!("property {prop}, space {} ({})", sp.name, sp.what);
    println!("choices {:?}, {cost} deviation(s)", trace.iter().map(|t| t.0).collect::<Vec<_>>());
    for s in &st.samples {
        println!("case: {s}");
    }
    match r {
        Ok(()) => {
            println!("holds on this case");
            0
        }
        Err(f) => {
            println!("fails: {}", f.msg);
            println!("VIOLATION property={prop} replay={file}");
            1
        }
    }
}
