//! Evidence files, VIOLATION lines and replay artefacts.
use crate::explore::*;
use std::path::PathBuf;

pub fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf())
}
pub fn tier() -> String {
    std::env::var("MC_TIER").unwrap_or_else(|_| "quick".into())
}
pub fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn write_replay(prop: &str, v: &Violation) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}-{}.json", v.space));
    let j = serde_json::json!({"property": prop, "space": v.space, "tier": tier(), "choices": v.choices, "message": v.fail.msg, "key": v.fail.key});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p.display().to_string()
}
/// Also used from a crash handler: print the violation straight away.
pub fn fatal(prop: &str, v: &Violation) {
    let p = write_replay(prop, v);
    println!("  {}: {}", v.space, v.fail.msg);
    println!("VIOLATION property={prop} replay={p}");
    let j = serde_json::json!({"property": prop, "tier": tier(), "seed": seed(), "level": "model_checking",
        "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [v.fail.msg], "exhaustive": false, "aborted_in": v.space},
        "wall_s": 0.0, "violations": 1});
    let _ = std::fs::write(root().join("evidence").join(format!("{prop}.json")), serde_json::to_string_pretty(&j).unwrap());
}
