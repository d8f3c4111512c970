#![allow(clippy::all, dead_code)]
//! C26: what the test factory and the `random` feature make, with the random source as the explored
//! nondeterminism. Shares the explorer and the reference model of ../mc.
#[path = "../../mc/src/alloc_guard.rs"]
mod alloc_guard;
#[path = "../../mc/src/auth.rs"]
mod auth;
#[path = "../../mc/src/commit.rs"]
mod commit;
#[path = "../../mc/src/corpus.rs"]
mod corpus;
#[path = "../../mc/src/explore.rs"]
mod explore;
mod factory;
#[path = "../../mc/src/model.rs"]
mod model;
mod props;
#[path = "../../mc/src/report.rs"]
mod report;
#[path = "../../mc/src/runner.rs"]
mod runner;
#[path = "../../mc/src/shared.rs"]
mod shared;
#[path = "../../mc/src/valid.rs"]
mod valid;
#[path = "../../mc/src/wire.rs"]
mod wire;

#[global_allocator]
static GLOBAL: alloc_guard::Guard = alloc_guard::Guard;

fn main() {
    std::process::exit(runner::main());
}
