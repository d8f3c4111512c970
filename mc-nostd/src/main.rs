#![allow(clippy::all)]
//! C23: the same enumerations as the other properties, on fuel-tx built without its `std` feature. The
//! modules are ../mc's own source files (which leave out what needs std), the reference model is the same,
//! so a case on which the two builds differ fails here or there.
#[path = "../../mc/src/access.rs"]
mod access;
#[path = "../../mc/src/alloc_guard.rs"]
mod alloc_guard;
#[path = "../../mc/src/commit.rs"]
mod commit;
#[path = "../../mc/src/consensus.rs"]
mod consensus;
#[path = "../../mc/src/corpus.rs"]
mod corpus;
#[path = "../../mc/src/explore.rs"]
mod explore;
#[path = "../../mc/src/fee.rs"]
mod fee;
#[path = "../../mc/src/json.rs"]
mod json;
#[path = "../../mc/src/model.rs"]
mod model;
mod props;
#[path = "../../mc/src/receipts.rs"]
mod receipts;
#[path = "../../mc/src/reduced.rs"]
mod reduced;
#[path = "../../mc/src/report.rs"]
mod report;
#[path = "../../mc/src/runner.rs"]
mod runner;
#[path = "../../mc/src/shared.rs"]
mod shared;
#[path = "../../mc/src/text.rs"]
mod text;
#[path = "../../mc/src/valid.rs"]
mod valid;

#[global_allocator]
static GLOBAL: alloc_guard::Guard = alloc_guard::Guard;

fn main() {
    std::process::exit(runner::main());
}
