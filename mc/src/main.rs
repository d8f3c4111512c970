#![allow(clippy::all)]
mod access;
mod alloc_guard;
mod auth;
mod building;
mod commit;
mod consensus;
mod corpus;
mod decode;
mod explore;
mod fee;
mod json;
mod life;
mod model;
mod money;
mod props;
mod receipts;
mod reduced;
mod report;
mod runner;
mod shared;
mod text;
mod valid;
mod values;
mod wire;
mod wrapper;

#[global_allocator]
static GLOBAL: alloc_guard::Guard = alloc_guard::Guard;

fn main() {
    std::process::exit(runner::main());
}
