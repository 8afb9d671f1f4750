#![allow(static_mut_refs)]
mod core;
mod ent;
mod heap;
mod os;
mod props;
mod real;
mod rng;
mod sink;
mod world_a;
mod world_b;
mod world_c;
mod world_d;
mod drive;

#[global_allocator]
static GLOBAL: heap::SimAlloc = heap::SimAlloc;

fn main() {
    std::process::exit(drive::main());
}
