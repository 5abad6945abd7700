mod case;
mod exec;
mod model;
mod os;
mod props;
mod rng;
mod runner;
mod scene;
mod tree;

#[global_allocator]
static A: os::SimAlloc = os::SimAlloc;

fn main() {
    runner::fixed_addresses();
    std::process::exit(runner::main());
}
