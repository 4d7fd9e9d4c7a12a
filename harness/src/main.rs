mod dict;
mod exec;
mod gen;
mod interpose;
mod model;
mod props;
mod runner;
mod src;
mod world;

fn main() {
    std::process::exit(runner::main());
}
