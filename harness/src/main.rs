mod check;
mod delay;
mod checks;
mod engine;
mod live;
mod rng;
mod run;
mod text;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(run::main(&args));
}
