mod build;
mod choice;
mod driver;
mod gram;
mod life;
mod model;
mod norm;
mod proto;
mod psess;
mod raw;
mod scen;
mod source;
mod tok;
mod world;

#[global_allocator]
static A: tok::Counting = tok::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // Deep recursion is legitimate; do not let the size of the stack decide.
    let t = std::thread::Builder::new().stack_size(512 << 20).spawn(move || driver::main(&args)).unwrap();
    let code = t.join().unwrap_or(2);
    std::process::exit(code);
}
