// compiled against the library in every build configuration
#[path = "../src/workload.rs"]
mod workload;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for (n, v, _) in workload::run() {
        println!("{:016x} {n}", v.to_bits());
    }
}
