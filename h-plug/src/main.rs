mod p03;
mod p04;
mod plugin;
mod rig;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if plugin::process(&args) {
        return;
    }
    pbt::main(vec![p03::check(), p04::check()])
}
