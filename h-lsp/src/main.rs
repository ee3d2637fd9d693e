mod l01;
mod l02;
mod l03;
mod rig;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if rig::process(&args) {
        return;
    }
    pbt::main(vec![l01::check(), l02::check(), l03::check()])
}
