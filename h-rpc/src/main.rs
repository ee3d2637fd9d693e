mod jsongen;
mod n01;
mod n02;
mod n04;
mod t01;
mod t02;
fn main() {
    pbt::main(vec![n01::check(), n02::check(), n04::check(), t01::check(), t02::check()])
}
