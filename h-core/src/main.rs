mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod cmds;
mod drive;
mod files;
mod mirror;
mod model;
mod n03;
mod p01;
mod p02;
mod plug;
mod t03;
#[path = "../../h-rope/src/text.rs"]
mod text;
fn main() {
    pbt::main(vec![
        c01::check(),
        c02::check(),
        c03::check(),
        c04::check(),
        c05::check(),
        c06::check(),
        c07::check(),
        c08::check(),
        c09::check(),
        c10::check(),
        c11::check(),
        c12::check(),
        c13::check(),
        c14::check(),
        c15::check(),
        c17::check(),
        c18::check(),
        c19::check(),
        c20::check(),
        c21::check(),
        c22::check(),
        c23::check(),
        c24::check(),
        p01::check(),
        p02::check(),
        n03::check(),
        t03::check(),
    ])
}
