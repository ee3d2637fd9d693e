mod r01;
mod r02;
mod r03;
mod r04;
mod r05;
mod r08;
mod r09;
mod r10;
mod r11;
mod r12;
mod text;
mod tiny;
mod u01;
fn main() {
    pbt::main(vec![
        r01::check(),
        r02::check(),
        r03::check(),
        r04::check(),
        r05::check5(),
        r05::check6(),
        r05::check7(),
        r08::check(),
        r09::check(),
        r10::check(),
        r11::check(),
        r12::check(),
        u01::check(),
    ])
}
