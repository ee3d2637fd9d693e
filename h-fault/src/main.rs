#![allow(invalid_runtime_symbol_definitions)]
mod c16;
#[path = "../../h-core/src/cmds.rs"]
#[allow(dead_code)]
mod cmds;
#[path = "../../h-core/src/drive.rs"]
#[allow(dead_code)]
mod drive;
mod fault;
#[path = "../../h-core/src/files.rs"]
#[allow(dead_code)]
mod files;
#[path = "../../h-rope/src/text.rs"]
#[allow(dead_code)]
mod text;
fn main() {
    pbt::main(vec![c16::check()])
}
