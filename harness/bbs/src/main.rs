mod bbsp;
mod codec;
mod obj;
mod val;
use symcore::engine::{main as engine_main, Case};

fn cases(prop: &str, thorough: bool) -> Vec<Case> {
    match prop {
        "B01" => bbsp::b01(thorough),
        "B02" => bbsp::b02(thorough),
        "B03" => bbsp::b03(thorough),
        "B04" => bbsp::b04(thorough),
        "B05" => codec::b05(thorough),
        "B06" => codec::b06(thorough),
        _ => panic!("unknown property"),
    }
}

fn main() {
    engine_main(cases)
}
