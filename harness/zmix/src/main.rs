#[macro_use]
mod vc;
mod bp;
mod delg;
mod gadgets;
mod sparse;
mod ps;
mod r1cs;
mod val;
use symcore::engine::{main as engine_main, Case};

fn cases(prop: &str, thorough: bool) -> Vec<Case> {
    match prop {
        "P01" => ps::p01(thorough),
        "P02" => ps::p02(thorough),
        "P03" => vc::p03(thorough),
        "P04" => ps::p04(thorough),
        "D01" => delg::d01(thorough),
        "D02" => delg::d02(thorough),
        "D03" => delg::d03(thorough),
        "R01" => bp::r01(thorough),
        "R02" => r1cs::r02(thorough),
        "R03" => gadgets::r03(thorough),
        "R04" => sparse::r04(thorough),
        _ => panic!("unknown property"),
    }
}

fn main() {
    engine_main(cases)
}
