mod multi;
mod single;
mod val;
use symcore::engine::{main as engine_main, Case};

fn cases(prop: &str, thorough: bool) -> Vec<Case> {
    // fix the hash seeds before cases are forked
    std::collections::HashMap::<u8, u8>::new();
    let mut v = vec![];
    match prop {
        "L03" => {
            single::normal::cases(thorough, &mut v);
            single::small::cases(thorough, &mut v);
        }
        "L04" => {
            multi::normal::cases(thorough, &mut v);
            multi::small::cases(thorough, &mut v);
        }
        _ => panic!("unknown property"),
    }
    v
}

fn main() {
    engine_main(cases)
}
