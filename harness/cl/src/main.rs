mod attack;
mod bls;
mod common;
mod forge;
mod groups;
mod issue;
mod json;
mod numbers;
mod present;
mod rev;
mod sharing;
mod tamper;
mod val;
mod world;
#[cfg(feature = "native")]
mod primes;
use symcore::engine::{main as engine_main, Case};

fn cases(prop: &str, thorough: bool) -> Vec<Case> {
    let rev = ["C07", "C08", "C09", "C10", "C11", "L01", "L02", "N02", "S07"].contains(&prop);
    symcore::field::set_modulus(&if rev {
        symcore::ints::bn254_order().to_str_radix(16)
    } else {
        symcore::ints::qr_order().to_str_radix(16)
    });
    // fix the hash seeds before cases are forked
    std::collections::HashMap::<u8, u8>::new();
    match prop {
        "C01" => issue::c01(thorough),
        "C02" => issue::c02(thorough),
        "C03" => issue::c03(thorough),
        "C04" => issue::c04(thorough),
        "C06" => attack::c06(thorough),
        "C12" => attack::c12(thorough),
        "C07" => rev::c07(thorough),
        "C08" => rev::c08(thorough),
        "C09" => rev::c09(thorough),
        "C10" => rev::c10(thorough),
        "C13" => tamper::c13(thorough),
        "C14" => common::c14(thorough),
        "N02" => groups::n02(thorough),
        "S07" => sharing::s07(thorough),
        "L01" => bls::l01(thorough),
        "L02" => bls::l02(thorough),
        "N01" => numbers::n01(thorough),
        "C05" => present::c05(thorough),
        "C11" => json::c11(thorough),
        _ => panic!("unknown property"),
    }
}

fn main() {
    engine_main(cases)
}
