//! Exhaustive checks of the frame codec, payloads and plain values.

use codec::{decode_props, encode_props, equal_props, value_props};
use explore::Scenario;

fn scenarios(prop: &str, thorough: bool) -> Vec<Scenario> {
    match prop {
        "C01" => encode_props::c01(thorough),
        "C02" => encode_props::c02(thorough),
        "C03" => encode_props::c03(thorough),
        "C04" => decode_props::c04(thorough),
        "C05" => decode_props::c05(thorough),
        "C06" => decode_props::c06(thorough),
        "C07" => decode_props::c07(thorough),
        "C08" => decode_props::c08(thorough),
        "C10" => value_props::c10(thorough),
        "C16" => value_props::c16(thorough),
        "C17" => value_props::c17(thorough),
        "C18" => value_props::c18(thorough),
        "C19" => value_props::c19(thorough),
        "C22" => encode_props::c22(thorough),
        "C23" => value_props::c23(thorough),
        "C24" => value_props::c24(thorough),
        "C27" => equal_props::c27(thorough),
        _ => vec![],
    }
}

fn main() {
    explore::cli::main(scenarios)
}
