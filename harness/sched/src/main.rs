//! Exhaustive exploration of thread interleavings.
mod counter;
mod ids;
#[cfg(binate_verif)]
#[path = "../../conn/src/judge.rs"]
mod judge;
#[cfg(binate_verif)]
mod req;
mod threads;
mod together;

use explore::Scenario;

fn scenarios(prop: &str, thorough: bool) -> Vec<Scenario> {
    match prop {
        "C14" => ids::c14(thorough),
        #[cfg(binate_verif)]
        "C11" => req::c11(thorough),
        #[cfg(binate_verif)]
        "C25" => req::c25(thorough),
        "C26" => together::c26(thorough),
        "C15" => counter::c15(thorough),
        _ => vec![],
    }
}

fn main() {
    explore::cli::main(scenarios)
}
