//! Exhaustive checks of reassembly, the requester, stream ids, errors and supervision.
//!
//! Without `cfg(binate_verif)`, only what needs no hooks.
#[cfg(binate_verif)]
mod buf;
#[cfg(binate_verif)]
mod errs;
mod ids;
#[cfg(binate_verif)]
mod judge;
#[cfg(binate_verif)]
mod mock;
#[cfg(binate_verif)]
mod req;
#[cfg(binate_verif)]
mod sup;

use explore::Scenario;

fn scenarios(prop: &str, thorough: bool) -> Vec<Scenario> {
    match prop {
        #[cfg(binate_verif)]
        "C08" => buf::c08(thorough),
        #[cfg(binate_verif)]
        "C09" => buf::c09(thorough),
        #[cfg(binate_verif)]
        "C12" => buf::c12(thorough),
        "C13" => ids::c13(thorough),
        #[cfg(binate_verif)]
        "C20" => errs::c20(thorough),
        #[cfg(binate_verif)]
        "C11" => req::c11(thorough),
        #[cfg(binate_verif)]
        "C25" => req::c25(thorough),
        #[cfg(binate_verif)]
        "C21" => sup::c21(thorough),
        _ => vec![],
    }
}

fn main() {
    explore::cli::main(scenarios)
}
