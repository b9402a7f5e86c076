//! The command line shared by the harness binaries:
//!
//!   <bin> run <property> <tier> <out.json> <flight file> <seconds>
//!   <bin> replay <property> <tier> <scenario index> <comma separated choices>
//!
//! Exit 0: all explored, no violation.  1: violations (listed in out.json).  2: harness error.
//! 3: an execution hangs (its choices are in the flight recorder).
use crate::{json, Explorer, Scenario};
use std::time::{Duration, Instant};

pub fn main(scenarios: impl Fn(&str, bool) -> Vec<Scenario>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args[2..], scenarios),
        Some("replay") => replay(&args[2..], scenarios),
        _ => {
            eprintln!("usage: run|replay ...");
            2
        }
    };
    std::process::exit(code)
}

fn run(args: &[String], scenarios: impl Fn(&str, bool) -> Vec<Scenario>) -> i32 {
    let (prop, tier, out, flight) = (&args[0], &args[1], &args[2], &args[3]);
    let secs: u64 = args[4].parse().unwrap();
    let start = Instant::now();
    let ex = Explorer::new(flight, start + Duration::from_secs(secs), || {
        eprintln!("an execution hangs");
        std::process::exit(3)
    });
    let only = std::env::var("VERIF_ONLY").ok();
    let list = scenarios(prop, tier == "thorough");
    if list.is_empty() {
        eprintln!("no scenarios for {}", prop);
        return 2;
    }
    let mut per = Vec::new();
    let mut violations = Vec::new();
    let mut errors = Vec::new();
    for (i, s) in list.iter().enumerate() {
        if only.as_deref().map_or(false, |o| o != s.name) {
            continue;
        }
        let st = ex.explore(i as u32, s);
        eprintln!(
            "{} {}: {} executions, {} distinct states, {} steps, {} choices, depth {}, {} in {:.1}s {:?}",
            prop,
            s.name,
            st.executions,
            st.states,
            st.steps,
            st.choices,
            st.max_depth,
            match (st.complete, st.diverged) {
                (true, _) => "complete".to_string(),
                (_, 0) => "capped".to_string(),
                (_, n) => format!("incomplete ({} diverged)", n),
            },
            st.wall,
            st.outcomes
        );
        for v in &st.violations {
            violations.push(json::obj(&[
                ("scenario", json::s(v.scenario)),
                ("index", i.to_string()),
                ("choices", json::arr(&v.choices, |c| c.to_string())),
                ("message", json::s(&v.message)),
                ("notes", json::arr(&v.notes, |n| json::s(n))),
                ("reproduced", v.reproduced.to_string()),
            ]));
        }
        errors.extend(st.errors.iter().cloned());
        per.push(json::obj(&[
            ("scenario", json::s(s.name)),
            ("about", json::s(&s.about)),
            ("executions", st.executions.to_string()),
            ("distinct_states", st.states.to_string()),
            ("steps", st.steps.to_string()),
            ("choices", st.choices.to_string()),
            ("max_depth", st.max_depth.to_string()),
            ("diverged", st.diverged.to_string()),
            ("exhaustive", st.complete.to_string()),
            ("wall_s", format!("{:.3}", st.wall)),
            (
                "outcomes",
                json::obj(
                    &st.outcomes.iter().map(|(k, v)| (*k, v.to_string())).collect::<Vec<_>>(),
                ),
            ),
            (
                "samples",
                json::arr(&st.samples, |n| json::s(&clip(&n.join("; ")))),
            ),
        ]));
        if !violations.is_empty() || !errors.is_empty() {
            break;
        }
    }
    let doc = json::obj(&[
        ("scenarios", format!("[{}]", per.join(","))),
        ("violations", format!("[{}]", violations.join(","))),
        ("errors", json::arr(&errors, |e| json::s(e))),
    ]);
    std::fs::write(out, doc).unwrap();
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("error: {}", e);
        }
        2
    } else {
        0
    }
}

fn clip(s: &str) -> String {
    let mut out: String = s.chars().take(400).collect();
    if out.len() < s.len() {
        out.push_str("...");
    }
    out
}

fn replay(args: &[String], scenarios: impl Fn(&str, bool) -> Vec<Scenario>) -> i32 {
    let (prop, tier) = (&args[0], &args[1]);
    let index: usize = args[2].parse().unwrap();
    let choices: Vec<u32> =
        args[3].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let flight = format!("{}/replay-{}.flight", std::env::temp_dir().display(), std::process::id());
    let ex = Explorer::new(&flight, Instant::now() + Duration::from_secs(3600), || {
        println!("hangs");
        std::process::exit(3)
    });
    let _ = std::fs::remove_file(&flight);
    let list = scenarios(prop, tier == "thorough");
    let s = &list[index];
    println!("{} {}", prop, s.name);
    let (r, notes) = ex.replay(index as u32, s, &choices);
    for n in notes {
        println!("  {}", n);
    }
    match r {
        Ok(Ok(())) => {
            println!("holds");
            0
        }
        Ok(Err(m)) => {
            println!("violated: {}", m);
            1
        }
        Err(e) => {
            println!("error: {}", e);
            2
        }
    }
}
