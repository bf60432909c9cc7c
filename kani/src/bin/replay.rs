//! Runs obligations natively on concrete choices.
//!
//! - `replay run NAME c1,c2,...`: exit 1 if the obligation fails on these choices
//! - `replay search SECONDS SEED NAME...`: enumerates all choices of each obligation (or samples them, if
//!   there are too many); prints `FOUND NAME c1,c2,... | message` for the first failure of each
//!   (to the standard error: what is run may print as well).

use std::{
    panic,
    sync::Mutex,
    time::{Duration, Instant},
};

use bverif::choice::{Concrete, Discarded, Next, Obligation};

static MESSAGE: Mutex<String> = Mutex::new(String::new());

enum Outcome {
    Held,
    Discarded,
    Failed(String),
}

fn run(ob: &Obligation, mut input: Concrete) -> (Outcome, Concrete) {
    let result = panic::catch_unwind(panic::AssertUnwindSafe(|| (ob.run)(&mut input)));
    let outcome = match result {
        Ok(()) => Outcome::Held,
        Err(payload) if payload.is::<Discarded>() => Outcome::Discarded,
        Err(_) => Outcome::Failed(MESSAGE.lock().unwrap().clone()),
    };
    (outcome, input)
}

fn join(choices: &[u32]) -> String {
    choices.iter().map(u32::to_string).collect::<Vec<_>>().join(",")
}

fn main() {
    panic::set_hook(Box::new(|info| {
        if info.payload().is::<Discarded>() {
            return;
        }
        if let Ok(mut message) = MESSAGE.lock() {
            *message = info.to_string().replace('\n', " ");
        }
    }));

    let args: Vec<String> = std::env::args().skip(1).collect();
    let table = bverif::table();
    let find = |name: &str| {
        table.iter().find(|ob| ob.name == name).unwrap_or_else(|| {
            eprintln!("no such obligation: {name}");
            std::process::exit(3)
        })
    };

    match args[0].as_str() {
        "list" => table.iter().for_each(|ob| println!("{}", ob.name)),
        "run" => {
            let choices = args[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            match run(find(&args[1]), Concrete::new(choices, Next::Zero)) {
                (Outcome::Held, _) => println!("held"),
                (Outcome::Discarded, _) => println!("outside of the precondition"),
                (Outcome::Failed(message), input) => {
                    println!("FAILED {} {} | {message}", args[1], join(&input.choices));
                    std::process::exit(1);
                }
            }
        }
        "search" => {
            let seconds: f64 = args[1].parse().unwrap();
            let seed: u64 = args[2].parse().unwrap();
            let mut found = false;
            for name in &args[3..] {
                let ob = find(name);
                let (mut runs, mut held) = (0u64, 0u64);
                let mut failure = None;
                let mut complete = false;
                // First half of the time: enumerate. Second half: sample.
                let start = Instant::now();
                let mut prefix = Vec::new();
                while start.elapsed() < Duration::from_secs_f64(seconds / 2.0) {
                    let (outcome, input) = run(ob, Concrete::new(prefix.clone(), Next::Zero));
                    runs += 1;
                    match outcome {
                        Outcome::Failed(message) => {
                            failure = Some((input.choices, message));
                            break;
                        }
                        Outcome::Held => held += 1,
                        Outcome::Discarded => (),
                    }
                    let mut choices = input.choices[..input.position].to_vec();
                    while let Some(last) = choices.pop() {
                        if last + 1 < input.bounds[choices.len()] {
                            choices.push(last + 1);
                            break;
                        }
                    }
                    if choices.is_empty() {
                        complete = true;
                        break;
                    }
                    prefix = choices;
                }
                let mut state = seed;
                while failure.is_none() && !complete && start.elapsed() < Duration::from_secs_f64(seconds) {
                    state = state.wrapping_add(1);
                    let (outcome, input) = run(ob, Concrete::new(Vec::new(), Next::Random(state.wrapping_mul(0x2545_F491_4F6C_DD1D))));
                    runs += 1;
                    match outcome {
                        Outcome::Failed(message) => failure = Some((input.choices, message)),
                        Outcome::Held => held += 1,
                        Outcome::Discarded => (),
                    }
                }
                match failure {
                    Some((choices, message)) => {
                        found = true;
                        eprintln!("FOUND {name} {} | {message}", join(&choices));
                    }
                    None => eprintln!("NONE {name} runs={runs} held={held} complete={complete}"),
                }
            }
            std::process::exit(found as i32);
        }
        other => {
            eprintln!("unknown command {other}");
            std::process::exit(3)
        }
    }
}
