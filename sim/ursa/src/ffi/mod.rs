pub mod abi;
pub mod life;
pub mod misuse;
pub mod simple;
pub mod threads;
use simcore::{Check, Scenario};

pub fn checks() -> Vec<Check> {
    vec![Check {
        property: "C09",
        level: "exploration",
        quick_runs: 600,
        thorough_runs: 30000,
        scenarios: vec![
            Scenario { name: "life", weight: 5, run: life::life },
            Scenario { name: "definitions", weight: 1, run: life::definitions },
            Scenario { name: "documents", weight: 3, run: life::documents },
            Scenario { name: "nulls", weight: 2, run: misuse::nulls },
            Scenario { name: "bls", weight: 2, run: misuse::bls },
            Scenario { name: "encryption", weight: 2, run: simple::encryption },
            Scenario { name: "ed25519", weight: 2, run: simple::ed25519 },
            Scenario { name: "logger", weight: 1, run: simple::logger },
        ],
        rule: "a run counts when calls were compared with the library operation or refused (probe recorded); distinct by execution fingerprint",
        real: &["libursa ffi::{cl,bls,encryption,signatures,logger}", "the library operations behind them"],
        stub: &["C caller (Rust code calling the exported extern functions)", "tails storage callbacks", "randomness", "safe-prime search (pool)"],
        assumptions: &["calls are made from Rust through the exported extern \"C\" functions, not from a compiled C program"],
    }, Check {
        property: "C10",
        level: "exploration",
        quick_runs: 300,
        thorough_runs: 20000,
        scenarios: vec![Scenario { name: "clients", weight: 1, run: threads::clients }],
        rule: "a run counts when 2 to 4 threads ran their scripts in lock-step (probe recorded); distinct by execution fingerprint",
        real: &["libursa ffi::{cl,bls}, errors", "operating-system threads and thread-local storage"],
        stub: &["thread scheduling (lock-step, at every call, storage callback and random draw)", "tails storage callbacks", "randomness"],
        assumptions: &["threads switch only between calls, in storage callbacks and at random draws, not between any two instructions"],
    }]
}
