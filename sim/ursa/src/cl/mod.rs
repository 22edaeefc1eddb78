pub mod hostile;
pub mod issue;
pub mod present;
pub mod revoc;
pub mod saveload;
pub mod world;
use simcore::{Check, Scenario};

pub fn checks() -> Vec<Check> {
    vec![Check {
        property: "C01",
        level: "exploration",
        quick_runs: 900,
        thorough_runs: 20000,
        scenarios: vec![
            Scenario { name: "protocol", weight: 3, run: issue::protocol },
            Scenario { name: "tampered", weight: 4, run: issue::tampered },
            Scenario { name: "tampered_revocable", weight: 3, run: issue::tampered_revocable },
            Scenario { name: "rogue_issuer", weight: 3, run: issue::rogue_issuer },
            Scenario { name: "rogue_holder", weight: 2, run: issue::rogue_holder },
        ],
        rule: "a run counts when a credential was accepted, refused or used (probe recorded); distinct by execution fingerprint",
        real: &["libursa cl::{issuer,prover,verifier}", "bn (OpenSSL)", "pair (amcl)"],
        stub: &["network", "tails storage", "randomness", "safe-prime search (pool)"],
        assumptions: &["1024-bit safe primes come from a fixed pool of 32"],
    }, Check {
        property: "C02",
        level: "exploration",
        quick_runs: 300,
        thorough_runs: 20000,
        scenarios: vec![
            Scenario { name: "exchange", weight: 3, run: present::exchange },
            Scenario { name: "sweep", weight: 4, run: present::sweep },
        ],
        rule: "a run counts when a truthful presentation was built and verified (probe recorded); distinct by execution fingerprint",
        real: &["libursa cl::{issuer,prover,verifier}", "bn (OpenSSL)", "pair (amcl)"],
        stub: &["network", "randomness", "safe-prime search (pool)"],
        assumptions: &["credentials come from a pool of 18 genuine ones over 7 issuers and 3 holders"],
    }, Check {
        property: "C03",
        level: "exploration",
        quick_runs: 700,
        thorough_runs: 20000,
        scenarios: vec![
            Scenario { name: "altered", weight: 4, run: present::altered },
            Scenario { name: "misused", weight: 3, run: present::misused },
            Scenario { name: "compensated", weight: 4, run: present::compensated },
            Scenario { name: "untruthful", weight: 3, run: present::untruthful },
        ],
        rule: "a run counts when an altered, compensated, misused or untruthful presentation was put to a verifier (probe recorded); distinct by execution fingerprint",
        real: &["libursa cl::{issuer,prover,verifier}", "bn (OpenSSL)", "pair (amcl)"],
        stub: &["randomness", "safe-prime search (pool)"],
        assumptions: &["forgeries are searched among the listed attack families and single alterations, not proved impossible"],
    }, Check {
        property: "C04",
        level: "exploration",
        quick_runs: 3000,
        thorough_runs: 100000,
        scenarios: vec![Scenario { name: "ledger", weight: 1, run: revoc::ledger }],
        rule: "a run counts when registry operations were applied (probe recorded); distinct by execution fingerprint",
        real: &["libursa cl::{issuer,RevocationRegistryDelta,Witness}", "pair (amcl)"],
        stub: &["network", "ledger of deltas", "tails storage", "randomness", "safe-prime search (pool)"],
        assumptions: &["callers revoke only valid and restore only invalid indices, as the API requires"],
    }, Check {
        property: "C05",
        level: "exploration",
        quick_runs: 200,
        thorough_runs: 10000,
        scenarios: vec![Scenario { name: "validity", weight: 1, run: revoc::validity }],
        rule: "a run counts when a holder's presentation was judged against a registry state (probe recorded); distinct by execution fingerprint",
        real: &["libursa cl::{issuer,prover,verifier,Witness}", "bn (OpenSSL)", "pair (amcl)"],
        stub: &["ledger of deltas", "tails storage", "randomness", "safe-prime search (pool)"],
        assumptions: &["forgeries are searched among the listed attack families, not proved impossible"],
    }, Check {
        property: "C06",
        level: "exploration",
        quick_runs: 500,
        thorough_runs: 40000,
        scenarios: vec![
            Scenario { name: "failing_registry", weight: 4, run: revoc::failing_registry },
            Scenario { name: "failing_issue", weight: 1, run: revoc::failing_issue },
        ],
        rule: "a run counts when an operation failed and was retried (probe recorded); distinct by execution fingerprint",
        real: &["libursa cl::{issuer,prover,RevocationRegistryDelta,Witness}", "bn (OpenSSL)", "pair (amcl)"],
        stub: &["tails storage", "randomness", "safe-prime search (pool)"],
        assumptions: &[],
    }, Check {
        property: "C07",
        level: "exploration",
        quick_runs: 1800,
        thorough_runs: 100000,
        scenarios: vec![
            Scenario { name: "hostile", weight: 5, run: hostile::hostile },
            Scenario { name: "pieces", weight: 1, run: hostile::pieces },
        ],
        rule: "a run counts when a damaged message was put to an operation (probe recorded); distinct by execution fingerprint",
        real: &["libursa cl::*", "bn (OpenSSL)", "pair (amcl)", "serde_json"],
        stub: &["peers", "tails storage", "randomness", "safe-prime search (pool)"],
        assumptions: &["numbers in messages are at most about 2100 decimal digits long", "exhaustion is judged with a 6 GB address-space limit and a 150 s limit per run"],
    }, Check {
        property: "C08",
        level: "exploration",
        quick_runs: 1200,
        thorough_runs: 100000,
        scenarios: vec![
            Scenario { name: "values", weight: 5, run: saveload::values_scenario },
            Scenario { name: "objects", weight: 1, run: saveload::objects },
            Scenario { name: "lifecycle", weight: 2, run: saveload::lifecycle },
            Scenario { name: "bls", weight: 1, run: saveload::bls_objects },
        ],
        rule: "a run counts when something was written out and read back (probe recorded); distinct by execution fingerprint",
        real: &["libursa cl::*, bls, bn (OpenSSL), pair (amcl)", "serde_json"],
        stub: &["storage", "randomness", "safe-prime search (pool)"],
        assumptions: &["the byte form of a big number is its magnitude, as documented"],
    }]
}
