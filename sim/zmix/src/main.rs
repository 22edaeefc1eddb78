mod bbsx;
mod circ;
mod delg;
mod primes;
mod ps;
mod smt;
mod venc;
use simcore::{Check, Scenario};
fn main() {
    primes::link_anchor();
    let all = vec![Check {
        property: "C18",
        level: "exploration",
        quick_runs: 3000,
        thorough_runs: 600000,
        scenarios: vec![
            Scenario { name: "bbs-direct", weight: 2, run: bbsx::direct },
            Scenario { name: "bbs-blind", weight: 4, run: bbsx::blind },
            Scenario { name: "bbs-requests", weight: 3, run: bbsx::requests },
            Scenario { name: "bbs-malformed", weight: 2, run: bbsx::malformed_issue },
            Scenario { name: "ps-issue", weight: 4, run: ps::issue },
        ],
        rule: "a run counts when signatures were issued or requests refused (probe recorded); distinct by execution fingerprint",
        real: &["bbs (with its default, parallel, multiplication)", "zmix signatures::ps"],
        stub: &["network", "disk", "randomness", "the thread pool (one thread, the run's own)"],
        assumptions: &["forgeries are searched among alterations and combinations of genuine objects, not proved impossible"],
    }, Check {
        property: "C19",
        level: "exploration",
        quick_runs: 4000,
        thorough_runs: 600000,
        scenarios: vec![
            Scenario { name: "bbs-disclose", weight: 4, run: bbsx::disclose },
            Scenario { name: "bbs-together", weight: 2, run: bbsx::together },
            Scenario { name: "bbs-cheat", weight: 2, run: bbsx::cheat },
            Scenario { name: "bbs-malformed", weight: 2, run: bbsx::malformed_show },
            Scenario { name: "ps-show", weight: 4, run: ps::show },
        ],
        rule: "a run counts when a proof was accepted or refused (probe recorded); distinct by execution fingerprint",
        real: &["bbs (with its default, parallel, multiplication)", "zmix signatures::ps"],
        stub: &["network", "randomness", "the thread pool (one thread, the run's own)"],
        assumptions: &["forgeries are searched among alterations and combinations of genuine objects, not proved impossible"],
    }, Check {
        property: "C20",
        level: "exploration",
        quick_runs: 900,
        thorough_runs: 200000,
        scenarios: vec![
            Scenario { name: "chain", weight: 4, run: delg::chain },
            Scenario { name: "token", weight: 5, run: delg::token },
            Scenario { name: "groth", weight: 2, run: delg::groth },
            Scenario { name: "levels", weight: 1, run: delg::levels },
        ],
        rule: "a run counts when a chain, a token or a signature was verified or refused (probe recorded); distinct by execution fingerprint",
        real: &["zmix signatures::delg_cred_cdd", "zmix commitments::pok_vc"],
        stub: &["network", "randomness"],
        assumptions: &["forgeries are searched among alterations and combinations of genuine objects, not proved impossible", "the commitments sent with a token are recomputed by the verifier, only their number is examined"],
    }, Check {
        property: "C21",
        level: "exploration",
        quick_runs: 1500,
        thorough_runs: 300000,
        scenarios: vec![
            Scenario { name: "sessions", weight: 4, run: venc::sessions },
            Scenario { name: "interactive", weight: 2, run: venc::interactive },
            Scenario { name: "malformed", weight: 2, run: venc::malformed },
        ],
        rule: "a run counts when a proof was verified or refused, or a ciphertext opened or refused (probe recorded); distinct by execution fingerprint",
        real: &["zmix verifiable_encryption", "ursa bn (OpenSSL arithmetic)", "OpenSSL randomness interface over the simulated source"],
        stub: &["network", "disk", "randomness", "search for safe primes (answered from a pool, mostly of small size)"],
        assumptions: &["forgeries are searched among alterations and combinations of genuine objects, not proved impossible", "answers that differ by a multiple of n speak for the same message", "challenges are below n, as a hash is"],
    }, Check {
        property: "C22",
        level: "exploration",
        quick_runs: 6000,
        thorough_runs: 900000,
        scenarios: vec![
            Scenario { name: "long", weight: 12, run: smt::long },
            Scenario { name: "poseidon", weight: 2, run: smt::poseidon },
            Scenario { name: "cube", weight: 1, run: smt::cube },
        ],
        rule: "a run counts when leaves were written or read (probe recorded); distinct by execution fingerprint",
        real: &["bulletproofs_amcl sparse trees of arity 4 and 8", "Poseidon, in a part of the runs", "InMemoryHashDb, in a part of the runs"],
        stub: &["storage (HashDb)", "the tree's hash, in most runs a hash to the field"],
        assumptions: &["nodes are only damaged one at a time", "a write is atomic per node"],
    }, Check {
        property: "C23",
        level: "exploration",
        quick_runs: 1200,
        thorough_runs: 150000,
        scenarios: vec![
            Scenario { name: "sessions", weight: 5, run: circ::sessions },
            Scenario { name: "cheat", weight: 5, run: circ::cheat },
            Scenario { name: "heart", weight: 1, run: circ::heart },
            Scenario { name: "circuits", weight: 4, run: circ::circuits },
            Scenario { name: "inner", weight: 1, run: circ::inner },
        ],
        rule: "a run counts when a statement was proved or refused, or a witness of a false statement was searched (probe recorded); distinct by execution fingerprint",
        real: &["bulletproofs_amcl r1cs, gadgets and inner product argument"],
        stub: &["network", "randomness", "the thread pool (one thread, the run's own)"],
        assumptions: &["witnesses of false statements are searched, not proved impossible", "points not on the curve belong to the curve library"],
    }];
    simcore::main_with(all);
}
