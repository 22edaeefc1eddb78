//! The credential protocols of libursa's portable build, alone and together with the native build.
mod arith;
mod cross;
#[path = "../../ursa/src/cl/mod.rs"]
mod cl;
#[path = "../../ursa/src/primes.rs"]
mod primes;
use simcore::{Check, Scenario};
use {native as _, openssl as _};

fn main() {
    primes::link_anchor();
    openssl::init();
    simcore::main_with(vec![Check {
        property: "C25",
        level: "exploration",
        quick_runs: 400,
        thorough_runs: 120000,
        scenarios: vec![
            Scenario { name: "arithmetic", weight: 20, run: arith::program },
            Scenario { name: "reading", weight: 8, run: arith::reading },
            Scenario { name: "drawing", weight: 6, run: arith::drawing },
            Scenario { name: "parties", weight: 20, run: cross::parties },
            Scenario { name: "sharing", weight: 6, run: cross::sharing },
            Scenario { name: "issue protocol", weight: 3, run: cl::issue::protocol },
            Scenario { name: "issue tampered", weight: 3, run: cl::issue::tampered },
            Scenario { name: "exchange", weight: 3, run: cl::present::exchange },
            Scenario { name: "sweep", weight: 2, run: cl::present::sweep },
            Scenario { name: "altered", weight: 3, run: cl::present::altered },
            Scenario { name: "misused", weight: 2, run: cl::present::misused },
            Scenario { name: "untruthful", weight: 2, run: cl::present::untruthful },
            Scenario { name: "ledger", weight: 2, run: cl::revoc::ledger },
            Scenario { name: "validity", weight: 2, run: cl::revoc::validity },
        ],
        rule: "a run counts when results of the two builds were compared, or a protocol of the portable build ran to a verdict (probe recorded); distinct by execution fingerprint",
        real: &["libursa bn::rust", "libursa bn::openssl", "libursa cl, pair, sharing, both builds"],
        stub: &["operating-system randomness (seeded stream)", "glass_pumpkin: safe-prime search (fixed pool), primality test", "network and storage of the parties"],
        assumptions: &[
            "the native (OpenSSL) build is the reference for what a number operation yields",
            "1024-bit safe primes come from a pool; drawing primes from ranges without any is not examined",
            "the primality test of the pinned glass_pumpkin crate is replaced: its weakness is that of a dependency",
            "encryption, hashing and curve code is the same in both builds but for secp256k1, whose portable form does not compile with the pinned dependencies",
        ],
    }]);
}
