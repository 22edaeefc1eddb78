pub mod blsm;
pub mod enc;
pub mod fresh;
pub mod kex;
pub mod share;
pub mod sigs;
use simcore::{Check, Scenario};

pub fn checks() -> Vec<Check> {
    vec![Check {
        property: "C11",
        level: "exploration",
        quick_runs: 15000,
        thorough_runs: 2000000,
        scenarios: vec![
            Scenario { name: "streams", weight: 5, run: enc::streams },
            Scenario { name: "vault", weight: 1, run: enc::vault },
        ],
        rule: "a run counts when a stream was encrypted and read back or refused (probe recorded); distinct by execution fingerprint",
        real: &["libursa encryption::symm (all six ciphers, portable implementation)"],
        stub: &["disk (readers and writers)", "randomness"],
        assumptions: &["streams are at most 200 KB (thorough: 1.5 MB) long"],
    }, Check {
        property: "C12",
        level: "exploration",
        quick_runs: 40000,
        thorough_runs: 5000000,
        scenarios: vec![
            Scenario { name: "sealed", weight: 6, run: enc::sealed },
            Scenario { name: "boundary", weight: 1, run: enc::boundary },
            Scenario { name: "malformed", weight: 2, run: enc::malformed },
            Scenario { name: "channel", weight: 2, run: enc::channel },
        ],
        rule: "a run counts when messages were opened or refused (probe recorded); distinct by execution fingerprint",
        real: &["libursa encryption::symm (all six ciphers, portable implementation)"],
        stub: &["network", "randomness"],
        assumptions: &["forgeries are searched among alterations of genuine messages, not proved impossible"],
    }, Check {
        property: "C13",
        level: "exploration",
        quick_runs: 3000,
        thorough_runs: 300000,
        scenarios: vec![
            Scenario { name: "dealing", weight: 3, run: share::dealing },
            Scenario { name: "parameters", weight: 1, run: share::parameters },
            Scenario { name: "generic", weight: 3, run: share::generic },
        ],
        rule: "a run counts when shares were combined or refused (probe recorded); distinct by execution fingerprint",
        real: &["libursa sharing::shamir, bn (OpenSSL)", "ursa_sharing::shamir"],
        stub: &["network", "share storage", "randomness", "field and group of the generic scheme (62-bit prime order, written for the check)"],
        assumptions: &["the moduli given to libursa are prime, as documented"],
    }, Check {
        property: "C14",
        level: "exploration",
        quick_runs: 60000,
        thorough_runs: 6000000,
        scenarios: vec![
            Scenario { name: "verifiable", weight: 5, run: share::verifiable },
            Scenario { name: "dishonest", weight: 1, run: share::dishonest },
        ],
        rule: "a run counts when shares were verified or refused (probe recorded); distinct by execution fingerprint",
        real: &["ursa_sharing::{feldman,pedersen,shamir}"],
        stub: &["network", "storage", "randomness", "field and group (62-bit prime order, written for the check)"],
        assumptions: &["the group and field given by the caller implement their traits correctly"],
    }, Check {
        property: "C15",
        level: "exploration",
        quick_runs: 1500,
        thorough_runs: 200000,
        scenarios: vec![
            Scenario { name: "quorum", weight: 2, run: blsm::quorum },
            Scenario { name: "keys-on-g1", weight: 1, run: blsm::on_g1::run },
            Scenario { name: "keys-on-g2", weight: 1, run: blsm::on_g2::run },
        ],
        rule: "a run counts when signatures were combined and verified or refused (probe recorded); distinct by execution fingerprint",
        real: &["libursa bls and pair (BN254)", "libursa signatures::bls (BLS12-381)"],
        stub: &["network", "disk", "randomness"],
        assumptions: &["forgeries are searched among combinations of genuine objects, not proved impossible"],
    }, Check {
        property: "C16",
        level: "exploration",
        quick_runs: 5000,
        thorough_runs: 1500000,
        scenarios: vec![
            Scenario { name: "signing", weight: 3, run: sigs::signing },
            Scenario { name: "malformed", weight: 1, run: sigs::malformed },
        ],
        rule: "a run counts when signatures or keys were verified or refused (probe recorded); distinct by execution fingerprint",
        real: &["libursa signatures::{ed25519,secp256k1,bls}, keys"],
        stub: &["network", "key storage", "randomness"],
        assumptions: &["OpenSSL is the second implementation of Ed25519 and ECDSA over secp256k1"],
    }, Check {
        property: "C17",
        level: "exploration",
        quick_runs: 8000,
        thorough_runs: 3000000,
        scenarios: vec![
            Scenario { name: "agreement", weight: 3, run: kex::agreement },
            Scenario { name: "malformed", weight: 2, run: kex::malformed },
        ],
        rule: "a run counts when secrets were agreed on or keys refused (probe recorded); distinct by execution fingerprint",
        real: &["libursa kex::{x25519,secp256k1} (default features), signatures::ed25519 conversions, keys"],
        stub: &["network", "key storage", "randomness"],
        assumptions: &["OpenSSL is the second implementation of X25519 and ECDH over secp256k1", "public keys with the same x-coordinate denote the same key for agreement"],
    }, Check {
        property: "C24",
        level: "exploration",
        quick_runs: 1500,
        thorough_runs: 100000,
        scenarios: vec![
            Scenario { name: "repeat", weight: 3, run: fresh::repeat },
            Scenario { name: "source", weight: 2, run: fresh::source },
            Scenario { name: "starved", weight: 3, run: fresh::starved },
            Scenario { name: "presentations", weight: 1, run: fresh::presentations },
        ],
        rule: "a run counts when randomized operations were repeated or starved of randomness (probe recorded); distinct by execution fingerprint",
        real: &["libursa: every randomized operation of cl, bn (OpenSSL), pair, bls, encryption, signatures, kex, sharing"],
        stub: &["the operating system's randomness source"],
        assumptions: &["the source itself delivers independent bytes", "credential keys and registries are loaded, not generated, except where randomness fails"],
    }]
}
