pub mod driver;
pub mod entropy;
pub mod mutate;
pub mod net;
pub mod sim;
pub mod threads;

pub use driver::{main_with, Check, Scenario};
pub use net::{Msg, Net, NetCfg};
pub use serde_json as json;
pub use sim::{Panicked, Sim, Tier, Violation};
