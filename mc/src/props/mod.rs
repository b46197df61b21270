pub mod amm;
pub mod auth;
pub mod config;
pub mod curve_ref;
pub mod events;
pub mod exit;
pub mod factory;
pub mod idle;
pub mod init;
pub mod multihop;
pub mod stable;
pub mod stake;
pub mod stake_rewards;
pub mod taxed;
pub mod token;
pub mod trader;
pub mod vesting;
pub mod xyk;

use crate::explore::*;

pub struct Property {
    pub id: &'static str,
    pub scenarios: fn(Tier) -> Vec<Box<dyn Scenario>>,
    pub assumptions: fn() -> Vec<String>,
}

pub fn host_assumptions() -> Vec<String> {
    vec![
        "The Soroban host (soroban-env-host 22.0.0-rc.3, metering and footprint bookkeeping made cheaper, module cache kept between calls) behaves like the network's.".into(),
        "Only the operations, amounts, participants and depths listed per scenario are explored.".into(),
        "Tokens are the host's Stellar asset contract or the repository's token; no token that calls back, and one that charges for transfers only for what the pools' reserves are (P02, P07).".into(),
    ]
}

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(token::properties());
    v.extend(xyk::properties());
    v.extend(stable::properties());
    v.extend(stake::properties());
    v.extend(vesting::properties());
    v.extend(factory::properties());
    v.extend(multihop::properties());
    v.extend(trader::properties());
    v.extend(stake_rewards::properties());
    v.extend(auth::properties());
    v.extend(init::properties());
    v.extend(idle::properties());
    v.extend(config::properties());
    v.extend(events::properties());
    v.extend(exit::properties());
    v
}
