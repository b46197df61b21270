//! Who can do what. Every function every contract exports (read from the wasm) is called with every
//! combination of a small set of values for its parameters, in a whole system in use. The host
//! records who has to sign each call; what the call changed has to be theirs to change.
use super::{factory::Ask, host_assumptions, Property};
use crate::explore::*;
use crate::iface::{self, Iface};
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use soroban_env_host::xdr::{LedgerKey, Limits, ReadXdr, ScSpecTypeDef, ScVal};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn properties() -> Vec<Property> {
    vec![Property { id: "P22", scenarios, assumptions: host_assumptions }]
}

// Every contract of the system has an administrator of its own.
const FADM: u8 = 11;
const PADM: u8 = 12;
const SADM: u8 = 13;
const XADM: u8 = 14;
const TRADM: u8 = 15;
const VADM: u8 = 16;
const RADM: u8 = 17;
const MINTER: u8 = 18;
const STAKING: u8 = 30;
const PEOPLE: [u8; 17] = [ADMIN, U1, U2, U3, FEE, ATT, MGR, OWNER, FADM, PADM, SADM, XADM, TRADM, VADM, RADM, MINTER, STAKING];
const SPENDERS: [u8; 6] = [ATT, U1, U2, U3, MGR, ADMIN];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
    Token,
    Pool,
    Stable,
    Stake,
    Rewards,
    Factory,
    Multihop,
    Trader,
    Vesting,
}
pub const WASM: [(K, &str); 9] = [
    (K::Token, "soroban_token_contract"),
    (K::Pool, "phoenix_pool"),
    (K::Stable, "phoenix_pool_stable"),
    (K::Stake, "phoenix_stake"),
    (K::Rewards, "phoenix_stake_rewards"),
    (K::Factory, "phoenix_factory"),
    (K::Multihop, "phoenix_multihop"),
    (K::Trader, "phoenix_trader"),
    (K::Vesting, "phoenix_vesting"),
];

/// One contract of the system, and who has which say in it.
#[derive(Clone, Debug)]
pub struct Con {
    pub k: K,
    pub name: String,
    pub addr: Addr,
    pub admin: Addr,
    /// of a staking contract: manager and owner; of the factory: the whitelist; of vesting: the minter
    pub others: Vec<Addr>,
}

pub struct Call {
    pub con: usize,
    pub f: String,
    pub args: Vec<ScVal>,
    /// also made after other calls
    pub again: bool,
}

pub struct C {
    pub cons: Vec<Con>,
    /// index of the token contracts
    pub tokens: Vec<usize>,
    pub v2: BTreeMap<K, [u8; 32]>,
    pub calls: Vec<Call>,
    pub unknown: Vec<String>,
}

/// What is looked at before and after every call.
#[derive(PartialEq)]
pub struct Obs {
    /// (token, holder)
    pub bal: BTreeMap<(usize, Addr), i128>,
    pub allow: BTreeMap<(usize, u8, u8), i128>,
    /// (staking contract, user): stakes, withdrawable rewards
    pub stakes: BTreeMap<(usize, u8), (ScVal, BTreeMap<Addr, i128>)>,
    pub rewards: BTreeMap<u8, i128>,
    pub vest: BTreeMap<u8, Vec<ScVal>>,
    /// what is set up in a contract, including who its administrators prove to be
    pub config: Vec<Vec<ScVal>>,
    pub code: Vec<Option<[u8; 32]>>,
    pub product: BTreeMap<usize, (i128, i128, i128)>,
}

#[derive(Clone)]
pub struct M {
    depth: usize,
    obs: Arc<Obs>,
    data: Arc<BTreeMap<Vec<u8>, Vec<u8>>>,
}
impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.depth)
    }
}

#[derive(Clone)]
pub struct Op {
    i: usize,
    text: String,
}
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.text)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum When {
    InUse,
    HandedOver,
    Later,
}

pub struct Auth {
    pub when: When,
    pub depth: (usize, usize),
}

fn bonding(stakes: &[(i128, u64)]) -> ScVal {
    let l: Vec<ScVal> = stakes.iter().map(|s| structv(vec![("stake", i128v(s.0)), ("stake_timestamp", u64v(s.1))])).collect();
    structv(vec![
        ("stakes", vecv(l)),
        ("reward_debt", u128v(0)),
        ("last_reward_time", u64v(0)),
        ("total_stake", i128v(stakes.iter().map(|s| s.0).sum())),
    ])
}

const T0: u64 = 1_000_000;
/// stakes at the reward contract
const R_STAKES: [(i128, u64); 1] = [(3_000, T0)];

fn curve(from: u64, y: u128, to: u64) -> ScVal {
    enumv("SaturatingLinear", vec![structv(vec![("min_x", u64v(from)), ("min_y", u128v(y)), ("max_x", u64v(to)), ("max_y", u128v(0))])])
}
fn schedule(who: u8, from: u64, y: u128, to: u64) -> ScVal {
    structv(vec![("recipient", a(who)), ("curve", curve(from, y, to))])
}

impl Auth {
    /// The values a parameter is tried with, the usual ones first.
    fn values(&self, w: &World, c: &C, con: &Con, f: &Iface, name: &str, t: &ScSpecTypeDef, deep: usize) -> Option<Vec<ScVal>> {
        let tok = |i: usize| addr(&c.cons[c.tokens[i]].addr);
        let has = |l: &[&str]| l.iter().any(|s| name.contains(s));
        Some(match t {
            ScSpecTypeDef::Address => {
                if has(&["pool"]) {
                    c.cons.iter().filter(|x| matches!(x.k, K::Pool | K::Stable)).map(|x| addr(&x.addr)).collect()
                } else if has(&["asset", "token", "offer", "ask", "pair"]) {
                    (0..c.tokens.len()).map(tok).collect()
                } else {
                    let mut v = vec![actor(ATT), actor(U1)];
                    if con.k == K::Token {
                        v.push(actor(U2));
                        v.extend(c.cons.iter().filter(|x| matches!(x.k, K::Pool | K::Stake | K::Vesting)).take(3).map(|x| x.addr.clone()));
                    }
                    if con.k == K::Rewards {
                        v.push(actor(STAKING));
                    }
                    v.push(con.admin.clone());
                    v.extend(con.others.iter().cloned());
                    if self.when == When::HandedOver {
                        v.extend([PADM, MINTER, ADMIN, SADM].map(actor));
                    }
                    let mut seen = BTreeSet::new();
                    v.retain(|x| seen.insert(x.clone()));
                    v.iter().map(addr).collect()
                }
            }
            ScSpecTypeDef::I128 => {
                let mut v = vec![i128v(400), i128v(1_000), i128v(1), i128v(0), i128v(-400), i128v(10i128.pow(30))];
                if has(&["min"]) {
                    v = vec![i128v(0), i128v(1)];
                }
                if con.k == K::Stake || con.k == K::Rewards {
                    v.push(i128v(R_STAKES[0].0));
                }
                v
            }
            ScSpecTypeDef::U128 => vec![u128v(400), u128v(0), u128v(1_000_000), u128v(10_000)],
            ScSpecTypeDef::U64 => {
                if has(&["index"]) {
                    vec![u64v(0), u64v(1)]
                } else if has(&["timestamp"]) {
                    vec![u64v(T0), u64v(T0 + 5)]
                } else if has(&["deadline"]) {
                    vec![u64v(T0 + 10_000_000)]
                } else if has(&["start"]) {
                    vec![u64v(w.ts()), u64v(w.ts() + 100)]
                } else {
                    vec![u64v(100), u64v(0), u64v(1)]
                }
            }
            ScSpecTypeDef::U32 => {
                if has(&["expiration"]) {
                    vec![u32v(w.clock().seq + 5_000), u32v(0)]
                } else {
                    vec![u32v(7), u32v(0)]
                }
            }
            // among them the values in force
            ScSpecTypeDef::I64 => vec![i64v(1_000), i64v(0), i64v(-1), i64v(10_000), i64v(2_500), i64v(30)],
            ScSpecTypeDef::Bool => vec![boolv(true), boolv(false)],
            ScSpecTypeDef::String => vec![string("text")],
            ScSpecTypeDef::BytesN(_) => {
                // no code that is not the contract's own: what it does is up to who puts it there
                let mut v = vec![bytes(&c.v2[&con.k])];
                let named = [("stable", K::Stable), ("stake", K::Stake), ("token", K::Token), ("multihop", K::Multihop), ("lp_", K::Pool)];
                if let Some((_, k)) = named.iter().find(|(n, _)| has(&[n])) {
                    v = vec![bytes(&c.v2[k])];
                }
                if con.k == K::Factory && deep > 0 {
                    v.push(bytes(&c.v2[&K::Token]));
                }
                v.push(bytes(&[3; 32]));
                v.extend(w.code_of(&con.addr).map(|h| bytes(&h)));
                v
            }
            ScSpecTypeDef::Option(o) => {
                let mut v = vec![void()];
                v.extend(self.values(w, c, con, f, name, &o.value_type, deep + 1)?);
                v
            }
            ScSpecTypeDef::Vec(l) => match self.values(w, c, con, f, name, &l.element_type, deep + 1) {
                Some(v) => std::iter::once(vecv(vec![])).chain(v.into_iter().map(|x| vecv(vec![x]))).collect(),
                None => return None,
            },
            ScSpecTypeDef::Tuple(l) => (0..2)
                .map(|shift| {
                    let mut v: Vec<ScVal> = vec![];
                    for (i, t) in l.value_types.iter().enumerate() {
                        let x = self.values(w, c, con, f, name, t, deep + 1)?;
                        v.push(x[(i + shift).min(x.len() - 1)].clone());
                    }
                    Some(vecv(v))
                })
                .collect::<Option<Vec<_>>>()?,
            ScSpecTypeDef::Udt(u) => {
                let n = u.name.to_utf8_string_lossy();
                let t: Vec<Addr> = c.tokens.iter().map(|i| c.cons[*i].addr.clone()).collect();
                match n.as_str() {
                    "LiquidityPoolInitInfo" => vec![Ask { admin: ATT, ..Ask::new(0, 2, false) }.info(&t), Ask { admin: U1, ..Ask::new(1, 2, true) }.info(&t)],
                    "Swap" => {
                        let s = |i: usize, j: usize| structv(vec![("offer_asset", tok(i)), ("ask_asset", tok(j)), ("ask_asset_min_amount", void())]);
                        vec![s(0, 1), s(1, 0), s(1, 2), s(2, 1), s(0, 2)]
                    }
                    "VestingTokenInfo" => (0..2).map(|i| structv(vec![("name", string("Vest")), ("symbol", string("VST")), ("decimals", u32v(7)), ("address", tok(c.tokens.len() - 1 - i))])).collect(),
                    "VestingSchedule" => vec![schedule(ATT, w.ts(), 400, w.ts() + 100), schedule(U1, w.ts() + 1, 100, w.ts() + 50)],
                    "BondingInfo" => vec![bonding(&R_STAKES), bonding(&[]), bonding(&[(1_000_000, 0)]), bonding(&[R_STAKES[0], (2_000, w.ts())])],
                    _ => {
                        if let Some(v) = f.enums.get(&n) {
                            v.iter().map(|x| u32v(*x)).collect()
                        } else if let Some(fields) = f.structs.get(&n) {
                            if deep > 4 {
                                return None;
                            }
                            // all the fields at their first values, at their second, ...
                            let mut per: Vec<(String, Vec<ScVal>)> = vec![];
                            for (n, t) in fields {
                                per.push((n.clone(), self.values(w, c, con, f, n, t, deep + 1)?));
                            }
                            (0..2)
                                .map(|i| structv(per.iter().map(|(n, v)| (n.as_str(), v[i.min(v.len() - 1)].clone())).collect()))
                                .collect()
                        } else {
                            return None;
                        }
                    }
                }
            }
            _ => return None,
        })
    }

    /// Every combination of the values of the parameters that are needed, and the optional ones one at a time.
    pub fn calls(&self, w: &World, c: &mut C) {
        let mut out = vec![];
        let mut unknown = vec![];
        for (n, con) in c.cons.iter().enumerate() {
            let f = iface::read(&wasm(WASM.iter().find(|x| x.0 == con.k).unwrap().1));
            for (name, inputs) in &f.fns {
                if name.starts_with("__") {
                    continue;
                }
                let mut vals = vec![];
                for (p, t) in inputs {
                    vals.push(self.values(w, c, con, &f, p, t, 0));
                }
                if vals.iter().any(|v| v.is_none()) {
                    unknown.push(format!("{}.{name}", con.name));
                    continue;
                }
                let vals: Vec<Vec<ScVal>> = vals.into_iter().map(|v| v.unwrap()).collect();
                let optional: Vec<bool> = inputs.iter().map(|(p, t)| matches!(t, ScSpecTypeDef::Option(_)) && !p.contains("desired")).collect();
                let needed: Vec<usize> = (0..vals.len()).filter(|i| !optional[*i]).collect();
                // the number of values of each is lowered until there are not too many combinations
                let mut take: Vec<usize> = vals.iter().map(|v| v.len()).collect();
                if name == "create_liquidity_pool" {
                    // it leads to a state each time
                    for i in 0..vals.len() {
                        take[i] = take[i].min(if matches!(inputs[i].1, ScSpecTypeDef::I64) { 1 } else { 2 });
                    }
                    for i in 0..vals.len() {
                        if matches!(inputs[i].1, ScSpecTypeDef::Address) {
                            take[i] = vals[i].len();
                        }
                    }
                }
                loop {
                    let total: usize = needed.iter().map(|i| take[*i]).product();
                    if total <= 1_300 {
                        break;
                    }
                    // addresses last
                    let is_addr = |i: usize| matches!(inputs[i].1, ScSpecTypeDef::Address);
                    let m = *needed.iter().max_by_key(|i| (if is_addr(**i) { take[**i] / 2 } else { take[**i] }, **i)).unwrap();
                    take[m] -= 1;
                }
                let mut combos: Vec<Vec<usize>> = vec![vec![0; vals.len()]];
                for &i in &needed {
                    combos = combos.iter().flat_map(|x| (0..take[i]).map(move |j| { let mut y = x.clone(); y[i] = j; y })).collect();
                }
                let mut picks: Vec<Vec<usize>> = vec![];
                for x in combos {
                    picks.push(x.clone());
                    // the optional ones, with the first two values of all but the addresses
                    if needed.iter().all(|i| x[*i] < 2 || matches!(inputs[*i].1, ScSpecTypeDef::Address)) {
                        for i in 0..vals.len() {
                            if optional[i] {
                                for j in 1..take[i] {
                                    let mut y = x.clone();
                                    y[i] = j;
                                    picks.push(y);
                                }
                            }
                        }
                    }
                }
                for x in picks {
                    let again = x.iter().enumerate().all(|(i, j)| *j < 2 || matches!(inputs[i].1, ScSpecTypeDef::Address) && name != "create_liquidity_pool") && name != "simulate_swap" && name != "simulate_reverse_swap" && !name.starts_with("query");
                    out.push(Call { con: n, f: name.clone(), args: x.iter().enumerate().map(|(i, j)| vals[i][*j].clone()).collect(), again });
                }
            }
        }
        c.calls = out;
        c.unknown = unknown;
    }

    /// Who may make this call. None: anybody who signs.
    fn roles(&self, con: &Con, f: &str) -> Option<Vec<Addr>> {
        let admin = Some(vec![con.admin.clone()]);
        let nobody = Some(vec![]);
        match (con.k, f) {
            (_, "initialize") | (_, "initialize_with_minter") => nobody,
            (K::Token, "mint" | "set_admin") => admin,
            (K::Token, _) => None,
            (_, "update" | "upgrade") => admin,
            (K::Pool | K::Stable, "update_config") => admin,
            (K::Stake, "create_distribution_flow" | "distribute_rewards") => Some(con.others.clone()),
            (K::Rewards, x) if !x.starts_with("query") => Some(vec![actor(STAKING)]),
            (K::Factory, "create_liquidity_pool") => Some(con.others.clone()),
            (K::Factory, "update_whitelisted_accounts" | "update_wasm_hashes") => admin,
            (K::Trader, "trade_token" | "transfer") => admin,
            (K::Vesting, "create_vesting_schedules" | "update_minter_capacity") => admin,
            (K::Vesting, "mint" | "update_minter") => Some(con.others.clone()),
            _ => None,
        }
    }

    /// Who proves to be able to make a call: those who have to sign it, or, where the caller names
    /// himself, those who are let through.
    fn proven(&self, w: &World, con: &Con, c: &C) -> Vec<ScVal> {
        let s = w.snapshot();
        let sign = |f: &str, args: Vec<ScVal>| -> ScVal {
            let r = w.call(&con.addr, f, args);
            let v = if r.is_ok() { vecv(w.signers().iter().map(addr).collect()) } else { void() };
            w.restore(&s);
            v
        };
        let named = |f: &str, args: &dyn Fn(ScVal) -> Vec<ScVal>| -> ScVal {
            let mut l = vec![];
            for u in PEOPLE {
                if w.call(&con.addr, f, args(a(u))).is_ok() {
                    l.push(a(u));
                }
                w.restore(&s);
            }
            vecv(l)
        };
        let v2 = bytes(&c.v2[&con.k]);
        match con.k {
            K::Token => vec![sign("mint", vec![a(U3), i128v(1)])],
            K::Pool => vec![sign("update_config", vec![void(); 6]), sign("update", vec![v2])],
            K::Stable => vec![named("update_config", &|u| vec![u, void(), void(), void(), void(), void()]), sign("update", vec![v2])],
            K::Stake | K::Rewards | K::Multihop => vec![sign("update", vec![v2])],
            K::Vesting => vec![sign("update", vec![v2]), named("update_minter_capacity", &|u| vec![u, u128v(1)]), named("update_minter", &|u| vec![u, a(U3)])],
            K::Factory => vec![sign("update", vec![v2, bytes(&c.v2[&K::Stable])]), sign("update_wasm_hashes", vec![void(); 3]), named("update_whitelisted_accounts", &|u| vec![u, vecv(vec![]), vecv(vec![])])],
            K::Trader => vec![],
        }
    }

    /// What has to do with contracts without a changed entry is as it was before.
    pub fn observe(&self, w: &World, c: &C, before: Option<(&Obs, &BTreeSet<Addr>)>) -> Obs {
        let old = |x: &Addr| before.filter(|(_, ch)| !ch.contains(x)).map(|(o, _)| o);
        let q = |x: &Addr, f: &str, args: Vec<ScVal>| w.query(x, f, args).unwrap_or(ScVal::Void);
        let mut holders: Vec<Addr> = PEOPLE.map(actor).to_vec();
        holders.extend(c.cons.iter().filter(|x| x.k != K::Token).map(|x| x.addr.clone()));
        let mut o = Obs { bal: BTreeMap::new(), allow: BTreeMap::new(), stakes: BTreeMap::new(), rewards: BTreeMap::new(), vest: BTreeMap::new(), config: vec![], code: vec![], product: BTreeMap::new() };
        for &t in &c.tokens {
            for h in &holders {
                if let Some(b) = old(&c.cons[t].addr) {
                    o.bal.insert((t, h.clone()), b.bal[&(t, h.clone())]);
                    continue;
                }
                o.bal.insert((t, h.clone()), w.balance(&c.cons[t].addr, h));
            }
        }
        for &t in [c.tokens.first(), c.tokens.get(3)].into_iter().flatten() {
            for f in [U1, U2, ATT] {
                for s in SPENDERS {
                    if let (true, Some(b)) = (f != s, old(&c.cons[t].addr)) {
                        o.allow.insert((t, f, s), b.allow[&(t, f, s)]);
                        continue;
                    }
                    if f != s {
                        o.allow.insert((t, f, s), w.query(&c.cons[t].addr, "allowance", vec![a(f), a(s)]).map(|v| v.i128()).unwrap_or(-1));
                    }
                }
            }
        }
        for (n, x) in c.cons.iter().enumerate() {
            match x.k {
                K::Stake => {
                    for u in [U1, U2, ATT] {
                        if let Some(b) = old(&x.addr) {
                            o.stakes.insert((n, u), b.stakes[&(n, u)].clone());
                            continue;
                        }
                        let r = q(&x.addr, "query_withdrawable_rewards", vec![a(u)]);
                        let r = r.try_field("rewards").map(|v| v.list()).unwrap_or_default();
                        let r = r.iter().map(|e| (e.field("reward_address").address(), e.field("reward_amount").i128())).collect();
                        let s = q(&x.addr, "query_staked", vec![a(u)]);
                        let s = vecv(vec![s.try_field("stakes").cloned().unwrap_or(ScVal::Void), s.try_field("total_stake").cloned().unwrap_or(ScVal::Void)]);
                        o.stakes.insert((n, u), (s, r));
                    }
                }
                K::Rewards => {
                    let r = w.query(&x.addr, "query_withdrawable_reward", vec![a(U1), bonding(&R_STAKES)]);
                    o.rewards.insert(U1, r.map(|v| v.field("reward_amount").i128()).unwrap_or(-1));
                }
                K::Vesting => {
                    for u in [U1, U2, ATT] {
                        let r = q(&x.addr, "query_all_vesting_info", vec![a(u)]);
                        o.vest.insert(u, if let ScVal::Vec(_) = r { r.list() } else { vec![] });
                    }
                }
                K::Pool => {
                    let i = q(&x.addr, "query_pool_info", vec![]);
                    let g = |f: &str| i.try_field(f).map(|v| v.field("amount").i128()).unwrap_or(-1);
                    o.product.insert(n, (g("asset_a"), g("asset_b"), g("asset_lp_share")));
                }
                _ => {}
            }
            o.code.push(w.code_of(&x.addr));
            if let Some(b) = old(&x.addr) {
                o.config.push(b.config[n].clone());
                continue;
            }
            let names: &[&str] = match x.k {
                K::Token => &["decimals", "name", "symbol"],
                K::Pool | K::Stable => &["query_config"],
                K::Stake | K::Rewards => &["query_config", "query_admin"],
                K::Factory => &["get_config", "get_admin", "query_pools"],
                K::Trader => &["query_trading_pairs", "query_admin_address", "query_contract_name", "query_output_token_info"],
                K::Vesting => &["query_token_info", "query_minter"],
                K::Multihop => &[],
            };
            let mut v: Vec<ScVal> = names.iter().map(|f| q(&x.addr, f, vec![])).collect();
            v.extend(self.proven(w, x, c));
            o.config.push(v);
        }
        o
    }

    fn judge(&self, c: &C, call: &Call, s: &BTreeSet<Addr>, b: &Obs, n: &Obs, o: &mut Out) {
        let con = &c.cons[call.con];
        let what = || format!("{}.{}({}) signed by {:?}", con.name, call.f, call.args.iter().map(show).collect::<Vec<_>>().join(", "), s.iter().map(short).collect::<Vec<_>>());
        let signed = |u: u8| s.contains(&actor(u));
        o.check(!s.is_empty(), "auth/nobody", || format!("{} changes the ledger", what()));
        for (k, x) in c.cons.iter().enumerate() {
            let say = s.contains(&x.admin) || x.others.iter().any(|p| s.contains(p));
            if b.config[k] != n.config[k] || b.code[k] != n.code[k] {
                // the capacity of a minter, the pools of a factory are used by those who have a say, too
                o.check(say, "auth/config", || format!("{}: the settings of {} were {}, are {}", what(), x.name, show(&vecv(b.config[k].clone())), show(&vecv(n.config[k].clone()))));
            }
        }
        for (key, was) in &b.bal {
            let (t, h) = key;
            let is = n.bal[key];
            if is >= *was || s.contains(h) {
                continue;
            }
            let lost = was - is;
            if let Some(x) = PEOPLE.iter().find(|u| actor(**u) == *h) {
                let by: i128 = SPENDERS.iter().filter(|u| signed(**u)).map(|u| b.allow.get(&(*t, *x, *u)).unwrap_or(&0) - n.allow.get(&(*t, *x, *u)).unwrap_or(&0)).sum();
                o.check(by >= lost, "auth/taken", || format!("{}: takes {lost} {} of {}, who allowed {by} of it", what(), c.cons[*t].name, short(h)));
                continue;
            }
            // a contract pays
            let from = c.cons.iter().find(|x| x.addr == *h).unwrap();
            let signers_got: i128 = s.iter().filter(|p| b.bal.contains_key(&(*t, (*p).clone()))).map(|p| n.bal[&(*t, p.clone())] - b.bal[&(*t, p.clone())]).sum();
            let fee = n.bal[&(*t, actor(FEE))] - b.bal[&(*t, actor(FEE))];
            let ok = match from.k {
                K::Pool | K::Stable => call.f == "swap" && con.k == K::Multihop || signers_got + if signed(FEE) { 0 } else { fee } >= lost || s.iter().any(|p| c.cons.iter().any(|x| x.k == K::Trader && x.admin == *p)),
                K::Stake | K::Vesting => signers_got >= lost,
                K::Trader => s.contains(&from.admin),
                K::Rewards => signed(STAKING),
                _ => false,
            };
            o.check(ok, "auth/paid-out", || format!("{}: {} loses {lost} {}, the signers get {signers_got}", what(), from.name, c.cons[*t].name));
        }
        for ((t, f, sp), was) in &b.allow {
            let is = n.allow[&(*t, *f, *sp)];
            if is != *was && !signed(*f) {
                o.check(is < *was && signed(*sp), "auth/allowance", || format!("{}: {} of {f} allowed to {sp} was {was}, is {is}", what(), c.cons[*t].name));
            }
        }
        for ((k, u), (st, rw)) in &b.stakes {
            if signed(*u) {
                continue;
            }
            let (st2, rw2) = &n.stakes[&(*k, *u)];
            o.check(st == st2, "auth/stakes", || format!("{}: stakes of {u} in {} were {}, are {}", what(), c.cons[*k].name, show(st), show(st2)));
            for (x, was) in rw {
                o.check(rw2.get(x).unwrap_or(&0) >= was, "auth/rewards", || format!("{}: {u} could withdraw {was} from {}, now {:?}", what(), c.cons[*k].name, rw2.get(x)));
            }
        }
        for (u, was) in &b.rewards {
            o.check(n.rewards[u] >= *was || signed(STAKING), "auth/rewards", || format!("{}: {u} could withdraw {was}, now {}", what(), n.rewards[u]));
        }
        for (u, was) in &b.vest {
            if !signed(*u) {
                o.check(n.vest[u].starts_with(was), "auth/vesting", || format!("{}: vesting of {u} was {}, is {}", what(), show(&vecv(was.clone())), show(&vecv(n.vest[u].clone()))));
            }
        }
        for (k, (x, y, l)) in &b.product {
            let (x2, y2, l2) = &n.product[k];
            // up to the rounding of what is paid out
            let before = big(*x) * big(*y) * big(*l2) * big(*l2);
            let after = big(*x2 + 1) * big(*y2 + 1) * big(*l) * big(*l);
            o.check(after >= before || s.contains(&c.cons[*k].admin), "auth/pool-value", || format!("{}: {} had {x}, {y} for {l} shares, now {x2}, {y2} for {l2}", what(), c.cons[*k].name));
        }
        // nothing is made from nothing
        for &t in &c.tokens {
            let sum = |o: &Obs| o.bal.iter().filter(|(k, _)| k.0 == t).map(|(_, v)| *v).sum::<i128>();
            let adm = &c.cons[t].admin;
            let issuer = c.cons.iter().position(|x| x.addr == *adm);
            let ok = match issuer {
                None => s.contains(adm),
                Some(p) => match c.cons[p].k {
                    K::Pool | K::Stable => call.con == p,
                    _ => c.cons[p].others.iter().any(|x| s.contains(x)) || s.contains(&c.cons[p].admin),
                },
            };
            o.check(sum(n) <= sum(b) || ok, "auth/made", || format!("{}: there are {} more of {}", what(), sum(n) - sum(b), c.cons[t].name));
        }
    }
}

impl Spec for Auth {
    type C = C;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        format!("{:?}", self.when)
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.depth.0 } else { self.depth.1 }
    }
    fn key(&self, _m: &M) -> String {
        String::new()
    }
    fn setup(&self, w: &World) -> C {
        let h: BTreeMap<K, [u8; 32]> = WASM.iter().map(|(k, n)| (*k, w.upload(n))).collect();
        let v2: BTreeMap<K, [u8; 32]> = WASM.iter().map(|(k, n)| (*k, w.upload_bytes(super::factory::other(n)))).collect();
        let mut cons: Vec<Con> = vec![];
        let mut t: Vec<Addr> = (1..=3).map(|s| token(w, h[&K::Token], s, 7)).collect();
        t.sort();
        for x in &t {
            for u in [U1, U2, ADMIN, MGR, RADM, ATT] {
                mint(w, x, u, 1_000_000_000);
            }
        }
        let con = |k: K, name: &str, addr: &Addr, admin: Addr, others: Vec<u8>| Con { k, name: name.into(), addr: addr.clone(), admin, others: others.into_iter().map(actor).collect() };
        for (i, x) in t.iter().enumerate() {
            cons.push(con(K::Token, &format!("token {i}"), x, actor(ADMIN), vec![]));
        }
        // factory and two pools
        let f = w.create(h[&K::Factory], 77, vec![]);
        w.call(&f, "initialize", vec![a(FADM), bytes(&h[&K::Multihop]), bytes(&h[&K::Pool]), bytes(&h[&K::Stable]), bytes(&h[&K::Stake]), bytes(&h[&K::Token]), vecv(vec![a(FADM), a(OWNER)]), u32v(7)]).expect("factory initialize");
        let hop = w.call(&f, "get_config", vec![]).unwrap().field("multihop_address").address();
        let mut lps = vec![];
        let mut rest = vec![];
        let mut pools = vec![];
        for (n, (i, j, stable, adm)) in [(0, 1, false, PADM), (1, 2, true, SADM), (0, 2, false, XADM)].into_iter().enumerate() {
            let k = Ask { admin: adm, slip: 10_000, ..Ask::new(i, j, stable) };
            let p = if n == 2 {
                // not the factory's: its staking contract has an owner who can sign
                let p = w.create(h[&K::Pool], 210, vec![]);
                w.call(&p, "initialize", vec![bytes(&h[&K::Stake]), bytes(&h[&K::Token]), k.info(&t), a(OWNER), u32v(7), string("Pool"), string("LP"), i64v(2_500), i64v(10_000)]).expect("pool initialize");
                p
            } else {
                w.call(&f, "create_liquidity_pool", vec![a(OWNER), k.info(&t), string("Share"), string("SHR"), u32v(stable as u32), opt(k.amp, u64v), i64v(k.def_slip), i64v(1_000)]).expect("create").address()
            };
            let cfg = w.query(&p, "query_config", vec![]).unwrap();
            let pool = Pool { addr: p.clone(), a: t[i].clone(), b: t[j].clone(), lp: cfg.field("share_token").address(), stake: cfg.field("stake_contract").address(), dec: (7, 7), lp_dec: 7 };
            for u in [U1, U2] {
                provide(w, stable, &pool, u, 1_000_000, 1_000_000).expect("provide");
            }
            w.call(&pool.stake, "bond", vec![a(U1), i128v(1_000)]).expect("bond");
            w.call(&pool.stake, "bond", vec![a(U2), i128v(400)]).expect("bond");
            lps.push(con(K::Token, &format!("shares of pool {n}"), &pool.lp, p.clone(), vec![]));
            rest.push(con(if stable { K::Stable } else { K::Pool }, &format!("pool {n}"), &p, actor(adm), vec![]));
            let mut st = con(K::Stake, &format!("staking of pool {n}"), &pool.stake, actor(adm), vec![MGR]);
            st.others.push(if n == 2 { actor(OWNER) } else { f.clone() });
            rest.push(st);
            pools.push(pool);
        }
        let vt = token(w, h[&K::Token], 120, 7);
        mint(w, &vt, VADM, 1_000_000);
        let v = w.create(h[&K::Vesting], 9, vec![]);
        w.call(&vt, "set_admin", vec![addr(&v)]).unwrap();
        let info = structv(vec![("name", string("Vest")), ("symbol", string("VST")), ("decimals", u32v(7)), ("address", addr(&vt))]);
        w.call(&v, "initialize_with_minter", vec![a(VADM), info, u32v(5), structv(vec![("address", a(MINTER)), ("mint_capacity", u128v(10_000))])]).expect("vesting initialize");
        w.call(&v, "create_vesting_schedules", vec![vecv(vec![schedule(U1, T0, 1_000, T0 + 50), schedule(U2, T0 + 10, 400, T0 + 400_000)])]).expect("schedules");
        w.call(&v, "create_vesting_schedules", vec![vecv(vec![schedule(U1, T0 + 1, 300, T0 + 100_000)])]).expect("schedules");
        cons.extend(lps);
        cons.push(con(K::Token, "vesting token", &vt, v.clone(), vec![]));
        cons.extend(rest);
        cons.push(con(K::Vesting, "vesting", &v, actor(VADM), vec![MINTER]));
        cons.push(con(K::Factory, "factory", &f, actor(FADM), vec![FADM, OWNER]));
        cons.push(con(K::Multihop, "multihop", &hop, actor(FADM), vec![]));
        let tr = w.create(h[&K::Trader], 240, vec![]);
        w.call(&tr, "initialize", vec![a(TRADM), string("Desk"), vecv(vec![addr(&t[0]), addr(&t[2])]), addr(&t[1])]).expect("trader initialize");
        for x in &t {
            w.call(x, "transfer", vec![a(U2), addr(&tr), i128v(10_000)]).expect("transfer");
        }
        cons.push(con(K::Trader, "trader", &tr, actor(TRADM), vec![]));
        let r = w.create(h[&K::Rewards], 130, vec![]);
        w.call(&r, "initialize", vec![a(RADM), a(STAKING), addr(&t[0]), u32v(10), i128v(5), i128v(10)]).expect("initialize");
        cons.push(con(K::Rewards, "rewards", &r, actor(RADM), vec![STAKING]));
        w.call(&r, "calculate_bond", vec![a(U1), bonding(&R_STAKES)]).expect("calculate_bond");
        w.call(&r, "fund_distribution", vec![u64v(T0), u64v(100), i128v(10_000)]).expect("fund");
        for p in &pools {
            w.call(&p.stake, "create_distribution_flow", vec![a(MGR), addr(&t[0])]).expect("flow");
            w.call(&p.stake, "distribute_rewards", vec![a(MGR), i128v(1_000), addr(&t[0])]).expect("distribute");
        }
        // U2 lets others spend
        for x in [&t[0], &pools[0].lp] {
            for (s, y) in [(ATT, 500), (U1, 700)] {
                w.call(x, "approve", vec![a(U2), a(s), i128v(y), u32v(w.clock().seq + 3_000_000)]).expect("approve");
            }
        }
        w.advance(20);
        w.call(&r, "distribute_rewards", vec![i128v(3_000)]).expect("distribute");
        let at = |cons: &[Con], k: K| cons.iter().position(|x| x.k == k).unwrap();
        match self.when {
            When::InUse => {}
            When::Later => {
                w.advance(90 * DAY);
                w.call(&v, "claim", vec![a(U1), u64v(0)]).expect("claim");
                w.call(&f, "update_whitelisted_accounts", vec![a(FADM), vecv(vec![]), vecv(vec![a(FADM), a(OWNER)])]).expect("whitelist");
                let i = at(&cons, K::Factory);
                cons[i].others = vec![];
                for p in &pools {
                    swap(w, &p.addr, U2, &p.a, 50_000).expect("swap");
                    w.call(&p.stake, "distribute_rewards", vec![a(MGR), i128v(500), addr(&t[0])]).expect("distribute");
                    w.call(&p.stake, "withdraw_rewards", vec![a(U2)]).expect("withdraw");
                }
            }
            When::HandedOver => {
                w.call(&t[0], "set_admin", vec![a(U3)]).expect("set_admin");
                cons[0].admin = actor(U3);
                w.call(&pools[0].addr, "update_config", vec![a(U3), void(), void(), void(), void(), void()]).expect("update_config");
                w.call(&pools[1].addr, "update_config", vec![a(SADM), a(U3), void(), void(), void(), void()]).expect("update_config");
                w.call(&v, "update_minter", vec![a(MINTER), a(U3)]).expect("update_minter");
                w.call(&f, "update_whitelisted_accounts", vec![a(FADM), vecv(vec![a(U3)]), vecv(vec![a(OWNER)])]).expect("whitelist");
                for x in cons.iter_mut() {
                    if x.addr == pools[0].addr || x.addr == pools[1].addr {
                        x.admin = actor(U3);
                    }
                    match x.k {
                        K::Vesting => x.others = vec![actor(U3)],
                        K::Factory => x.others = vec![actor(FADM), actor(U3)],
                        _ => {}
                    }
                }
            }
        }
        let tokens = (0..cons.len()).filter(|i| cons[*i].k == K::Token).collect();
        let mut c = C { cons, tokens, v2, calls: vec![], unknown: vec![] };
        self.calls(w, &mut c);
        c
    }
    fn start(&self, w: &World, c: &C, o: &mut Out) -> M {
        for x in &c.unknown {
            o.count(format!("not called, a parameter of an unknown type: {x}"));
        }
        // those who hold a role can use it
        for con in &c.cons {
            let own = vecv(vec![addr(&con.admin)]);
            for p in self.proven(w, con, c) {
                let minter = con.k == K::Vesting && p == vecv(con.others.iter().map(addr).collect());
                let contract = !PEOPLE.iter().any(|u| actor(*u) == con.admin);
                o.check(p == own || minter || contract, "auth/holder", || format!("{}: a call for the administrator {} can be made by {}", con.name, short(&con.admin), show(&p)));
            }
        }
        M { depth: 0, obs: Arc::new(self.observe(w, c, None)), data: Arc::new(w.data()) }
    }
    fn ops(&self, c: &C, m: &M) -> Vec<Op> {
        c.calls
            .iter()
            .enumerate()
            .filter(|(_, x)| m.depth == 0 || x.again)
            .map(|(i, x)| Op { i, text: format!("{}.{}({})", c.cons[x.con].name, x.f, x.args.iter().map(show).collect::<Vec<_>>().join(", ")) })
            .collect()
    }
    fn step(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        let call = &c.calls[op.i];
        let con = &c.cons[call.con];
        o.same = true;
        let r = w.call(&con.addr, &call.f, call.args.clone());
        if r.is_err() {
            o.count("refused");
            return;
        }
        let s: BTreeSet<Addr> = w.signers().into_iter().collect();
        if s.iter().any(|x| !PEOPLE.iter().any(|u| actor(*u) == *x)) {
            // a contract would have to sign: it does not
            o.count("a contract would have to sign");
            return;
        }
        let data = w.data();
        if con.k == K::Rewards && call.f == "fund_distribution" {
            let both = [con.admin.clone(), actor(STAKING)];
            o.check(both.iter().all(|x| s.contains(x)), "auth/role", || format!("{op:?} needs the signatures of the administrator and of the staking contract, succeeded with {:?}", s.iter().map(short).collect::<Vec<_>>()));
        } else if let Some(r) = self.roles(con, &call.f) {
            o.check(r.iter().any(|x| s.contains(x)), "auth/role", || format!("{op:?} needs the signature of one of {:?}, succeeded with {:?}", r.iter().map(short).collect::<Vec<_>>(), s.iter().map(short).collect::<Vec<_>>()));
        }
        if data == *m.data {
            o.count("nothing changed");
            return;
        }
        o.count(format!("{:?}.{} ok", con.k, call.f));
        let changed: BTreeSet<Addr> = m
            .data
            .keys()
            .chain(data.keys())
            .filter(|k| m.data.get(*k) != data.get(*k))
            .filter_map(|k| match LedgerKey::from_xdr(k, Limits::none()) {
                Ok(LedgerKey::ContractData(d)) => Some(d.contract),
                _ => None,
            })
            .collect();
        let n = self.observe(w, c, Some((&m.obs, &changed)));
        self.judge(c, call, &s, &m.obs, &n, o);
        if s.iter().all(|x| *x == actor(ATT)) {
            o.same = false;
            m.depth += 1;
            m.obs = Arc::new(n);
            m.data = Arc::new(data);
        }
    }
}

fn scenarios(_tier: Tier) -> Vec<Box<dyn Scenario>> {
    vec![
        Box::new(Auth { when: When::InUse, depth: (1, 2) }),
        Box::new(Auth { when: When::HandedOver, depth: (1, 2) }),
        Box::new(Auth { when: When::Later, depth: (1, 2) }),
    ]
}
