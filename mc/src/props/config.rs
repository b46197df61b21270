//! Settings: what a contract is set up with, and what its administrator changes later.
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use soroban_env_host::xdr::ScVal;

pub fn properties() -> Vec<Property> {
    vec![Property { id: "P26", scenarios, assumptions: host_assumptions }]
}

const MAX: i64 = 10_000;
fn bps(x: i64) -> bool {
    (0..=MAX).contains(&x)
}
fn q(w: &World, x: &Addr, f: &str) -> ScVal {
    w.query(x, f, vec![]).unwrap_or(ScVal::Void)
}

// ---------------------------------------------------------------- setting up

/// One way to set a contract up: the position of each parameter in the list of its values.
#[derive(Clone)]
struct Pick {
    list: usize,
    at: Vec<usize>,
    text: String,
}
impl std::fmt::Debug for Pick {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.text)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Which {
    Pool,
    Stable,
    Stake,
    Rewards,
    Factory,
    Trader,
    Vesting,
    VestingMinter,
    Token,
}

/// Names and values of the parameters, for each list all combinations.
type List = Vec<(&'static str, Vec<i128>)>;

struct Init {
    which: Which,
    lists: Vec<List>,
}

struct IC {
    x: Addr,
    h: Hashes,
    other: [[u8; 32]; 2],
    t: Vec<Addr>,
}

const EDGE: [i128; 5] = [-1, 0, 30, 10_000, 10_001];
const FAR: [i128; 4] = [i64::MIN as i128, i64::MAX as i128, 10_000, 0];

impl Init {
    fn new(which: Which, tier: Tier) -> Init {
        let names: &[&str] = match which {
            Which::Pool => &["fee", "accepted", "slippage", "default", "spread", "referral"],
            Which::Stable => &["fee", "accepted", "slippage", "default", "spread"],
            _ => &[],
        };
        let mut lists: Vec<List> = vec![];
        match which {
            Which::Pool | Which::Stable => {
                lists.push(names.iter().map(|n| (*n, EDGE.to_vec())).collect());
                for n in names {
                    lists.push(vec![(n, FAR.to_vec())]);
                }
                lists.push(vec![
                    ("tokens", vec![0, 1, 2]),
                    ("bond", vec![-1, 0, 1, i128::MAX]),
                    ("reward", vec![-1, 0, 1, i128::MAX]),
                    ("complexity", vec![0, 1, u32::MAX as i128]),
                    ("decimals", vec![0, 7, 18]),
                ]);
                lists.push(vec![("fee", (0..=if tier == Tier::Quick { 300 } else { 10_000 }).collect())]);
                if which == Which::Stable {
                    lists.push(vec![("amp", vec![0, 1, 2, 99, 100, 999_999, 1_000_000, 1_000_001, u64::MAX as i128 / 100, u64::MAX as i128 / 100 + 1, u64::MAX as i128]), ("tokens", vec![0, 1, 2]), ("fee", EDGE.to_vec())]);
                } else {
                    lists.push(vec![("decimals", (0..=20).chain([255, 256, u32::MAX as i128]).collect())]);
                }
            }
            Which::Stake => {
                let v = vec![i128::MIN, -1, 0, 1, 10, i128::MAX];
                lists.push(vec![("bond", v.clone()), ("reward", v), ("complexity", vec![0, 1, 7, u32::MAX as i128])]);
            }
            Which::Rewards => {
                let v = vec![1, 10, i128::MAX];
                lists.push(vec![("bond", v.clone()), ("reward", v), ("complexity", vec![1, 7, u32::MAX as i128])]);
            }
            Which::Factory => lists.push(vec![("whitelist", vec![0, 1, 2, 3]), ("decimals", vec![0, 7, 18])]),
            Which::Trader => lists.push(vec![("first", vec![0, 1, 2]), ("second", vec![0, 1, 2]), ("output", vec![0, 1, 2])]),
            Which::Vesting => lists.push(vec![("complexity", vec![1, 7, u32::MAX as i128]), ("token", vec![0, 1, 2]), ("decimals", vec![0, 7, 18])]),
            Which::VestingMinter => lists.push(vec![("complexity", vec![1, 7, u32::MAX as i128]), ("token", vec![0, 1, 2]), ("minter", vec![U1 as i128, U2 as i128]), ("capacity", vec![0, 1, 10_000, i128::MAX])]),
            Which::Token => lists.push(vec![("decimals", (0..=20).chain([255, 256, 262, u32::MAX as i128]).collect()), ("admin", vec![ADMIN as i128, U1 as i128])]),
        }
        Init { which, lists }
    }
    fn get(&self, p: &Pick, name: &str, usual: i128) -> i128 {
        self.lists[p.list].iter().zip(&p.at).find(|(l, _)| l.0 == name).map(|(l, i)| l.1[*i]).unwrap_or(usual)
    }
}

impl Spec for Init {
    type C = IC;
    type M = ();
    type Op = Pick;
    fn name(&self) -> String {
        format!("set-up-{:?}", self.which)
    }
    fn depth(&self, _t: Tier) -> usize {
        1
    }
    fn setup(&self, w: &World) -> IC {
        let h = Hashes { token: w.upload("soroban_token_contract"), stake: w.upload("phoenix_stake"), pool: w.upload("phoenix_pool"), stable: w.upload("phoenix_pool_stable") };
        let other = [w.upload("phoenix_multihop"), w.upload_bytes(super::factory::other("phoenix_pool"))];
        let mut t: Vec<Addr> = [(1, 7), (2, 5), (3, 9)].iter().map(|(s, d)| token(w, h.token, *s, *d)).collect();
        t.sort();
        let code = match self.which {
            Which::Pool => h.pool,
            Which::Stable => h.stable,
            Which::Stake => h.stake,
            Which::Rewards => w.upload("phoenix_stake_rewards"),
            Which::Factory => w.upload("phoenix_factory"),
            Which::Trader => w.upload("phoenix_trader"),
            Which::Vesting | Which::VestingMinter => w.upload("phoenix_vesting"),
            Which::Token => h.token,
        };
        let x = if self.which == Which::Token { t[0].clone() } else { w.create(code, 210, vec![]) };
        IC { x, h, other, t }
    }
    fn start(&self, _w: &World, _c: &IC, _o: &mut Out) {}
    fn ops(&self, _c: &IC, _m: &()) -> Vec<Pick> {
        let mut v = vec![];
        for (list, l) in self.lists.iter().enumerate() {
            let mut combos: Vec<Vec<usize>> = vec![vec![]];
            for (_, vals) in l {
                combos = combos.iter().flat_map(|x| (0..vals.len()).map(move |j| [x.clone(), vec![j]].concat())).collect();
            }
            for at in combos {
                let text = format!("{:?} set up with {}", self.which, l.iter().zip(&at).map(|(p, i)| format!("{} {}", p.0, p.1[*i])).collect::<Vec<_>>().join(", "));
                v.push(Pick { list, at, text });
            }
        }
        v
    }
    fn step(&self, w: &World, c: &IC, _m: &mut (), p: &Pick, o: &mut Out) {
        o.same = true;
        let g = |n: &str, usual: i128| self.get(p, n, usual);
        let g64 = |n: &str, usual: i64| self.get(p, n, usual as i128) as i64;
        let before = w.data();
        let x = &c.x;
        let (bond, reward, complexity) = (g("bond", 10), g("reward", 5), g("complexity", 7) as u32);
        let decimals = g("decimals", 7) as u32;
        let mut sound = true;
        let mut want: Vec<(String, ScVal, ScVal)> = vec![];
        let r: Res = match self.which {
            Which::Pool | Which::Stable => {
                let stable = self.which == Which::Stable;
                let (fee, accepted, slip, def, spread, refer) = (g64("fee", 30), g64("accepted", MAX), g64("slippage", 5_000), g64("default", 2_500), g64("spread", 4_000), g64("referral", 3_000));
                let (i, j) = [(0, 1), (1, 0), (1, 1)][g("tokens", 0) as usize];
                let amp = g("amp", 6) as u64;
                sound = bps(fee) && bps(accepted) && bps(slip) && bps(def) && bps(spread) && (stable || bps(refer)) && fee <= accepted && i < j && bond > 0 && reward > 0 && complexity > 0;
                if stable {
                    sound = sound && (1..=1_000_000).contains(&amp);
                } else {
                    sound = sound && decimals <= 18;
                }
                let info = structv(vec![
                    ("admin", a(ADMIN)),
                    ("swap_fee_bps", i64v(fee)),
                    ("fee_recipient", a(FEE)),
                    ("max_allowed_slippage_bps", i64v(slip)),
                    ("default_slippage_bps", i64v(if stable { def } else { 1 })),
                    ("max_allowed_spread_bps", i64v(spread)),
                    ("max_referral_bps", i64v(refer)),
                    ("token_init_info", structv(vec![("token_a", addr(&c.t[i])), ("token_b", addr(&c.t[j]))])),
                    ("stake_init_info", structv(vec![("min_bond", i128v(bond)), ("min_reward", i128v(reward)), ("manager", a(MGR)), ("max_complexity", u32v(complexity))])),
                ]);
                let last = if stable { u64v(amp) } else { i64v(def) };
                let r = w.call(x, "initialize", vec![bytes(&c.h.stake), bytes(&c.h.token), info, a(OWNER), u32v(decimals), string("Share"), string("SHR"), last, i64v(accepted)]);
                if r.is_ok() && sound {
                    let cfg = q(w, x, "query_config");
                    let mut l = vec![
                        ("token_a", addr(&c.t[i])),
                        ("token_b", addr(&c.t[j])),
                        ("pool_type", u32v(stable as u32)),
                        ("total_fee_bps", i64v(fee)),
                        ("fee_recipient", a(FEE)),
                        ("max_allowed_slippage_bps", i64v(slip)),
                        ("max_allowed_spread_bps", i64v(spread)),
                    ];
                    l.push(if stable { ("default_slippage_bps", i64v(def)) } else { ("max_referral_bps", i64v(refer)) });
                    for (n, v) in l {
                        want.push((n.into(), cfg.try_field(n).cloned().unwrap_or(ScVal::Void), v));
                    }
                    let lp = q(w, x, "query_share_token_address");
                    let st = q(w, x, "query_stake_contract_address");
                    want.push(("share token".into(), lp.clone(), cfg.try_field("share_token").cloned().unwrap_or(ScVal::Void)));
                    want.push(("staking contract".into(), st.clone(), cfg.try_field("stake_contract").cloned().unwrap_or(ScVal::Void)));
                    if let (ScVal::Address(lp), ScVal::Address(st)) = (&lp, &st) {
                        let most = c.t[i..=j].iter().map(|t| q(w, t, "decimals").u32()).max().unwrap();
                        want.push(("decimals of the shares".into(), q(w, lp, "decimals"), u32v(if stable { most } else { decimals })));
                        want.push(("name of the shares".into(), q(w, lp, "name"), string("Share")));
                        want.push(("symbol of the shares".into(), q(w, lp, "symbol"), string("SHR")));
                        let sc = q(w, st, "query_config");
                        let sc = sc.try_field("config").cloned().unwrap_or(ScVal::Void);
                        for (n, v) in [("lp_token", addr(lp)), ("min_bond", i128v(bond)), ("min_reward", i128v(reward)), ("manager", a(MGR)), ("owner", a(OWNER)), ("max_complexity", u32v(complexity))] {
                            want.push((format!("staking: {n}"), sc.try_field(n).cloned().unwrap_or(ScVal::Void), v));
                        }
                        want.push(("staking: administrator".into(), q(w, st, "query_admin"), a(ADMIN)));
                        want.push(("staking: total".into(), q(w, st, "query_total_staked"), i128v(0)));
                    }
                    let pi = q(w, x, "query_pool_info");
                    for (n, t) in [("asset_a", addr(&c.t[i])), ("asset_b", addr(&c.t[j])), ("asset_lp_share", lp)] {
                        want.push((n.into(), pi.try_field(n).cloned().unwrap_or(ScVal::Void), structv(vec![("address", t), ("amount", i128v(0))])));
                    }
                    let fi = q(w, x, "query_pool_info_for_factory");
                    want.push(("fee told to the factory".into(), fi.try_field("total_fee_bps").cloned().unwrap_or(ScVal::Void), i64v(fee)));
                    want.push(("no shares".into(), q(w, x, "query_total_issued_lp"), i128v(0)));
                }
                r
            }
            Which::Stake => {
                sound = bond > 0 && reward > 0 && complexity > 0;
                let r = w.call(x, "initialize", vec![a(ADMIN), addr(&c.t[0]), i128v(bond), i128v(reward), a(MGR), a(OWNER), u32v(complexity)]);
                if r.is_ok() {
                    let sc = q(w, x, "query_config");
                    let sc = sc.try_field("config").cloned().unwrap_or(ScVal::Void);
                    for (n, v) in [("lp_token", addr(&c.t[0])), ("min_bond", i128v(bond)), ("min_reward", i128v(reward)), ("manager", a(MGR)), ("owner", a(OWNER)), ("max_complexity", u32v(complexity))] {
                        want.push((n.into(), sc.try_field(n).cloned().unwrap_or(ScVal::Void), v));
                    }
                    want.push(("administrator".into(), q(w, x, "query_admin"), a(ADMIN)));
                    want.push(("total".into(), q(w, x, "query_total_staked"), i128v(0)));
                }
                r
            }
            Which::Rewards => {
                let r = w.call(x, "initialize", vec![a(ADMIN), a(OWNER), addr(&c.t[1]), u32v(complexity), i128v(reward), i128v(bond)]);
                let sc = q(w, x, "query_config");
                let sc = sc.try_field("config").cloned().unwrap_or(ScVal::Void);
                for (n, v) in [("staking_contract", a(OWNER)), ("reward_token", addr(&c.t[1])), ("min_bond", i128v(bond)), ("min_reward", i128v(reward)), ("max_complexity", u32v(complexity))] {
                    want.push((n.into(), sc.try_field(n).cloned().unwrap_or(ScVal::Void), v));
                }
                want.push(("administrator".into(), q(w, x, "query_admin"), a(ADMIN)));
                r
            }
            Which::Factory => {
                let list: Vec<ScVal> = [U1, U2, U3].iter().take(g("whitelist", 1) as usize).map(|u| a(*u)).collect();
                sound = !list.is_empty();
                let r = w.call(x, "initialize", vec![a(ADMIN), bytes(&c.other[0]), bytes(&c.h.pool), bytes(&c.h.stable), bytes(&c.h.stake), bytes(&c.h.token), vecv(list.clone()), u32v(decimals)]);
                if r.is_ok() && sound {
                    let cfg = q(w, x, "get_config");
                    for (n, v) in [("admin", a(ADMIN)), ("lp_wasm_hash", bytes(&c.h.pool)), ("stake_wasm_hash", bytes(&c.h.stake)), ("token_wasm_hash", bytes(&c.h.token)), ("whitelisted_accounts", vecv(list)), ("lp_token_decimals", u32v(decimals))] {
                        want.push((n.into(), cfg.try_field(n).cloned().unwrap_or(ScVal::Void), v));
                    }
                    want.push(("administrator".into(), q(w, x, "get_admin"), a(ADMIN)));
                    want.push(("pools".into(), q(w, x, "query_pools"), vecv(vec![])));
                    let hop = cfg.try_field("multihop_address").map(|v| v.address());
                    o.check(hop.as_ref().and_then(|h| w.code_of(h)) == Some(c.other[0]), "setup/multihop", || format!("{p:?}: code of the multihop contract"));
                    // what a pool made by it gets
                    let k = super::factory::Ask::new(0, 1, false);
                    let s = w.snapshot();
                    let r = w.call(x, "create_liquidity_pool", vec![a(U1), k.info(&c.t), string("Share"), string("SHR"), u32v(0), void(), i64v(k.def_slip), i64v(k.max_fee)]);
                    match r {
                        Ok(v) => {
                            let lp = q(w, &v.address(), "query_share_token_address").address();
                            want.push(("decimals of a new pool's shares".into(), q(w, &lp, "decimals"), u32v(decimals)));
                        }
                        Err(e) => o.fail("setup/create", format!("{p:?}: creating a pool: {e:?}")),
                    }
                    w.restore(&s);
                }
                r
            }
            Which::Trader => {
                let (i, j, k) = (g("first", 0) as usize, g("second", 1) as usize, g("output", 2) as usize);
                let r = w.call(x, "initialize", vec![a(ADMIN), string("Desk"), vecv(vec![addr(&c.t[i]), addr(&c.t[j])]), addr(&c.t[k])]);
                want.push(("administrator".into(), q(w, x, "query_admin_address"), a(ADMIN)));
                want.push(("name".into(), q(w, x, "query_contract_name"), string("Desk")));
                want.push(("pair".into(), q(w, x, "query_trading_pairs"), vecv(vec![addr(&c.t[i]), addr(&c.t[j])])));
                let t = &c.t[k];
                let info = structv(vec![("address", addr(t)), ("name", q(w, t, "name")), ("symbol", q(w, t, "symbol")), ("decimal", q(w, t, "decimals"))]);
                want.push(("output token".into(), q(w, x, "query_output_token_info"), info));
                r
            }
            Which::Vesting | Which::VestingMinter => {
                let info = structv(vec![("name", string("Vest")), ("symbol", string("VST")), ("decimals", u32v(decimals)), ("address", addr(&c.t[g("token", 0) as usize]))]);
                let mut args = vec![a(ADMIN), info.clone(), u32v(complexity)];
                let minter = structv(vec![("address", a(g("minter", 0) as u8)), ("mint_capacity", u128v(g("capacity", 0) as u128))]);
                let r = if self.which == Which::Vesting {
                    want.push(("no minter".into(), ScVal::Void, ScVal::Void));
                    w.call(x, "initialize", args)
                } else {
                    args.push(minter.clone());
                    w.call(x, "initialize_with_minter", args)
                };
                if r.is_ok() {
                    let m = w.query(x, "query_minter", vec![]);
                    want.push(("minter".into(), m.unwrap_or(ScVal::Void), if self.which == Which::Vesting { void() } else { minter }));
                    want.push(("token".into(), q(w, x, "query_token_info"), info));
                }
                r
            }
            Which::Token => {
                let admin = g("admin", 0) as u8;
                sound = decimals <= 18;
                let r = w.try_create(c.h.token, 77, vec![a(admin), u32v(decimals), string("Name"), string("SYM")]);
                if let Ok(t) = &r {
                    want.push(("decimals".into(), q(w, t, "decimals"), u32v(decimals)));
                    want.push(("name".into(), q(w, t, "name"), string("Name")));
                    want.push(("symbol".into(), q(w, t, "symbol"), string("SYM")));
                    let s = w.snapshot();
                    let m = w.call(t, "mint", vec![a(U2), i128v(5)]);
                    o.check(m.is_ok() && w.signers() == vec![actor(admin)], "setup/admin", || format!("{p:?}: minting is signed by {:?}", w.signers()));
                    w.restore(&s);
                }
                r.map(|_| void())
            }
        };
        o.check(r.is_ok() == sound, if sound { "setup/refused" } else { "setup/accepted" }, || format!("{p:?}: {r:?}"));
        if r.is_ok() && sound {
            for (n, got, v) in want {
                o.check(got == v, "setup/settings", || format!("{p:?}: {n} is {}, asked for {}", show(&got), show(&v)));
            }
            o.count("set up as asked");
        }
        if r.is_err() {
            o.check(w.data() == before, "setup/effect", || format!("{p:?}: refused, but the ledger changed"));
            o.count("refused");
        }
    }
}

// ---------------------------------------------------------------- changes

#[derive(Clone, Debug, PartialEq)]
enum Op {
    /// who asks; fee, slippage, spread, referral; administrator, recipient
    Set(u8, [Option<i64>; 4], Option<u8>, Option<u8>),
    /// the default tolerance (a stable pool has none here)
    Upgrade(i64),
    Swap,
}

#[derive(Clone, Debug, PartialEq)]
struct M {
    fee: i64,
    slip: i64,
    spread: i64,
    refer: i64,
    def: i64,
    admin: u8,
    to: u8,
}

struct Change {
    stable: bool,
    tier: Tier,
    all: bool,
    depth: (usize, usize),
}

struct C {
    p: Pool,
    code: [u8; 32],
}

impl Change {
    fn single(&self) -> Vec<Op> {
        let mut v = vec![];
        let vals: &[i64] = &[-1, 0, 1, 37, 2_000, 9_999, 10_000, 10_001, i64::MIN, i64::MAX];
        for i in 0..if self.stable { 3 } else { 4 } {
            for x in vals {
                let mut s = [None; 4];
                s[i] = Some(*x);
                v.push(Op::Set(0, s, None, None));
            }
        }
        for who in [0, ATT, U3, ADMIN] {
            v.push(Op::Set(who, [None; 4], Some(U3), None));
            v.push(Op::Set(who, [Some(5), None, None, None], None, Some(U2)));
        }
        v.push(Op::Set(0, [None; 4], Some(ADMIN), Some(FEE)));
        v.push(Op::Set(0, [None; 4], None, None));
        v.push(Op::Upgrade(2_500));
        if !self.stable {
            v.extend([-1, 0, 1, 700, 10_000, 10_001, i64::MIN, i64::MAX].map(Op::Upgrade));
        }
        v.push(Op::Swap);
        v
    }
    fn call(&self, w: &World, c: &C, who: u8, s: &[Option<i64>; 4], admin: &Option<u8>, to: &Option<u8>) -> Res {
        let n = |i: usize| opt(s[i], i64v);
        let mut args = vec![opt(*admin, a), n(0), opt(*to, a), n(1), n(2)];
        if self.stable {
            args.insert(0, a(who));
        } else {
            args.push(n(3));
        }
        w.call(&c.p.addr, "update_config", args)
    }

    /// The settings are the ones reported and the ones that count.
    fn look(&self, w: &World, c: &C, m: &M, o: &mut Out, after: &str) {
        let x = &c.p.addr;
        let cfg = q(w, x, "query_config");
        let mut l = vec![
            ("token_a", addr(&c.p.a)),
            ("token_b", addr(&c.p.b)),
            ("share_token", addr(&c.p.lp)),
            ("stake_contract", addr(&c.p.stake)),
            ("pool_type", u32v(self.stable as u32)),
            ("total_fee_bps", i64v(m.fee)),
            ("fee_recipient", a(m.to)),
            ("max_allowed_slippage_bps", i64v(m.slip)),
            ("max_allowed_spread_bps", i64v(m.spread)),
        ];
        l.push(if self.stable { ("default_slippage_bps", i64v(m.def)) } else { ("max_referral_bps", i64v(m.refer)) });
        for (n, v) in l {
            o.check(cfg.try_field(n) == Some(&v), "config/reported", || format!("{after}: {n} is {:?}, expected {}", cfg.try_field(n).map(show), show(&v)));
        }
        let f = q(w, x, "query_pool_info_for_factory");
        o.check(f.try_field("total_fee_bps") == Some(&i64v(m.fee)), "config/reported", || format!("{after}: fee told to the factory {:?}", f.try_field("total_fee_bps").map(show)));
        let even = q(w, x, "query_pool_info");
        let even = even.field("asset_a").field("amount").i128() == even.field("asset_b").field("amount").i128();
        let s = w.snapshot();
        let r = self.call(w, c, m.admin, &[None; 4], &None, &None);
        o.check(r.is_ok() && w.signers() == vec![actor(m.admin)], "config/admin", || format!("{after}: a change by the administrator: {r:?}, signed by {:?}", w.signers().iter().map(short).collect::<Vec<_>>()));
        w.restore(&s);
        // fee: quoted, and paid to the recipient
        let d = 1_000_000;
        let (ask, offer) = (&c.p.b, &c.p.a);
        let quote = w.query(x, "simulate_swap", vec![addr(offer), i128v(d)]);
        let r = w.call(x, "swap", vec![a(U1), addr(offer), i128v(d), void(), i64v(m.spread), void(), i64v(m.fee)]);
        if let (Ok(quote), Ok(_)) = (&quote, &r) {
            let (net, com) = (quote.field("ask_amount").i128(), quote.field("commission_amount").i128());
            let gross = net + com;
            o.check(com == gross * m.fee as i128 / 10_000, "config/fee", || format!("{after}: commission {com} of {gross}"));
            let now = w.balance(ask, &actor(m.to));
            w.restore(&s);
            let was = w.balance(ask, &actor(m.to));
            o.check(now - was == com, "config/recipient", || format!("{after}: the recipient got {} instead of {com}", now - was));
        } else {
            w.restore(&s);
            // a swap that brings nothing, or no spread allowed at all
            // or the reserves have moved
            o.check(m.spread == 0 || m.fee == 10_000 || !even, "config/usable", || format!("{after}: quote {:?}, swap {r:?}", quote.as_ref().map(show)));
        }
        let r = w.query(x, "swap", vec![a(U1), addr(offer), i128v(d), void(), void(), void(), i64v(m.fee - 1)]);
        o.check(r.is_err(), "config/fee", || format!("{after}: a swap that accepts a fee of {} executes", m.fee - 1));
        // spread: a tolerance above the allowed one is refused, and the allowed one counts
        let r = w.query(x, "swap", vec![a(U1), addr(offer), i128v(d), void(), i64v(m.spread + 1), void(), void()]);
        o.check(r.is_err(), "config/spread", || format!("{after}: a swap that tolerates a spread of {} executes", m.spread + 1));
        // slippage
        let deposit = |t: ScVal| {
            let mut args = vec![a(U1), i128v(10_000_000), i128v(10_000_000)];
            if self.stable {
                args.extend([t, void(), void()]);
            } else {
                args.insert(2, void());
                args.extend([void(), t, void()]);
            }
            w.query(x, "provide_liquidity", args)
        };
        let r = deposit(i64v(m.slip + 1));
        o.check(r.is_err(), "config/slippage", || format!("{after}: a deposit that tolerates {} executes", m.slip + 1));
        let r = deposit(i64v(m.slip));
        o.check(r.is_ok() || !even, "config/slippage", || format!("{after}: an even deposit that tolerates {}: {r:?}", m.slip));
        if self.stable {
            o.check(deposit(void()).is_ok() == (m.def <= m.slip), "config/default", || format!("{after}: a deposit with the default tolerance {}, allowed {}: {:?}", m.def, m.slip, deposit(void())));
        } else {
            // amounts x and 100 for reserves 1:1
            for off in [100, 99, 93, 90, 75, 50, 20, 1] {
                let args = |t: ScVal| vec![a(U1), i128v(1_000_000 * off), void(), i128v(100_000_000), void(), t, void()];
                let d = w.query(x, "provide_liquidity", args(void()));
                if m.def <= m.slip {
                    let t = w.query(x, "provide_liquidity", args(i64v(m.def)));
                    o.check(d == t, "config/default", || format!("{after}: {off} to 100 without a tolerance: {d:?}, with {}: {t:?}", m.def));
                } else if even {
                    // by so many basis points is the needed amount above the offered one
                    let diff = (100 - off) * 10_000 / off;
                    o.check(d.is_ok() || diff > m.def as i128 - 100, "config/default", || format!("{after}: {off} to 100 with the default tolerance {}: {d:?}", m.def));
                    o.check(d.is_err() || diff < m.def as i128 + 100, "config/default", || format!("{after}: {off} to 100 with the default tolerance {}: {d:?}", m.def));
                }
            }
        }
    }
}

impl Spec for Change {
    type C = C;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        format!("{}-{}", if self.stable { "stable" } else { "pool" }, if self.all { "combinations" } else { "changes" })
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.depth.0 } else { self.depth.1 }
    }
    fn setup(&self, w: &World) -> C {
        let cfg = if self.stable { PoolCfg::stable(30, 100) } else { PoolCfg::xyk(30) };
        let p = deploy_pool(w, &cfg);
        for t in [&p.a, &p.b] {
            for u in [U1, U2] {
                mint(w, t, u, 10i128.pow(16));
            }
        }
        provide(w, self.stable, &p, U1, 10i128.pow(13), 10i128.pow(13)).expect("provide");
        let code = w.upload(if self.stable { "phoenix_pool_stable" } else { "phoenix_pool" });
        C { p, code }
    }
    fn start(&self, w: &World, c: &C, o: &mut Out) -> M {
        let m = M { fee: 30, slip: 5000, spread: 5000, refer: 5000, def: 2500, admin: ADMIN, to: FEE };
        self.look(w, c, &m, o, "at the start");
        m
    }
    fn ops(&self, _c: &C, _m: &M) -> Vec<Op> {
        if !self.all {
            return self.single();
        }
        let vals: Vec<Option<i64>> = if self.tier == Tier::Quick { vec![None, Some(-1), Some(0), Some(41), Some(10_000), Some(10_001)] } else { vec![None, Some(-1), Some(0), Some(1), Some(41), Some(9_999), Some(10_000), Some(10_001)] };
        let mut v = vec![];
        for f in &vals {
            for s in &vals {
                for p in &vals {
                    for r in if self.stable { &vals[..1] } else { &vals[..] } {
                        for adm in [None, Some(U3)] {
                            for to in [None, Some(U2)] {
                                v.push(Op::Set(0, [*f, *s, *p, *r], adm, to));
                            }
                        }
                    }
                }
            }
        }
        v
    }
    fn step(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        let x = &c.p.addr;
        let before = w.data();
        let reserves = q(w, x, "query_pool_info");
        let old = m.clone();
        let (r, sound) = match op {
            Op::Set(who, s, adm, to) => {
                let by = if *who == 0 { m.admin } else { *who };
                let r = self.call(w, c, by, s, adm, to);
                // the constant product pool asks its administrator, whoever calls
                let sound = s.iter().flatten().all(|x| bps(*x)) && (!self.stable || by == m.admin);
                if sound {
                    let [f, sl, sp, re] = s;
                    m.fee = f.unwrap_or(m.fee);
                    m.slip = sl.unwrap_or(m.slip);
                    m.spread = sp.unwrap_or(m.spread);
                    m.refer = re.unwrap_or(m.refer);
                    m.admin = adm.unwrap_or(m.admin);
                    m.to = to.unwrap_or(m.to);
                }
                (r, sound)
            }
            Op::Upgrade(d) => {
                let mut args = vec![bytes(&c.code)];
                if !self.stable {
                    args.push(i64v(*d));
                }
                let sound = self.stable || bps(*d);
                if sound && !self.stable {
                    m.def = *d;
                }
                (w.call(x, "upgrade", args), sound)
            }
            Op::Swap => {
                if swap(w, x, U2, &c.p.a, 10i128.pow(10)).is_err() {
                    o.same = true;
                    return;
                }
                o.count("swap");
                self.look(w, c, m, o, &format!("{op:?}"));
                return;
            }
        };
        o.check(r.is_ok() == sound, if sound { "config/refused" } else { "config/accepted" }, || format!("{op:?}: {r:?}"));
        if r.is_err() || !sound {
            o.check(r.is_ok() || w.data() == before, "config/effect", || format!("{op:?}: refused, but the ledger changed"));
            *m = old;
            o.count("refused");
            o.same = true;
            return;
        }
        o.eq(w.signers(), vec![actor(old.admin)], "config/signers", || format!("{op:?}"));
        o.check(q(w, x, "query_pool_info") == reserves, "config/reserves", || format!("{op:?}: reserves or shares changed"));
        o.count(if *m == old { "nothing to change" } else { "changed as asked" });
        self.look(w, c, m, o, &format!("{op:?}"));
    }
}

fn scenarios(tier: Tier) -> Vec<Box<dyn Scenario>> {
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    for stable in [false, true] {
        v.push(Box::new(Change { stable, tier, all: false, depth: (3, 4) }));
        v.push(Box::new(Change { stable, tier, all: true, depth: (1, 1) }));
    }
    for which in [Which::Pool, Which::Stable, Which::Stake, Which::Rewards, Which::Factory, Which::Trader, Which::Vesting, Which::VestingMinter, Which::Token] {
        v.push(Box::new(Init::new(which, tier)));
    }
    v
}
