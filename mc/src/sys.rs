//! Helpers that put the contracts of the repository in place.
use crate::val::*;
use crate::world::*;
use num_bigint::BigInt;
use soroban_env_host::xdr::ScVal;

pub const ADMIN: u8 = 1;
pub const U1: u8 = 2;
pub const U2: u8 = 3;
pub const U3: u8 = 4;
pub const FEE: u8 = 5;
pub const ATT: u8 = 6;
pub const MGR: u8 = 7;
pub const OWNER: u8 = 8;

pub fn a(n: u8) -> ScVal {
    addr(&actor(n))
}
pub fn big(x: i128) -> BigInt {
    BigInt::from(x)
}

pub const DAY: u64 = 86_400;

#[derive(Clone, Debug)]
pub struct PoolCfg {
    pub stable: bool,
    pub fee: i64,
    pub dec: (u32, u32),
    pub sac: bool,
    pub max_slip: i64,
    pub def_slip: i64,
    pub max_spread: i64,
    pub amp: u64,
}
impl PoolCfg {
    pub fn xyk(fee: i64) -> PoolCfg {
        PoolCfg { stable: false, fee, dec: (7, 7), sac: true, max_slip: 5000, def_slip: 2500, max_spread: 5000, amp: 0 }
    }
    pub fn stable(fee: i64, amp: u64) -> PoolCfg {
        PoolCfg { stable: true, fee, dec: (7, 7), sac: true, max_slip: 5000, def_slip: 2500, max_spread: 5000, amp }
    }
}

#[derive(Clone, Debug)]
pub struct Pool {
    pub addr: Addr,
    pub a: Addr,
    pub b: Addr,
    pub lp: Addr,
    pub stake: Addr,
    pub dec: (u32, u32),
    pub lp_dec: u32,
}

pub struct Hashes {
    pub token: [u8; 32],
    pub stake: [u8; 32],
    pub pool: [u8; 32],
    pub stable: [u8; 32],
}

pub fn token(w: &World, hash: [u8; 32], salt: u8, dec: u32) -> Addr {
    w.create(hash, salt, vec![a(ADMIN), u32v(dec), string(&format!("Token {salt}")), string(&format!("T{salt}"))])
}
pub fn mint(w: &World, t: &Addr, who: u8, amount: i128) {
    w.call(t, "mint", vec![a(who), i128v(amount)]).expect("mint");
}

/// Two tokens in the order the pools want.
pub fn token_pair(w: &World, hash: [u8; 32], sac: bool, dec: (u32, u32)) -> (Addr, Addr) {
    if sac {
        let mut t = [w.sac("AAA", &actor(ADMIN)), w.sac("BBB", &actor(ADMIN))];
        t.sort();
        let [x, y] = t;
        return (x, y);
    }
    // deploy until the token with the first number of decimals is the smaller one
    let x = token(w, hash, 1, dec.0);
    for s in 2..200 {
        let y = token(w, hash, s, dec.1);
        if x < y {
            return (x, y);
        }
    }
    unreachable!()
}

pub fn init_info(cfg: &PoolCfg, ta: &Addr, tb: &Addr) -> ScVal {
    structv(vec![
        ("admin", a(ADMIN)),
        ("swap_fee_bps", i64v(cfg.fee)),
        ("fee_recipient", a(FEE)),
        ("max_allowed_slippage_bps", i64v(cfg.max_slip)),
        ("default_slippage_bps", i64v(cfg.def_slip)),
        ("max_allowed_spread_bps", i64v(cfg.max_spread)),
        ("max_referral_bps", i64v(5000)),
        ("token_init_info", structv(vec![("token_a", addr(ta)), ("token_b", addr(tb))])),
        (
            "stake_init_info",
            structv(vec![("min_bond", i128v(10)), ("min_reward", i128v(5)), ("manager", a(MGR)), ("max_complexity", u32v(7))]),
        ),
    ])
}

pub fn pool_init_args(cfg: &PoolCfg, h: &Hashes, ta: &Addr, tb: &Addr) -> Vec<ScVal> {
    let info = init_info(cfg, ta, tb);
    if cfg.stable {
        vec![bytes(&h.stake), bytes(&h.token), info, a(OWNER), u32v(7), string("Pool"), string("LP"), u64v(cfg.amp), i64v(10_000)]
    } else {
        vec![bytes(&h.stake), bytes(&h.token), info, a(OWNER), u32v(7), string("Pool"), string("LP"), i64v(cfg.def_slip), i64v(10_000)]
    }
}

pub fn deploy_pool(w: &World, cfg: &PoolCfg) -> Pool {
    let h = Hashes {
        token: w.upload("soroban_token_contract"),
        stake: w.upload("phoenix_stake"),
        pool: if cfg.stable { [0; 32] } else { w.upload("phoenix_pool") },
        stable: if cfg.stable { w.upload("phoenix_pool_stable") } else { [0; 32] },
    };
    let (ta, tb) = token_pair(w, h.token, cfg.sac, cfg.dec);
    let p = w.create(if cfg.stable { h.stable } else { h.pool }, 210, vec![]);
    w.call(&p, "initialize", pool_init_args(cfg, &h, &ta, &tb)).expect("pool initialize");
    let lp = w.call(&p, "query_share_token_address", vec![]).unwrap().address();
    let stake = w.call(&p, "query_stake_contract_address", vec![]).unwrap().address();
    let lp_dec = w.call(&lp, "decimals", vec![]).unwrap().u32();
    Pool { addr: p, a: ta, b: tb, lp, stake, dec: cfg.dec, lp_dec }
}

pub fn provide(w: &World, stable: bool, p: &Pool, who: u8, da: i128, db: i128) -> Res {
    if stable {
        w.call(&p.addr, "provide_liquidity", vec![a(who), i128v(da), i128v(db), void(), void(), void()])
    } else {
        w.call(&p.addr, "provide_liquidity", vec![a(who), i128v(da), void(), i128v(db), void(), void(), void()])
    }
}
pub fn swap(w: &World, p: &Addr, who: u8, offer: &Addr, amt: i128) -> Res {
    w.call(p, "swap", vec![a(who), addr(offer), i128v(amt), void(), void(), void(), void()])
}
