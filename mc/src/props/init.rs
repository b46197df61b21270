//! Initialization happens once; replacing the code keeps everything.
use super::auth::{Auth, Call, Con, Obs, When, C, K, WASM};
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;

use std::collections::BTreeMap;
use std::sync::Arc;

pub fn properties() -> Vec<Property> {
    vec![Property { id: "P23", scenarios, assumptions: host_assumptions }]
}

fn text(c: &C, x: &Call) -> String {
    format!("{}.{}({})", c.cons[x.con].name, x.f, x.args.iter().map(show).collect::<Vec<_>>().join(", "))
}
fn is_init(f: &str) -> bool {
    f.starts_with("initialize")
}

// ---------------------------------------------------------------- contracts that were only deployed

struct Fresh;

#[derive(Clone)]
struct FM {
    done: Vec<usize>,
    bal: Arc<BTreeMap<(usize, Addr), i128>>,
    data: Arc<BTreeMap<Vec<u8>, Vec<u8>>>,
}
impl std::fmt::Debug for FM {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.done)
    }
}

#[derive(Clone)]
struct FOp(usize, String);
impl std::fmt::Debug for FOp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.1)
    }
}

impl Fresh {
    fn balances(&self, w: &World, c: &C) -> BTreeMap<(usize, Addr), i128> {
        let mut m = BTreeMap::new();
        for &t in &c.tokens {
            for h in [ATT, U1, U2, ADMIN].map(actor).into_iter().chain(c.cons.iter().filter(|x| x.k != K::Token).map(|x| x.addr.clone())) {
                m.insert((t, h.clone()), w.balance(&c.cons[t].addr, &h));
            }
        }
        m
    }
}

impl Spec for Fresh {
    type C = C;
    type M = FM;
    type Op = FOp;
    fn name(&self) -> String {
        "only-deployed".into()
    }
    fn depth(&self, _t: Tier) -> usize {
        2
    }
    fn setup(&self, w: &World) -> C {
        let h: BTreeMap<K, [u8; 32]> = WASM.iter().map(|(k, n)| (*k, w.upload(n))).collect();
        let v2 = WASM.iter().map(|(k, n)| (*k, w.upload_bytes(super::factory::other(n)))).collect();
        let mut t: Vec<Addr> = (1..=4).map(|s| token(w, h[&K::Token], s, 7)).collect();
        t.sort();
        let mut cons = vec![];
        for (i, x) in t.iter().enumerate() {
            cons.push(Con { k: K::Token, name: format!("token {i}"), addr: x.clone(), admin: actor(ADMIN), others: vec![] });
        }
        for (n, (k, name)) in WASM.iter().enumerate() {
            if *k == K::Token {
                continue;
            }
            let x = w.create(h[k], 100 + n as u8, vec![]);
            for y in &t {
                mint(w, y, U1, 1_000_000);
                mint(w, y, ATT, 1_000_000);
                // somebody has already paid in
                w.call(y, "transfer", vec![a(U1), addr(&x), i128v(10_000)]).expect("transfer");
            }
            cons.push(Con { k: *k, name: name.to_string(), addr: x, admin: actor(ADMIN), others: vec![] });
        }
        let tokens = (0..t.len()).collect();
        let mut c = C { cons, tokens, v2, calls: vec![], unknown: vec![] };
        Auth { when: When::InUse, depth: (1, 1) }.calls(w, &mut c);
        c.calls.retain(|x| c.cons[x.con].k != K::Token);
        c
    }
    fn start(&self, w: &World, c: &C, o: &mut Out) -> FM {
        for x in &c.unknown {
            o.count(format!("not called, a parameter of an unknown type: {x}"));
        }
        FM { done: vec![], bal: Arc::new(self.balances(w, c)), data: Arc::new(w.data()) }
    }
    fn ops(&self, c: &C, m: &FM) -> Vec<FOp> {
        c.calls
            .iter()
            .enumerate()
            .filter(|(_, x)| m.done.is_empty() || m.done.contains(&x.con) && is_init(&x.f) && x.again)
            .map(|(i, x)| FOp(i, text(c, x)))
            .collect()
    }
    fn step(&self, w: &World, c: &C, m: &mut FM, op: &FOp, o: &mut Out) {
        let call = &c.calls[op.0];
        o.same = true;
        if w.call(&c.cons[call.con].addr, &call.f, call.args.clone()).is_err() {
            o.count("refused");
            return;
        }
        if is_init(&call.f) {
            if m.done.contains(&call.con) {
                o.fail("init/again", format!("{op:?} succeeded although the contract was initialized"));
                return;
            }
            o.count(format!("{:?} {}", c.cons[call.con].k, call.f));
            m.done.push(call.con);
            let b = self.balances(w, c);
            o.check(b == *m.bal, "init/moves-funds", || format!("{op:?} changes balances"));
            m.data = Arc::new(w.data());
            o.same = false;
            return;
        }
        if w.data() == *m.data {
            o.count("nothing changed");
            return;
        }
        o.count(format!("{:?} {} changes the ledger before initialization", c.cons[call.con].k, call.f));
        let b = self.balances(w, c);
        let s = w.signers();
        // who signs may pay in; nothing of others, and nothing that was paid in, goes away
        for (k, was) in m.bal.iter() {
            o.check(b[k] >= *was || s.contains(&k.1), "init/before", || format!("{op:?}, before initialization: {} had {was} of token {}, has {}", short(&k.1), k.0, b[k]));
        }
    }
}

// ---------------------------------------------------------------- the whole system, in use

struct Again {
    when: When,
    depth: (usize, usize),
}

#[derive(Clone, Debug)]
enum Op {
    /// (contract, version)
    Update(usize, usize),
    Upgrade(usize, usize),
    Init(usize, String),
    Swap(usize),
    Bond(usize),
    Transfer(usize),
    Wait(u64),
}

pub struct AC {
    c: C,
    h: BTreeMap<K, [u8; 32]>,
}

#[derive(Clone)]
struct AM {
    code: Vec<usize>,
    waited: u64,
    obs: Arc<Obs>,
}
impl std::fmt::Debug for AM {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?} {}", self.code, self.waited)
    }
}

impl Again {
    fn auth(&self) -> Auth {
        Auth { when: self.when, depth: (1, 1) }
    }
    fn hash(&self, c: &AC, con: usize, v: usize) -> [u8; 32] {
        let k = c.c.cons[con].k;
        if v == 0 { c.h[&k] } else { c.c.v2[&k] }
    }
}

impl Spec for Again {
    type C = AC;
    type M = AM;
    type Op = Op;
    fn name(&self) -> String {
        format!("system-{:?}", self.when)
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.depth.0 } else { self.depth.1 }
    }
    fn setup(&self, w: &World) -> AC {
        let h = WASM.iter().map(|(k, n)| (*k, w.upload(n))).collect();
        let mut c = self.auth().setup(w);
        c.calls.retain(|x| is_init(&x.f) && x.again);
        AC { c, h }
    }
    fn start(&self, w: &World, c: &AC, o: &mut Out) -> AM {
        for x in &c.c.unknown {
            o.count(format!("not called, a parameter of an unknown type: {x}"));
        }
        AM { code: vec![0; c.c.cons.len()], waited: 0, obs: Arc::new(self.auth().observe(w, &c.c, None)) }
    }
    fn ops(&self, c: &AC, m: &AM) -> Vec<Op> {
        let mut v: Vec<Op> = c.c.calls.iter().enumerate().map(|(i, x)| Op::Init(i, text(&c.c, x))).collect();
        for (i, x) in c.c.cons.iter().enumerate() {
            match x.k {
                K::Token | K::Trader => {}
                K::Pool | K::Stable => {
                    v.push(Op::Update(i, 1 - m.code[i]));
                    v.push(Op::Upgrade(i, 1 - m.code[i]));
                }
                _ => v.push(Op::Update(i, 1 - m.code[i])),
            }
            match x.k {
                K::Pool | K::Stable => v.push(Op::Swap(i)),
                K::Stake => v.push(Op::Bond(i)),
                K::Token => v.push(Op::Transfer(i)),
                _ => {}
            }
        }
        v.push(Op::Wait(1));
        v.push(Op::Wait(400 * DAY));
        v
    }
    fn step(&self, w: &World, c: &AC, m: &mut AM, op: &Op, o: &mut Out) {
        let con = |i: usize| &c.c.cons[i];
        match op {
            Op::Init(i, t) => {
                let x = &c.c.calls[*i];
                o.same = true;
                let r = w.call(&con(x.con).addr, &x.f, x.args.clone());
                o.check(r.is_err(), "init/again", || format!("{t} succeeded although the contract was initialized"));
                o.count("initialization refused");
            }
            Op::Update(i, v) | Op::Upgrade(i, v) => {
                let x = con(*i);
                let hash = self.hash(c, *i, *v);
                let upgrade = matches!(op, Op::Upgrade(..));
                let mut args = vec![bytes(&hash)];
                if x.k == K::Factory {
                    args.push(bytes(&c.c.v2[&K::Stable]));
                }
                if upgrade && x.k == K::Pool {
                    args.push(i64v(2_500));
                }
                let r = w.call(&x.addr, if upgrade { "upgrade" } else { "update" }, args);
                if let Err(e) = r {
                    o.fail("update/refused", format!("{op:?} of {}: {e:?}", x.name));
                    return;
                }
                o.eq(w.signers(), vec![x.admin.clone()], "update/signers", || format!("{op:?} of {}", x.name));
                m.code[*i] = *v;
                let n = self.auth().observe(w, &c.c, None);
                let b = &m.obs;
                let mut code = b.code.clone();
                code[*i] = Some(hash);
                o.check(n.code == code, "update/code", || format!("{op:?} of {}: the code of the contracts is {:?}", x.name, n.code));
                o.check(n.bal == b.bal && n.allow == b.allow, "update/balances", || format!("{op:?} of {}: balances or allowances changed", x.name));
                o.check(n.stakes == b.stakes && n.rewards == b.rewards && n.vest == b.vest, "update/positions", || format!("{op:?} of {}: stakes, rewards or vesting changed", x.name));
                for k in 0..c.c.cons.len() {
                    o.check(n.config[k] == b.config[k], "update/settings", || format!("{op:?} of {}: settings of {} were {}, are {}", x.name, con(k).name, show(&vecv(b.config[k].clone())), show(&vecv(n.config[k].clone()))));
                }
                o.check(n.product == b.product, "update/pools", || format!("{op:?} of {}: {:?}, before {:?}", x.name, n.product, b.product));
                o.count(format!("{:?} {}", x.k, if upgrade { "upgrade" } else { "update" }));
                m.obs = Arc::new(n);
            }
            Op::Wait(d) => {
                if m.waited >= 400 * DAY {
                    o.same = true;
                    return;
                }
                m.waited += d;
                w.advance(*d);
                if *d > DAY {
                    // nobody extended anything: what was temporary is gone
                    w.expire(true);
                }
                m.obs = Arc::new(self.auth().observe(w, &c.c, None));
            }
            Op::Swap(i) | Op::Bond(i) | Op::Transfer(i) => {
                let x = con(*i);
                let r = match op {
                    Op::Swap(_) => {
                        let t = w.query(&x.addr, "query_config", vec![]).map(|q| q.field("token_a").address());
                        let Ok(t) = t else {
                            o.fail("update/settings", format!("{} has no configuration", x.name));
                            return;
                        };
                        swap(w, &x.addr, U2, &t, 1_000)
                    }
                    Op::Bond(_) => w.call(&x.addr, "bond", vec![a(U1), i128v(100)]),
                    _ => w.call(&x.addr, "transfer", vec![a(U2), a(U3), i128v(10)]),
                };
                let vesting = x.name.contains("vesting");
                o.check(r.is_ok() || vesting, "update/unusable", || format!("{op:?} of {}: {r:?}", x.name));
                if r.is_err() {
                    o.same = true;
                    return;
                }
                o.count("used");
                m.obs = Arc::new(self.auth().observe(w, &c.c, None));
            }
        }
    }
}

fn scenarios(tier: Tier) -> Vec<Box<dyn Scenario>> {
    let _ = tier;
    vec![Box::new(Fresh), Box::new(Again { when: When::InUse, depth: (2, 3) }), Box::new(Again { when: When::HandedOver, depth: (2, 3) })]
}


