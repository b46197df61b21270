//! The repository's token, against a reference ledger.
use super::{host_assumptions, Property};
use crate::explore::*;
use crate::sys::*;
use crate::val::*;
use crate::world::*;
use std::collections::BTreeMap;

pub fn properties() -> Vec<Property> {
    vec![Property { id: "P01", scenarios, assumptions: host_assumptions }]
}

#[derive(Clone, Debug)]
enum Op {
    Mint { to: u8, amt: i128 },
    SetAdmin(u8),
    Transfer { from: u8, to: u8, amt: i128 },
    Approve { from: u8, spender: u8, amt: i128, exp: i64 },
    TransferFrom { spender: u8, from: u8, to: u8, amt: i128 },
    Burn { from: u8, amt: i128 },
    BurnFrom { spender: u8, from: u8, amt: i128 },
    Ledgers(u32),
}

#[derive(Clone, Debug)]
struct M {
    admin: u8,
    bal: BTreeMap<u8, i128>,
    /// (owner, spender) -> amount, last ledger
    allow: BTreeMap<(u8, u8), (i128, u32)>,
}

struct Token {
    label: &'static str,
    dec: u32,
    start: Vec<(u8, i128)>,
    depth: (usize, usize),
    alphabet: fn(&M) -> Vec<Op>,
}
struct C {
    t: Addr,
}
const WHO: [u8; 3] = [U1, U2, U3];

impl M {
    fn live(&self, k: (u8, u8), seq: u32) -> i128 {
        match self.allow.get(&k) {
            Some((a, e)) if *e >= seq => *a,
            _ => 0,
        }
    }
    fn b(&self, u: u8) -> i128 {
        self.bal.get(&u).copied().unwrap_or(0)
    }
    /// What the reference does: the new state, or a refusal.
    fn apply(&self, op: &Op, seq: u32) -> Option<(M, Vec<u8>)> {
        let mut m = self.clone();
        let mv = |m: &mut M, from: Option<u8>, to: Option<u8>, amt: i128| -> Option<()> {
            if amt < 0 {
                return None;
            }
            if let Some(f) = from {
                if m.b(f) < amt {
                    return None;
                }
                m.bal.insert(f, m.b(f) - amt);
            }
            if let Some(t) = to {
                m.bal.insert(t, m.b(t).checked_add(amt)?);
            }
            Some(())
        };
        let spend = |m: &mut M, owner: u8, spender: u8, amt: i128| -> Option<()> {
            let a = m.live((owner, spender), seq);
            if amt < 0 || a < amt {
                return None;
            }
            if amt > 0 {
                let e = m.allow[&(owner, spender)].1;
                m.allow.insert((owner, spender), (a - amt, e));
            }
            Some(())
        };
        let signer = match *op {
            Op::Mint { to, amt } => {
                mv(&mut m, None, Some(to), amt)?;
                self.admin
            }
            Op::SetAdmin(n) => {
                m.admin = n;
                self.admin
            }
            Op::Transfer { from, to, amt } => {
                mv(&mut m, Some(from), Some(to), amt)?;
                from
            }
            Op::Approve { from, spender, amt, exp } => {
                let e = (seq as i64 + exp) as u32;
                if amt < 0 || (amt > 0 && e < seq) {
                    return None;
                }
                m.allow.insert((from, spender), (amt, e));
                from
            }
            Op::TransferFrom { spender, from, to, amt } => {
                spend(&mut m, from, spender, amt)?;
                mv(&mut m, Some(from), Some(to), amt)?;
                spender
            }
            Op::Burn { from, amt } => {
                mv(&mut m, Some(from), None, amt)?;
                from
            }
            Op::BurnFrom { spender, from, amt } => {
                spend(&mut m, from, spender, amt)?;
                mv(&mut m, Some(from), None, amt)?;
                spender
            }
            Op::Ledgers(_) => unreachable!(),
        };
        Some((m, vec![signer]))
    }
}

impl Spec for Token {
    type C = C;
    type M = M;
    type Op = Op;
    fn name(&self) -> String {
        self.label.into()
    }
    fn depth(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.depth.0
        } else {
            self.depth.1
        }
    }
    fn ttl_matters(&self) -> bool {
        true
    }
    fn setup(&self, w: &World) -> C {
        let h = w.upload("soroban_token_contract");
        let t = token(w, h, 1, self.dec);
        for (u, x) in &self.start {
            mint(w, &t, *u, *x);
        }
        C { t }
    }
    fn start(&self, _w: &World, _c: &C, _o: &mut Out) -> M {
        M { admin: ADMIN, bal: self.start.iter().cloned().collect(), allow: BTreeMap::new() }
    }
    fn ops(&self, _c: &C, m: &M) -> Vec<Op> {
        (self.alphabet)(m)
    }
    fn step(&self, w: &World, c: &C, m: &mut M, op: &Op, o: &mut Out) {
        let seq = w.clock().seq;
        if let Op::Ledgers(n) = op {
            let k = w.clock();
            w.set_clock(Clock { seq: k.seq + n, ts: k.ts + 5 * *n as u64 });
        } else {
            let r = match op {
                Op::Mint { to, amt } => w.call(&c.t, "mint", vec![a(*to), i128v(*amt)]),
                Op::SetAdmin(n) => w.call(&c.t, "set_admin", vec![a(*n)]),
                Op::Transfer { from, to, amt } => w.call(&c.t, "transfer", vec![a(*from), a(*to), i128v(*amt)]),
                Op::Approve { from, spender, amt, exp } => w.call(&c.t, "approve", vec![a(*from), a(*spender), i128v(*amt), u32v((seq as i64 + exp) as u32)]),
                Op::TransferFrom { spender, from, to, amt } => w.call(&c.t, "transfer_from", vec![a(*spender), a(*from), a(*to), i128v(*amt)]),
                Op::Burn { from, amt } => w.call(&c.t, "burn", vec![a(*from), i128v(*amt)]),
                Op::BurnFrom { spender, from, amt } => w.call(&c.t, "burn_from", vec![a(*spender), a(*from), i128v(*amt)]),
                Op::Ledgers(_) => unreachable!(),
            };
            let kind = format!("{op:?}");
            let kind = kind.split([' ', '(']).next().unwrap().to_lowercase();
            match (m.apply(op, seq), r) {
                (Some((m2, who)), Ok(_)) => {
                    o.count(format!("{kind} ok"));
                    o.eq(w.signers(), who.into_iter().map(actor).collect(), "token/signer", || format!("{op:?}: who had to authorize it"));
                    *m = m2;
                }
                (None, Err(_)) => {
                    o.count(format!("{kind} refused"));
                    o.same = true;
                }
                (Some(_), Err(e)) => o.fail("token/refused", format!("{op:?} in {m:?} was refused ({e:?})")),
                (None, Ok(_)) => o.fail("token/accepted", format!("{op:?} in {m:?} was executed")),
            }
        }
        let seq = w.clock().seq;
        for u in WHO {
            o.eq(w.balance(&c.t, &actor(u)), m.b(u), "token/balance", || format!("after {op:?}: balance of {u}"));
            for s in WHO {
                let x = w.query(&c.t, "allowance", vec![a(u), a(s)]).map(|v| v.i128());
                o.eq(x, Ok(m.live((u, s), seq)), "token/allowance", || format!("after {op:?}: allowance of {s} from {u}"));
            }
        }
        o.eq(w.query(&c.t, "name", vec![]).map(|v| v.text()), Ok("Token 1".into()), "token/name", || "name".into());
        o.eq(w.query(&c.t, "symbol", vec![]).map(|v| v.text()), Ok("T1".into()), "token/symbol", || "symbol".into());
        o.eq(w.query(&c.t, "decimals", vec![]).map(|v| v.u32()), Ok(self.dec), "token/decimals", || "decimals".into());
    }
}

fn scenarios(_t: Tier) -> Vec<Box<dyn Scenario>> {
    let v: Vec<Box<dyn Scenario>> = vec![
        Box::new(Token {
            label: "balances",
            dec: 7,
            start: vec![(U1, 10), (U2, 3)],
            depth: (3, 4),
            alphabet: |m| {
                let mut v = vec![];
                for f in WHO {
                    for t in WHO {
                        for amt in [1, 3, m.b(f), m.b(f).saturating_add(1)] {
                            v.push(Op::Transfer { from: f, to: t, amt });
                        }
                    }
                    for amt in [0, 1, m.b(f), m.b(f).saturating_add(1), -1, i128::MIN] {
                        v.push(Op::Burn { from: f, amt });
                    }
                    v.push(Op::Transfer { from: f, to: U1, amt: -1 });
                    v.push(Op::Transfer { from: f, to: U2, amt: 0 });
                    v.push(Op::Transfer { from: f, to: f, amt: i128::MAX });
                }
                for amt in [-5, 0, 7, i128::MAX, i128::MAX - m.b(U2)] {
                    v.push(Op::Mint { to: U2, amt });
                }
                v.push(Op::SetAdmin(if m.admin == ADMIN { U3 } else { ADMIN }));
                v
            },
        }),
        Box::new(Token {
            label: "allowances",
            dec: 18,
            start: vec![(U1, 10)],
            depth: (4, 5),
            alphabet: |m| {
                let mut v = vec![];
                for (s, amt, exp) in [(U2, 4, 2), (U2, 20, 40), (U2, 0, -1), (U2, 5, 0), (U2, 5, -1), (U2, -1, 9), (U3, 3, 30), (U1, 2, 5), (U2, i128::MAX, 40)] {
                    v.push(Op::Approve { from: U1, spender: s, amt, exp });
                }
                v.push(Op::Approve { from: U2, spender: U1, amt: 4, exp: 20 });
                let al = m.allow.get(&(U1, U2)).map_or(0, |x| x.0);
                for amt in [1, al, al.saturating_add(1), -1, 0] {
                    v.push(Op::TransferFrom { spender: U2, from: U1, to: U2, amt });
                    v.push(Op::BurnFrom { spender: U2, from: U1, amt });
                }
                v.push(Op::TransferFrom { spender: U2, from: U1, to: U3, amt: 2 });
                v.push(Op::TransferFrom { spender: U2, from: U1, to: U1, amt: 2 });
                v.push(Op::TransferFrom { spender: U3, from: U1, to: U3, amt: 1 });
                v.push(Op::TransferFrom { spender: U1, from: U1, to: U3, amt: 1 });
                v.push(Op::BurnFrom { spender: U1, from: U1, amt: 1 });
                v.push(Op::BurnFrom { spender: U3, from: U1, amt: 1 });
                v.push(Op::TransferFrom { spender: U1, from: U2, to: U3, amt: 1 });
                v.push(Op::Ledgers(1));
                v.push(Op::Ledgers(2));
                v.push(Op::Ledgers(20));
                v.push(Op::Ledgers(300_000));
                v.push(Op::Approve { from: U1, spender: U2, amt: 6, exp: 300_000 });
                v
            },
        }),
    ];
    v
}
