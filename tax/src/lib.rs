//! A token of which one part in a hundred of every transfer (at least one unit of any amount from
//! fifty on) is burned on the way.
#![no_std]
use soroban_sdk::{contract, contractimpl, contracttype, Address, Env, String};

#[contracttype]
pub enum Key {
    Admin,
    Meta,
    Balance(Address),
}

#[contract]
pub struct Taxed;

fn balance(e: &Env, id: &Address) -> i128 {
    e.storage().persistent().get(&Key::Balance(id.clone())).unwrap_or(0)
}
fn add(e: &Env, id: &Address, amount: i128) {
    let b = balance(e, id) + amount;
    assert!(b >= 0);
    e.storage().persistent().set(&Key::Balance(id.clone()), &b);
}

#[contractimpl]
impl Taxed {
    pub fn __constructor(e: Env, admin: Address, decimal: u32, name: String, symbol: String) {
        e.storage().instance().set(&Key::Admin, &admin);
        e.storage().instance().set(&Key::Meta, &(decimal, name, symbol));
    }
    pub fn mint(e: Env, to: Address, amount: i128) {
        let admin: Address = e.storage().instance().get(&Key::Admin).unwrap();
        admin.require_auth();
        assert!(amount >= 0);
        add(&e, &to, amount);
    }
    pub fn balance(e: Env, id: Address) -> i128 {
        balance(&e, &id)
    }
    pub fn transfer(e: Env, from: Address, to: Address, amount: i128) {
        from.require_auth();
        assert!(amount >= 0);
        add(&e, &from, -amount);
        add(&e, &to, amount - (amount + 50) / 100);
    }
    pub fn decimals(e: Env) -> u32 {
        e.storage().instance().get::<_, (u32, String, String)>(&Key::Meta).unwrap().0
    }
    pub fn name(e: Env) -> String {
        e.storage().instance().get::<_, (u32, String, String)>(&Key::Meta).unwrap().1
    }
    pub fn symbol(e: Env) -> String {
        e.storage().instance().get::<_, (u32, String, String)>(&Key::Meta).unwrap().2
    }
}
