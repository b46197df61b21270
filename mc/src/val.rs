//! Conversions between Rust values and the XDR values the contracts take and return.
use soroban_env_host::xdr::*;

pub type Addr = ScAddress;

/// The address of an actor: a contract address that has no code, so that every
/// `require_auth` of it is recorded by the host.
pub fn actor(n: u8) -> Addr {
    ScAddress::Contract(Hash([n; 32]))
}

pub fn symbol(s: &str) -> ScSymbol {
    ScSymbol(s.try_into().unwrap())
}
pub fn sym(s: &str) -> ScVal {
    ScVal::Symbol(symbol(s))
}
pub fn string(s: &str) -> ScVal {
    ScVal::String(ScString(s.try_into().unwrap()))
}
pub fn i128v(v: i128) -> ScVal {
    ScVal::I128(Int128Parts { hi: (v >> 64) as i64, lo: v as u64 })
}
pub fn u128v(v: u128) -> ScVal {
    ScVal::U128(UInt128Parts { hi: (v >> 64) as u64, lo: v as u64 })
}
pub fn u64v(v: u64) -> ScVal {
    ScVal::U64(v)
}
pub fn i64v(v: i64) -> ScVal {
    ScVal::I64(v)
}
pub fn u32v(v: u32) -> ScVal {
    ScVal::U32(v)
}
pub fn boolv(v: bool) -> ScVal {
    ScVal::Bool(v)
}
pub fn addr(a: &Addr) -> ScVal {
    ScVal::Address(a.clone())
}
pub fn bytes(h: &[u8; 32]) -> ScVal {
    ScVal::Bytes(ScBytes(h.to_vec().try_into().unwrap()))
}
pub fn void() -> ScVal {
    ScVal::Void
}
pub fn vecv(v: Vec<ScVal>) -> ScVal {
    ScVal::Vec(Some(ScVec(v.try_into().unwrap())))
}
pub fn opt<T>(o: Option<T>, f: impl FnOnce(T) -> ScVal) -> ScVal {
    match o {
        Some(x) => f(x),
        None => ScVal::Void,
    }
}
pub fn structv(fields: Vec<(&str, ScVal)>) -> ScVal {
    let mut v = fields;
    v.sort_by(|a, b| a.0.cmp(b.0));
    ScVal::Map(Some(ScMap(
        v.into_iter()
            .map(|(k, v)| ScMapEntry { key: sym(k), val: v })
            .collect::<Vec<_>>()
            .try_into()
            .unwrap(),
    )))
}
/// A contract enum without fields is its symbol in a vector.
pub fn enumv(name: &str, rest: Vec<ScVal>) -> ScVal {
    let mut v = vec![sym(name)];
    v.extend(rest);
    vecv(v)
}

pub trait Get {
    fn i128(&self) -> i128;
    fn u64(&self) -> u64;
    fn u32(&self) -> u32;
    fn i64(&self) -> i64;
    fn bool(&self) -> bool;
    fn address(&self) -> Addr;
    fn field(&self, name: &str) -> &ScVal;
    fn try_field(&self, name: &str) -> Option<&ScVal>;
    fn list(&self) -> Vec<ScVal>;
    fn bytes32(&self) -> [u8; 32];
    fn text(&self) -> String;
}
impl Get for ScVal {
    fn i128(&self) -> i128 {
        match self {
            ScVal::I128(p) => ((p.hi as i128) << 64) | p.lo as i128,
            ScVal::U128(p) => (((p.hi as u128) << 64) | p.lo as u128) as i128,
            ScVal::U32(x) => *x as i128,
            ScVal::U64(x) => *x as i128,
            ScVal::I64(x) => *x as i128,
            x => panic!("not an integer: {x:?}"),
        }
    }
    fn u64(&self) -> u64 {
        match self {
            ScVal::U64(x) => *x,
            ScVal::U32(x) => *x as u64,
            x => panic!("not u64: {x:?}"),
        }
    }
    fn u32(&self) -> u32 {
        match self {
            ScVal::U32(x) => *x,
            x => panic!("not u32: {x:?}"),
        }
    }
    fn i64(&self) -> i64 {
        match self {
            ScVal::I64(x) => *x,
            x => panic!("not i64: {x:?}"),
        }
    }
    fn bool(&self) -> bool {
        match self {
            ScVal::Bool(x) => *x,
            x => panic!("not bool: {x:?}"),
        }
    }
    fn address(&self) -> Addr {
        match self {
            ScVal::Address(a) => a.clone(),
            x => panic!("not an address: {x:?}"),
        }
    }
    fn try_field(&self, name: &str) -> Option<&ScVal> {
        match self {
            ScVal::Map(Some(m)) => m.iter().find(|e| matches!(&e.key, ScVal::Symbol(s) if s.0.as_slice() == name.as_bytes())).map(|e| &e.val),
            _ => None,
        }
    }
    fn field(&self, name: &str) -> &ScVal {
        self.try_field(name).unwrap_or_else(|| panic!("no field {name} in {self:?}"))
    }
    fn list(&self) -> Vec<ScVal> {
        match self {
            ScVal::Vec(Some(v)) => v.iter().cloned().collect(),
            x => panic!("not a vector: {x:?}"),
        }
    }
    fn bytes32(&self) -> [u8; 32] {
        match self {
            ScVal::Bytes(b) => b.as_slice().try_into().unwrap(),
            x => panic!("not bytes: {x:?}"),
        }
    }
    fn text(&self) -> String {
        match self {
            ScVal::String(s) => String::from_utf8_lossy(s.as_slice()).into(),
            ScVal::Symbol(s) => String::from_utf8_lossy(s.0.as_slice()).into(),
            x => panic!("not text: {x:?}"),
        }
    }
}

/// A short name for an address: its first two bytes.
pub fn short(a: &Addr) -> String {
    match a {
        ScAddress::Contract(Hash(h)) => format!("C{:02x}{:02x}", h[0], h[1]),
        ScAddress::Account(_) => "G".into(),
    }
}
