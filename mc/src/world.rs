//! The system under test: the contracts' release wasm, built from the working tree of /repo, in the
//! Soroban host. A `World` is one host with one ledger; ledgers can be saved, restored, and moved
//! between threads in their XDR form.
use crate::val::*;
use soroban_env_host::{
    budget::{AsBudget, Budget},
    storage::{SnapshotSource, Storage, StorageMap},
    xdr::*,
    Host, HostError, LedgerInfo,
};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::rc::Rc;

type Slot = Option<(Rc<LedgerEntry>, Option<u32>)>;

struct Src(BTreeMap<Rc<LedgerKey>, Slot>);
impl SnapshotSource for Src {
    fn get(&self, k: &Rc<LedgerKey>) -> Result<Slot, HostError> {
        Ok(self.0.get(k).cloned().flatten())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CallErr {
    /// The contract's own error code.
    Contract(u32),
    /// Anything else the host or the wasm machine stopped with (a trap, missing authorization ...).
    Other,
    /// Did not finish within the instruction limit of the checker.
    Diverged,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Event {
    pub by: Addr,
    pub topics: Vec<ScVal>,
    pub data: ScVal,
}

pub type Res = Result<ScVal, CallErr>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Clock {
    pub ts: u64,
    pub seq: u32,
}

/// One ledger, without wasm code and nonces, as plain data.
#[derive(Clone)]
pub struct Ledger {
    pub clock: Clock,
    pub entries: Vec<(Vec<u8>, Vec<u8>, Option<u32>)>,
}

/// What new worlds start from: the ledger after setup and the code in it.
pub struct Template {
    codes: Vec<(LedgerKey, LedgerEntry, Option<u32>)>,
    pub ledger: Ledger,
}

pub struct World {
    host: RefCell<Host>,
    base: Rc<BTreeMap<Rc<LedgerKey>, Slot>>,
    clock: RefCell<Clock>,
    calls: Cell<u64>,
    total_calls: Cell<u64>,
    pub trace: Cell<bool>,
}

#[derive(Clone)]
pub struct Snap {
    map: StorageMap,
    clock: Clock,
}

fn is_code(k: &LedgerKey) -> bool {
    matches!(k, LedgerKey::ContractCode(_))
}
fn is_nonce(k: &LedgerKey) -> bool {
    matches!(k, LedgerKey::ContractData(LedgerKeyContractData { key: ScVal::LedgerKeyNonce(_), .. }))
}

pub fn wasm_dir() -> PathBuf {
    std::env::var("MC_WASM").expect("MC_WASM is not set").into()
}
pub fn wasm(name: &str) -> Vec<u8> {
    let p = wasm_dir().join(format!("{name}.wasm"));
    std::fs::read(&p).unwrap_or_else(|e| panic!("{}: {e}", p.display()))
}

const ISSUER: [u8; 32] = [99; 32];

/// The issuer account of the Stellar assets.
fn issuer_account() -> (Rc<LedgerKey>, Slot) {
    let id = AccountId(PublicKey::PublicKeyTypeEd25519(Uint256(ISSUER)));
    let e = LedgerEntry {
        last_modified_ledger_seq: 0,
        data: LedgerEntryData::Account(AccountEntry {
            account_id: id.clone(),
            balance: 1_000_000_000,
            seq_num: SequenceNumber(0),
            num_sub_entries: 0,
            inflation_dest: None,
            flags: 0,
            home_domain: String32::default(),
            thresholds: Thresholds([1, 0, 0, 0]),
            signers: VecM::default(),
            ext: AccountEntryExt::V0,
        }),
        ext: LedgerEntryExt::V0,
    };
    (Rc::new(LedgerKey::Account(LedgerKeyAccount { account_id: id })), Some((Rc::new(e), None)))
}

fn new_host(base: &Rc<BTreeMap<Rc<LedgerKey>, Slot>>, clock: &Clock) -> Host {
    let b = Budget::default();
    let h = Host::with_storage_and_budget(
        Storage::with_recording_footprint(Rc::new(Src((**base).clone()))),
        b.clone(),
    );
    h.set_base_prng_seed([7; 32]).unwrap();
    set_clock(&h, clock);
    b.reset_unlimited().unwrap();
    h.switch_to_recording_auth(true).unwrap();
    h
}
fn set_clock(h: &Host, c: &Clock) {
    h.set_ledger_info(LedgerInfo {
        protocol_version: 22,
        sequence_number: c.seq,
        timestamp: c.ts,
        network_id: [0; 32],
        base_reserve: 0,
        min_persistent_entry_ttl: 4096,
        min_temp_entry_ttl: 16,
        max_entry_ttl: 6_312_000,
    })
    .unwrap();
}

impl World {
    pub fn empty(clock: Clock) -> World {
        let base = Rc::new(BTreeMap::from([issuer_account()]));
        World {
            host: RefCell::new(new_host(&base, &clock)),
            base,
            clock: RefCell::new(clock),
            calls: Cell::new(0),
            total_calls: Cell::new(0),
            trace: Cell::new(false),
        }
    }

    /// A world in which all the code of the template is already parsed.
    pub fn from_template(t: &Template) -> World {
        let mut base: BTreeMap<Rc<LedgerKey>, Slot> = BTreeMap::new();
        for (k, e, l) in &t.codes {
            base.insert(Rc::new(k.clone()), Some((Rc::new(e.clone()), *l)));
        }
        let base = Rc::new(base);
        let w = World {
            host: RefCell::new(new_host(&base, &t.ledger.clock)),
            base,
            clock: RefCell::new(t.ledger.clock.clone()),
            calls: Cell::new(0),
            total_calls: Cell::new(0),
            trace: Cell::new(false),
        };
        w.warm();
        w.import(&t.ledger);
        w
    }

    fn warm(&self) {
        let h = self.host.borrow();
        let b = h.as_budget().clone();
        h.with_mut_storage(|s| {
            s.map = StorageMap::from_map(self.base.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), &b)?;
            Ok(())
        })
        .unwrap();
        h.rebuild_module_cache().unwrap();
    }

    /// Host objects live as long as their host: start a new one from time to time.
    fn recycle(&self) {
        let snap = self.snapshot();
        *self.host.borrow_mut() = new_host(&self.base, &self.clock.borrow());
        self.warm();
        self.restore(&snap);
    }

    pub fn template(&self) -> Template {
        let h = self.host.borrow();
        let b = h.as_budget().clone();
        let codes = h
            .with_mut_storage(|s| {
                Ok(s.map
                    .iter(&b)?
                    .filter_map(|(k, v)| {
                        if is_code(k) {
                            v.as_ref().map(|(e, _)| ((**k).clone(), (**e).clone(), Some(u32::MAX)))
                        } else {
                            None
                        }
                    })
                    .collect::<Vec<_>>())
            })
            .unwrap();
        drop(h);
        Template { codes, ledger: self.export() }
    }

    pub fn snapshot(&self) -> Snap {
        let h = self.host.borrow();
        Snap { map: h.with_mut_storage(|s| Ok(s.map.clone())).unwrap(), clock: self.clock.borrow().clone() }
    }
    pub fn restore(&self, s: &Snap) {
        let h = self.host.borrow();
        h.with_mut_storage(|st| {
            st.map = s.map.clone();
            Ok(())
        })
        .unwrap();
        if *self.clock.borrow() != s.clock {
            set_clock(&h, &s.clock);
            *self.clock.borrow_mut() = s.clock.clone();
        }
    }

    pub fn export(&self) -> Ledger {
        let h = self.host.borrow();
        let b = h.as_budget().clone();
        let entries = h
            .with_mut_storage(|s| {
                Ok(s.map
                    .iter(&b)?
                    .filter(|(k, v)| !is_code(k) && !is_nonce(k) && v.is_some())
                    .map(|(k, v)| {
                        let (e, l) = v.as_ref().unwrap();
                        (k.to_xdr(Limits::none()).unwrap(), e.to_xdr(Limits::none()).unwrap(), *l)
                    })
                    .collect::<Vec<_>>())
            })
            .unwrap();
        Ledger { clock: self.clock.borrow().clone(), entries }
    }

    pub fn import(&self, l: &Ledger) {
        let mut m: BTreeMap<Rc<LedgerKey>, Slot> = (*self.base).clone();
        for (k, e, t) in &l.entries {
            m.insert(
                Rc::new(LedgerKey::from_xdr(k, Limits::none()).unwrap()),
                Some((Rc::new(LedgerEntry::from_xdr(e, Limits::none()).unwrap()), *t)),
            );
        }
        let h = self.host.borrow();
        let b = h.as_budget().clone();
        h.with_mut_storage(|s| {
            s.map = StorageMap::from_map(m.into_iter().collect(), &b)?;
            Ok(())
        })
        .unwrap();
        set_clock(&h, &l.clock);
        *self.clock.borrow_mut() = l.clock.clone();
    }

    pub fn clock(&self) -> Clock {
        self.clock.borrow().clone()
    }
    pub fn ts(&self) -> u64 {
        self.clock.borrow().ts
    }
    pub fn set_clock(&self, c: Clock) {
        let later = c.seq > self.clock.borrow().seq;
        set_clock(&self.host.borrow(), &c);
        *self.clock.borrow_mut() = c;
        if later {
            self.expire(false);
        }
    }
    /// Time goes by, and ledgers close, one in five seconds.
    pub fn advance(&self, secs: u64) {
        let mut c = self.clock();
        c.ts += secs;
        c.seq = c.seq.saturating_add((secs / 5).min(u32::MAX as u64 / 2) as u32);
        self.set_clock(c);
    }
    /// Temporary entries whose time is over are gone (all of them, if asked for); other entries are
    /// archived at that time, and are there again when somebody needs them.
    pub fn expire(&self, all: bool) -> usize {
        let seq = self.clock.borrow().seq;
        let h = self.host.borrow();
        let b = h.as_budget().clone();
        h.with_mut_storage(|s| {
            let temporary = |k: &LedgerKey| matches!(k, LedgerKey::ContractData(d) if d.durability == ContractDataDurability::Temporary);
            let over = |k: &LedgerKey, v: &Slot| matches!(v, Some((_, Some(l))) if *l < seq || all && temporary(k));
            let mut gone = 0;
            if !s.map.iter(&b)?.any(|(k, v)| over(k, v)) {
                return Ok(0);
            }
            let mut m: Vec<(Rc<LedgerKey>, Slot)> = vec![];
            for (k, v) in s.map.iter(&b)? {
                match v {
                    Some((e, _)) if over(k, v) => {
                        if temporary(k) {
                            gone += 1;
                        } else {
                            m.push((k.clone(), Some((e.clone(), Some(seq.saturating_add(4095))))));
                        }
                    }
                    _ => m.push((k.clone(), v.clone())),
                }
            }
            s.map = StorageMap::from_map(m, &b)?;
            Ok(gone)
        })
        .unwrap()
    }
    pub fn total_calls(&self) -> u64 {
        self.total_calls.get()
    }

    fn invoke(&self, f: HostFunction) -> Res {
        self.total_calls.set(self.total_calls.get() + 1);
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > 4000 && !self.base.is_empty() {
            self.calls.set(0);
            self.recycle();
        }
        let h = self.host.borrow().clone();
        h.as_budget().reset_unlimited().unwrap();
        h.clear_events().unwrap();
        let before = self.snapshot();
        let r = catch_unwind(AssertUnwindSafe(|| h.invoke_function(f)));
        match r {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => {
                self.restore(&before);
                if e.error.is_type(ScErrorType::Contract) {
                    Err(CallErr::Contract(e.error.get_code()))
                } else if e.error.is_type(ScErrorType::Budget) {
                    Err(CallErr::Diverged)
                } else {
                    if self.trace.get() {
                        println!("      host error: {:?}", e.error);
                    }
                    Err(CallErr::Other)
                }
            }
            Err(_) => {
                drop(h);
                *self.host.borrow_mut() = new_host(&self.base, &before.clock);
                self.warm();
                self.restore(&before);
                Err(CallErr::Other)
            }
        }
    }

    pub fn call(&self, c: &Addr, f: &str, args: Vec<ScVal>) -> Res {
        let r = self.invoke(HostFunction::InvokeContract(InvokeContractArgs {
            contract_address: c.clone(),
            function_name: symbol(f),
            args: args.clone().try_into().unwrap(),
        }));
        if self.trace.get() {
            println!("      {}.{f}({}) -> {}", short(c), args.iter().map(show).collect::<Vec<_>>().join(", "), match &r { Ok(v) => show(v), Err(e) => format!("{e:?}") });
        }
        r
    }
    /// A call that changes nothing the model has to know of: the ledger is put back afterwards.
    pub fn query(&self, c: &Addr, f: &str, args: Vec<ScVal>) -> Res {
        let s = self.snapshot();
        let r = self.call(c, f, args);
        self.restore(&s);
        r
    }

    /// Who had to authorize the last (successful) call.
    pub fn signers(&self) -> Vec<Addr> {
        let h = self.host.borrow();
        let mut v: Vec<Addr> = h
            .get_recorded_auth_payloads()
            .map(|p| p.into_iter().filter_map(|x| x.address).collect())
            .unwrap_or_default();
        v.sort();
        v.dedup();
        v
    }

    /// What the last call published: by whom, topics, data.
    pub fn events(&self) -> Vec<Event> {
        let h = self.host.borrow();
        h.get_events()
            .map(|e| e.0)
            .unwrap_or_default()
            .into_iter()
            .filter(|e| !e.failed_call)
            .map(|e| {
                let ContractEventBody::V0(b) = e.event.body;
                Event { by: ScAddress::Contract(e.event.contract_id.unwrap_or(Hash([0; 32]))), topics: b.topics.to_vec(), data: b.data }
            })
            .collect()
    }

    pub fn upload(&self, name: &str) -> [u8; 32] {
        self.invoke(HostFunction::UploadContractWasm(wasm(name).try_into().unwrap())).unwrap().bytes32()
    }
    pub fn upload_bytes(&self, w: Vec<u8>) -> [u8; 32] {
        self.invoke(HostFunction::UploadContractWasm(w.try_into().unwrap())).unwrap().bytes32()
    }
    pub fn create(&self, hash: [u8; 32], salt: u8, args: Vec<ScVal>) -> Addr {
        self.try_create(hash, salt, args).unwrap_or_else(|e| panic!("create failed: {e:?}"))
    }
    pub fn try_create(&self, hash: [u8; 32], salt: u8, args: Vec<ScVal>) -> Result<Addr, CallErr> {
        self.invoke(HostFunction::CreateContractV2(CreateContractArgsV2 {
            contract_id_preimage: ContractIdPreimage::Address(ContractIdPreimageFromAddress {
                address: actor(250),
                salt: Uint256([salt; 32]),
            }),
            executable: ContractExecutable::Wasm(Hash(hash)),
            constructor_args: args.try_into().unwrap(),
        }))
        .map(|v| v.address())
    }
    /// A Stellar asset contract (the host's own token, 7 decimals), administered by `admin`.
    pub fn sac(&self, code: &str, admin: &Addr) -> Addr {
        let mut c = [0u8; 4];
        c[..code.len()].copy_from_slice(code.as_bytes());
        let issuer = AccountId(PublicKey::PublicKeyTypeEd25519(Uint256(ISSUER)));
        let a = self
            .invoke(HostFunction::CreateContract(CreateContractArgs {
                contract_id_preimage: ContractIdPreimage::Asset(Asset::CreditAlphanum4(AlphaNum4 {
                    asset_code: AssetCode4(c),
                    issuer,
                })),
                executable: ContractExecutable::StellarAsset,
            }))
            .unwrap()
            .address();
        self.call(&a, "set_admin", vec![addr(admin)]).unwrap();
        a
    }
    pub fn balance(&self, token: &Addr, who: &Addr) -> i128 {
        self.query(token, "balance", vec![addr(who)]).map(|v| v.i128()).unwrap_or(i128::MIN)
    }
    /// The hash of the code of a contract.
    pub fn code_of(&self, c: &Addr) -> Option<[u8; 32]> {
        let h = self.host.borrow();
        let b = h.as_budget().clone();
        h.with_mut_storage(|s| {
            for (k, v) in s.map.iter(&b)? {
                if let (LedgerKey::ContractData(d), Some((e, _))) = (&**k, v) {
                    if d.contract == *c && d.key == ScVal::LedgerKeyContractInstance {
                        if let LedgerEntryData::ContractData(ContractDataEntry { val: ScVal::ContractInstance(i), .. }) = &e.data {
                            if let ContractExecutable::Wasm(Hash(x)) = &i.executable {
                                return Ok(Some(*x));
                            }
                        }
                    }
                }
            }
            Ok(None)
        })
        .unwrap()
    }
    /// All entries of this ledger (no code, no nonces): key, value.
    pub fn data(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        self.export().entries.into_iter().map(|(k, e, _)| (k, e)).collect()
    }
}

pub fn show(v: &ScVal) -> String {
    match v {
        ScVal::Void => "-".into(),
        ScVal::I128(_) | ScVal::U128(_) => v.i128().to_string(),
        ScVal::U32(x) => x.to_string(),
        ScVal::U64(x) => x.to_string(),
        ScVal::I64(x) => x.to_string(),
        ScVal::Bool(x) => x.to_string(),
        ScVal::Address(a) => short(a),
        ScVal::Symbol(_) | ScVal::String(_) => v.text(),
        ScVal::Vec(Some(l)) => format!("[{}]", l.iter().map(show).collect::<Vec<_>>().join(", ")),
        ScVal::Map(Some(m)) => format!("{{{}}}", m.iter().map(|e| format!("{}: {}", show(&e.key), show(&e.val))).collect::<Vec<_>>().join(", ")),
        ScVal::Bytes(b) => format!("0x{:02x}{:02x}..", b.first().unwrap_or(&0), b.get(1).unwrap_or(&0)),
        x => format!("{x:?}"),
    }
}
