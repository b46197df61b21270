//! What a contract exports, read from the specification its wasm carries.
use soroban_env_host::xdr::*;
use std::collections::BTreeMap;

pub struct Iface {
    pub fns: Vec<(String, Vec<(String, ScSpecTypeDef)>)>,
    pub structs: BTreeMap<String, Vec<(String, ScSpecTypeDef)>>,
    /// Enums of plain numbers, and unions (variant, number of fields).
    pub enums: BTreeMap<String, Vec<u32>>,
    pub unions: BTreeMap<String, Vec<(String, Vec<ScSpecTypeDef>)>>,
}

fn leb(b: &[u8], i: &mut usize) -> usize {
    let (mut r, mut s) = (0usize, 0);
    loop {
        let x = b[*i];
        *i += 1;
        r |= ((x & 0x7f) as usize) << s;
        if x & 0x80 == 0 {
            return r;
        }
        s += 7;
    }
}

fn spec_section(w: &[u8]) -> Vec<u8> {
    let mut i = 8;
    let mut out = vec![];
    while i < w.len() {
        let id = w[i];
        i += 1;
        let n = leb(w, &mut i);
        let end = i + n;
        if id == 0 {
            let l = leb(w, &mut i);
            if &w[i..i + l] == b"contractspecv0" {
                out.extend_from_slice(&w[i + l..end]);
            }
        }
        i = end;
    }
    out
}

pub fn read(w: &[u8]) -> Iface {
    let s = spec_section(w);
    let mut f = Iface { fns: vec![], structs: BTreeMap::new(), enums: BTreeMap::new(), unions: BTreeMap::new() };
    for e in ScSpecEntry::read_xdr_iter(&mut Limited::new(s.as_slice(), Limits::none())) {
        match e.expect("contract specification") {
            ScSpecEntry::FunctionV0(x) => {
                let n = x.name.0.to_utf8_string_lossy();
                f.fns.push((n, x.inputs.iter().map(|i| (i.name.to_utf8_string_lossy(), i.type_.clone())).collect()));
            }
            ScSpecEntry::UdtStructV0(x) => {
                f.structs.insert(x.name.to_utf8_string_lossy(), x.fields.iter().map(|i| (i.name.to_utf8_string_lossy(), i.type_.clone())).collect());
            }
            ScSpecEntry::UdtEnumV0(x) => {
                f.enums.insert(x.name.to_utf8_string_lossy(), x.cases.iter().map(|c| c.value).collect());
            }
            ScSpecEntry::UdtUnionV0(x) => {
                let v = x
                    .cases
                    .iter()
                    .map(|c| match c {
                        ScSpecUdtUnionCaseV0::VoidV0(v) => (v.name.to_utf8_string_lossy(), vec![]),
                        ScSpecUdtUnionCaseV0::TupleV0(v) => (v.name.to_utf8_string_lossy(), v.type_.to_vec()),
                    })
                    .collect();
                f.unions.insert(x.name.to_utf8_string_lossy(), v);
            }
            ScSpecEntry::UdtErrorEnumV0(_) => {}
        }
    }
    f
}

pub fn type_text(t: &ScSpecTypeDef) -> String {
    match t {
        ScSpecTypeDef::Option(o) => format!("Option<{}>", type_text(&o.value_type)),
        ScSpecTypeDef::Vec(v) => format!("Vec<{}>", type_text(&v.element_type)),
        ScSpecTypeDef::Udt(u) => u.name.to_utf8_string_lossy(),
        ScSpecTypeDef::Tuple(v) => format!("({})", v.value_types.iter().map(type_text).collect::<Vec<_>>().join(", ")),
        ScSpecTypeDef::BytesN(n) => format!("BytesN<{}>", n.n),
        x => x.name().to_string(),
    }
}
