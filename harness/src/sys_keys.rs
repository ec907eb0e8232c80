//! Executes chains of key methods on the real key types.
use crate::eval::{self, Env, Val};
use crate::util::*;
use crate::world::scope;
use orchard::{keys::*, primitives::redpallas, Address};
use pasta_curves::pallas;
use ff::Field;
use rand::{Rng as _, RngCore};
use serde_json::{json, Value};
use std::collections::HashMap;
use zip32::DiversifierIndex;

enum Obj {
    Sk(SpendingKey),
    Ask(SpendAuthorizingKey),
    Ak(SpendValidatingKey),
    Fvk(FullViewingKey),
    Ivk(IncomingViewingKey),
    Ovk(OutgoingViewingKey),
    Div(Diversifier, IncomingViewingKey, Address),
    Addr(Address, Option<(IncomingViewingKey, Option<(FullViewingKey, Scope)>)>),
    Rsk(redpallas::SigningKey<redpallas::SpendAuth>),
    Rk(redpallas::VerificationKey<redpallas::SpendAuth>),
}
use Obj::*;

fn show(o: &Obj) -> Option<Vec<u8>> {
    Some(match o {
        Sk(x) => x.to_bytes().to_vec(),
        Ask(_) => return None,
        Ak(x) => x.to_bytes().to_vec(),
        Fvk(x) => x.to_bytes().to_vec(),
        Ivk(x) => x.to_bytes().to_vec(),
        Ovk(x) => x.as_ref().to_vec(),
        Div(x, ..) => x.as_array().to_vec(),
        Addr(x, _) => x.to_raw_address_bytes().to_vec(),
        Rsk(x) => <[u8; 32]>::from(x).to_vec(),
        Rk(x) => <[u8; 32]>::from(x).to_vec(),
    })
}
pub fn sk_bytes(r: &mut impl RngCore) -> [u8; 32] {
    loop {
        let mut b = [0u8; 32];
        r.fill_bytes(&mut b);
        if bool::from(SpendingKey::from_bytes(b).is_some()) { return b; }
    }
}
pub fn index(r: &mut impl RngCore) -> [u8; 11] {
    let mut b = [0u8; 11];
    match r.next_u32() % 5 {
        0 => b[0] = (r.next_u32() % 4) as u8,
        1 => b = [0xff; 11],
        2 => { r.fill_bytes(&mut b[..4]) }
        3 => { b[10] = 0x80; b[0] = r.next_u32() as u8; }
        _ => r.fill_bytes(&mut b),
    }
    b
}
fn env(seed: u64) -> Env {
    let mut r = rng(seed, "keys env");
    let mut e = Env::new();
    let (a, mut b) = (sk_bytes(&mut r), sk_bytes(&mut r));
    if r.gen_range(0..4) == 0 {
        // Neighbouring spending keys.
        b = a;
        b[r.gen_range(0..32)] ^= 1 << r.gen_range(0..8);
        if !bool::from(SpendingKey::from_bytes(b).is_some()) { b = sk_bytes(&mut r); }
    }
    e.insert("sk1".into(), Val::Bytes(a.to_vec()));
    e.insert("sk2".into(), Val::Bytes(b.to_vec()));
    let j1 = index(&mut r);
    let mut j2 = index(&mut r);
    while j2 == j1 { j2 = index(&mut r); }
    e.insert("j1".into(), Val::Bytes(j1.to_vec()));
    e.insert("j2".into(), Val::Bytes(j2.to_vec()));
    let mut d1 = index(&mut r);
    while d1 == [0; 11] { d1 = index(&mut r); }
    e.insert("d1".into(), Val::Bytes(d1.to_vec()));
    e.insert("d0".into(), Val::Bytes(vec![0; 11]));
    e.insert("alpha".into(), Val::Scalar(pallas::Scalar::random(&mut r)));
    e
}

pub fn exec(run: &Run, seed: u64) -> Run {
    let env = env(seed);
    let mut r = rng(seed, "keys run");
    let mut out = vec![];
    let get = |k: &str| eval::bytes(&env[k]);
    let sk = |x: &str| SpendingKey::from_bytes(get(x).try_into().unwrap()).unwrap();
    let mut memo: HashMap<String, String> = HashMap::new();
    let mut want = |t: &Value| memo.entry(t.to_string()).or_insert_with(|| eval::hexof(t, &env)).clone();
    let mut obj = Sk(sk("sk1"));
    for c in run {
        let mut ev = c.clone();
        if let Some(m) = ev.as_object_mut() { m.remove("want"); }
        let alpha = match &env["alpha"] { Val::Scalar(a) => *a, _ => unreachable!() };
        let res = guard(|| {
            let j = |ev: &Value| -> DiversifierIndex { DiversifierIndex::from(<[u8; 11]>::try_from(get(s(ev, "j"))).unwrap()) };
            let d = |ev: &Value| Diversifier::from_bytes(get(s(ev, "d")).try_into().unwrap());
            let cur = std::mem::replace(&mut obj, Sk(sk("sk1")));
            let new = match (s(c, "op"), cur) {
                ("sk", _) => Sk(sk(s(c, "x"))),
                ("fvk", Sk(x)) => Fvk(FullViewingKey::from(&x)),
                ("ask", Sk(x)) => Ask(SpendAuthorizingKey::from(&x)),
                ("ak", Ask(x)) => Ak(SpendValidatingKey::from(&x)),
                ("ak", Fvk(x)) => Ak(SpendValidatingKey::from(x)),
                ("ivk", Fvk(x)) => Ivk(x.to_ivk(scope(s(c, "scope")))),
                ("ovk", Fvk(x)) => Ovk(x.to_ovk(scope(s(c, "scope")))),
                ("addr_at", Fvk(x)) => { let sc = scope(s(c, "scope")); Addr(x.address_at(j(c), sc), Some((x.to_ivk(sc), Some((x, sc))))) }
                ("addr_at", Ivk(x)) => {
                    let i = get(s(c, "j"));
                    let small = i[4..].iter().all(|b| *b == 0) && r.gen();
                    Addr(if small { x.address_at(u32::from_le_bytes(i[..4].try_into().unwrap())) } else { x.address_at(j(c)) }, Some((x, None)))
                }
                ("addr_d", Fvk(x)) => { let sc = scope(s(c, "scope")); Addr(x.address(d(c), sc), Some((x.to_ivk(sc), Some((x, sc))))) }
                ("addr_d", Ivk(x)) => Addr(x.address(d(c)), Some((x, None))),
                ("div", Addr(a, Some((i, _)))) => Div(a.diversifier(), i, a),
                ("readdress", Addr(a, Some((i, f)))) => {
                    let b = match &f { Some((k, sc)) => k.address(a.diversifier(), *sc), None => i.address(a.diversifier()) };
                    Addr(b, Some((i, f)))
                }
                ("randomize", Ask(x)) => Rsk(x.randomize(&alpha)),
                ("randomize", Ak(x)) => Rk(x.randomize(&alpha)),
                ("vk", Rsk(x)) => Rk(redpallas::VerificationKey::from(&x)),
                ("mix", Addr(a, _)) => {
                    let mut b = a.to_raw_address_bytes();
                    let dj = FullViewingKey::from(&sk(s(c, "x"))).to_ivk(scope(s(c, "scope"))).address_at(j(c)).diversifier();
                    b[..11].copy_from_slice(dj.as_array());
                    Addr(Address::from_raw_address_bytes(&b).unwrap(), None)
                }
                ("flip", Addr(a, _)) => {
                    let mut b = a.to_raw_address_bytes();
                    b[42] ^= 0x80;
                    Addr(Address::from_raw_address_bytes(&b).unwrap(), None)
                }
                ("reser", o) => match o {
                    Sk(x) => Sk(SpendingKey::from_bytes(*x.to_bytes()).unwrap()),
                    Ak(x) => Ak(SpendValidatingKey::from_bytes(&x.to_bytes()).unwrap()),
                    Fvk(x) => if s(c, "how") == "io" {
                        let mut v = vec![];
                        x.write(&mut v).unwrap();
                        v.extend_from_slice(b"what follows");
                        let mut rd = &v[..];
                        let y = FullViewingKey::read(&mut rd).unwrap();
                        assert!(rd == b"what follows", "read consumed a wrong number of bytes");
                        assert!(x == y, "keys differ");
                        Fvk(y)
                    } else { let y = FullViewingKey::from_bytes(&x.to_bytes()).unwrap(); assert!(x == y, "keys differ"); Fvk(y) },
                    Ivk(x) => { let y = IncomingViewingKey::from_bytes(&x.to_bytes()).unwrap(); assert!(x == y, "keys differ"); Ivk(y) }
                    Ovk(x) => Ovk(OutgoingViewingKey::from(*x.as_ref())),
                    Addr(x, f) => { let y = Address::from_raw_address_bytes(&x.to_raw_address_bytes()).unwrap(); assert!(x == y, "addresses differ"); Addr(y, f) }
                    Div(x, i, a) => Div(Diversifier::from_bytes(*x.as_array()), i, a),
                    Rsk(x) => Rsk(redpallas::SigningKey::try_from(<[u8; 32]>::from(&x)).unwrap()),
                    Rk(x) => Rk(redpallas::VerificationKey::try_from(<[u8; 32]>::from(&x)).unwrap()),
                    Ask(x) => Ask(x),
                },
                ("scope_of", Addr(a, f)) => {
                    ev["res"] = json!(match FullViewingKey::from(&sk(s(c, "x"))).scope_for_address(&a) { None => "none", Some(Scope::External) => "ext", Some(Scope::Internal) => "int" });
                    Addr(a, f)
                }
                ("index_of", Addr(a, f)) => {
                    let i = FullViewingKey::from(&sk(s(c, "x"))).to_ivk(scope(s(c, "scope")));
                    ev["res"] = json!(match i.diversifier_index(&a) { None => "none".into(), Some(j) => hex::encode(j.as_bytes()) });
                    Addr(a, f)
                }
                (op, _) => panic!("op {op}"),
            };
            if let Some(b) = show(&new) { ev["got"] = json!(hex::encode(b)); }
            obj = new;
        });
        if let Err(m) = res {
            ev["panic"] = json!(m);
            out.push(ev);
            break;
        }
        if c.get("want").is_some() && (ev.get("got").is_some() || s(c, "op") == "index_of") { ev["want"] = json!(want(&c["want"])); }
        out.push(ev);
    }
    out
}

/// Chains are strung together so that everything one set of inputs gives is compared.
pub fn exec_runs(runs: &[Run], seed: u64, reps: usize, chunk: usize) -> Vec<Run> {
    let mut all: Vec<Run> = vec![];
    for _ in 0..reps {
        for c in runs.chunks(chunk) { all.push(c.iter().flatten().cloned().collect()); }
    }
    exec_all(&all, seed, exec)
}
