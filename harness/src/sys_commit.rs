//! Alters concrete bundles and records their transaction and authorizing commitments.
use crate::eval::{self, Env, Val};
use crate::util::*;
use crate::{oracle, world};
use ff::Field;
use group::{Group, GroupEncoding};
use nonempty::NonEmpty;
use orchard::{
    bundle::{commitments::*, Authorization, Authorized, Flags},
    circuit::Proof,
    note::{ExtractedNoteCommitment, Nullifier, TransmittedNoteCiphertext},
    primitives::redpallas,
    value::ValueCommitment,
    Action, Bundle,
};
use pasta_curves::pallas;
use rand::{Rng as _, RngCore};
use serde_json::{json, Value};

type Part = (usize, char);
#[derive(Clone)]
struct Act { parts: std::collections::BTreeMap<String, Part> }
struct B { acts: Vec<Act>, flags: u8, vb: char, anchor: char, proof: String, bsig: char }
const FIELDS: [&str; 10] = ["nf", "cmx", "epk", "encC", "encM", "encT", "out", "cv", "rk", "sig"];

#[derive(Debug)]
struct Bare;
impl Authorization for Bare { type SpendAuth = (); }
#[derive(Clone, Copy)]
struct Amount(i128);
impl From<Amount> for i64 { fn from(a: Amount) -> i64 { (a.0 - 7) as i64 } }

fn fresh(f: &str, r: &mut impl RngCore) -> Vec<u8> {
    let mut bytes = |n: usize| { let mut v = vec![0; n]; r.fill_bytes(&mut v); v };
    match f {
        "nf" | "cmx" | "anchor" => oracle::base_bytes(&pallas::Base::random(r)).to_vec(),
        "cv" | "rk" => pallas::Point::random(r).to_bytes().to_vec(),
        "epk" => bytes(32),
        "encC" => bytes(52),
        "encM" => bytes(512),
        "encT" => bytes(16),
        "out" => bytes(80),
        "sig" | "bsig" => bytes(64),
        // Neither zero nor minus one: these have names of their own.
        "vb" => match r.gen_range(0..5) { 0 => i64::MAX, 1 => i64::MIN, 2 => 1, 3 => -2, 4 => r.gen_range(-1_000_000..1_000_000), _ => r.gen() }.to_le_bytes().to_vec(),
        f => panic!("field {f}"),
    }
}
/// Zero bytes or the identity; all ones or the greatest element.
fn extreme(f: &str, v: char) -> Vec<u8> {
    let n = match f { "cv" | "rk" | "nf" | "cmx" | "anchor" | "epk" => 32, "encC" => 52, "encM" => 512, "encT" => 16, "out" => 80, "sig" | "bsig" => 64, "vb" => 8, f => panic!("field {f}") };
    match (f, v) {
        (_, 'z') => vec![0; n],
        ("nf" | "cmx" | "anchor", _) => oracle::base_bytes(&-pallas::Base::one()).to_vec(),
        ("cv" | "rk", _) => (-pallas::Point::generator()).to_bytes().to_vec(),
        _ => vec![255; n],
    }
}
/// Another value of the same kind, often as near as possible.
fn near(f: &str, a: &[u8], r: &mut impl RngCore) -> Vec<u8> {
    let mut v = a.to_vec();
    if r.gen_range(0..3) == 0 { let x = fresh(f, r); if x != v { return x; } }
    match f {
        "cv" | "rk" => { v[31] ^= 0x80 }
        "nf" | "cmx" | "anchor" => { let b = oracle::base(&v).unwrap(); v = oracle::base_bytes(&(if r.gen() { b + pallas::Base::from(1) } else if b != -b { -b } else { b + pallas::Base::from(1) })).to_vec() }
        _ => { let i = match r.gen_range(0..4) { 0 => 0, 1 => v.len() - 1, _ => r.gen_range(0..v.len()) }; v[i] ^= 1 << r.gen_range(0..8) }
    }
    v
}
fn env(seed: u64) -> Env {
    let mut r = rng(seed, "commit env");
    let mut e = Env::new();
    let mut put = |k: String, v: Vec<u8>| { e.insert(k, Val::Bytes(v)); };
    for v in ['z', 'f'] {
        for f in FIELDS { put(format!("{f}0.{v}"), extreme(f, v)); }
        for f in ["vb", "anchor", "bsig"] { put(format!("{f}.{v}"), extreme(f, v)); }
    }
    for i in 0..=21 { for f in FIELDS {
        let a = fresh(f, &mut r);
        let b = near(f, &a, &mut r);
        put(format!("{f}{i}.0"), a);
        put(format!("{f}{i}.1"), b);
    } }
    for f in ["vb", "anchor", "bsig"] {
        let mut a = fresh(f, &mut r);
        while a == extreme(f, 'z') || a == extreme(f, 'f') { a = fresh(f, &mut r); }
        let mut b = near(f, &a, &mut r);
        while b == extreme(f, 'z') || b == extreme(f, 'f') { b = near(f, &a, &mut r); }
        put(format!("{f}.0"), a);
        put(format!("{f}.1"), b);
    }
    let mut p = vec![0; r.gen_range(32..6000)];
    r.fill_bytes(&mut p);
    let mut q = p.clone();
    let i = r.gen_range(0..q.len());
    q[i] ^= 1 << r.gen_range(0..8);
    put("proof.1".into(), q);
    put("proof.short".into(), p[..p.len() - 1].to_vec());
    put("proof.long".into(), [&p[..], &[0]].concat());
    put("proof.empty".into(), vec![]);
    put("proof.z".into(), vec![0; p.len()]);
    put("proof.f".into(), vec![255; p.len()]);
    put("proof.0".into(), p);
    e
}
fn concrete(b: &B, e: &Env) -> Bundle<Authorized, i64> {
    let g = |k: String| eval::bytes(&e[&k]);
    let acts: Vec<_> = b.acts.iter().map(|a| {
        let p = |f: &str| { let (i, v) = a.parts[f]; g(format!("{f}{i}.{v}")) };
        let enc = [p("encC"), p("encM"), p("encT")].concat();
        Action::from_parts(
            Nullifier::from_bytes(&p("nf").try_into().unwrap()).unwrap(),
            redpallas::VerificationKey::try_from(<[u8; 32]>::try_from(p("rk")).unwrap()).unwrap(),
            ExtractedNoteCommitment::from_bytes(&p("cmx").try_into().unwrap()).unwrap(),
            TransmittedNoteCiphertext { epk_bytes: p("epk").try_into().unwrap(), enc_ciphertext: enc.try_into().unwrap(), out_ciphertext: p("out").try_into().unwrap() },
            ValueCommitment::from_bytes(&p("cv").try_into().unwrap()).unwrap(),
            redpallas::Signature::from(<[u8; 64]>::try_from(p("sig")).unwrap()),
        )
    }).collect();
    Bundle::from_parts(
        NonEmpty::from_vec(acts).unwrap(),
        Flags::from_byte(b.flags).unwrap(),
        i64::from_le_bytes(g(format!("vb.{}", b.vb)).try_into().unwrap()),
        world::anchor(&oracle::base(&g(format!("anchor.{}", b.anchor))).unwrap()),
        Authorized::from_parts(Proof::new(g(format!("proof.{}", b.proof))), redpallas::Signature::from(<[u8; 64]>::try_from(g(format!("bsig.{}", b.bsig))).unwrap())),
    )
}
fn other(c: char) -> char { if c == '0' { '1' } else { '0' } }

fn part(i: usize, v: &str) -> Part { let v = v.chars().next().unwrap(); (if v == 'z' || v == 'f' { 0 } else { i }, v) }

pub fn exec(run: &Run, seed: u64) -> Run {
    let e = env(seed);
    let mut out = vec![];
    let mut b = B { acts: vec![], flags: 3, vb: '0', anchor: '0', proof: "0".into(), bsig: '0' };
    for c in run {
        let mut ev = c.clone();
        let m = ev.as_object_mut().unwrap();
        for k in ["txid", "auth", "txid0", "auth0"] { m.remove(k); }
        let i = || n(c, "i") as usize - 1;
        let j = || n(c, "j") as usize - 1;
        match s(c, "op") {
            "start" => {
                let v = s(c, "v").chars().next().unwrap();
                (b.vb, b.anchor, b.proof, b.bsig) = (v, v, v.into(), v);
                b.acts = (1..=n(c, "n") as usize).map(|i| Act { parts: FIELDS.iter().map(|f| (f.to_string(), part(i, s(c, "v")))).collect() }).collect();
            }
            "setf" => { let x = part(i() + 1, s(c, "v")); b.acts[i()].parts.insert(s(c, "f").into(), x); }
            "sharef" => { let x = b.acts[j()].parts[s(c, "f")]; b.acts[i()].parts.insert(s(c, "f").into(), x); }
            "setop" => { let v = s(c, "v").chars().next().unwrap(); match s(c, "f") { "vb" => b.vb = v, "anchor" => b.anchor = v, _ => b.bsig = v } }
            "alt" => { let p = b.acts[i()].parts.get_mut(s(c, "f")).unwrap(); p.1 = other(p.1) }
            "swapf" => { let f = s(c, "f"); let (x, y) = (b.acts[i()].parts[f], b.acts[j()].parts[f]); b.acts[i()].parts.insert(f.into(), y); b.acts[j()].parts.insert(f.into(), x); }
            "swap" => b.acts.swap(i(), j()),
            "drop" => { b.acts.remove(i()); }
            "copy" => { let a = b.acts[i()].clone(); b.acts.push(a) }
            "top" => match s(c, "f") { "vb" => b.vb = other(b.vb), "anchor" => b.anchor = other(b.anchor), _ => b.bsig = other(b.bsig) },
            "flags" => b.flags = n(c, "x") as u8,
            "proof" => b.proof = s(c, "p").into(),
            x => panic!("op {x}"),
        }
        let res = guard(|| {
            let x = concrete(&b, &e);
            let txid = |y: [u8; 32]| hex::encode(y);
            ev["txid"] = json!(txid(x.commitment().into()));
            ev["auth"] = json!(hex::encode(x.authorizing_commitment().0.as_bytes()));
            ev["txid0"] = json!(hex::encode(hash_bundle_txid_empty().as_bytes()));
            ev["auth0"] = json!(hex::encode(hash_bundle_auth_empty().as_bytes()));
            // The same effects under another authorization and another amount type.
            let bare = x.map_authorization(&mut (), |_, _, _| (), |_, _| Bare)
                .try_map_value_balance(|v| Ok::<_, ()>(Amount(v as i128 + 7))).unwrap();
            ev["txid_bare"] = json!(txid(bare.commitment().into()));
        });
        if let Err(m) = res { ev["panic"] = json!(m); out.push(ev); break; }
        for k in ["txid", "auth", "txid0", "auth0"] {
            let t = if k.ends_with('0') { &run[0][k] } else { &c[k] };
            ev[format!("want_{k}")] = Value::String(eval::hexof(t, &e));
        }
        out.push(ev);
    }
    out
}
