//! Equality and ordering of the crate's values.
use crate::oracle;
use crate::util::*;
use ff::PrimeField;
use group::{Group, GroupEncoding};
use orchard::{
    builder::BundleType,
    bundle::Flags,
    keys::*,
    note::{ExtractedNoteCommitment, Nullifier, RandomSeed, Rho},
    primitives::redpallas::{Binding, SpendAuth, VerificationKey},
    tree::MerkleHashOrchard,
    value::{NoteValue, ValueSum},
    Address, Anchor, Note,
};
use pasta_curves::pallas;
use rand::{Rng as _, RngCore};
use serde_json::{json, Value};
use std::cmp::Ordering;
use subtle::ConstantTimeEq;

struct World { sks: Vec<[u8; 32]>, fields: Vec<[u8; 32]>, points: Vec<[u8; 32]>, aks: Vec<[u8; 32]>, scalars: Vec<[u8; 32]>, dks: Vec<[u8; 32]>, divs: Vec<[u8; 11]>, vals: Vec<u64>, sums: Vec<i128>, addrs: Vec<[u8; 43]>, rseeds: Vec<[u8; 32]>, k: u64 }
/// Some bit of b inverted, so that it is still good: in its byte `at`, if that can be.
fn neighbour<const N: usize>(r: &mut Rng, at: usize, b: &[u8; N], ok: impl Fn(&[u8; N]) -> bool) -> [u8; N] {
    let first = r.gen_range(0..8);
    for i in 0.. {
        let mut x = *b;
        if i < 8 { x[at % N] ^= 1 << ((first + i) % 8) } else { x[r.gen_range(0..N)] ^= 1 << r.gen_range(0..8) }
        if ok(&x) { return x; }
    }
    unreachable!()
}
fn any<const N: usize>(r: &mut Rng, ok: impl Fn(&[u8; N]) -> bool) -> [u8; N] {
    loop {
        let mut x = [0; N];
        r.fill_bytes(&mut x);
        if ok(&x) { return x; }
    }
}
fn world(seed: u64, at: usize) -> World {
    let mut r = rng(seed, "same world");
    let r = &mut r;
    let sk_ok = |b: &[u8; 32]| bool::from(SpendingKey::from_bytes(*b).is_some());
    let sk = any(r, sk_ok);
    let f_ok = |b: &[u8; 32]| oracle::base(b).is_some();
    let f = any(r, f_ok);
    let p_ok = |b: &[u8; 32]| oracle::point(b).is_some();
    let p = pallas::Point::random(&mut *r).to_bytes();
    let neg = (-oracle::point(&p).unwrap()).to_bytes();
    let ak_ok = |b: &[u8; 32]| b[31] & 0x80 == 0 && *b != [0; 32] && oracle::point(b).is_some();
    let ak = any(r, ak_ok);
    let s_ok = |b: &[u8; 32]| oracle::scalar(b).is_some();
    let sc = any(r, s_ok);
    let dk = any(r, |_| true);
    let d = any(r, |_| true);
    let v: u64 = r.gen_range(2..1 << 62);
    let pd = neighbour(r, at, &p, |x| p_ok(x) && *x != neg);
    let addr = |d: &[u8; 11], p: &[u8; 32]| -> [u8; 43] { [&d[..], &p[..]].concat().try_into().unwrap() };
    let bit = 1u64 << (8 * (at % 8) + r.gen_range(0..8));
    let d2 = neighbour(r, at, &d, |_| true);
    let rs = any(r, |_| true);
    World {
        sks: vec![sk, neighbour(r, at, &sk, sk_ok), { let n = neighbour(r, at, &sk, sk_ok); neighbour(r, at, &n, |x| sk_ok(x) && *x != sk) }, any(r, sk_ok)],
        fields: vec![f, neighbour(r, at, &f, f_ok), oracle::base_bytes(&-oracle::base(&f).unwrap()), [0; 32]],
        points: vec![p, pd, neg, [0; 32]],
        aks: vec![ak, neighbour(r, at, &ak, ak_ok), any(r, ak_ok), any(r, ak_ok)],
        scalars: vec![sc, neighbour(r, at, &sc, s_ok), (-oracle::scalar(&sc).unwrap()).to_repr()],
        dks: vec![dk, neighbour(r, at, &dk, |_| true)],
        divs: vec![d, d2, [0; 11]],
        vals: vec![v, v ^ bit, 0, u64::MAX],
        sums: vec![v as i128, -(v as i128), (v ^ 1 << 63) as i128, 0, -(u64::MAX as i128)],
        addrs: if seed % 2 == 0 { vec![addr(&d, &p), addr(&d2, &p)] } else { vec![addr(&d, &p), addr(&d, &if r.gen() { neg } else { pd })] },
        rseeds: vec![rs, neighbour(r, at, &rs, |_| true)],
        k: r.gen_range(1..1 << 40),
    }
}
macro_rules! both { ($x:expr, $y:expr) => {{ let (x, y) = ($x, $y); (x == y, x != y) }} }
fn order<T: Ord>(v: &[T]) -> (Vec<Vec<i8>>, bool) {
    let agree = v.iter().all(|x| v.iter().all(|y| {
        let c = x.cmp(y);
        x.partial_cmp(y) == Some(c) && (x < y) == (c == Ordering::Less) && (x > y) == (c == Ordering::Greater) && (x <= y) == (c != Ordering::Greater) && (x >= y) == (c != Ordering::Less) && (x == y) == (c == Ordering::Equal)
    }));
    (v.iter().map(|x| v.iter().map(|y| x.cmp(y) as i8).collect()).collect(), agree)
}
impl World {
    fn route<T: Clone>(&self, x: T, route: &str, remake: impl Fn(&T) -> T) -> T { match route { "copied" => { let y = x.clone(); drop(x); y } "made" => remake(&x), _ => x } }
    fn sk(&self, c: &[usize], q: &str) -> SpendingKey { self.route(SpendingKey::from_bytes(self.sks[c[0]]).unwrap(), q, |x| SpendingKey::from_bytes(*x.to_bytes()).unwrap()) }
    fn fvk(&self, c: &[usize], q: &str) -> FullViewingKey {
        let b: [u8; 96] = [self.aks[c[0]], self.fields[c[1]], self.scalars[c[2]]].concat().try_into().unwrap();
        self.route(FullViewingKey::from_bytes(&b).expect("fvk"), q, |x| FullViewingKey::read(&x.to_bytes()[..]).unwrap())
    }
    fn ivk(&self, c: &[usize], q: &str) -> IncomingViewingKey {
        let b: [u8; 64] = [self.dks[c[0]], self.fields[c[1]]].concat().try_into().unwrap();
        self.route(IncomingViewingKey::from_bytes(&b).expect("ivk"), q, |x| IncomingViewingKey::from_bytes(&x.to_bytes()).unwrap())
    }
    fn svk(&self, c: &[usize], q: &str) -> SpendValidatingKey {
        self.route(SpendValidatingKey::from_bytes(&self.aks[c[0]]).expect("svk"), q, |x| {
            let b: [u8; 96] = [x.to_bytes(), self.fields[0], self.scalars[0]].concat().try_into().unwrap();
            FullViewingKey::from_bytes(&b).expect("fvk").into()
        })
    }
    fn vkey(&self, c: &[usize], q: &str) -> VerificationKey<SpendAuth> { self.route(VerificationKey::try_from(self.points[c[0]]).unwrap(), q, |x| x.randomize(&pallas::Scalar::from(self.k)).randomize(&-pallas::Scalar::from(self.k))) }
    fn bkey(&self, c: &[usize], q: &str) -> VerificationKey<Binding> { self.route(VerificationKey::try_from(self.points[c[0]]).unwrap(), q, |x| VerificationKey::try_from(<[u8; 32]>::from(x)).unwrap()) }
    fn div(&self, c: &[usize], q: &str) -> Diversifier { self.route(Diversifier::from_bytes(self.divs[c[0]]), q, |x| Diversifier::from_bytes(*x.as_array())) }
    fn raw(&self, b: &[u8; 43], q: &str) -> Address { self.route(Address::from_raw_address_bytes(b).unwrap(), q, |x| Address::from_raw_address_bytes(&x.to_raw_address_bytes()).unwrap()) }
    fn addr(&self, c: &[usize], q: &str) -> Address { self.raw(&[&self.divs[c[0]][..], &self.points[c[1]][..]].concat().try_into().unwrap(), q) }
    fn nf(&self, c: &[usize], q: &str) -> Nullifier { self.route(Nullifier::from_bytes(&self.fields[c[0]]).unwrap(), q, |x| Nullifier::from_bytes(&x.to_bytes()).unwrap()) }
    fn rho(&self, c: &[usize], q: &str) -> Rho { self.route(Rho::from_bytes(&self.fields[c[0]]).unwrap(), q, |x| Rho::from_bytes(&x.to_bytes()).unwrap()) }
    fn cmx(&self, c: &[usize], q: &str) -> ExtractedNoteCommitment { self.route(ExtractedNoteCommitment::from_bytes(&self.fields[c[0]]).unwrap(), q, |x| ExtractedNoteCommitment::from_bytes(&x.to_bytes()).unwrap()) }
    fn hash(&self, c: &[usize], q: &str) -> MerkleHashOrchard { self.route(MerkleHashOrchard::from_bytes(&self.fields[c[0]]).unwrap(), q, |x| MerkleHashOrchard::from_cmx(&ExtractedNoteCommitment::from_bytes(&x.to_bytes()).unwrap())) }
    fn anchor(&self, c: &[usize], q: &str) -> Anchor { self.route(Anchor::from_bytes(self.fields[c[0]]).unwrap(), q, |x| MerkleHashOrchard::from_bytes(&x.to_bytes()).unwrap().into()) }
    fn value(&self, c: &[usize], q: &str) -> NoteValue { self.route(NoteValue::from_raw(self.vals[c[0]]), q, |x| NoteValue::from_raw(x.inner())) }
    fn sum(&self, c: &[usize], q: &str) -> ValueSum {
        let nv = NoteValue::from_raw;
        let of = |x: i128| if x >= 0 { nv(x as u64) - nv(0) } else { nv(0) - nv(-x as u64) };
        let x = self.sums[c[0]];
        self.route(of(x), q, |_| { let h = x / 3; (of(h) + of(x - h)).unwrap() })
    }
    fn note(&self, c: &[usize], q: &str) -> Note {
        let mk = |a: Address, v: NoteValue, rho: Rho, rs: RandomSeed| Note::from_parts(a, v, rho, rs).unwrap();
        let rho = self.rho(&c[2..], q);
        let n = mk(self.raw(&self.addrs[c[0]], q), self.value(&c[1..], q), rho, RandomSeed::from_bytes(self.rseeds[c[3]], &rho).unwrap());
        self.route(n, q, |n| mk(n.recipient(), n.value(), n.rho(), RandomSeed::from_bytes(*n.rseed().as_bytes(), &n.rho()).unwrap()))
    }
    fn flags(&self, c: &[usize], q: &str) -> Flags {
        match (c[0], c[1]) { (0, 0) if q == "made" => Flags::ENABLED, (1, 0) if q == "made" => Flags::SPENDS_DISABLED, (0, 1) if q == "made" => Flags::OUTPUTS_DISABLED, _ => Flags::from_byte((1 - c[0]) as u8 | (1 - c[1] as u8) << 1).unwrap() }
    }
    fn kind(&self, c: &[usize], q: &str) -> BundleType {
        if c[0] == 1 { return BundleType::Coinbase; }
        if q == "made" && c[1..] == [0, 0, 1] { return BundleType::DEFAULT; }
        if q == "made" && c[1..] == [1, 1, 1] { return BundleType::DISABLED; }
        BundleType::Transactional { flags: self.flags(&c[1..], q), bundle_required: c[3] == 0 }
    }
    fn compare(&self, t: &str, x: &[usize], y: &[usize], p: &str, q: &str) -> Value {
        let (eq, ne) = match t {
            "sk" => (false, false),
            "fvk" => both!(self.fvk(x, p), self.fvk(y, q)),
            "ivk" => both!(self.ivk(x, p), self.ivk(y, q)),
            "svk" => both!(self.svk(x, p), self.svk(y, q)),
            "vkey" => both!(self.vkey(x, p), self.vkey(y, q)),
            "bkey" => both!(self.bkey(x, p), self.bkey(y, q)),
            "div" => both!(self.div(x, p), self.div(y, q)),
            "addr" => both!(self.addr(x, p), self.addr(y, q)),
            "nf" => both!(self.nf(x, p), self.nf(y, q)),
            "rho" => both!(self.rho(x, p), self.rho(y, q)),
            "cmx" => both!(self.cmx(x, p), self.cmx(y, q)),
            "hash" => both!(self.hash(x, p), self.hash(y, q)),
            "anchor" => both!(self.anchor(x, p), self.anchor(y, q)),
            "value" => both!(self.value(x, p), self.value(y, q)),
            "sum" => both!(self.sum(x, p), self.sum(y, q)),
            "note" => both!(self.note(x, p), self.note(y, q)),
            "flags" => both!(self.flags(x, p), self.flags(y, q)),
            "type" => both!(self.kind(x, p), self.kind(y, q)),
            t => panic!("type {t}"),
        };
        let ct = match t {
            "sk" => self.sk(x, p).ct_eq(&self.sk(y, q)).into(),
            "nf" => self.nf(x, p).ct_eq(&self.nf(y, q)).into(),
            "cmx" => self.cmx(x, p).ct_eq(&self.cmx(y, q)).into(),
            _ => false,
        };
        json!({"eq": eq, "ne": ne, "ct": ct})
    }
    fn order(&self, t: &str, objs: &[Vec<usize>], r: &mut Rng) -> (Vec<Vec<i8>>, bool) {
        let q = |r: &mut Rng| ["parsed", "made", "copied"][r.gen_range(0..3)];
        macro_rules! ord { ($f:ident) => { order(&objs.iter().map(|c| self.$f(c, q(r))).collect::<Vec<_>>()) } }
        match t { "fvk" => ord!(fvk), "ivk" => ord!(ivk), "svk" => ord!(svk), "vkey" => ord!(vkey), "bkey" => ord!(bkey), "nf" => ord!(nf), "rho" => ord!(rho), "hash" => ord!(hash), t => panic!("type {t}") }
    }
}
fn exec(run: &Run, seed: u64, ws: &[World]) -> Run {
    let mut r = rng(seed, "same run");
    let mut out = vec![];
    for (i, w) in ws.iter().enumerate() {
        for c in run {
            // All routes in the first worlds, then only plain values that differ in every byte in turn.
            if i >= ws.len() / 6 && s(c, "op") == "compare" && (s(c, "rx") != "parsed" || s(c, "ry") != "parsed") { continue; }
            let mut ev = c.clone();
            let tup = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as usize - 1).collect() };
            let res = guard(|| match s(c, "op") {
                "compare" => { let x = w.compare(s(c, "t"), &tup(&c["x"]), &tup(&c["y"]), s(c, "rx"), s(c, "ry")); for k in ["eq", "ne", "ct"] { ev[k] = x[k].clone(); } }
                _ => {
                    let objs: Vec<Vec<usize>> = arr(c, "objs").iter().map(tup).collect();
                    let (m, agree) = w.order(s(c, "t"), &objs, &mut r);
                    ev["cmp"] = json!(m);
                    ev["ops"] = json!(if agree { "agree" } else { "differ" });
                }
            });
            if let Err(m) = res { ev["panic"] = json!(m); }
            out.push(ev);
        }
    }
    out
}
pub fn exec_runs(runs: &[Run], seed: u64, reps: usize) -> Vec<Run> {
    let ws: Vec<World> = (0..reps as u64).map(|i| world(seed.wrapping_mul(1000).wrapping_add(i), i as usize)).collect();
    exec_all(runs, seed, |r, sd| exec(r, sd, &ws))
}
