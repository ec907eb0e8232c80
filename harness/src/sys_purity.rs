//! Questions asked in every order and from many threads: the answers must be the same.
use crate::keyring::{pk, vk};
use crate::oracle;
use crate::stock::{self, *};
use crate::sys_auth::sighash;
use crate::util::*;
use crate::world::*;
use ff::Field;
use nonempty::NonEmpty;
use orchard::{
    builder::{Builder, BundleType},
    bundle::{Authorized, BatchValidator, Bundle, Flags},
    circuit::Proof,
    keys::*,
    note::{ExtractedNoteCommitment, Nullifier, RandomSeed, Rho, TransmittedNoteCiphertext},
    note_encryption::{CompactAction, OrchardDomain},
    primitives::redpallas::{self, Binding, SpendAuth},
    tree::{MerkleHashOrchard, MerklePath},
    value::*,
    Action, Address, Anchor, Note,
};
use incrementalmerkletree::{Hashable, Level};
use pasta_curves::pallas;
use rand::{Rng as _, RngCore};
use serde_json::{json, Value};
use zcash_note_encryption::{try_compact_note_decryption, try_note_decryption};

type Two<T> = [T; 2];
struct World {
    seeds: Two<Vec<u8>>, coins: Two<u32>, accounts: Two<u32>, sks: Two<SpendingKey>, fvks: Two<FullViewingKey>, idx: Two<u128>,
    values: Two<u64>, rhos: Two<[u8; 32]>, rseeds: Two<[u8; 32]>, pos: Two<u32>, leaves: Two<[u8; 32]>, auths: Two<[MerkleHashOrchard; 32]>,
    levels: Two<u8>, rcvs: Two<[u8; 32]>, asks: Two<SpendAuthorizingKey>, alphas: Two<pallas::Scalar>, msgs: Two<Vec<u8>>, sigs: Vec<[u8; 64]>,
    parts: Two<[[u8; 32]; 3]>, ivks: Two<[[u8; 32]; 2]>, divs: Two<[u8; 11]>, pkds: Two<[u8; 32]>, acts: Two<Parts>, cvs: Two<[u8; 32]>,
    sent: Two<Bundle<Authorized, i64>>, flags: Two<u8>, bals: Two<i64>, anchors: Two<[u8; 32]>, proofs: Two<Vec<u8>>, bsigs: Two<[u8; 64]>,
    st: Stock, base: u64,
}
struct Parts { nf: [u8; 32], rk: [u8; 32], cmx: [u8; 32], cv: [u8; 32], epk: [u8; 32], c: [u8; 52], m: Vec<u8>, t: [u8; 16], out: Vec<u8> }
/// Two neighbours: differing in one bit, or not alike at all.
fn near<const N: usize>(r: &mut Rng, ok: impl Fn(&[u8; N]) -> bool) -> Two<[u8; N]> {
    loop {
        let mut a = [0u8; N];
        r.fill_bytes(&mut a);
        let mut b = a;
        if r.gen_range(0..3) == 0 { r.fill_bytes(&mut b) } else { b[r.gen_range(0..N)] ^= 1 << r.gen_range(0..8); }
        if a != b && ok(&a) && ok(&b) { return [a, b]; }
    }
}
fn field(b: &[u8; 32]) -> bool { oracle::base(b).is_some() }
fn two<A, B>(x: &Two<A>, f: impl Fn(&A) -> B) -> Two<B> { [f(&x[0]), f(&x[1])] }
fn world(base: u64) -> World {
    let mut r = rng(base, "purity world");
    let sks = two(&near::<32>(&mut r, |b| bool::from(SpendingKey::from_bytes(*b).is_some())), |b| SpendingKey::from_bytes(*b).unwrap());
    let fvks = loop {
        let f = two(&sks, |x| FullViewingKey::from(x));
        // Viewing keys sharing some components.
        let mut m = f[1].to_bytes();
        match r.gen_range(0..4) { 0 => m[..32].copy_from_slice(&f[0].to_bytes()[..32]), 1 => m[64..].copy_from_slice(&f[0].to_bytes()[64..]), 2 => { m[..32].copy_from_slice(&f[0].to_bytes()[..32]); m[64..].copy_from_slice(&f[0].to_bytes()[64..]) }, _ => {} }
        if let Some(g) = FullViewingKey::from_bytes(&m) { break [f[0].clone(), g]; }
    };
    let n32 = |r: &mut Rng| two(&near::<4>(r, |_| true), |b| u32::from_le_bytes(*b));
    let asks = two(&sks, |x| SpendAuthorizingKey::from(x));
    let alphas = two(&near::<32>(&mut r, |b| oracle::scalar(b).is_some()), |b| oracle::scalar(b).unwrap());
    let msgs = two(&near::<32>(&mut r, |_| true), |b| b.to_vec());
    let mut sigs = vec![];
    for i in 0..8 { sigs.push((&asks[i / 4].randomize(&alphas[i / 2 % 2]).sign(&mut r, &msgs[i % 2])).into()); }
    let st = stock::make(&["a", "b"], base);
    let sent = [0usize, 1].map(|i| {
        let mut b = Builder::new(BundleType::Coinbase, Anchor::empty_tree());
        b.add_output(Some(fvks[i].to_ovk(Scope::External)), fvks[i].address_at(7u32, Scope::External), NoteValue::from_raw(r.gen_range(1..1 << 50)), None).expect("add_output");
        let b = b.build::<i64>(&mut r).expect("build").expect("bundle").0;
        b.create_proof(pk(), &mut r).expect("proof").apply_signatures(&mut r, [1; 32], &[]).expect("apply_signatures")
    });
    let (ak, nk, rivk) = (two(&asks, |a| SpendValidatingKey::from(a)), near(&mut r, field), near(&mut r, |b| oracle::scalar(b).is_some()));
    let parts = [0usize, 1].map(|i| [FullViewingKey::from(&sks[i]).to_bytes()[..32].try_into().unwrap(), nk[i], rivk[i]]);
    let whole = |d: &[u8; 11], p: &[u8; 32]| { let mut b = [0; 43]; b[..11].copy_from_slice(d); b[11..].copy_from_slice(p); Option::<Address>::from(Address::from_raw_address_bytes(&b)) };
    let divs = near::<11>(&mut r, |_| true);
    let pkds = near::<32>(&mut r, |p| whole(&divs[0], p).is_some());
    let (dk, ik) = (near::<32>(&mut r, |_| true), near::<32>(&mut r, |b| field(b) && *b != [0; 32]));
    let ivks = [0usize, 1].map(|i| [dk[i], ik[i]]);
    let rcv = near::<32>(&mut r, |b| oracle::scalar(b).is_some());
    let cvs = two(&rcv, |b| ValueCommitment::derive(NoteValue::from_raw(5) - NoteValue::from_raw(3), ValueCommitTrapdoor::from_bytes(*b).unwrap()).to_bytes());
    let acts = {
        let (nf, cmx, epk, c, t) = (near(&mut r, field), near(&mut r, field), near::<32>(&mut r, |_| true), near::<52>(&mut r, |_| true), near::<16>(&mut r, |_| true));
        let (m, o) = (near::<512>(&mut r, |_| true), near::<80>(&mut r, |_| true));
        [0usize, 1].map(|i| Parts { nf: nf[i], rk: (&ak[i].randomize(&alphas[0])).into(), cmx: cmx[i], cv: cvs[i], epk: epk[i], c: c[i], m: m[i].to_vec(), t: t[i], out: o[i].to_vec() })
    };
    let proofs = near::<96>(&mut r, |_| true).map(|x| x.to_vec());
    World {
        seeds: near::<40>(&mut r, |_| true).map(|x| x.to_vec()), coins: n32(&mut r).map(|x| x >> 1), accounts: n32(&mut r).map(|x| x >> 1),
        idx: near::<11>(&mut r, |_| true).map(|b| { let mut x = [0; 16]; x[..11].copy_from_slice(&b); u128::from_le_bytes(x) }),
        values: near::<8>(&mut r, |_| true).map(u64::from_le_bytes),
        rhos: near(&mut r, field), rseeds: near(&mut r, |_| true), pos: n32(&mut r), leaves: near(&mut r, field),
        auths: {
            let a: [MerkleHashOrchard; 32] = [0; 32].map(|_| mhash(&pallas::Base::random(&mut r)));
            let mut b = a;
            b[0] = mhash(&pallas::Base::random(&mut r));
            b[31] = mhash(&pallas::Base::random(&mut r));
            b[r.gen_range(1..31)] = mhash(&pallas::Base::random(&mut r));
            [a, b]
        },
        levels: { let a = r.gen_range(0..32u8); [a, (a + r.gen_range(1..32)) % 32] },
        rcvs: near(&mut r, |b| oracle::scalar(b).is_some()),
        flags: { let a = r.gen_range(0..4u8); [a, a ^ r.gen_range(1..4)] },
        bals: near::<8>(&mut r, |_| true).map(i64::from_le_bytes), anchors: near(&mut r, field),
        proofs, bsigs: near(&mut r, |_| true),
        sks, fvks, asks, alphas, msgs, sigs, sent, st, base, parts, ivks, divs, pkds, acts, cvs,
    }
    .even()
}
impl World {
    /// Accounts and coins halved to 31 bits may have become equal.
    fn even(mut self) -> World {
        if self.coins[0] == self.coins[1] { self.coins[1] ^= 1 << 30; }
        if self.accounts[0] == self.accounts[1] { self.accounts[1] ^= 1 << 30; }
        self
    }
    fn scope(i: usize) -> Scope { [Scope::External, Scope::Internal][i] }
    fn note(&self, a: &[usize]) -> Note {
        let rho = Rho::from_bytes(&self.rhos[a[3]]).unwrap();
        let mut to = [0; 43];
        to[..11].copy_from_slice(&self.divs[a[0]]);
        to[11..].copy_from_slice(&self.pkds[a[1]]);
        Note::from_parts(Address::from_raw_address_bytes(&to).unwrap(), NoteValue::from_raw(self.values[a[2]]), rho, RandomSeed::from_bytes(self.rseeds[a[4]], &rho).unwrap()).unwrap()
    }
    /// The viewing key of the given parts.
    fn key(&self, a: &[usize]) -> FullViewingKey {
        let b: Vec<u8> = (0..3).flat_map(|i| self.parts[a[i]][i]).collect();
        FullViewingKey::from_bytes(&b.try_into().unwrap()).expect("viewing key")
    }
    fn index(&self, i: usize) -> DiversifierIndex {
        DiversifierIndex::from(<[u8; 11]>::try_from(&self.idx[i].to_le_bytes()[..11]).unwrap())
    }
    /// An action with value commitment, nullifier, commitment, ephemeral key and ciphertexts of either message.
    fn mixed(&self, cv: usize, nf: usize, cmx: usize, epk: usize, enc: usize, out: usize) -> Action<SpendSig> {
        let m = |i: usize| self.sent[i].actions().first();
        Action::from_parts(*m(nf).nullifier(), m(0).rk().clone(), *m(cmx).cmx(),
            TransmittedNoteCiphertext { epk_bytes: m(epk).encrypted_note().epk_bytes, enc_ciphertext: m(enc).encrypted_note().enc_ciphertext, out_ciphertext: m(out).encrypted_note().out_ciphertext },
            m(cv).cv_net().clone(), m(0).authorization().clone())
    }
    fn address(&self, f: usize, sc: usize, i: usize) -> Address {
        self.fvks[f].address_at(self.index(i), Self::scope(sc))
    }
    fn answer(&self, q: &Value) -> String {
        let a: Vec<usize> = arr(q, "a").iter().map(|x| x.as_i64().unwrap() as usize - 1).collect();
        let verdict = |x: bool| if x { "yes".to_string() } else { "none".to_string() };
        let ivk = |i: usize| self.fvks[i].to_ivk(Scope::External);
        let opened = |x: Option<(Note, Address, Vec<u8>)>| x.map_or("none".into(), |(n, a, m)| hex::encode([&a.to_raw_address_bytes()[..], &n.value().inner().to_le_bytes(), &n.rho().to_bytes(), n.rseed().as_bytes(), &m].concat()));
        let act = |i: usize| self.sent[i].actions().first();
        match s(q, "f") {
            "zip32" => hex::encode(SpendingKey::from_zip32_seed(&self.seeds[a[0]], self.coins[a[1]], zip32::AccountId::try_from(self.accounts[a[2]]).unwrap()).expect("sk").to_bytes()),
            "fvk" => hex::encode(FullViewingKey::from(&self.sks[a[0]]).to_bytes()),
            "ivk" => hex::encode(self.key(&a).to_ivk(Self::scope(a[3])).to_bytes()),
            "ovk" => hex::encode(self.key(&a).to_ovk(Self::scope(a[3])).as_ref()),
            "addr" => hex::encode(self.key(&a).address_at(self.index(a[4]), Self::scope(a[3])).to_raw_address_bytes()),
            "daddr" => hex::encode(self.key(&a).address(Diversifier::from_bytes(self.divs[a[4]]), Self::scope(a[3])).to_raw_address_bytes()),
            "iaddr" => {
                let b = [self.ivks[a[0]][0], self.ivks[a[1]][1]].concat();
                hex::encode(IncomingViewingKey::from_bytes(&b.try_into().unwrap()).expect("incoming key").address_at(self.index(a[2])).to_raw_address_bytes())
            }
            "index" => self.fvks[a[0]].to_ivk(Self::scope(a[1])).diversifier_index(&self.address(a[2], a[3], a[4])).map_or("none".into(), |d| hex::encode(d.as_bytes())),
            "scope" => self.fvks[a[0]].scope_for_address(&self.address(a[1], a[2], a[3])).map_or("none".into(), |x| format!("{x:?}")),
            "cm" => hex::encode(cmx(&self.note(&a)).to_bytes()),
            "nf" => hex::encode(self.note(&a[3..]).nullifier(&self.key(&a)).to_bytes()),
            "root" => hex::encode(MerklePath::from_parts(self.pos[a[0]], [(); 32].map({ let (mut l, a) = (0, a.clone()); move |_| { l += 1; self.auths[a[if l == 1 { 2 } else if l < 32 { 3 } else { 4 }]][l - 1] } })).root(ExtractedNoteCommitment::from_bytes(&self.leaves[a[1]]).unwrap()).to_bytes()),
            "node" => hex::encode(MerkleHashOrchard::combine(Level::from(self.levels[a[0]]), &self.auths[0][a[1]], &self.auths[0][2 + a[2]]).to_bytes()),
            "cv" => hex::encode(ValueCommitment::derive(NoteValue::from_raw(self.values[a[0]]) - NoteValue::from_raw(5), ValueCommitTrapdoor::from_bytes(self.rcvs[a[1]]).unwrap()).to_bytes()),
            "rk" => { let b: [u8; 32] = (&redpallas::VerificationKey::from(&self.asks[a[0]].randomize(&self.alphas[a[1]]))).into(); hex::encode(b) }
            "verify" => verdict(SpendValidatingKey::from(&self.asks[a[0]]).randomize(&self.alphas[a[1]]).verify(&self.msgs[a[2]], &redpallas::Signature::<SpendAuth>::from(self.sigs[a[3] * 4 + a[4] * 2 + a[5]])).is_ok()),
            "full" => { let x = self.mixed(0, a[1], a[2], a[3], a[4], 0); opened(try_note_decryption(&OrchardDomain::for_action(&x), &PreparedIncomingViewingKey::new(&ivk(a[0])), &x).map(|(n, a, m)| (n, a, m.to_vec()))) }
            "compact" => { let c = CompactAction::from(&self.mixed(0, a[1], a[2], a[3], a[4], 0)); opened(try_compact_note_decryption(&OrchardDomain::for_compact_action(&c), &PreparedIncomingViewingKey::new(&ivk(a[0])), &c).map(|(n, a)| (n, a, vec![]))) }
            "scan" => opened(self.sent[a[1]].decrypt_outputs_with_keys(&[ivk(a[0])]).pop().map(|(_, _, n, a, m)| (n, a, m.to_vec()))),
            "out" => opened(self.bundle(self.mixed(a[1], a[2], a[3], a[4], a[5], a[6]), 0, 0, 0, 0, 0).recover_output_with_ovk(0, &self.fvks[a[0]].to_ovk(Scope::External)).map(|(n, a, m)| (n, a, m.to_vec()))),
            "tx" => {
                let p = |i: usize| &self.acts[a[i]];
                let enc = [&p(5).c[..], &p(6).m, &p(7).t].concat();
                let x = Action::from_parts(Nullifier::from_bytes(&p(0).nf).unwrap(), redpallas::VerificationKey::<SpendAuth>::try_from(p(1).rk).unwrap(), ExtractedNoteCommitment::from_bytes(&p(2).cmx).unwrap(),
                    TransmittedNoteCiphertext { epk_bytes: p(4).epk, enc_ciphertext: enc.try_into().unwrap(), out_ciphertext: p(8).out.clone().try_into().unwrap() },
                    ValueCommitment::from_bytes(&p(3).cv).unwrap(), act(0).authorization().clone());
                let b: [u8; 32] = self.bundle(x, a[9], a[10], a[11], 0, 0).commitment().into();
                hex::encode(b)
            }
            "auth" => { let x = act(0).clone().map(|_| redpallas::Signature::<SpendAuth>::from(self.sigs[a[0]])); hex::encode(self.bundle(x, 0, 0, 0, a[1], a[2]).authorizing_commitment().0.as_bytes()) }
            "bvk" => { let b: [u8; 32] = (&{
                let cv = |b: &[u8; 32]| { let m = act(0); Action::from_parts(*m.nullifier(), m.rk().clone(), *m.cmx(), m.encrypted_note().clone(), ValueCommitment::from_bytes(b).unwrap(), m.authorization().clone()) };
                let other = act(a[1]).cv_net().to_bytes();
                let two = NonEmpty::from_vec(vec![cv(&self.cvs[a[0]]), cv(&other)]).unwrap();
                let b = self.bundle(act(0).clone(), 0, a[2], 0, 0, 0);
                Bundle::<Authorized, i64>::from_parts(two, *b.flags(), *b.value_balance(), *b.anchor(), b.authorization().clone())
            }.binding_validating_key()).into(); hex::encode(b) }
            "proof" => {
                let (x, y) = (self.full(a[0]), self.full(a[1]));
                verdict(Bundle::from_parts(x.actions().clone(), *x.flags(), *x.value_balance(), *x.anchor(), y.authorization().clone()).verify_proof(vk()).is_ok())
            }
            "batch" => {
                let h = ["h1", "h2"];
                let k = ["a", "b"];
                let x = self.st.full(k[a[0]], h[a[2]]);
                let p = self.st.full(k[a[1]], h[a[2]]).authorization().proof().as_ref().to_vec();
                let f = Bundle::from_parts(x.actions().clone(), *x.flags(), *x.value_balance(), *x.anchor(), Authorized::from_parts(Proof::new(p), x.authorization().binding_signature().clone()));
                let mut v = BatchValidator::new();
                v.add_bundle(&f, sighash(h[a[3]], self.st.seed));
                verdict(v.validate(vk(), rng(self.base, "purity batch")))
            }
            "build" => {
                let mut b = Builder::new(BundleType::DEFAULT, Anchor::from_bytes(self.anchors[a[0]]).unwrap());
                for v in [1u64, 2, 3] {
                    let ovk = if a[3] == 0 { Some(self.fvks[0].to_ovk(Scope::External)) } else { None };
                    let memo = if a[4] == 0 { None } else { Some([v as u8; 512]) };
                    b.add_output(if v == 2 { None } else { ovk }, self.fvks[a[1]].address_at(v as u32, Scope::External), NoteValue::from_raw(v + 10 * a[2] as u64), memo).expect("add_output");
                }
                let (b, m) = b.build::<i64>(rng(self.base, &format!("generator {}", a[5]))).expect("build").expect("bundle");
                let at: Vec<String> = (0..4).map(|i| format!("{:?}", m.output_action_index(i))).collect();
                let c: [u8; 32] = b.commitment().into();
                hex::encode(c) + &at.concat()
            }
            f => panic!("function {f}"),
        }
    }
    fn full(&self, i: usize) -> &Full { self.st.full(["a", "b"][i], "h1") }
    fn bundle(&self, a: Action<SpendSig>, flags: usize, bal: usize, anchor: usize, proof: usize, bsig: usize) -> Bundle<Authorized, i64> {
        Bundle::from_parts(NonEmpty::new(a), Flags::from_byte(self.flags[flags]).unwrap(), self.bals[bal], Anchor::from_bytes(self.anchors[anchor]).unwrap(),
            Authorized::from_parts(Proof::new(self.proofs[proof].clone()), redpallas::Signature::<Binding>::from(self.bsigs[bsig])))
    }
    fn ask(&self, q: &Value, w: usize) -> Value {
        match guard(|| self.answer(q)) {
            Ok(x) => json!({"op": "ask", "q": q, "w": w, "x": x}),
            Err(m) => json!({"op": "ask", "q": q, "w": w, "x": "", "panic": m}),
        }
    }
}
const ARITY: [(&str, usize); 26] = [("zip32", 3), ("fvk", 1), ("ivk", 4), ("ovk", 4), ("addr", 5), ("daddr", 5), ("iaddr", 3), ("index", 5), ("scope", 4), ("cm", 5), ("nf", 8), ("root", 5), ("node", 3), ("cv", 2),
    ("rk", 2), ("verify", 6), ("full", 5), ("compact", 5), ("scan", 2), ("out", 7), ("tx", 12), ("auth", 3), ("bvk", 3), ("proof", 2), ("batch", 4), ("build", 6)];
/// Whether the question is one of the specification's.
fn usual(k: usize, twos: usize) -> bool { k <= 6 || twos <= 2 || twos + 2 >= k }
/// Eight threads that keep asking the same few questions at once; every answer that was seen.
fn storm(x: &World, w: usize, qs: &[Value], ms: u64) -> Run {
    let seen = std::sync::Mutex::new(std::collections::BTreeMap::<(usize, String), Value>::new());
    let gate = std::sync::Barrier::new(8);
    std::thread::scope(|sc| for t in 0..8usize {
        let (seen, gate) = (&seen, &gate);
        sc.spawn(move || {
            let mut mine = std::collections::BTreeMap::new();
            gate.wait();
            let start = std::time::Instant::now();
            let mut i = 0;
            // Each thread has a pace of its own.
            while i < qs.len() || start.elapsed().as_millis() < ms as u128 {
                let k = (t + i * (2 * t + 1)) % qs.len();
                i += 1;
                let e = x.ask(&qs[k], w);
                mine.insert((k, e["x"].to_string() + &e["panic"].to_string()), e);
            }
            seen.lock().unwrap().extend(mine);
        });
    });
    seen.into_inner().unwrap().into_values().collect()
}
pub fn exec_runs(runs: &[Run], seed: u64, random: usize, worlds: usize, ms: u64) -> Vec<Run> {
    let ws: Vec<World> = (0..worlds as u64).map(|i| world(seed.wrapping_add(i * 7919))).collect();
    let all: Vec<Value> = ARITY.iter().flat_map(|(f, k)| (0..1usize << k).filter(move |m| usual(*k, m.count_ones() as usize)).map(move |m| json!({"f": f, "a": (0..*k).map(|i| 1 + (m >> i & 1)).collect::<Vec<_>>()}))).collect();
    // The first answers: every question on a fresh thread.
    let mut out: Vec<Run> = ws.iter().enumerate().map(|(w, x)| {
        let mut t: Run = all.iter().map(|q| std::thread::scope(|sc| sc.spawn(|| x.ask(q, w + 1)).join().unwrap())).collect();
        t[0]["worlds"] = json!(worlds);
        t
    }).collect();
    // The same questions from many threads at once, without a pause.
    for (w, x) in ws.iter().enumerate() {
        for (f, _) in ARITY.iter().filter(|(f, _)| !["proof", "batch", "build"].contains(f)) {
            let qs: Vec<Value> = all.iter().filter(|q| s(q, "f") == *f).cloned().collect();
            out.push(storm(x, w + 1, &qs, ms));
        }
    }
    // The generated orders, in every world, and long random ones, on all threads at once.
    let mut jobs: Vec<Run> = vec![];
    for (i, run) in runs.iter().enumerate() {
        let w = 1 + i % worlds;
        jobs.push(run.iter().map(|c| json!({"w": w, "q": c["q"]})).collect());
    }
    for i in 0..random {
        let mut r = rng(seed, &format!("purity random {i}"));
        let w = 1 + r.gen_range(0..worlds);
        let mut q = all[r.gen_range(0..all.len())].clone();
        jobs.push((0..60).map(|_| {
            // Another function, or the same with one argument changed.
            if r.gen_range(0..3) == 0 { q = all[r.gen_range(0..all.len())].clone(); }
            else {
                let before = q.clone();
                let k = arr(&q, "a").len();
                let j = r.gen_range(0..k);
                q["a"][j] = json!(3 - q["a"][j].as_i64().unwrap());
                if !usual(k, arr(&q, "a").iter().filter(|x| x.as_i64() == Some(2)).count()) { q = before; }
            }
            json!({"w": if r.gen_range(0..8) == 0 { 1 + r.gen_range(0..worlds) } else { w }, "q": q})
        }).collect());
    }
    out.extend(exec_all(&jobs, seed, |run, _| run.iter().map(|c| { let w = n(c, "w") as usize; ws[w - 1].ask(&c["q"], w) }).collect()));
    out
}
