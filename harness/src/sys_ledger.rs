//! A chain, its node and its wallets, on the real crate.
use crate::keyring::{pk, vk};
use crate::oracle;
use crate::stock::{assemble, off, Parts};
use crate::util::*;
use crate::world::*;
use ff::Field;
use incrementalmerkletree::{Hashable, Level};
use orchard::{
    builder::*,
    bundle::{Authorized, BatchValidator, Bundle, Flags},
    keys::{IncomingViewingKey, Scope},
    note::{ExtractedNoteCommitment, Nullifier},
    primitives::redpallas,
    tree::{MerkleHashOrchard, MerklePath},
    value::{NoteValue, ValueCommitTrapdoor, ValueCommitment, ValueSum},
    Action, Anchor, Note,
};
use pasta_curves::pallas;
use rand::{seq::SliceRandom, Rng as _};
use rayon::prelude::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};

type Full = Bundle<Authorized, i64>;
const SCALE: i64 = 300_000_007_013;

/// Root and path of a leaf in the tree of the given leaves.
fn dense(leaves: &[MerkleHashOrchard], pos: usize) -> (MerkleHashOrchard, [MerkleHashOrchard; 32]) {
    let mut cur = leaves.to_vec();
    let mut path = [MerkleHashOrchard::empty_leaf(); 32];
    let mut p = pos;
    for (l, slot) in path.iter_mut().enumerate() {
        let lev = Level::from(l as u8);
        let empty = MerkleHashOrchard::empty_root(lev);
        *slot = cur.get(p ^ 1).copied().unwrap_or(empty);
        cur = cur.chunks(2).map(|c| MerkleHashOrchard::combine(lev, &c[0], c.get(1).unwrap_or(&empty))).collect();
        p /= 2;
    }
    (cur.first().copied().unwrap_or_else(|| MerkleHashOrchard::empty_root(Level::from(32))), path)
}
#[derive(Clone)]
struct Owned { note: Note, id: i64, scope: &'static str, pos: usize, spent: bool }
struct Wallet { party: Party, notes: Vec<Owned> }
struct MadeTx { bundle: Full, meta_o: Vec<usize>, spend_at: Vec<usize>, os: Vec<Value>, who: String }
struct Chain {
    leaves: Vec<MerkleHashOrchard>,
    sizes: Vec<usize>,           // tree size after each accepted bundle
    roots: Vec<[u8; 32]>,
    nullifiers: HashSet<[u8; 32]>,
    pool: i64,
    nnotes: i64,
    wallets: Vec<Wallet>,
    made: BTreeMap<i64, MadeTx>,
}
fn digest(b: &Full) -> [u8; 32] {
    // What a transaction commits to for signing: everything the bundle does.
    let c: [u8; 32] = b.commitment().into();
    oracle::blake2b(32, b"conformance_sigh", &c).try_into().unwrap()
}
impl Chain {
    fn new(seed: u64) -> Chain {
        let mut c = Chain { leaves: vec![], sizes: vec![0], roots: vec![], nullifiers: HashSet::new(), pool: 0, nnotes: 0, made: BTreeMap::new(),
            wallets: ["A", "B", "C"].iter().map(|p| Wallet { party: Party::new(seed, p), notes: vec![] }).collect() };
        c.roots.push(Anchor::from(dense(&c.leaves, 0).0).to_bytes());
        c
    }
    fn w(&self, p: &str) -> &Wallet { self.wallets.iter().find(|w| w.party.name == p).expect("party") }
    fn note(&self, id: i64) -> (&Wallet, &Owned) {
        self.wallets.iter().find_map(|w| w.notes.iter().find(|o| o.id == id).map(|o| (w, o))).unwrap_or_else(|| panic!("no wallet holds note {id}"))
    }
    fn anchor(&self, root: usize) -> Anchor { Anchor::from_bytes(self.roots[root]).unwrap() }
    fn make(&mut self, c: &Value, r: &mut Rng) {
        let root = n(c, "root") as usize;
        let who = self.w(s(c, "who"));
        let cheat = s(c, "cheat");
        let mut b = Builder::new(if s(c, "kind") == "cb" { BundleType::Coinbase } else { BundleType::DEFAULT }, self.anchor(root));
        let ss: Vec<i64> = arr(c, "ss").iter().map(|x| x.as_i64().unwrap()).collect();
        for id in &ss {
            let (w, o) = self.note(*id);
            let (_, p) = dense(&self.leaves[..self.sizes[root]], o.pos);
            b.add_spend(w.party.fvk.clone(), o.note, MerklePath::from_parts(o.pos as u32, p)).expect("add_spend");
        }
        for (i, q) in arr(c, "os").iter().enumerate() {
            let to = self.w(s(q, "to")).party.fvk.address_at((n(c, "id") * 10 + i as i64) as u32, scope(s(q, "scope")));
            b.add_output(Some(who.party.ovk(Scope::External)), to, NoteValue::from_raw((n(q, "v") * SCALE) as u64), None).expect("add_output");
        }
        let (b, meta) = b.build::<i64>(&mut *r).expect("build").expect("bundle");
        let mut flags = *b.flags();
        let mut bal = *b.value_balance();
        let mut anchor = *b.anchor();
        match cheat {
            "inflate" => bal += SCALE,
            "noflags" => flags = Flags::from_byte(0).unwrap(),
            "root" => anchor = self.anchor(0),
            _ => {}
        }
        let b = if matches!(cheat, "inflate" | "noflags" | "root") {
            Bundle::from_parts(b.actions().clone(), flags, bal, anchor, b.authorization().clone())
        } else { b };
        let b = b.create_proof(pk(), &mut *r).expect("proof");
        // The content is fixed; sign it (or something else).
        let mut h: [u8; 32] = { let c: [u8; 32] = b.commitment().into(); oracle::blake2b(32, b"conformance_sigh", &c).try_into().unwrap() };
        if cheat == "rehash" { h[r.gen_range(0..32)] ^= 1 << r.gen_range(0..8); }
        let all: Vec<_> = self.wallets.iter().map(|w| w.party.ask.clone()).collect();
        let spend_at: Vec<usize> = (0..ss.len()).map(|i| meta.spend_action_index(i).expect("spend index")).collect();
        let bundle = if cheat == "thief" {
            match b.clone().apply_signatures(&mut *r, h, &[who.party.ask.clone()]) {
                Ok(x) => x,      // the node will have to notice
                Err(_) => {
                    let real = b.apply_signatures(&mut *r, h, &all).expect("apply_signatures");
                    let mut p = parts(&real);
                    for i in &spend_at {
                        let sig = who.party.ask.randomize(&pallas::Scalar::random(&mut *r)).sign(&mut *r, &h);
                        p.0[*i] = p.0[*i].clone().map(|_| sig);
                    }
                    assemble(p)
                }
            }
        } else { b.apply_signatures(&mut *r, h, &all).expect("apply_signatures") };
        let tx = MadeTx { bundle, spend_at, meta_o: (0..arr(c, "os").len()).map(|i| meta.output_action_index(i).expect("output index")).collect(), os: arr(c, "os").clone(), who: s(c, "who").into() };
        self.made.insert(n(c, "id"), tx);
    }
    fn tampered(&self, id: i64, x: &str, r: &mut Rng) -> Full {
        let tx = &self.made[&id];
        let mut p = parts(&tx.bundle);
        let len = p.0.len();
        let k = r.gen_range(0..len);
        let rebuild = |a: &Action<_>, nf: Nullifier, cmx: ExtractedNoteCommitment, cv: ValueCommitment| Action::from_parts(nf, a.rk().clone(), cmx, a.encrypted_note().clone(), cv, redpallas::Signature::clone(a.authorization()));
        match x {
            "-" => return tx.bundle.clone(),
            "decl+" => p.2 += *[1, SCALE].choose(r).unwrap(),
            "decl-" => p.2 -= *[1, SCALE].choose(r).unwrap(),
            "flags" => p.1 = Flags::from_byte(3 - p.1.to_byte()).unwrap(),
            "root" => p.3 = self.anchor(if p.3.to_bytes() == self.roots[0] { 1 } else { 0 }),
            "fakeroot" => p.3 = anchor(&pallas::Base::random(&mut *r)),
            "outs" => {
                // Redirect: the commitment (and ciphertext) of someone else's note.
                let other = self.made.iter().find(|(i, _)| **i != id).map(|(_, t)| t.bundle.actions()[0].clone());
                let a = p.0[k].clone();
                p.0[k] = match other {
                    Some(o) => Action::from_parts(*a.nullifier(), a.rk().clone(), *o.cmx(), o.encrypted_note().clone(), a.cv_net().clone(), a.authorization().clone()),
                    None => rebuild(&a, *a.nullifier(), ExtractedNoteCommitment::from_bytes(&oracle::base_bytes(&pallas::Base::random(&mut *r))).unwrap(), a.cv_net().clone()),
                };
            }
            "cipher" => {
                let a = p.0[k].clone();
                let mut e = a.encrypted_note().clone();
                match r.gen_range(0..4) {
                    0 => e.epk_bytes[r.gen_range(0..32)] ^= 1 << r.gen_range(0..8),
                    1 => e.enc_ciphertext[r.gen_range(0..52)] ^= 1 << r.gen_range(0..8),
                    2 => e.enc_ciphertext[r.gen_range(52..580)] ^= 1 << r.gen_range(0..8),
                    _ => e.out_ciphertext[r.gen_range(0..80)] ^= 1 << r.gen_range(0..8),
                }
                p.0[k] = Action::from_parts(*a.nullifier(), a.rk().clone(), *a.cmx(), e, a.cv_net().clone(), a.authorization().clone());
            }
            "cv" => {
                // Shift one action's commitment by a whole unit.
                let a = p.0[k].clone();
                let one: ValueSum = NoteValue::from_raw(SCALE as u64) - NoteValue::from_raw(0);
                let d = ValueCommitment::derive(one, ValueCommitTrapdoor::from_bytes([0; 32]).unwrap());
                let q = oracle::point(&a.cv_net().to_bytes()).unwrap() + oracle::point(&d.to_bytes()).unwrap();
                let cv = ValueCommitment::from_bytes(&group::GroupEncoding::to_bytes(&q)).unwrap();
                p.0[k] = rebuild(&a, *a.nullifier(), *a.cmx(), cv);
                if r.gen() { p.2 += SCALE; }
            }
            "nf" => {
                let k = tx.spend_at.choose(r).copied().unwrap_or(k);
                let a = p.0[k].clone();
                p.0[k] = rebuild(&a, Nullifier::from_bytes(&oracle::base_bytes(&pallas::Base::random(&mut *r))).unwrap(), *a.cmx(), a.cv_net().clone());
            }
            "order" => p.0.swap(0, len - 1),
            "drop" => { p.0.remove(k); }
            "again" => { let a = p.0[k].clone(); p.0.push(a); }
            "sig" => { let b = off(p.0[k].authorization().into(), *[1, -1, 9].choose(r).unwrap(), r); p.0[k] = p.0[k].clone().map(|_| redpallas::Signature::from(b)); }
            "bindsig" => p.5 = off(p.5, *[1, -1, 9].choose(r).unwrap(), r),
            "proof" => { let i = r.gen_range(0..p.4.len()); p.4[i] ^= 1 << r.gen_range(0..8); }
            x => panic!("tamper {x}"),
        }
        assemble(p)
    }
    fn accepts(&self, b: &Full, r: &mut Rng) -> bool {
        let nfs: Vec<[u8; 32]> = b.actions().iter().map(|a| a.nullifier().to_bytes()).collect();
        let distinct = nfs.iter().collect::<HashSet<_>>().len() == nfs.len();
        let mut v = BatchValidator::new();
        v.add_bundle(b, digest(b));
        v.validate(vk(), r) && self.roots.contains(&b.anchor().to_bytes()) && distinct && nfs.iter().all(|x| !self.nullifiers.contains(x))
    }
    /// Every wallet scans the accepted bundle.
    fn connect(&mut self, id: i64, b: &Full) {
        let base = self.leaves.len();
        for a in b.actions() {
            self.nullifiers.insert(a.nullifier().to_bytes());
            self.leaves.push(MerkleHashOrchard::from_cmx(a.cmx()));
        }
        self.sizes.push(self.leaves.len());
        self.roots.push(Anchor::from(dense(&self.leaves, 0).0).to_bytes());
        self.pool -= b.value_balance();
        let ids: HashMap<usize, i64> = self.made[&id].meta_o.iter().enumerate().map(|(k, a)| (*a, self.nnotes + k as i64 + 1)).collect();
        self.nnotes += self.made[&id].os.len() as i64;
        for w in &mut self.wallets {
            let keys: Vec<IncomingViewingKey> = vec![w.party.ivk(Scope::External), w.party.ivk(Scope::Internal)];
            for a in b.actions() {
                for o in &mut w.notes { if o.note.nullifier(&w.party.fvk) == *a.nullifier() { o.spent = true; } }
            }
            for (i, k, note, _, _) in b.decrypt_outputs_with_keys(&keys) {
                let scope = if k == keys[0] { "ext" } else { "int" };
                w.notes.push(Owned { note, id: ids.get(&i).copied().unwrap_or(-1), scope, pos: base + i, spent: false });
            }
        }
    }
    fn sent(&self, id: i64) -> Value {
        let tx = &self.made[&id];
        let ovk = self.w(&tx.who).party.ovk(Scope::External);
        let rec = tx.bundle.recover_outputs_with_ovks(&[ovk]);
        let mut v = vec![];
        for a in &tx.meta_o {
            for (i, _, note, addr, _) in &rec {
                if i == a {
                    let (to, sc) = self.wallets.iter().find_map(|w| w.party.fvk.scope_for_address(addr).map(|z| (w.party.name.clone(), if z == Scope::External { "ext" } else { "int" }))).unwrap_or(("-".into(), "-"));
                    v.push(json!({"to": to, "scope": sc, "v": units(note.value().inner() as i64)}));
                }
            }
        }
        if rec.len() != v.len() { v.push(json!("more")); }
        json!(v)
    }
    fn shown(&self) -> Value {
        let mut o = serde_json::Map::new();
        for w in &self.wallets {
            let mut l: Vec<_> = w.notes.iter().filter(|x| !x.spent).collect();
            l.sort_by_key(|x| x.id);
            let bal = l.iter().map(|x| x.note.value().inner() as i64).sum::<i64>();
            o.insert(w.party.name.clone(), json!({"ids": l.iter().map(|x| x.id).collect::<Vec<_>>(), "vs": l.iter().map(|x| units(x.note.value().inner() as i64)).collect::<Vec<_>>(),
                "scopes": l.iter().map(|x| x.scope).collect::<Vec<_>>(), "balance": units(bal)}));
        }
        Value::Object(o)
    }
}
fn units(v: i64) -> i64 { if v % SCALE == 0 && v / SCALE < 1_000_000 { v / SCALE } else { -1 } }
fn parts(f: &Full) -> Parts {
    (f.actions().iter().cloned().collect(), *f.flags(), *f.value_balance(), *f.anchor(), f.authorization().proof().as_ref().to_vec(), f.authorization().binding_signature().into())
}
fn exec(run: &Run, seed: u64) -> Run {
    let mut ch = Chain::new(seed);
    let mut r = rng(seed, "ledger");
    let mut out = vec![];
    for c in run {
        let mut ev = c.clone();
        let res = guard(std::panic::AssertUnwindSafe(|| match s(c, "op") {
            "make" => ch.make(c, &mut r),
            "submit" => {
                let id = n(c, "id");
                let b = ch.tampered(id, s(c, "tamper"), &mut r);
                let ok = ch.accepts(&b, &mut r);
                ev["ok"] = json!(ok);
                if ok { ch.connect(id, &b); ev["sent"] = ch.sent(id); }
                ev["pool"] = json!(units(ch.pool));
                ev["wallets"] = ch.shown();
            }
            x => panic!("op {x}"),
        }));
        if let Err(m) = res { ev["panic"] = json!(m); out.push(ev); break; }
        out.push(ev);
    }
    out
}
pub fn exec_runs(runs: &[Run], seed: u64) -> Vec<Run> {
    runs.par_iter().enumerate().map(|(i, r)| exec(r, seed.wrapping_mul(1000).wrapping_add(i as u64))).collect()
}
