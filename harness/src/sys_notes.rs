//! Note commitments, nullifiers, equality; chains of actions.
use crate::eval::{self, Env, Val};
use crate::oracle;
use crate::sys_keys::{index, sk_bytes};
use crate::util::*;
use crate::world::*;
use ff::Field;
use orchard::{
    builder::{Builder, BundleType},
    keys::*,
    note::{RandomSeed, Rho},
    value::NoteValue,
    Address, Note,
};
use pasta_curves::pallas;
use rand::{seq::SliceRandom, Rng as _, RngCore};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

const OWNERS: [&str; 3] = ["A", "B", "M"];
fn val64(r: &mut Rng) -> u64 {
    match r.gen_range(0..5) { 0 => r.gen_range(0..3), 1 => u64::MAX - r.gen_range(0..3), 2 => 1 << r.gen_range(0..64), _ => r.gen::<u64>() >> r.gen_range(0..64) }
}
struct World { env: Env, fvk: HashMap<String, FullViewingKey> }
fn world(seed: u64) -> World {
    let mut r = rng(seed, "notes env");
    loop {
        let mut e = Env::new();
        for k in ["skA", "skB"] { e.insert(k.into(), Val::Bytes(sk_bytes(&mut r).to_vec())); }
        for k in ["d1", "d2", "dx"] { e.insert(k.into(), Val::Bytes(index(&mut r).to_vec())); }
        for k in ["v1", "v2", "v3"] { e.insert(k.into(), Val::Bytes(val64(&mut r).to_le_bytes().to_vec())); }
        for k in ["rho1", "rho2"] { e.insert(k.into(), Val::Base(pallas::Base::random(&mut r))); }
        for k in ["rs1", "rs2"] { let mut b = [0u8; 32]; r.fill_bytes(&mut b); e.insert(k.into(), Val::Bytes(b.to_vec())); }
        // Neighbouring values of one component.
        match r.gen_range(0..4) {
            0 => { let mut b = eval::bytes(&e["rs1"]); b[r.gen_range(0..32)] ^= 1 << r.gen_range(0..8); e.insert("rs2".into(), Val::Bytes(b)); }
            1 => { let x = match &e["rho1"] { Val::Base(x) => *x, _ => unreachable!() }; e.insert("rho2".into(), Val::Base(-x)); }
            2 => { let mut b = eval::bytes(&e["v1"]); b[r.gen_range(0..8)] ^= 1 << r.gen_range(0..8); e.insert("v2".into(), Val::Bytes(b)); }
            _ => { let mut b = eval::bytes(&e["d1"]); b[r.gen_range(0..11)] ^= 1 << r.gen_range(0..8); e.insert("d2".into(), Val::Bytes(b)); }
        }
        let vals: HashSet<Vec<u8>> = ["d1", "d2", "dx", "v1", "v2", "v3", "rho1", "rho2", "rs1", "rs2"].iter().map(|k| eval::bytes(&e[*k])).collect();
        if vals.len() != 10 { continue; }
        let sk = |k: &str| SpendingKey::from_bytes(eval::bytes(&e[k]).try_into().unwrap()).unwrap();
        let (a, b) = (FullViewingKey::from(&sk("skA")), FullViewingKey::from(&sk("skB")));
        let mut m = b.to_bytes();
        m[32..64].copy_from_slice(&a.to_bytes()[32..64]);
        let m = match FullViewingKey::from_bytes(&m) { Some(m) => m, None => continue };
        let fvk = [("A", a), ("B", b), ("M", m)].into_iter().map(|(k, v)| (k.to_string(), v)).collect();
        return World { env: e, fvk };
    }
}
fn notes(run: &Run, seed: u64) -> Run {
    let w = world(seed);
    let mut r = rng(seed, "notes run");
    let get = |k: &str| eval::bytes(&w.env[k]);
    let mut made: Vec<(Value, Note)> = vec![];
    let mut memo: HashMap<String, String> = HashMap::new();
    let mut out = vec![];
    for c in run {
        let id = &c["id"];
        let mut ev = json!({"op": "note", "id": id});
        let mut ask = |t: &Value| memo.entry(t.to_string()).or_insert_with(|| eval::hexof(t, &w.env)).clone();
        let mut nf = serde_json::Map::new();
        for k in OWNERS { nf.insert(k.into(), json!(ask(&c["nf"][k]))); }
        ev["want"] = json!({"pkd": ask(&c["pkd"]), "cmx": ask(&c["cmx"]), "nf": nf});
        let res = guard(|| {
            let d = Diversifier::from_bytes(get(s(id, "d")).try_into().unwrap());
            let addr = match s(id, "own") {
                "X" => {
                    let mut raw = w.fvk["A"].address(Diversifier::from_bytes(get("dx").try_into().unwrap()), Scope::External).to_raw_address_bytes();
                    raw[..11].copy_from_slice(d.as_array());
                    Address::from_raw_address_bytes(&raw).unwrap()
                }
                k => w.fvk[k].address(d, scope(s(id, "scope"))),
            };
            let rho = Rho::from_bytes(&get(s(id, "rho")).try_into().unwrap()).unwrap();
            let rs = RandomSeed::from_bytes(get(s(id, "rs")).try_into().unwrap(), &rho).unwrap();
            let v = u64::from_le_bytes(get(s(id, "v")).try_into().unwrap());
            let note = Note::from_parts(addr, NoteValue::from_raw(v), rho, rs).unwrap();
            let mut nf = serde_json::Map::new();
            let mut order = OWNERS;
            order.shuffle(&mut r);
            for k in order { nf.insert(k.into(), json!(hex::encode(note.nullifier(&w.fvk[k]).to_bytes()))); }
            ev["got"] = json!({"pkd": hex::encode(&note.recipient().to_raw_address_bytes()[11..]), "cmx": hex::encode(cmx(&note).to_bytes()), "nf": nf});
            let back = note.recipient() == addr && note.value().inner() == v && note.rho().to_bytes().to_vec() == get(s(id, "rho")) && note.rseed().as_bytes().to_vec() == get(s(id, "rs"));
            ev["readback"] = json!(if back { "same" } else { "differs" });
            // Compared with some of the others, and with the same one if it was made before.
            let mut eq = vec![];
            let some: Vec<&(Value, Note)> = made.choose_multiple(&mut r, 6).chain(made.iter().filter(|x| &x.0 == id).take(2)).collect();
            for (i, x) in some { eq.push(json!({"id": i, "same": x == &note && &note == x})); }
            ev["eq"] = json!(eq);
            made.push((id.clone(), note));
        });
        if let Err(m) = res { ev["panic"] = json!(m); out.push(ev); break; }
        out.push(ev);
    }
    out
}

/// Notes given at first, then bundles spending some of what is there.
fn chain(t: &Value, seed: u64) -> Run {
    let mut r = rng(seed, "notes chain");
    let ps: Vec<Party> = ["A", "B"].iter().map(|k| Party::new(seed, k)).collect();
    let keys: Vec<(usize, Scope)> = vec![(0, Scope::External), (0, Scope::Internal), (1, Scope::External), (1, Scope::Internal)];
    let mut out: Run = vec![];
    let want = |note: &Note, p: usize| -> Value {
        let mut e = Env::new();
        let raw = note.recipient().to_raw_address_bytes();
        e.insert("t.d".into(), Val::Bytes(raw[..11].to_vec()));
        e.insert("t.pkd".into(), Val::Point(oracle::point(&raw[11..]).unwrap()));
        e.insert("t.v".into(), Val::Bytes(note.value().inner().to_le_bytes().to_vec()));
        e.insert("t.rho".into(), Val::Base(oracle::base(&note.rho().to_bytes()).unwrap()));
        e.insert("t.rseed".into(), Val::Bytes(note.rseed().as_bytes().to_vec()));
        e.insert("t.nk".into(), Val::Base(oracle::base(&ps[p].fvk.to_bytes()[32..64]).unwrap()));
        json!({"cmx": eval::hexof(&t["cmx"], &e), "nf": eval::hexof(&t["nf"], &e)})
    };
    let shows = |note: &Note, p: usize| json!({"cmx": hex::encode(cmx(note).to_bytes()), "nf": hex::encode(note.nullifier(&ps[p].fvk).to_bytes())});
    // Position in the record, note, holder.
    let mut pool: Vec<(usize, Note, usize)> = vec![];
    let mut count = 0;
    let start = r.gen_range(1..4);
    for _ in 0..start {
        let (p, sc) = keys[r.gen_range(0..4)];
        let (rho, v) = (rand_rho(&mut r), r.gen::<u64>() >> r.gen_range(14..64));
        let addr = ps[p].fvk.address_at(r.next_u64(), sc);
        let n = mk_note(addr, v, rho, &mut r);
        count += 1;
        out.push(json!({"op": "given", "got": shows(&n, p), "want": want(&n, p)}));
        pool.push((count, n, p));
    }
    for _ in 0..3 {
        pool.shuffle(&mut r);
        let k = r.gen_range(0..=pool.len().min(3));
        let spends: Vec<_> = pool.drain(..k).collect();
        let mut used = HashSet::new();
        let mut leaves: Vec<(u32, pallas::Base)> = spends.iter().map(|(_, n, _)| (loop { let p = rand_pos(&mut r); if used.insert(p) { break p; } }, leaf(n))).collect();
        if leaves.is_empty() { leaves.push((3, pallas::Base::from(9))); }
        let (root, paths) = SparseTree { leaves, seed: r.next_u64(), filler: r.gen() }.root_and_paths();
        let coinbase = spends.is_empty() && r.gen();
        let res = guard(|| {
            let mut b = Builder::new(if coinbase { BundleType::Coinbase } else { BundleType::DEFAULT }, anchor(&root));
            for (i, (_, n, p)) in spends.iter().enumerate() {
                b.add_spend(ps[*p].fvk.clone(), *n, mpath(paths[i].0, &paths[i].1)).expect("add_spend");
            }
            for _ in 0..r.gen_range(if coinbase { 1 } else { 0 }..4) {
                let (p, sc) = keys[r.gen_range(0..4)];
                let ovk = if r.gen() { Some(ps[0].ovk(Scope::External)) } else { None };
                let addr = ps[p].fvk.address_at(r.next_u64(), sc);
                b.add_output(ovk, addr, NoteValue::from_raw(r.gen::<u64>() >> r.gen_range(14..64)), None).expect("add_output");
            }
            b.build::<i64>(&mut r).expect("build").map(|x| x.0)
        });
        let bu = match res { Ok(Some(b)) => b, Ok(None) => continue, Err(m) => { out.push(json!({"op": "act", "panic": m})); return out; } };
        for (i, a) in bu.actions().iter().enumerate() {
            let nf = a.nullifier().to_bytes();
            let spend = spends.iter().find(|(_, n, p)| n.nullifier(&ps[*p].fvk).to_bytes() == nf).map(|x| x.0).unwrap_or(0);
            let mut ev = json!({"op": "act", "spend": spend, "nf": hex::encode(nf), "rho": hex::encode(a.rho().to_bytes()), "cmx": hex::encode(a.cmx().to_bytes()), "created": "no"});
            let full = |n: &Note, p: usize| { let mut v = shows(n, p); v["rho"] = json!(hex::encode(n.rho().to_bytes())); v };
            for (p, sc) in &keys {
                if let Some((n, ..)) = bu.decrypt_output_with_key(i, &ps[*p].ivk(*sc)) {
                    ev["created"] = json!("yes");
                    ev["found"] = full(&n, *p);
                    ev["want"] = want(&n, *p);
                    if let Some((m, ..)) = bu.recover_output_with_ovk(i, &ps[0].ovk(Scope::External)) {
                        ev["sender"] = if m == n { full(&m, *p) } else { json!({"cmx": "another note", "nf": "", "rho": ""}) };
                    }
                    count += 1;
                    pool.push((count, n, *p));
                }
            }
            out.push(ev);
        }
        // Every spend was revealed.
        for (i, ..) in &spends {
            if !out.iter().any(|e| e["spend"] == json!(i)) { out.push(json!({"op": "act", "panic": "a spend is missing"})); }
        }
    }
    out
}
pub fn exec_runs(runs: &[Run], seed: u64, random: usize, reps: usize) -> Vec<Run> {
    let template = runs.iter().find(|r| s(&r[0], "op") == "template").expect("template")[0].clone();
    let all: Run = runs.iter().filter(|r| s(&r[0], "op") == "note").flatten().cloned().collect();
    let slots: Vec<Run> = (0..reps).map(|i| {
        let mut r = rng(seed, &format!("notes order {i}"));
        let mut v = all.clone();
        for _ in 0..20 { v.push(all.choose(&mut r).unwrap().clone()); }
        v.shuffle(&mut r);
        v
    }).collect();
    let mut out = exec_all(&slots, seed, notes);
    let slots = vec![vec![json!(0)]; random];
    out.extend(exec_all(&slots, seed.wrapping_add(31), |_, sd| chain(&template, sd)));
    out
}
