//! Puts outputs, honest and not, before the real decryption functions.
use crate::eval::{self, Env, Val};
use crate::util::*;
use crate::world::*;
use crate::oracle;
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use nonempty::NonEmpty;
use orchard::{
    builder::{Builder, BundleType},
    bundle::{Authorization, Flags},
    keys::*,
    note::{ExtractedNoteCommitment, Nullifier, RandomSeed, Rho, TransmittedNoteCiphertext},
    note_encryption::{CompactAction, OrchardDomain, OrchardNoteEncryption},
    primitives::redpallas,
    value::{NoteValue, ValueCommitment},
    Action, Address, Bundle, Note,
};
use pasta_curves::pallas;
use rand::{seq::SliceRandom, Rng as _, RngCore};
use serde_json::{json, Map, Value};
use zcash_note_encryption::{batch, try_compact_note_decryption, try_note_decryption, try_output_recovery_with_ovk, EphemeralKeyBytes};

#[derive(Debug, Clone)]
pub struct Bare;
impl Authorization for Bare { type SpendAuth = (); }

const KEYS: [&str; 4] = ["A.ext", "A.int", "B.ext", "B.int"];
const OVKS: [&str; 7] = ["A.ext", "A.int", "B.ext", "B.int", "zero", "ones", "any"];
fn near_point(r: &mut impl RngCore) -> pallas::Point { pallas::Point::random(r) }
fn bad_point(r: &mut impl RngCore) -> [u8; 32] {
    loop {
        let mut b = [0u8; 32];
        match r.next_u32() % 4 {
            0 => { b = [0xff; 32]; }
            1 => { b[31] = 0x80; }                    // x = 0 with a sign
            _ => r.fill_bytes(&mut b),
        }
        if !bool::from(pallas::Point::from_bytes(&b).is_some()) { return b; }
    }
}
fn val64(r: &mut impl RngCore) -> u64 { match r.next_u32() % 6 { 0 => 0, 1 => u64::MAX, 2 => 1, 3 => 1 << 63, 4 => r.next_u32() as u64, _ => r.next_u64() } }

struct World { a: Party, b: Party, env: Env }
impl World {
    fn ivk(&self, k: &str) -> IncomingViewingKey { let (p, s) = k.split_once('.').unwrap(); (if p == "A" { &self.a } else { &self.b }).ivk(scope(s)) }
    fn ovk(&self, k: &str) -> OutgoingViewingKey {
        match k.split_once('.') {
            Some((p, s)) => (if p == "A" { &self.a } else { &self.b }).ovk(scope(s)),
            None => OutgoingViewingKey::from(<[u8; 32]>::try_from(eval::bytes(&self.env[&format!("ovk.{k}")])).unwrap()),
        }
    }
}
fn world(seed: u64) -> World {
    let mut r = rng(seed, "noteenc world");
    let (a, b) = (Party::new(seed, "A"), Party::new(seed, "B"));
    let mut e = Env::new();
    for (n, p) in [("A", &a), ("B", &b)] {
        for sc in ["ext", "int"] {
            let i = p.ivk(scope(sc)).to_bytes();
            e.insert(format!("ivk.{n}.{sc}"), Val::Base(oracle::base(&i[32..]).unwrap()));
            e.insert(format!("ovk.{n}.{sc}"), Val::Bytes(p.ovk(scope(sc)).as_ref().to_vec()));
        }
    }
    let mut any = [0u8; 32];
    r.fill_bytes(&mut any);
    for (k, b) in [("zero", [0; 32]), ("ones", [255; 32]), ("any", any)] { e.insert(format!("ovk.{k}"), Val::Bytes(b.to_vec())); }
    let d = |r: &mut Rng| { let mut x = [0u8; 11]; match r.gen_range(0..6) { 0 => {} 1 => x = [0xff; 11], _ => r.fill_bytes(&mut x) } Val::Bytes(x.to_vec()) };
    let seedb = |r: &mut Rng| { let mut x = [0u8; 32]; r.fill_bytes(&mut x); if r.gen_range(0..8) == 0 { x = [r.gen(); 32]; } Val::Bytes(x.to_vec()) };
    for i in ["1", "2", "3", "alt", "alt2"] {
        let mut x = d(&mut r);
        while e.iter().any(|(k, v)| k.starts_with('d') && *v == x) { x = d(&mut r); }
        e.insert(format!("d{i}"), x);
    }
    let mut v = val64(&mut r);
    for i in ["1", "2", "3", "alt"] {
        e.insert(format!("v{i}"), Val::Bytes(v.to_le_bytes().to_vec()));
        let old = v;
        while v == old { v = match r.gen_range(0..3) { 0 => old.wrapping_add(1), 1 => old ^ (1 << r.gen_range(0..64)), _ => val64(&mut r) }; }
        if i == "2" || i == "3" { let v1 = eval::bytes(&e["v1"]); while v.to_le_bytes().to_vec() == v1 || v == old { v = r.next_u64(); } }
    }
    for i in ["1", "2", "3", "alt"] {
        let s = seedb(&mut r);
        e.insert(format!("rseed{i}"), s);
        e.insert(format!("rho{i}"), Val::Base(pallas::Base::random(&mut r)));
    }
    for i in ["1", "2", "3"] {
        e.insert(format!("cv{i}"), Val::Point(near_point(&mut r)));
        let mut j = vec![0; 80]; r.fill_bytes(&mut j);
        e.insert(format!("junkout{i}"), Val::Bytes(j));
    }
    for k in ["foreignesk", "otheresk", "strayk"] { e.insert(k.into(), Val::Scalar(pallas::Scalar::random(&mut r))); }
    for k in ["junk32", "junk32b"] { let s = seedb(&mut r); e.insert(k.into(), s); }
    // junk must not parse
    e.insert("junk32".into(), Val::Bytes(bad_point(&mut r).to_vec()));
    e.insert("badpoint".into(), Val::Bytes(if r.gen_range(0..3) == 0 { vec![0; 32] } else { bad_point(&mut r).to_vec() }));
    e.insert("idpoint".into(), Val::Bytes(vec![0; 32]));
    e.insert("zeroscalar".into(), Val::Bytes(vec![0; 32]));
    e.insert("badscalar".into(), Val::Bytes(match r.gen_range(0..2) {
        0 => vec![0xff; 32],
        _ => { let mut m = (-pallas::Scalar::ONE).to_repr(); m[0] += 1; m.to_vec() } }));
    let mut memo1 = vec![0u8; 512];
    r.fill_bytes(&mut memo1);
    match r.gen_range(0..8) { 0 | 1 => memo1[1..].fill(0), 2 => memo1.fill(0), 3 => memo1.fill(255), _ => {} }
    let mut none = vec![0u8; 512]; none[0] = 0xf6;
    e.insert("memo.m1".into(), Val::Bytes(memo1));
    e.insert("memo.none".into(), Val::Bytes(none));
    e.insert("flipseed".into(), Val::Int(r.next_u32() as i128));
    World { a, b, env: e }
}
fn desc(n: &Note, a: &Address, memo: Option<&[u8; 512]>, with_seed: bool) -> String {
    let mut v = n.recipient().to_raw_address_bytes().to_vec();
    v.extend_from_slice(&n.value().inner().to_le_bytes());
    v.extend_from_slice(&n.rho().to_bytes());
    if with_seed { v.extend_from_slice(n.rseed().as_bytes()); }
    if let Some(m) = memo { v.extend_from_slice(m); }
    if &n.recipient() != a { return "address differs".into(); }
    short(&v)
}
/// A readable start and a digest of everything.
fn short(v: &[u8]) -> String { format!("{}..{}", hex::encode(&v[..11]), hex::encode(oracle::blake2b(12, b"", v))) }

fn read_all(w: &World, bu: &Bundle<Bare, i64>, with_seed: bool, r: &mut Rng) -> (Vec<Value>, Vec<Value>) {
    let ivks: Vec<_> = KEYS.iter().map(|k| w.ivk(k)).collect();
    let ovks: Vec<_> = OVKS.iter().map(|k| w.ovk(k)).collect();
    let acts: Vec<&Action<()>> = bu.actions().iter().collect();
    let mut tab = vec![];
    let compact = |a: &Action<()>, own: bool| if own { CompactAction::from(a) } else {
        CompactAction::from_parts(*a.nullifier(), *a.cmx(), EphemeralKeyBytes(a.encrypted_note().epk_bytes), a.encrypted_note().enc_ciphertext[..52].try_into().unwrap()) };
    for (i, a) in acts.iter().enumerate() {
        let (mut full, mut comp, mut out) = (Map::new(), Map::new(), Map::new());
        for k in 0..4 {
            let p = PreparedIncomingViewingKey::new(&ivks[k]);
            let s = |x: Option<(Note, Address, [u8; 512])>| x.map(|(n, a, m)| desc(&n, &a, Some(&m), with_seed)).unwrap_or("none".into());
            let sc = |x: Option<(Note, Address)>| x.map(|(n, a)| desc(&n, &a, None, with_seed)).unwrap_or("none".into());
            // Every way of asking must give the same answer.
            let mut f = vec![s(try_note_decryption(&OrchardDomain::for_action(*a), &p, *a)), s(bu.decrypt_output_with_key(i, &ivks[k]))];
            f.dedup();
            full.insert(KEYS[k].into(), json!(f.join(" / ")));
            let mut c: Vec<String> = [true, false].iter().map(|own| { let ca = compact(a, *own); sc(try_compact_note_decryption(&OrchardDomain::for_compact_action(&ca), &p, &ca)) }).collect();
            c.dedup();
            comp.insert(KEYS[k].into(), json!(c.join(" / ")));
        }
        for k in 0..OVKS.len() {
            let s = |x: Option<(Note, Address, [u8; 512])>| x.map(|(n, a, m)| desc(&n, &a, Some(&m), with_seed)).unwrap_or("none".into());
            let mut o = vec![s(bu.recover_output_with_ovk(i, &ovks[k])),
                s(try_output_recovery_with_ovk(&OrchardDomain::for_action(*a), &ovks[k], *a, a.cv_net(), &a.encrypted_note().out_ciphertext))];
            o.dedup();
            out.insert(OVKS[k].into(), json!(o.join(" / ")));
        }
        tab.push(json!({"full": full, "compact": comp, "out": out}));
    }
    // There is no output past the end.
    for i in [acts.len(), acts.len() + 5, usize::MAX] {
        assert!(bu.decrypt_output_with_key(i, &ivks[0]).is_none() && bu.recover_output_with_ovk(i, &ovks[0]).is_none(), "output past the end");
    }
    let mut scans = vec![];
    for t in 0..3 {
        let len = if t == 0 { 4 } else if r.gen_range(0..4) == 0 { r.gen_range(6..12) } else { r.gen_range(0..6) };
        let mut list: Vec<usize> = (0..len).map(|_| r.gen_range(0..4)).collect();
        if t == 0 { list = vec![0, 1, 2, 3]; list.shuffle(r); }
        let names: Vec<&str> = list.iter().map(|k| KEYS[*k]).collect();
        let il: Vec<_> = list.iter().map(|k| ivks[*k].clone()).collect();
        let olist: Vec<usize> = list.iter().map(|k| if r.gen_range(0..4) == 0 { r.gen_range(4..OVKS.len()) } else { *k }).collect();
        let onames: Vec<&str> = olist.iter().map(|k| OVKS[*k]).collect();
        let ol: Vec<_> = olist.iter().map(|k| ovks[*k].clone()).collect();
        let kname = |i: &IncomingViewingKey| ivks.iter().position(|x| x == i).map(|k| KEYS[k]).unwrap_or("?");
        let oname = |i: &OutgoingViewingKey| ovks.iter().position(|x| x.as_ref() == i.as_ref()).map(|k| OVKS[k]).unwrap_or("?");
        let h: Vec<Value> = bu.decrypt_outputs_with_keys(&il).iter().map(|(i, k, n, a, m)| json!([i + 1, kname(k), desc(n, a, Some(m), with_seed)])).collect();
        scans.push(json!({"how": "full", "api": "bundle", "keys": names, "hits": h}));
        let h: Vec<Value> = bu.recover_outputs_with_ovks(&ol).iter().map(|(i, k, n, a, m)| json!([i + 1, oname(k), desc(n, a, Some(m), with_seed)])).collect();
        scans.push(json!({"how": "out", "api": "bundle", "keys": onames, "hits": h}));
        let pl: Vec<_> = il.iter().map(PreparedIncomingViewingKey::new).collect();
        let items: Vec<_> = acts.iter().map(|a| (OrchardDomain::for_action(*a), (*a).clone())).collect();
        let h: Vec<Value> = batch::try_note_decryption(&pl, &items).iter().enumerate()
            .filter_map(|(i, x)| x.as_ref().map(|((n, a, m), k)| json!([i + 1, names[*k], desc(n, a, Some(m), with_seed)]))).collect();
        scans.push(json!({"how": "full", "api": "batch", "keys": names, "hits": h}));
        let items: Vec<_> = acts.iter().map(|a| { let c = compact(a, true); (OrchardDomain::for_compact_action(&c), c) }).collect();
        let h: Vec<Value> = batch::try_compact_note_decryption(&pl, &items).iter().enumerate()
            .filter_map(|(i, x)| x.as_ref().map(|((n, a), k)| json!([i + 1, names[*k], desc(n, a, None, with_seed)]))).collect();
        scans.push(json!({"how": "compact", "api": "batch", "keys": names, "hits": h}));
    }
    (tab, scans)
}

fn case(c: &Value, seed: u64) -> Value {
    let w = world(seed);
    let mut r = rng(seed, "noteenc case");
    let acts: Vec<Action<()>> = arr(c, "acts").iter().map(|a| {
        let p = |f: &str| eval::bytes(&eval::eval(&a[f], &w.env));
        let enc = [p("encC"), p("encM"), p("encT")].concat();
        Action::from_parts(
            Nullifier::from_bytes(&p("nf").try_into().unwrap()).unwrap(),
            redpallas::VerificationKey::try_from(near_point(&mut r).to_bytes()).unwrap(),
            ExtractedNoteCommitment::from_bytes(&p("cmx").try_into().unwrap()).unwrap(),
            TransmittedNoteCiphertext { epk_bytes: p("epk").try_into().unwrap(), enc_ciphertext: enc.try_into().unwrap(), out_ciphertext: p("out").try_into().unwrap() },
            ValueCommitment::from_bytes(&p("cv").try_into().unwrap()).unwrap(),
            (),
        )
    }).collect();
    // The library's own encryption of honest outputs.
    let mut made = vec![];
    for (i, snt) in arr(c, "sent").iter().enumerate() {
        if s(c, "kind") == "tampered" || snt["c"] != json!({"ver": 2, "com": "same", "esk": "derived", "epk": "match", "ptd": "same", "outp": "right"}) { continue; }
        let g = |k: &str| eval::bytes(&w.env[&format!("{k}{}", i + 1)]);
        let addr = w.ivk(s(snt, "to")).address(Diversifier::from_bytes(g("d").try_into().unwrap()));
        let rho = Rho::from_bytes(&g("rho").try_into().unwrap()).unwrap();
        let note = Note::from_parts(addr, NoteValue::from_raw(u64::from_le_bytes(g("v").try_into().unwrap())), rho, RandomSeed::from_bytes(g("rseed").try_into().unwrap(), &rho).unwrap()).unwrap();
        let memo: [u8; 512] = eval::bytes(&w.env[&format!("memo.{}", s(snt, "memo"))]).try_into().unwrap();
        let ovk = match s(snt, "ovk") { "none" => None, k => Some(w.ovk(k)) };
        let has_ovk = ovk.is_some();
        let ne = OrchardNoteEncryption::new(ovk, note, memo);
        let e = acts[i].encrypted_note();
        let out = ne.encrypt_outgoing_plaintext(acts[i].cv_net(), acts[i].cmx(), &mut r);
        let mut row = |what: &str, got: &[u8], want: &[u8]| made.push(json!({"what": what, "got": short(got), "want": short(want)}));
        row("cmx", &cmx(&note).to_bytes(), &acts[i].cmx().to_bytes());
        row("epk", &<OrchardDomain as zcash_note_encryption::Domain>::epk_bytes(ne.epk()).0, &e.epk_bytes);
        row("enc", &ne.encrypt_note_plaintext(), &e.enc_ciphertext);
        if has_ovk { row("out", &out, &e.out_ciphertext); }
    }
    let bu = Bundle::from_parts(NonEmpty::from_vec(acts).unwrap(), Flags::ENABLED, 0i64, anchor(&pallas::Base::from(5)), Bare);
    let (got, scans) = read_all(&w, &bu, true, &mut r);
    let want: Vec<Value> = arr(c, "want").iter().map(|x| {
        let mut m = Map::new();
        for how in ["full", "compact", "out"] {
            let mut t = Map::new();
            for k in if how == "out" { &OVKS[..] } else { &KEYS[..] } {
                let k = *k;
                let term = &x[how][k];
                t.insert(k.into(), json!(if s(term, "f") == "none" { "none".into() } else { short(&eval::bytes(&eval::eval(term, &w.env))) }));
            }
            m.insert(how.into(), Value::Object(t));
        }
        Value::Object(m)
    }).collect();
    json!({"op": "case", "sent": c["sent"], "got": got, "want": want, "scans": scans, "made": made})
}

/// A bundle made by the builder, scanned.
fn built(template: &Value, seed: u64, large: bool) -> Value {
    let w = world(seed);
    let mut r = rng(seed, "noteenc built");
    let coinbase = r.gen_range(0..4) == 0;
    let ty = BundleType::Coinbase;
    // Notes the scanning parties spend in the same bundle, and flags that disable spends.
    let flags = if r.gen_range(0..4) == 0 { Flags::SPENDS_DISABLED } else { Flags::ENABLED };
    let ty = if coinbase { ty } else { BundleType::Transactional { flags, bundle_required: r.gen() } };
    let mut spends: Vec<_> = (0..if coinbase || !flags.spends_enabled() { 0 } else { r.gen_range(0..5) }).map(|i| {
        let (p, sc) = (if r.gen() { &w.a } else { &w.b }, if r.gen() { Scope::External } else { Scope::Internal });
        let rho = rand_rho(&mut r);
        let note = mk_note(p.fvk.address_at(i as u32, sc), val64(&mut r) >> 4, rho, &mut r);
        (p, rand_pos(&mut r), note)
    }).collect();
    let mut at = std::collections::HashSet::new();
    spends.retain(|x| at.insert(x.1));
    let tree = SparseTree { leaves: spends.iter().map(|(_, pos, n)| (*pos, leaf(n))).collect(), seed, filler: true };
    let (root, paths) = tree.root_and_paths();
    let mut bld = Builder::new(ty, if spends.is_empty() { anchor(&pallas::Base::random(&mut r)) } else { anchor(&root) });
    for ((p, pos, note), (_, path)) in spends.iter().zip(&paths) {
        bld.add_spend(p.fvk.clone(), *note, mpath(*pos, path)).expect("add_spend");
    }
    let k = if large { r.gen_range(65..150) } else { r.gen_range(1..5) };
    let mut reqs = vec![];
    for _ in 0..k {
        let (to, ovk) = (*KEYS.choose(&mut r).unwrap(), if r.gen_range(0..6) == 0 { "none" } else { *OVKS.choose(&mut r).unwrap() });
        let mut db = [0u8; 11];
        r.fill_bytes(&mut db);
        let v = val64(&mut r) >> if large { 8 } else { 4 };
        let m = match r.gen_range(0..3) { 0 => None, 1 => Some([0u8; 512]), _ => { let mut m = [0u8; 512]; r.fill_bytes(&mut m); Some(m) } };
        let addr = w.ivk(to).address(Diversifier::from_bytes(db));
        bld.add_output(if ovk == "none" { None } else { Some(w.ovk(ovk)) }, addr, NoteValue::from_raw(v), m).expect("add_output");
        reqs.push((to, ovk, addr, v, m));
    }
    let (bu, meta) = bld.build::<i64>(&mut r).expect("build").expect("bundle");
    let bu = bu.map_authorization(&mut (), |_, _, _| (), |_, _| Bare);
    let mut sent = vec![json!({"to": "none", "ovk": "none", "full": "none", "compact": "none"}); bu.actions().len()];
    let mut made = vec![];
    for (i, (to, ovk, addr, v, m)) in reqs.iter().enumerate() {
        let at = meta.output_action_index(i).expect("index");
        let a = &bu.actions()[at];
        let mut mm = [0u8; 512];
        mm[0] = 0xf6;
        let mm = m.unwrap_or(mm);
        let head = [&addr.to_raw_address_bytes()[..], &v.to_le_bytes(), &a.nullifier().to_bytes()].concat();
        sent[at] = json!({"to": to, "ovk": ovk, "full": short(&[&head[..], &mm].concat()), "compact": short(&head)});
        // The note the recipient finds determines every byte of the ciphertexts.
        if let Some((note, _, memo)) = bu.decrypt_output_with_key(at, &w.ivk(to)) {
            let mut e = Env::new();
            let raw = note.recipient().to_raw_address_bytes();
            e.insert("t.d".into(), Val::Bytes(raw[..11].to_vec()));
            e.insert("t.pkd".into(), Val::Bytes(raw[11..].to_vec()));
            e.insert("t.pkd".into(), Val::Point(oracle::point(&raw[11..]).unwrap()));
            e.insert("t.v".into(), Val::Bytes(note.value().inner().to_le_bytes().to_vec()));
            e.insert("t.rho".into(), Val::Base(oracle::base(&note.rho().to_bytes()).unwrap()));
            e.insert("t.rseed".into(), Val::Bytes(note.rseed().as_bytes().to_vec()));
            e.insert("t.memo".into(), Val::Bytes(memo.to_vec()));
            e.insert("t.cv".into(), Val::Point(oracle::point(&a.cv_net().to_bytes()).unwrap()));
            if *ovk != "none" { e.insert("t.ovk".into(), Val::Bytes(w.ovk(ovk).as_ref().to_vec())); }
            let mut row = |what: &str, got: &[u8]| made.push(json!({"what": what, "got": short(got), "want": short(&eval::bytes(&eval::eval(&template[what], &e)))}));
            row("cmx", &a.cmx().to_bytes());
            row("epk", &a.encrypted_note().epk_bytes);
            row("enc", &a.encrypted_note().enc_ciphertext);
            if *ovk != "none" { row("out", &a.encrypted_note().out_ciphertext); }
        }
    }
    let (got, scans) = read_all(&w, &bu, false, &mut r);
    json!({"op": "built", "sent": sent, "got": got, "scans": scans, "made": made})
}
pub fn exec_runs(runs: &[Run], seed: u64, random: usize, reps: usize) -> Vec<Run> {
    let template = runs.iter().find(|r| s(&r[0], "op") == "template").map(|r| r[0].clone());
    let cases: Vec<Run> = runs.iter().filter(|r| s(&r[0], "op") == "case").map(|r| {
        let mut r = r.clone();
        // An altered honest action is no longer what was sent.
        let tampered = r[0].get("tampered").and_then(|x| x.as_bool()).unwrap_or(false);
        r[0]["kind"] = json!(if tampered { "tampered" } else { "sent" });
        r
    }).collect();
    let mut out = vec![];
    let run1 = |f: &dyn Fn() -> Value, op: &str, info: Value| vec![match guard(f) { Ok(v) => v, Err(m) => json!({"op": op, "info": info, "panic": m}) }];
    for i in 0..reps as u64 {
        out.extend(exec_all(&cases, seed.wrapping_add(i * 977), |r, sd| run1(&|| case(&r[0], sd), "case", r[0]["sent"].clone())));
    }
    if let Some(t) = template {
        let slots = vec![vec![json!(0)]; random];
        out.extend(exec_all(&slots, seed.wrapping_add(31), |_, sd| run1(&|| built(&t, sd, false), "built", json!(sd))));
        // A few with many outputs.
        let slots = vec![vec![json!(0)]; 1 + random / 100];
        out.extend(exec_all(&slots, seed.wrapping_add(32), |_, sd| run1(&|| built(&t, sd, true), "built", json!(sd))));
    }
    out
}
