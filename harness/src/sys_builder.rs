//! Executes bundle-construction behaviours on the real builder and records what it shows.
use crate::util::*;
use crate::world::*;
use nonempty::NonEmpty;
use orchard::{
    builder::*,
    bundle::{Flags},
    keys::*,
    tree::MerklePath,
    value::{NoteValue, OverflowError},
    Action, Address, Anchor, Note,
};
use pasta_curves::pallas;
use rand::{seq::SliceRandom, Rng as _, RngCore};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};

pub const MEMOS: &[&str] = &["none", "zero", "m1", "m2", "m3"];
pub const MAX_MONEY: i64 = 2_100_000_000_000_000;

/// A caller amount type limited to the money range.
#[derive(Clone, Copy, Debug)]
pub struct Amt(pub i64);
impl TryFrom<i64> for Amt {
    type Error = ();
    fn try_from(x: i64) -> Result<Self, ()> {
        if (-MAX_MONEY..=MAX_MONEY).contains(&x) { Ok(Amt(x)) } else { Err(()) }
    }
}
impl From<Amt> for i64 {
    fn from(a: Amt) -> i64 { a.0 }
}
/// A caller amount type without negative values.
#[derive(Clone, Copy, Debug)]
pub struct NonNeg(pub i64);
impl TryFrom<i64> for NonNeg {
    type Error = String;
    fn try_from(x: i64) -> Result<Self, String> {
        if x >= 0 { Ok(NonNeg(x)) } else { Err("negative".into()) }
    }
}
impl From<NonNeg> for i64 {
    fn from(a: NonNeg) -> i64 { a.0 }
}

pub fn bundle_type(v: &Value) -> BundleType {
    match s(v, "kind") {
        "cb" => BundleType::Coinbase,
        _ => {
            let flags = Flags::from_byte(n(v, "flags") as u8).expect("flags byte");
            let t = BundleType::Transactional { flags, bundle_required: b(v, "req") };
            // The two named constants must be what the specification says they are.
            if t == BundleType::DEFAULT { BundleType::DEFAULT }
            else if t == BundleType::DISABLED { BundleType::DISABLED }
            else { t }
        }
    }
}

pub struct Ctx {
    pub parties: Vec<Party>,
    pub notes: BTreeMap<i64, (Note, u32, [pallas::Base; 32])>,
    pub anchor: Anchor,
    pub reqs: BTreeMap<i64, Value>,
}

pub fn party<'a>(ps: &'a [Party], name: &str) -> &'a Party {
    ps.iter().find(|p| p.name == name).unwrap_or_else(|| panic!("party {name}"))
}

/// Notes and tree for the spend requests of one run.
pub fn make_ctx(reqs: &[&Value], seed: u64) -> Ctx {
    let parties: Vec<Party> = ["A", "B", "C", "X"].iter().map(|p| Party::new(seed, p)).collect();
    make_ctx_with(parties, reqs, seed)
}
pub fn make_ctx_with(parties: Vec<Party>, reqs: &[&Value], seed: u64) -> Ctx {
    let mut r = rng(seed, "ctx");
    let mut all: BTreeMap<i64, Value> = BTreeMap::new();
    for q in reqs {
        all.insert(n(q, "nid"), (*q).clone());
    }
    let mut notes: BTreeMap<i64, Note> = BTreeMap::new();
    let mut leaves = vec![];
    let mut used = HashSet::new();
    for (nid, q) in &all {
        let sc = scope(s(q, "scope"));
        let addr: Address = match s(q, "owner") {
            "-" => {
                // Nobody's address: the first party's diversifier with another party's key.
                let d = parties[0].fvk.address_at(*nid as u32, sc).to_raw_address_bytes();
                let e = party(&parties, "C").fvk.address_at(*nid as u32, sc).to_raw_address_bytes();
                let mut raw = d;
                raw[11..].copy_from_slice(&e[11..]);
                Address::from_raw_address_bytes(&raw).unwrap()
            }
            o => party(&parties, o).fvk.address_at(*nid as u32, sc),
        };
        let rho = rand_rho(&mut r);
        let note = mk_note(addr, unwide(&q["v"]) as u64, rho, &mut r);
        if s(q, "path") == "good" {
            let pos = loop {
                let p = rand_pos(&mut r);
                if used.insert(p) { break p; }
            };
            leaves.push((pos, leaf(&note), *nid));
        }
        notes.insert(*nid, note);
    }
    // At least one leaf so that the root depends on something.
    if leaves.is_empty() {
        leaves.push((r.next_u32(), pallas::Base::from(r.next_u64()), 0));
    }
    let tree = SparseTree { leaves: leaves.iter().map(|(p, l, _)| (*p, *l)).collect(), seed, filler: seed % 3 != 0 };
    let (root, paths) = tree.root_and_paths();
    let mut out = BTreeMap::new();
    for (nid, note) in notes {
        let (pos, auth) = match leaves.iter().position(|x| x.2 == nid) {
            Some(i) => paths[i],
            None => {
                // A path that does not lead from this note to the anchor.
                let (mut pos, mut auth) = paths[(nid as usize) % paths.len()];
                match nid % 4 {
                    0 => {}                                          // another leaf's path
                    1 => pos ^= 1 << (r.next_u32() % 32),
                    2 => auth[(r.next_u32() % 32) as usize] += pallas::Base::from(1),
                    _ => auth.shuffle(&mut r),
                }
                (pos, auth)
            }
        };
        out.insert(nid, (note, pos, auth));
    }
    Ctx { parties, notes: out, anchor: anchor(&root), reqs: all }
}
impl Ctx {
    pub fn path(&self, nid: i64) -> MerklePath {
        let (_, p, a) = &self.notes[&nid];
        mpath(*p, a)
    }
    pub fn note(&self, nid: i64) -> Note {
        self.notes[&nid].0
    }
    pub fn p(&self, name: &str) -> &Party {
        party(&self.parties, name)
    }
    pub fn ovk(&self, label: &str) -> Option<OutgoingViewingKey> {
        match label {
            "none" => None,
            l => {
                let (p, sc) = l.split_once('.').unwrap();
                Some(self.p(p).ovk(scope(sc)))
            }
        }
    }
    pub fn out_addr(&self, o: &Value) -> Address {
        self.p(s(o, "to")).fvk.address_at(n(o, "idx") as u32, scope(s(o, "scope")))
    }
    /// The requested spend whose nullifier this is (0: none).
    pub fn nid_of(&self, nf: &[u8; 32]) -> i64 {
        for (nid, (note, ..)) in &self.notes {
            if let Some(p) = self.parties.iter().find(|p| p.name == s(&self.reqs[nid], "owner")) {
                if &note.nullifier(&p.fvk).to_bytes() == nf { return *nid; }
            }
        }
        0
    }
}

/// What the parties can see of an action.
pub fn show_actions<T>(ctx: &Ctx, actions: &NonEmpty<Action<T>>, dec: impl Fn(usize, &IncomingViewingKey) -> Option<(Note, Address, [u8; 512])>, rec: impl Fn(usize, &OutgoingViewingKey) -> Option<(Note, Address, [u8; 512])>) -> Vec<Value> {
    actions
        .iter()
        .enumerate()
        .map(|(i, a)| {
            let nf = a.nullifier().to_bytes();
            let mut outs = vec![];
            let mut recs = vec![];
            let mut rho = a.rho().to_bytes() == nf;
            let describe = |p: &Party, sc: Scope, scn: &str, note: &Note, addr: &Address, m: &[u8; 512]| {
                let idx = p.ivk(sc).diversifier_index(addr)
                    .map(|j| { let b: &[u8] = j.as_bytes(); b.iter().rev().fold(0i64, |x, y| (x << 8) | *y as i64) })
                    .unwrap_or(-1);
                json!({"to": p.name, "scope": scn, "idx": idx, "v": wide(note.value().inner() as i128), "memo": memo_label(m, MEMOS)})
            };
            for p in &ctx.parties {
                for scn in ["ext", "int"] {
                    if let Some((note, addr, m)) = dec(i, &p.ivk(scope(scn))) {
                        rho &= note.rho().to_bytes() == nf && note.recipient() == addr;
                        outs.push(describe(p, scope(scn), scn, &note, &addr, &m));
                    }
                }
            }
            for p in &ctx.parties {
                for scn in ["ext", "int"] {
                    if let Some((note, addr, m)) = rec(i, &p.ovk(scope(scn))) {
                        // What the sender recovers must be what the recipient recovers.
                        let same = ctx.parties.iter().any(|q| ["ext", "int"].iter().any(|z| {
                            outs.len() == 1 && q.ivk(scope(z)).diversifier_index(&addr).is_some()
                                && describe(q, scope(z), z, &note, &addr, &m) == outs[0]
                        }));
                        recs.push(if same { format!("{}.{}", p.name, scn) } else { "differs".into() });
                    }
                }
            }
            let out = match outs.len() {
                0 => json!({"to": "-", "scope": "-", "idx": 0, "v": wide(0), "memo": "-"}),
                1 => outs[0].clone(),
                _ => json!({"to": "several", "scope": "-", "idx": outs.len(), "v": wide(0), "memo": "-"}),
            };
            json!({"nf": ctx.nid_of(&nf), "out": out, "recov": if recs.is_empty() {"none".to_string()} else {recs.join("+")}, "rho": if rho {"own"} else {"foreign"}})
        })
        .collect()
}

fn balance(bld: &Builder) -> Value {
    fn one<V: TryFrom<i64> + Into<i64>>(bld: &Builder) -> Value {
        match bld.value_balance::<V>() {
            Ok(v) => json!({"res": "ok", "v": wide(v.into() as i128)}),
            Err(OverflowError) => json!({"res": "overflow", "v": wide(0)}),
        }
    }
    json!({"i64": one::<i64>(bld), "amt": one::<Amt>(bld), "nonneg": one::<NonNeg>(bld)})
}
fn shown(bld: &Builder, ev: &mut Value) {
    ev["spends"] = bld.spends().iter().map(|x| wide(x.value::<u64>() as i128)).collect();
    ev["outputs"] = bld.outputs().iter().map(|x| wide(x.value::<u64>() as i128)).collect();
    ev["balance"] = balance(bld);
}

fn build_err(e: &BuildError) -> String {
    match e {
        BuildError::ValueSum(_) => "overflow".into(),
        BuildError::SpendsDisabled => "SpendsDisabled".into(),
        BuildError::OutputsDisabled => "OutputsDisabled".into(),
        BuildError::AnchorMismatch => "AnchorMismatch".into(),
        BuildError::BundleTypeNotSatisfiable => "BundleTypeNotSatisfiable".into(),
        e => format!("{e:?}"),
    }
}

pub type Built<V> = Result<Option<(UnauthorizedBundle<V>, BundleMetadata)>, BuildError>;

fn describe_built<V: Copy + Into<i64>>(ctx: &Ctx, res: Built<V>, ns: usize, no: usize) -> Value {
    match res {
        Err(e) => json!({"res": build_err(&e)}),
        Ok(None) => json!({"res": "none"}),
        Ok(Some((bu, meta))) => {
            let ms: Vec<i64> = (0..ns).map(|i| meta.spend_action_index(i).map(|x| x as i64).unwrap_or(-1)).collect();
            let mo: Vec<i64> = (0..no).map(|i| meta.output_action_index(i).map(|x| x as i64).unwrap_or(-1)).collect();
            let past = meta.spend_action_index(ns).is_some() || meta.output_action_index(no).is_some()
                || meta.spend_action_index(ns + 7).is_some() || meta.output_action_index(no + 7).is_some();
            let acts = show_actions(ctx, bu.actions(), |i, k| bu.decrypt_output_with_key(i, k), |i, k| bu.recover_output_with_ovk(i, k));
            json!({"res": "bundle", "n": bu.actions().len(), "flags": bu.flags().to_byte(),
                "anchor": if bu.anchor().to_bytes() == ctx.anchor.to_bytes() {"given"} else {"other"},
                "v": wide((*bu.value_balance()).into() as i128),
                "meta_s": ms, "meta_o": mo, "meta_past": if past {"some"} else {"none"}, "acts": acts})
        }
    }
}

pub fn exec(run: &Run, seed: u64) -> Run {
    let mut reqs: Vec<&Value> = vec![];
    for c in run {
        match s(c, "op") {
            "add_spend" => reqs.push(&c["req"]),
            "load" => reqs.extend(arr(c, "spends").iter()),
            _ => {}
        }
    }
    let ctx = make_ctx(&reqs, seed);
    let mut out: Run = vec![];
    let mut r = rng(seed, "build");
    let ty = bundle_type(&run[0]["type"]);
    let mut bld = Some(Builder::new(ty, ctx.anchor));
    let mut oneshot: Option<(Vec<SpendInfo>, Vec<OutputInfo>, usize)> = None;
    let (mut ns, mut no) = (0, 0);
    out.push(run[0].clone());
    for c in &run[1..] {
        let mut ev = c.clone();
        let res = guard(|| -> Option<Value> {
            match s(c, "op") {
                "add_spend" => {
                    let q = &c["req"];
                    let nid = n(q, "nid");
                    let bl = bld.as_mut().unwrap();
                    let res = bl.add_spend(ctx.p(s(q, "key")).fvk.clone(), ctx.note(nid), ctx.path(nid));
                    if res.is_ok() { ns += 1; }
                    ev["res"] = json!(match res { Ok(()) => "Ok".into(), Err(e) => format!("{e:?}") });
                    shown(bl, &mut ev);
                }
                "add_output" => {
                    let q = &c["req"];
                    let bl = bld.as_mut().unwrap();
                    let res = bl.add_output(ctx.ovk(s(q, "ovk")), ctx.out_addr(q), NoteValue::from_raw(unwide(&q["v"]) as u64), memo(s(q, "memo")));
                    if res.is_ok() { no += 1; }
                    ev["res"] = json!(match res { Ok(()) => "Ok", Err(_) => "OutputsDisabled" });
                    shown(bl, &mut ev);
                }
                "load" => {
                    ev["res"] = json!("Ok");
                    let mut ss = vec![];
                    for q in arr(c, "spends") {
                        let nid = n(q, "nid");
                        match SpendInfo::new(ctx.p(s(q, "key")).fvk.clone(), ctx.note(nid), ctx.path(nid)) {
                            Some(x) => ss.push(x),
                            None => { ev["res"] = json!("FvkMismatch"); return Some(ev.clone()); }
                        }
                    }
                    let os: Vec<_> = arr(c, "outputs").iter().map(|q| OutputInfo::new(ctx.ovk(s(q, "ovk")), ctx.out_addr(q), NoteValue::from_raw(unwide(&q["v"]) as u64), memo(s(q, "memo")))).collect();
                    ns = ss.len();
                    no = os.len();
                    oneshot = Some((ss, os, out.len()));
                }
                "build" => {
                    fn go<V: TryFrom<i64> + Copy + Into<i64>>(ctx: &Ctx, ty: BundleType, bld: Option<Builder>, os: Option<(Vec<SpendInfo>, Vec<OutputInfo>, usize)>, r: &mut Rng, ns: usize, no: usize) -> Value {
                        let res: Built<V> = match os {
                            Some((ss, oo, _)) => bundle(r, ctx.anchor, ty, ss, oo),
                            None => bld.unwrap().build(r),
                        };
                        describe_built(ctx, res, ns, no)
                    }
                    let load_at = oneshot.as_ref().map(|x| x.2);
                    let v = match s(c, "vt") {
                        "i64" => go::<i64>(&ctx, ty, bld.take(), oneshot.take(), &mut r, ns, no),
                        "amt" => go::<Amt>(&ctx, ty, bld.take(), oneshot.take(), &mut r, ns, no),
                        "nonneg" => go::<NonNeg>(&ctx, ty, bld.take(), oneshot.take(), &mut r, ns, no),
                        x => panic!("vt {x}"),
                    };
                    // Refusals of the one-shot constructor belong to the load step.
                    if let Some(i) = load_at {
                        let rs = s(&v, "res");
                        if !["bundle", "none", "overflow"].contains(&rs) {
                            out[i]["res"] = json!(rs);
                            return None;
                        }
                    }
                    for (k, x) in v.as_object().unwrap() { ev[k] = x.clone(); }
                }
                "count" => {
                    ev["res"] = json!(ty.num_actions(n(c, "ns") as usize, n(c, "no") as usize).map(|x| x as i64).unwrap_or(-1));
                    ev["tflags"] = json!(ty.flags().to_byte());
                }
                "dummy_output" => {
                    ev["v"] = wide(OutputInfo::dummy(&mut r).value::<u64>() as i128);
                }
                x => panic!("op {x}"),
            }
            Some(ev.clone())
        });
        match res {
            Ok(Some(e)) => out.push(e),
            Ok(None) => break,
            Err(m) => {
                let mut e = c.clone();
                e["panic"] = json!(m);
                out.push(e);
                break;
            }
        }
        if s(c, "op") == "load" && s(out.last().unwrap(), "res") != "Ok" { break; }
    }
    out
}

/// Seeded random behaviours beyond the catalogue.
pub fn random(seed: u64, count: usize, focus: &str) -> Vec<Run> {
    let mut runs = vec![];
    for i in 0..count {
        let mut r = rng(seed, &format!("builder random {i}"));
        // One bundle of hundreds of actions.
        let vast = i == 30 && focus == "C02";
        let ty = match r.gen_range(0..10) {
            _ if vast => json!({"kind": "tx", "flags": 3, "req": false}),
            0 => json!({"kind": "cb", "flags": 2, "req": false}),
            1..=3 => json!({"kind": "tx", "flags": r.gen_range(0..4), "req": r.gen::<bool>()}),
            _ => json!({"kind": "tx", "flags": 3, "req": r.gen::<bool>()}),
        };
        let value = |r: &mut Rng| -> i128 {
            let m = 1i128;
            let edge = [0, 1, (m << 63) - 1, m << 63, (m << 64) - 1, (m << 63) + 1, (m << 64) - 2, MAX_MONEY as i128, MAX_MONEY as i128 + 1, m << 32];
            match (focus, r.gen_range(0..4)) {
                ("C02", _) => r.gen_range(0..1000),
                (_, 0) => *edge.choose(r).unwrap(),
                (_, 1) => (r.next_u64() >> r.gen_range(0..64)) as i128,
                _ => (r.next_u64() >> 12) as i128,
            }
        };
        let mut sid = 0;
        let mut spend = |r: &mut Rng| -> Value {
            sid += 1;
            let owner = *["A", "B", "A", "C"].choose(r).unwrap();
            let bad = r.gen_range(0..12);
            let key = if bad == 0 { if owner == "B" { "A" } else { "B" } } else { owner };
            let owner = if bad == 1 { "-" } else { owner };
            let v = if r.gen_range(0..6) == 0 { 0 } else { value(r) };
            let path = if r.gen_range(0..8) == 0 { "bad" } else { "good" };
            json!({"nid": sid, "owner": owner, "scope": *["ext", "int"].choose(r).unwrap(), "key": key, "v": wide(v), "path": path})
        };
        let output = |r: &mut Rng| -> Value {
            json!({"to": *["A", "B", "C"].choose(r).unwrap(), "scope": *["ext", "int"].choose(r).unwrap(), "idx": r.gen_range(0..1000), "v": wide(if r.gen_range(0..6) == 0 {0} else {value(r)}),
                "memo": *MEMOS.choose(r).unwrap(), "ovk": *["none", "A.ext", "A.int", "B.ext", "C.int"].choose(r).unwrap()})
        };
        let mut run = vec![json!({"op": "new", "type": ty})];
        if i % 3 == 0 {
            let bad_ok = r.gen_range(0..2) == 0;
            let large = i % 30 == 0;
            let bad_ok = bad_ok && !vast;
            let ns = if vast { 40 } else if large { r.gen_range(0..20) } else { r.gen_range(0..5) };
            let no = if vast { 300 } else if large { r.gen_range(0..40) } else { r.gen_range(0..6) };
            let mut ss = vec![];
            while ss.len() < ns {
                let q = spend(&mut r);
                if bad_ok || (q["owner"] == q["key"] && (q["path"] == "good" || unwide(&q["v"]) == 0)) { ss.push(q); }
            }
            let (ss, os): (Vec<_>, Vec<_>) = if ty["kind"] == "cb" && !bad_ok { (vec![], (0..no).map(|_| output(&mut r)).collect()) } else { (ss, (0..no).map(|_| output(&mut r)).collect()) };
            run.push(json!({"op": "load", "spends": ss, "outputs": os}));
        } else {
            for _ in 0..if i % 30 == 1 { r.gen_range(20..60) } else { r.gen_range(0..9) } {
                if r.gen() { run.push(json!({"op": "add_spend", "req": spend(&mut r)})); }
                else { run.push(json!({"op": "add_output", "req": output(&mut r)})); }
            }
        }
        run.push(json!({"op": "build", "vt": *["i64", "i64", "amt", "nonneg"].choose(&mut r).unwrap()}));
        runs.push(run);
    }
    // The action-count query, over a grid, for every type.
    for flags in 0..4 {
        for req in [false, true] {
            runs.push(count_run(json!({"kind": "tx", "flags": flags, "req": req})));
        }
    }
    runs.push(count_run(json!({"kind": "cb", "flags": 2, "req": false})));
    runs
}
fn count_run(ty: Value) -> Run {
    let mut run = vec![json!({"op": "new", "type": ty})];
    const SIZES: [i64; 12] = [0, 1, 2, 3, 4, 5, 7, 8, 16, 100, 65536, i32::MAX as i64];
    for ns in SIZES {
        for no in SIZES {
            run.push(json!({"op": "count", "ns": ns, "no": no}));
        }
    }
    run.push(json!({"op": "count", "ns": 0, "no": 65536}));
    run.push(json!({"op": "count", "ns": 65537, "no": 1}));
    run.push(json!({"op": "dummy_output"}));
    run
}
