//! Node hashes, paths and anchors of the note commitment tree.
use crate::eval::{self, Env, Val};
use crate::oracle;
use crate::util::*;
use crate::world::*;
use bridgetree::BridgeTree;
use ff::Field;
use incrementalmerkletree::{Hashable, Level};
use orchard::{note::ExtractedNoteCommitment, tree::{MerkleHashOrchard, MerklePath}, Anchor};
use pasta_curves::pallas;
use rand::{Rng as _, RngCore};
use serde_json::{json, Value};

fn env(seed: u64) -> Env {
    let mut r = rng(seed, "tree env");
    let mut e = Env::new();
    let mut put = |k: String, x: pallas::Base| { e.insert(k, Val::Base(x)); };
    for l in 0..33 { put(format!("empty.{l}"), empty_root(l)); }
    for k in ["l1", "l2", "other"] { put(k.into(), pallas::Base::random(&mut r)); }
    for l in 0..32 { put(format!("s{l}"), pallas::Base::random(&mut r)); }
    put("zero".into(), pallas::Base::from(0));
    put("max".into(), -pallas::Base::from(1));
    put("one".into(), pallas::Base::from(1));
    // Small and large values, different from all the others, as leaves and siblings.
    match r.next_u32() % 5 {
        0 => put("l1".into(), pallas::Base::from(3)),
        1 => put("l2".into(), -pallas::Base::from(3)),
        2 => { put("s3".into(), pallas::Base::from(4)); put("other".into(), -pallas::Base::from(2)); }
        _ => {}
    }
    e
}
fn exec(run: &Run, seed: u64) -> Run {
    let env = env(seed);
    let mut r = rng(seed, "tree run");
    let val = |k: &str| match &env[k] { Val::Base(b) => *b, _ => unreachable!() };
    let node = |k: &str| mhash(&val(k));
    let com = |b: &pallas::Base| ExtractedNoteCommitment::from_bytes(&oracle::base_bytes(b)).unwrap();
    let hx = |a: Anchor| hex::encode(a.to_bytes());
    let path = |r: &mut Rng, pos: u32, sibs: Vec<MerkleHashOrchard>| -> MerklePath {
        if r.gen() { MerklePath::from_parts(pos, sibs.try_into().unwrap()) }
        else { incrementalmerkletree::MerklePath::<MerkleHashOrchard, 32>::from_parts(sibs, (pos as u64).into()).unwrap().into() }
    };
    let mut tree = BridgeTree::<MerkleHashOrchard, u32, 32>::new(100);
    let mut leaves: Vec<String> = vec![];
    let mut old: Vec<(MerklePath, pallas::Base)> = vec![];
    let mut out = vec![];
    for c in run {
        let mut ev = c.clone();
        for k in ["want", "name"] { if c.get(k).is_some() { ev[k] = json!(eval::hexof(&c[k], &env)); } }
        let res = guard(|| match s(c, "op") {
            "path" => {
                let pos = arr(c, "bits").iter().enumerate().fold(0u32, |p, (i, b)| p | (b.as_u64().unwrap() as u32) << i);
                let sibs: Vec<_> = arr(c, "sibs").iter().map(|x| node(x.as_str().unwrap())).collect();
                ev["got"] = json!(hx(path(&mut r, pos, sibs).root(com(&val(s(c, "leaf"))))));
            }
            "node" => {
                let h = MerkleHashOrchard::combine(Level::from(n(c, "level") as u8), &node(s(c, "x")), &node(s(c, "y")));
                ev["got"] = json!(hex::encode(h.to_bytes()));
            }
            "empty" => {
                let lev = n(c, "level") as u8;
                ev["got"] = json!(hex::encode(MerkleHashOrchard::empty_root(Level::from(lev)).to_bytes()));
                ev["leaf"] = json!(hex::encode(MerkleHashOrchard::empty_leaf().to_bytes()));
                ev["anchor"] = json!(hx(Anchor::empty_tree()));
            }
            "append" => {
                let name = s(c, "leaf").to_string();
                let l = val(&name);
                assert!(tree.append(MerkleHashOrchard::from_cmx(&com(&l))), "append refused");
                tree.mark().expect("mark");
                leaves.push(name);
                ev["root"] = json!(hx(Anchor::from(tree.root(0).expect("root"))));
                ev["old"] = old.iter().map(|(p, l)| json!(hx(p.root(com(l))))).collect();
                let mut paths = vec![];
                for (i, x) in leaves.iter().enumerate() {
                    let w = tree.witness((i as u64).into(), 0).expect("witness");
                    let own = hx(path(&mut r, i as u32, w.clone()).root(com(&val(x))));
                    let other = hx(path(&mut r, i as u32, w.clone()).root(com(&val("other"))));
                    let moved: Vec<Value> = (0..3).map(|_| {
                        let k = if r.gen() { r.gen_range(0..4) } else { r.gen_range(0..32) };
                        json!({"bit": k + 1, "root": hx(path(&mut r, i as u32 ^ (1 << k), w.clone()).root(com(&val(x))))})
                    }).collect();
                    paths.push(json!({"own": own, "other": other, "moved": moved}));
                }
                ev["paths"] = json!(paths);
                let w = tree.witness(((leaves.len() - 1) as u64).into(), 0).expect("witness");
                old.push((path(&mut r, leaves.len() as u32 - 1, w), l));
            }
            x => panic!("op {x}"),
        });
        if let Err(m) = res { ev["panic"] = json!(m); out.push(ev); break; }
        out.push(ev);
    }
    out
}
/// Alterations of one path are strung together after the path itself.
pub fn exec_runs(runs: &[Run], seed: u64, reps: usize) -> Vec<Run> {
    use std::collections::BTreeMap;
    let mut groups: BTreeMap<String, Run> = BTreeMap::new();
    let mut all: Vec<Run> = vec![];
    for r in runs {
        if s(&r[0], "op") == "path" {
            let g = groups.entry(r[0].to_string()).or_insert_with(|| vec![r[0].clone()]);
            g.extend(r[1..].iter().cloned());
        } else { all.push(r.clone()); }
    }
    all.extend(groups.into_values());
    let mut out = vec![];
    for i in 0..reps as u64 { out.extend(exec_all(&all, seed.wrapping_add(i * 977), exec)); }
    out
}
