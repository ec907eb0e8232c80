//! Concrete counterparts of the specification's parties, notes and trees.
use crate::oracle;
use crate::util::*;
use ff::Field;
use incrementalmerkletree::Position;
use orchard::{
    keys::*,
    note::{ExtractedNoteCommitment, RandomSeed, Rho},
    tree::{MerkleHashOrchard, MerklePath},
    value::NoteValue,
    Address, Anchor, Note,
};
use pasta_curves::pallas;
use rand::RngCore;
use std::collections::HashMap;

pub fn scope(x: &str) -> Scope {
    match x {
        "ext" => Scope::External,
        "int" => Scope::Internal,
        _ => panic!("scope {x}"),
    }
}

#[derive(Clone)]
pub struct Party {
    pub name: String,
    pub sk: SpendingKey,
    pub fvk: FullViewingKey,
    pub ask: SpendAuthorizingKey,
}
impl Party {
    pub fn new(seed: u64, name: &str) -> Party {
        let mut i = 0;
        let sk = loop {
            let c = SpendingKey::from_bytes(h32(seed, &format!("sk {name} {i}")));
            if bool::from(c.is_some()) {
                break c.unwrap();
            }
            i += 1;
        };
        Party { name: name.into(), sk, fvk: FullViewingKey::from(&sk), ask: SpendAuthorizingKey::from(&sk) }
    }
    pub fn ivk(&self, sc: Scope) -> IncomingViewingKey {
        self.fvk.to_ivk(sc)
    }
    pub fn ovk(&self, sc: Scope) -> OutgoingViewingKey {
        self.fvk.to_ovk(sc)
    }
}

pub fn rand_rho(r: &mut impl RngCore) -> Rho {
    let b = pallas::Base::random(r);
    Rho::from_bytes(&oracle::base_bytes(&b)).unwrap()
}
pub fn mk_note(addr: Address, v: u64, rho: Rho, r: &mut impl RngCore) -> Note {
    loop {
        let mut b = [0u8; 32];
        r.fill_bytes(&mut b);
        let rs = RandomSeed::from_bytes(b, &rho);
        if bool::from(rs.is_some()) {
            let n = Note::from_parts(addr, NoteValue::from_raw(v), rho, rs.unwrap());
            if bool::from(n.is_some()) {
                return n.unwrap();
            }
        }
    }
}
pub fn cmx(n: &Note) -> ExtractedNoteCommitment {
    n.commitment().into()
}

/// A sparse depth-32 tree: some leaves are known; every subtree without a known leaf has
/// a root that is either the empty root or an arbitrary filler, fixed per tree.
pub struct SparseTree {
    pub leaves: Vec<(u32, pallas::Base)>,
    pub seed: u64,
    pub filler: bool,
}
thread_local! {
    static EMPTY: Vec<pallas::Base> = {
        let mut v = vec![pallas::Base::from(2)];
        for l in 0..32 { let e = v[l]; v.push(oracle::merkle_crh(l, &e, &e)); }
        v
    };
}
pub fn empty_root(level: usize) -> pallas::Base {
    EMPTY.with(|e| e[level])
}
impl SparseTree {
    fn fill(&self, level: usize, idx: u64) -> pallas::Base {
        if self.filler {
            pallas::Base::random(rng(self.seed, &format!("fill {level} {idx}")))
        } else {
            empty_root(level)
        }
    }
    /// All nodes on the paths of known leaves, per level.
    fn levels(&self) -> Vec<HashMap<u64, pallas::Base>> {
        let mut lv: Vec<HashMap<u64, pallas::Base>> = vec![self.leaves.iter().map(|(p, v)| (*p as u64, *v)).collect()];
        for l in 0..32usize {
            let cur = &lv[l];
            let mut next = HashMap::new();
            for &i in cur.keys() {
                let p = i / 2;
                if next.contains_key(&p) {
                    continue;
                }
                let get = |j: u64| cur.get(&j).copied().unwrap_or_else(|| self.fill(l, j));
                next.insert(p, oracle::merkle_crh(l, &get(2 * p), &get(2 * p + 1)));
            }
            lv.push(next);
        }
        lv
    }
    pub fn root_and_paths(&self) -> (pallas::Base, Vec<(u32, [pallas::Base; 32])>) {
        let lv = self.levels();
        let root = lv[32].get(&0).copied().unwrap_or_else(|| self.fill(32, 0));
        let paths = self
            .leaves
            .iter()
            .map(|(p, _)| {
                let mut a = [pallas::Base::from(0); 32];
                for (l, slot) in a.iter_mut().enumerate() {
                    let sib = ((*p as u64) >> l) ^ 1;
                    *slot = lv[l].get(&sib).copied().unwrap_or_else(|| self.fill(l, sib));
                }
                (*p, a)
            })
            .collect();
        (root, paths)
    }
}
pub fn mhash(b: &pallas::Base) -> MerkleHashOrchard {
    MerkleHashOrchard::from_bytes(&oracle::base_bytes(b)).unwrap()
}
pub fn anchor(b: &pallas::Base) -> Anchor {
    Anchor::from_bytes(oracle::base_bytes(b)).unwrap()
}
/// Alternates between the public ways of constructing a Merkle path.
pub fn mpath(pos: u32, auth: &[pallas::Base; 32]) -> MerklePath {
    if pos % 2 == 0 {
        MerklePath::from_parts(pos, auth.map(|b| mhash(&b)))
    } else {
        let v: Vec<_> = auth.iter().map(mhash).collect();
        incrementalmerkletree::MerklePath::<MerkleHashOrchard, 32>::from_parts(v, Position::from(pos as u64))
            .unwrap()
            .into()
    }
}
pub fn leaf(n: &Note) -> pallas::Base {
    oracle::base(&cmx(n).to_bytes()).unwrap()
}

/// Random position: uniformly random, or near the ends, or small.
pub fn rand_pos(r: &mut impl RngCore) -> u32 {
    match r.next_u32() % 4 {
        0 => r.next_u32() % 16,
        1 => u32::MAX - r.next_u32() % 16,
        2 => 1u32 << (r.next_u32() % 32),
        _ => r.next_u32(),
    }
}

pub fn memo(label: &str) -> Option<[u8; 512]> {
    match label {
        "none" => None,
        "zero" => Some([0u8; 512]),
        l => {
            let mut m = [0u8; 512];
            let h = h32(7, &format!("memo {l}"));
            for i in 0..512 {
                m[i] = h[i % 32] ^ (i as u8) ^ ((i >> 8) as u8);
            }
            Some(m)
        }
    }
}
/// Names a recovered memo among the labels used in a run.
pub fn memo_label(m: &[u8; 512], labels: &[&str]) -> String {
    let mut dflt = [0u8; 512];
    dflt[0] = 0xf6;
    for l in labels {
        let want = memo(l).unwrap_or(dflt);
        if &want == m {
            return l.to_string();
        }
    }
    "unknown".into()
}
