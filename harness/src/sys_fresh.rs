//! Many builds of the same requests: arrangements, and names for everything randomized.
use crate::sys_builder::{bundle_type, make_ctx, Ctx};
use crate::util::*;
use crate::world::memo;
use orchard::{
    builder::*,
    value::{NoteValue, ValueCommitTrapdoor, ValueCommitment, ValueSum},
};
use rayon::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;

struct Act { nid: i64, nf: Vec<u8>, fields: Vec<Vec<u8>>, seed: Option<Vec<u8>> }
struct One { fs: Vec<i64>, fo: Vec<i64>, acts: Vec<Act> }

fn one(ctx: &Ctx, c: &Value, r: &mut Rng, oneshot: bool) -> One {
    let (ss, os) = (arr(c, "spends"), arr(c, "outputs"));
    let ty = bundle_type(&c["type"]);
    let val = |q: &Value| NoteValue::from_raw(unwide(&q["v"]) as u64);
    let built = if oneshot {
        bundle::<i64>(r, ctx.anchor, ty,
            ss.iter().map(|q| SpendInfo::new(ctx.p(s(q, "key")).fvk.clone(), ctx.note(n(q, "nid")), ctx.path(n(q, "nid"))).expect("SpendInfo")).collect(),
            os.iter().map(|q| OutputInfo::new(ctx.ovk(s(q, "ovk")), ctx.out_addr(q), val(q), memo(s(q, "memo")))).collect())
    } else {
        let mut b = Builder::new(ty, ctx.anchor);
        for q in ss { b.add_spend(ctx.p(s(q, "key")).fvk.clone(), ctx.note(n(q, "nid")), ctx.path(n(q, "nid"))).expect("add_spend"); }
        for q in os { b.add_output(ctx.ovk(s(q, "ovk")), ctx.out_addr(q), val(q), memo(s(q, "memo"))).expect("add_output"); }
        b.build::<i64>(r)
    };
    let (b, meta) = built.expect("build").expect("bundle");
    One {
        fs: (0..ss.len()).map(|i| meta.spend_action_index(i).map_or(-1, |x| x as i64)).collect(),
        fo: (0..os.len()).map(|i| meta.output_action_index(i).map_or(-1, |x| x as i64)).collect(),
        acts: b.actions().iter().enumerate().map(|(i, a)| {
            let nf = a.nullifier().to_bytes();
            let e = a.encrypted_note();
            let seed = ctx.parties.iter().find_map(|p| ["ext", "int"].iter().find_map(|z| b.decrypt_output_with_key(i, &p.ivk(crate::world::scope(z))))).map(|(note, ..)| note.rseed().as_bytes().to_vec());
            Act { nid: ctx.nid_of(&nf), nf: nf.to_vec(), seed, fields: vec![<[u8; 32]>::from(a.rk()).to_vec(), a.cv_net().to_bytes().to_vec(), a.cmx().to_bytes().to_vec(), e.epk_bytes.to_vec(), e.enc_ciphertext.to_vec(), e.out_ciphertext.to_vec()] }
        }).collect(),
    }
}
struct Names(HashMap<Vec<u8>, i64>);
impl Names {
    fn of(&mut self, x: &[u8]) -> i64 { let k = self.0.len() as i64 + 1; *self.0.entry(x.to_vec()).or_insert(k) }
}
/// The unrandomized forms of everything in sight.
fn plain(ctx: &Ctx, c: &Value, names: &mut Names) {
    for p in &ctx.parties { names.of(&p.fvk.to_bytes()[..32]); }
    let vs: Vec<i128> = arr(c, "spends").iter().map(|q| unwide(&q["v"])).chain([0]).collect();
    let ws: Vec<i128> = arr(c, "outputs").iter().map(|q| unwide(&q["v"])).chain([0]).collect();
    let zero: ValueCommitTrapdoor = Option::from(ValueCommitTrapdoor::from_bytes([0; 32])).expect("zero trapdoor");
    for v in &vs { for w in &ws {
        let x: ValueSum = NoteValue::from_raw(*v as u64) - NoteValue::from_raw(*w as u64);
        names.of(&ValueCommitment::derive(x, zero.clone()).to_bytes());
    } }
    for (note, ..) in ctx.notes.values() {
        names.of(&crate::world::cmx(note).to_bytes());
        names.of(note.rseed().as_bytes());
        for p in &ctx.parties { names.of(&note.nullifier(&p.fvk).to_bytes()); }
    }
}
pub fn exec_runs(runs: &[Run], seed: u64) -> Vec<Run> {
    let mut names = Names(HashMap::new());
    let mut out = vec![];
    for (k, run) in runs.iter().enumerate() {
        let mut head = run[0].clone();
        let sd = seed.wrapping_mul(1000).wrapping_add(k as u64);
        let reqs: Vec<&Value> = arr(&head, "spends").iter().collect();
        let ctx = make_ctx(&reqs, sd);
        plain(&ctx, &head, &mut names);
        head["base"] = json!(names.0.len());
        let times = n(&head, "times") as usize;
        // Each worker draws from one generator throughout.
        let builds: Vec<Result<One, String>> = (0..64usize).into_par_iter().map(|w| {
            let mut r = rng(sd, &format!("fresh {w}"));
            (0..times).filter(|i| i % 64 == w).map(|i| guard(std::panic::AssertUnwindSafe(|| one(&ctx, &head, &mut r, i % 3 == 0)))).collect::<Vec<_>>()
        }).flatten().collect();
        let mut ev = vec![head];
        for b in builds {
            ev.push(match b {
                Err(m) => json!({"op": "build", "panic": m}),
                Ok(b) => json!({"op": "build", "fs": b.fs, "fo": b.fo, "acts": b.acts.iter().map(|a| {
                    let nf = if a.nid != 0 { -a.nid } else { names.of(&a.nf) };
                    let f: Vec<i64> = a.fields.iter().map(|x| names.of(x)).collect();
                    let sd = a.seed.as_ref().map_or(0, |x| names.of(x));
                    json!({"nf": nf, "rk": f[0], "cv": f[1], "cmx": f[2], "epk": f[3], "enc": f[4], "out": f[5], "seed": sd})
                }).collect::<Vec<_>>()}),
            });
        }
        ev.push(json!({"op": "end"}));
        out.push(ev);
    }
    out
}
