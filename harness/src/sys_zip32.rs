//! Derives account keys from seeds.
use crate::eval::{self, Env, Val};
use crate::util::*;
use orchard::keys::SpendingKey;
use rand::{seq::SliceRandom, Rng as _, RngCore};
use serde_json::{json, Value};

fn env(seed: u64) -> Env {
    let mut r = rng(seed, "zip32 env");
    let mut e = Env::new();
    let mut put = |k: &str, n: usize, r: &mut Rng| {
        let mut b = vec![0u8; n];
        r.fill_bytes(&mut b);
        e.insert(k.into(), Val::Bytes(b));
    };
    for n in [32usize, 33, 64, 251, 252] { put(&format!("seed{n}"), n, &mut r); }
    let lo: u32 = r.gen_range(1000..1 << 31);
    let hi: u32 = r.gen_range((1u32 << 31) + 1000..u32::MAX - 1000);
    let ac: u32 = r.gen_range(1000..1 << 31);
    for (k, x) in [("coin.low", lo), ("coin.high", hi), ("acct.any", ac)] { e.insert(k.into(), Val::Bytes(x.to_le_bytes().to_vec())); }
    e
}
fn exec(run: &Run, seed: u64) -> Run {
    let env = env(seed);
    let get = |t: &Value| eval::bytes(&eval::eval(t, &env));
    run.iter().map(|c| {
        let (sd, coin, acct) = (get(&c["seed"]), get(&c["coin"]), get(&c["acct"]));
        let num = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
        let mut ev = c.clone();
        ev["want"] = json!(if s(&c["want"], "f") == "refused" { "refused".into() } else { eval::hexof(&c["want"], &env) });
        match guard(|| SpendingKey::from_zip32_seed(&sd, num(&coin), zip32::AccountId::try_from(num(&acct)).unwrap())) {
            Ok(Ok(k)) => ev["got"] = json!(hex::encode(k.to_bytes())),
            Ok(Err(_)) => ev["got"] = json!("refused"),
            Err(m) => ev["panic"] = json!(m),
        }
        ev
    }).collect()
}
/// Each run asks for everything, in its own order, with some requests repeated.
pub fn exec_runs(runs: &[Run], seed: u64, reps: usize) -> Vec<Run> {
    let all: Run = runs.iter().flatten().cloned().collect();
    let slots: Vec<Run> = (0..reps).map(|i| {
        let mut r = rng(seed, &format!("zip32 order {i}"));
        let mut v = all.clone();
        for _ in 0..all.len() / 10 { v.push(all.choose(&mut r).unwrap().clone()); }
        v.shuffle(&mut r);
        v
    }).collect();
    exec_all(&slots, seed, exec)
}
