//! Spend-authorization and binding signatures against keys, messages and altered bundles.
use crate::eval::{self, Env, Val};
use crate::oracle;
use crate::stock::{self, *};
use crate::sys_auth::sighash;
use crate::util::*;
use crate::world::*;
use ff::Field;
use group::{Group, GroupEncoding};
use orchard::{bundle::Flags, keys::*, primitives::redpallas::{self, SpendAuth}, value::ValueCommitment, Anchor};
use pasta_curves::pallas;
use rand::Rng as _;
use serde_json::{json, Value};

/// Whether the protocol's verification equation holds.
fn equation(ev: &Value, vk: &[u8; 32], sig: &[u8; 64], msg: &[u8]) -> bool {
    let (rr, ss, vkp) = match (oracle::point(&sig[..32]), oracle::scalar(&sig[32..]), oracle::point(vk)) { (Some(a), Some(b), Some(c)) => (a, b, c), _ => return false };
    let e: Env = [("R", Val::Point(rr)), ("S", Val::Scalar(ss)), ("vk", Val::Point(vkp)), ("msg", Val::Bytes(msg.to_vec()))].into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    eval::hexof(&ev["lhs"], &e) == eval::hexof(&ev["rhs"], &e)
}
fn message(l: &str, seed: u64) -> Vec<u8> {
    let h = sighash("h1", seed).to_vec();
    match l {
        "h1" => h,
        "h2" => sighash("h2", seed).to_vec(),
        "bit" => { let mut x = h; let k = (seed % 256) as usize; x[k / 8] ^= 1 << (k % 8); x }
        "long" => [h, vec![0]].concat(),
        "short" => h[..31].to_vec(),
        _ => vec![],
    }
}
struct World { st: Stock, parties: [Party; 2], seed: u64 }
impl World {
    fn alpha(&self, a: &str) -> pallas::Scalar {
        match a { "zero" => pallas::Scalar::ZERO, "-x" => -self.alpha("x"), a => pallas::Scalar::random(rng(self.seed, &format!("alpha {a}"))) }
    }
    fn who(&self, k: &Value) -> &Party { &self.parties[if s(k, "who") == "A" { 0 } else { 1 }] }
    fn spend(&self, c: &Value, sig: &[u8; 64], r: &mut Rng) -> (bool, bool) {
        let (k, a) = (self.who(&c["key"]), self.alpha(s(&c["key"], "alpha")));
        // The three ways to the randomized validating key.
        let vk = match r.gen_range(0..3) {
            0 => SpendValidatingKey::from(k.fvk.clone()).randomize(&a),
            1 => SpendValidatingKey::from(&k.ask).randomize(&a),
            _ => redpallas::VerificationKey::<SpendAuth>::from(&k.ask.randomize(&a)),
        };
        let msg = message(s(c, "msg"), self.seed);
        (vk.verify(&msg, &redpallas::Signature::from(*sig)).is_ok(), equation(c, &(&vk).into(), sig, &msg))
    }
    fn exec(&self, run: &Run, seed: u64) -> Run {
        let mut r = rng(seed, "signature run");
        let mut out = vec![];
        let mut parts: Option<Parts> = None;
        let unit: i64 = r.gen_range(1..1 << 30);
        let alien = pallas::Point::random(&mut r);
        let g = |d: &str, m: &str| oracle::hash_to_curve(d, m.as_bytes());
        let (gv, gr) = (g("z.cash:Orchard-cv", "v"), g("z.cash:Orchard-cv", "r"));
        let trap = pallas::Scalar::random(&mut r);
        let mut made: Option<[u8; 64]> = None;
        for c in run {
            let mut ev = c.clone();
            for k in ["lhs", "rhs"] { if c.get(k).is_some() { ev[k] = json!("evaluated"); } }
            let res = guard(|| {
                let op = s(c, "op");
                match op {
                    "bundle" => parts = Some(self.st.parts(s(c, "b"))),
                    "spend" => {
                        // One signature, made once, under many keys.
                        let q = &c["sig"];
                        let sig = *made.get_or_insert_with(|| {
                            let sk = self.who(&q["key"]).ask.randomize(&self.alpha(s(&q["key"], "alpha")));
                            off((&sk.sign(&mut r, &message(s(q, "msg"), self.seed))).into(), n(q, "off"), &mut r)
                        });
                        let (res, eq) = self.spend(c, &sig, &mut r);
                        ev["res"] = json!(res);
                        ev["eq"] = json!(eq);
                    }
                    "slot" => {
                        let at = |k: &Value, h: &str| { let b = k[0].as_str().unwrap(); self.st.full(b, h).actions()[self.st.items[b].slot[k[1].as_u64().unwrap() as usize - 1]].clone() };
                        let a = at(&c["sig"]["key"], s(&c["sig"], "msg"));
                        let k = at(&c["key"], "h1");
                        let h = sighash(s(c, "msg"), self.st.seed);
                        ev["res"] = json!(k.rk().verify(&h, a.authorization()).is_ok());
                        ev["eq"] = json!(equation(c, &k.rk().into(), &a.authorization().into(), &h));
                    }
                    "binding" => {
                        let b = assemble(parts.clone().unwrap());
                        let sig = off(self.st.full(s(c, "by"), s(c, "sh")).authorization().binding_signature().into(), n(c, "off"), &mut r);
                        let h = sighash(s(c, "h"), self.st.seed);
                        let vk = b.binding_validating_key();
                        ev["res"] = json!(vk.verify(&h, &redpallas::Signature::from(sig)).is_ok());
                        ev["eq"] = json!(equation(c, &(&vk).into(), &sig, &h));
                    }
                    _ => {
                        let p = parts.as_mut().unwrap();
                        let i = c["i"].as_i64().unwrap_or(1) as usize - 1;
                        let point = |p: &Parts, i: usize| oracle::point(&p.0[i].cv_net().to_bytes()).unwrap();
                        let mul = |p: pallas::Point, k: i64| p * if k < 0 { -pallas::Scalar::from(k.unsigned_abs()) } else { pallas::Scalar::from(k as u64) };
                        let mut put = |p: &mut Parts, x: pallas::Point| p.0[i] = with_cv(&p.0[i], ValueCommitment::from_bytes(&x.to_bytes()).unwrap());
                        match op {
                            "shift" => { let x = point(p, i) + mul(gv, n(c, "d") * unit) + mul(gr * trap, n(c, "e")); put(p, x) }
                            "set" => {
                                let x = match s(c, "to") {
                                    "id" => pallas::Point::identity(),
                                    "neg" => -point(p, i),
                                    "alien" => alien,
                                    "own" => { let o = self.st.parts(s(&run[0], "b")); point(&o, n(c, "k") as usize - 1) }
                                    _ => point(p, i) + point(p, n(c, "k") as usize - 1),
                                };
                                put(p, x)
                            }
                            "swap" => p.0.swap(i, n(c, "j") as usize - 1),
                            "drop" => { p.0.remove(i); }
                            "dup" => { let x = p.0[i].clone(); for _ in 0..n(c, "k") { p.0.push(x.clone()) } }
                            "flags" => p.1 = Flags::from_byte(n(c, "f") as u8).unwrap(),
                            "anchor" => p.3 = Anchor::from_bytes(oracle::base_bytes(&pallas::Base::random(&mut r))).unwrap(),
                            "rebalance" => p.2 += n(c, "k") * unit,
                            "extreme" => p.2 = if s(c, "w") == "min" { i64::MIN } else { i64::MAX },
                            x => panic!("op {x}"),
                        }
                        let want = (0..p.0.len()).map(|i| point(p, i)).fold(pallas::Point::identity(), |x, y| x + y) - mul(gv, p.2);
                        ev["want"] = json!(hex::encode(want.to_bytes()));
                        ev["bvk"] = json!(hex::encode(<[u8; 32]>::from(&assemble(p.clone()).binding_validating_key())));
                    }
                }
            });
            if let Err(m) = res { ev["panic"] = json!(m); out.push(ev); break; }
            out.push(ev);
        }
        out
    }
}
pub fn exec_runs(runs: &[Run], seed: u64, reps: usize) -> Vec<Run> {
    (0..reps as u64).flat_map(|i| {
        let seed = seed.wrapping_add(i * 977);
        let w = World { st: stock::make(&["a", "c", "d"], seed), parties: ["A", "B"].map(|k| Party::new(seed + 1, k)), seed };
        exec_all(runs, seed, |r, sd| w.exec(r, sd))
    }).collect()
}
