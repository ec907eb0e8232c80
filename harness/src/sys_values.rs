//! Arithmetic on note values, value sums and value commitments.
use crate::eval::{self, Env, Val};
use crate::util::*;
use ff::{Field, PrimeField};
use orchard::value::*;
use pasta_curves::pallas;
use rand::Rng as _;
use serde_json::{json, Value};

const M: i128 = u64::MAX as i128;
fn nv(x: i128) -> NoteValue { NoteValue::from_raw(x as u64) }
/// The value sum denoting an integer of magnitude below 2^64.
fn sum_of(x: i128) -> ValueSum { if x >= 0 { nv(x) - nv(0) } else { nv(0) - nv(-x) } }
/// The integer a value sum denotes, found by comparing it with known ones.
fn read(v: &ValueSum, expect: &[i128]) -> Option<i128> {
    let digits: String = format!("{v:?}").chars().filter(|c| c.is_ascii_digit() || *c == '-').collect();
    let mut cand: Vec<i128> = digits.parse::<i128>().into_iter().collect();
    if let Ok(x) = i64::try_from(*v) { cand.push(x as i128); }
    cand.extend(expect);
    cand.into_iter().find(|x| (-M..=M).contains(x) && sum_of(*x) == *v)
}
fn show(ev: &mut Value, v: Option<ValueSum>, expect: &[i128]) {
    match v {
        None => ev["res"] = json!("overflow"),
        Some(v) => {
            ev["res"] = json!("ok");
            ev["v"] = match read(&v, expect) { Some(x) => wide(x), None => json!("unreadable") };
            match i64::try_from(v) {
                Ok(x) => { ev["i64"] = json!("fits"); ev["vi64"] = wide(x as i128); }
                Err(_) => ev["i64"] = json!("overflow"),
            }
        }
    }
}
fn env(seed: u64) -> Env {
    let mut r = rng(seed, "values env");
    let mut e = Env::new();
    for k in ["r1", "r2"] { e.insert(k.into(), Val::Scalar(pallas::Scalar::random(&mut r))); }
    e
}
fn exec(run: &Run, seed: u64) -> Run {
    let env = env(seed);
    let mut r = rng(seed, "values run");
    let sc = |k: &str| match &env[k] { Val::Scalar(x) => *x, _ => unreachable!() };
    let trap = |r: &mut Rng, a: i64, b: i64| -> ValueCommitTrapdoor {
        let tb = |x: pallas::Scalar| ValueCommitTrapdoor::from_bytes(x.to_repr()).unwrap();
        let sg = |x: i64, s: pallas::Scalar| if x < 0 { -s } else { s };
        let (r1, r2) = (sc("r1"), sc("r2"));
        let parts: Vec<ValueCommitTrapdoor> = (0..a.abs()).map(|_| tb(sg(a, r1))).chain((0..b.abs()).map(|_| tb(sg(b, r2)))).collect();
        match r.gen_range(0..3) {
            0 => parts.iter().sum(),
            1 => parts.iter().fold(tb(pallas::Scalar::ZERO), |x, y| x + y),
            _ => tb(pallas::Scalar::from(a.unsigned_abs()) * sg(a, r1) + pallas::Scalar::from(b.unsigned_abs()) * sg(b, r2)),
        }
    };
    let part = |r: &mut Rng, c: &Value| ValueCommitment::derive(sum_of(unwide(&c["v"])), trap(r, n(c, "a"), n(c, "b")));
    let mut sum = ValueSum::default();
    let mut known: Vec<i128> = vec![];
    let mut cv: Option<ValueCommitment> = None;
    let mut out = vec![];
    for c in run {
        let mut ev = c.clone();
        if c.get("want").is_some() { ev["want"] = json!(eval::hexof(&c["want"], &env)); }
        let res = guard(|| {
            let cvd = match s(c, "op") {
                "diff" => {
                    sum = nv(unwide(&c["x"])) - nv(unwide(&c["y"]));
                    known = vec![unwide(&c["x"]) - unwide(&c["y"])];
                    show(&mut ev, Some(sum), &known);
                    None
                }
                "plus" => {
                    let d = nv(unwide(&c["x"])) - nv(unwide(&c["y"]));
                    for k in known.iter_mut() { *k += unwide(&c["x"]) - unwide(&c["y"]); }
                    let a = sum + d;
                    assert!(a == d + sum, "addition depends on the order");
                    show(&mut ev, a, &known);
                    sum = a.unwrap_or_default();
                    None
                }
                "total" => {
                    let l: Vec<ValueSum> = arr(c, "list").iter().map(|x| sum_of(unwide(x))).collect();
                    known = vec![arr(c, "list").iter().map(unwide).sum()];
                    let a: Result<ValueSum, OverflowError> = l.iter().sum();
                    let b: Result<ValueSum, OverflowError> = l.into_iter().sum();
                    assert!(a.as_ref().ok() == b.as_ref().ok(), "owned and borrowed sums differ");
                    sum = a.as_ref().ok().copied().unwrap_or_default();
                    show(&mut ev, a.ok(), &known);
                    None
                }
                "commit" => Some(part(&mut r, c)),
                "cvadd" => Some(if r.gen() { cv.take().unwrap() + &part(&mut r, c) } else { part(&mut r, c) + &cv.take().unwrap() }),
                "cvsub" => Some(cv.take().unwrap() - part(&mut r, c)),
                "cvsum" => {
                    let l: Vec<ValueCommitment> = arr(c, "list").iter().map(|x| part(&mut r, x)).collect();
                    Some(if r.gen() { l.iter().sum() } else { l.into_iter().sum() })
                }
                x => panic!("op {x}"),
            };
            if let Some(x) = cvd {
                ev["got"] = json!(hex::encode(x.to_bytes()));
                cv = Some(x);
            }
        });
        if let Err(m) = res { ev["panic"] = json!(m); out.push(ev); break; }
        out.push(ev);
    }
    out
}
/// Random sequences beyond the catalogue.
fn random(seed: u64, count: usize) -> Vec<Run> {
    (0..count).map(|i| {
        let mut r = rng(seed, &format!("values {i}"));
        let val = |r: &mut Rng| -> i128 { (match r.gen_range(0..4) { 0 => r.gen_range(0..3u64), 1 => u64::MAX - r.gen_range(0..3), 2 => (1u64 << 63).wrapping_add(r.gen_range(0..4)).wrapping_sub(2), _ => r.gen::<u64>() >> r.gen_range(0..64) }) as i128 };
        let sv = |r: &mut Rng| if r.gen() { val(r) } else { -val(r) };
        match r.gen_range(0..2) {
            0 => vec![json!({"op": "diff", "x": wide(val(&mut r)), "y": wide(val(&mut r))})],
            _ => { let l: Vec<Value> = (0..r.gen_range(0..7)).map(|_| wide(sv(&mut r))).collect(); vec![json!({"op": "total", "list": l})] }
        }
    }).collect()
}
pub fn exec_runs(runs: &[Run], seed: u64, rnd: usize, reps: usize) -> Vec<Run> {
    let mut out = vec![];
    for i in 0..reps as u64 {
        let chunks: Vec<Run> = runs.chunks(40).map(|c| c.iter().flatten().cloned().collect()).collect();
        out.extend(exec_all(&chunks, seed.wrapping_add(i * 977), exec));
    }
    out.extend(exec_all(&random(seed, rnd), seed, exec));
    out
}
