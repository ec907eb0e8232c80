//! Offers every parser byte strings of every class, and arbitrary ones.
use crate::oracle;
use crate::util::*;
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use orchard::{
    bundle::Flags,
    keys::*,
    note::{ExtractedNoteCommitment, Nullifier, Rho},
    primitives::redpallas::{self, Binding, SpendAuth},
    tree::MerkleHashOrchard,
    value::{ValueCommitTrapdoor, ValueCommitment},
    Address, Anchor,
};
use pasta_curves::pallas;
use rand::{Rng as _, RngCore};
use serde_json::{json, Value};

type U = [u64; 5]; // little-endian limbs, one spare
fn load(b: &[u8; 32]) -> U { let mut u = [0; 5]; for i in 0..4 { u[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); } u }
fn store(u: &U) -> [u8; 32] { let mut b = [0; 32]; for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&u[i].to_le_bytes()); } b }
fn addu(a: &U, b: &U) -> U { let mut c = 0u128; let mut o = [0; 5]; for i in 0..5 { c += a[i] as u128 + b[i] as u128; o[i] = c as u64; c >>= 64; } o }
fn subu(a: &U, b: &U) -> U { let mut br = 0i128; let mut o = [0; 5]; for i in 0..5 { let d = a[i] as i128 - b[i] as i128 + br; o[i] = d as u64; br = d >> 64; } o }
fn ltu(a: &U, b: &U) -> bool { for i in (0..5).rev() { if a[i] != b[i] { return a[i] < b[i]; } } false }
fn small(x: u64) -> U { [x, 0, 0, 0, 0] }
fn modulus_p() -> U { addu(&load(&(-pallas::Base::ONE).to_repr()), &small(1)) }
fn modulus_q() -> U { addu(&load(&(-pallas::Scalar::ONE).to_repr()), &small(1)) }
fn rand_u(r: &mut impl RngCore) -> U { [r.next_u64(), r.next_u64(), r.next_u64(), r.next_u64(), 0] }
/// Uniform-ish below a bound (and near it, or near zero, a third of the time each).
fn below(r: &mut impl RngCore, bound: &U) -> U {
    match r.next_u32() % 3 {
        0 => { let d = small(1 + r.next_u64() % 64); if ltu(&d, bound) { subu(bound, &d) } else { small(0) } }
        1 if bound[1..].iter().any(|x| *x != 0) => small(r.next_u64() >> (r.next_u32() % 64)),
        _ => loop { let mut x = rand_u(r); let top = (0..5).rev().find(|i| bound[*i] != 0).unwrap_or(0);
            for y in x.iter_mut().skip(top + 1) { *y = 0; }
            x[top] &= u64::MAX >> bound[top].leading_zeros();
            if ltu(&x, bound) { return x; } },
    }
}

/// The class of a 32-byte number, by arithmetic on its value.
fn num_class(b: &[u8; 32]) -> &'static str {
    let (x, p, q) = (load(b), modulus_p(), modulus_q());
    if b[31] & 0x80 != 0 { return "top"; }
    if x == small(0) { return "zero"; }
    if ltu(&x, &small(1 << 20)) { return "small"; }
    if ltu(&x, &subu(&p, &small(1))) { return "belowp"; }
    if x == subu(&p, &small(1)) { return "pm1"; }
    if x == p { return "p"; }
    if ltu(&x, &subu(&q, &small(1))) { return "btw"; }
    if x == subu(&q, &small(1)) { return "qm1"; }
    if x == q { "q" } else { "over" }
}
fn is_square(x: &pallas::Base) -> bool { bool::from(x.sqrt().is_some()) }
fn on_curve(x: &U) -> bool {
    let x: pallas::Base = Option::from(pallas::Base::from_repr(store(x))).unwrap();
    is_square(&(x.square() * x + pallas::Base::from(5)))
}
fn point_class(b: &[u8; 32]) -> &'static str {
    let sign = b[31] & 0x80 != 0;
    let mut lo = *b;
    lo[31] &= 0x7f;
    let (x, p) = (load(&lo), modulus_p());
    if x == small(0) { return if sign { "idsign" } else { "id" }; }
    if x == p { return "aliasid"; }
    if !ltu(&x, &addu(&p, &p)) { return "high"; }
    if !ltu(&x, &p) {
        return if !on_curve(&subu(&x, &p)) { "high" } else if sign { "aliassign" } else { "alias" };
    }
    match (on_curve(&x), sign) { (true, false) => "even", (true, true) => "odd", (false, false) => "off", (false, true) => "offsign" }
}
fn gen_num(c: &str, r: &mut impl RngCore) -> [u8; 32] {
    let (p, q) = (modulus_p(), modulus_q());
    let lim = [0, 0, 0, 1 << 63, 0];
    store(&match c {
        "zero" => small(0),
        "small" => small(1 + r.next_u64() % ((1 << 20) - 1)),
        "belowp" => loop { let x = below(r, &subu(&p, &small(1))); if !ltu(&x, &small(1 << 20)) { break x; } },
        "pm1" => subu(&p, &small(1)),
        "p" => p,
        "btw" => { let w = subu(&subu(&q, &p), &small(2)); addu(&addu(&p, &small(1)), &below(r, &w)) }
        "qm1" => subu(&q, &small(1)),
        "q" => q,
        "over" => addu(&addu(&q, &small(1)), &below(r, &subu(&subu(&lim, &q), &small(1)))),
        "top" => match r.next_u32() % 4 {
            0 => { let mut x = below(r, &p); x[3] |= 1 << 63; x }
            1 => [u64::MAX, u64::MAX, u64::MAX, u64::MAX, 0],
            2 => lim,
            _ => { let mut x = rand_u(r); x[3] |= 1 << 63; x }
        },
        c => panic!("class {c}"),
    })
}
fn gen_point(c: &str, r: &mut impl RngCore) -> [u8; 32] {
    let p = modulus_p();
    let some_x = |r: &mut dyn RngCore, on: bool, small_only: bool| -> U {
        loop {
            let x = if small_only { let mut y = small(0); y[0] = r.next_u64(); y[1] = r.next_u64(); y } else {
                let mut b = [0; 32]; r.fill_bytes(&mut b); load(&b) };
            let mut x = x; x[3] &= u64::MAX >> 1;
            if x != small(0) && ltu(&x, &p) && on_curve(&x) == on { return x; }
        }
    };
    let signed = |mut b: [u8; 32]| { b[31] |= 0x80; b };
    match c {
        "id" => [0; 32],
        "idsign" => signed([0; 32]),
        "even" | "odd" => {
            let mut b = if r.next_u32() % 2 == 0 { pallas::Point::random(&mut *r).to_bytes() } else { store(&some_x(r, true, true)) };
            b[31] &= 0x7f;
            if c == "odd" { signed(b) } else { b }
        }
        "off" => { let sm = r.next_u32() % 2 == 0; store(&some_x(r, false, sm)) }
        "offsign" => signed(store(&some_x(r, false, false))),
        "alias" | "aliassign" => loop {
            let sm = r.next_u32() % 2 == 0;
            let x = addu(&some_x(r, true, sm), &p);
            let b = store(&x);
            if b[31] & 0x80 == 0 && x[4] == 0 { break if c == "alias" { b } else { signed(b) }; }
        },
        "aliasid" => { let b = store(&p); if r.next_u32() % 2 == 0 { b } else { signed(b) } }
        "high" => { let two = addu(&p, &p); let lim: U = [0, 0, 0, 1 << 63, 0];
            // 2p < 2^255 does not hold; then only aliases of x-coordinates without a point remain.
            if ltu(&two, &lim) { store(&addu(&two, &below(r, &subu(&lim, &two)))) }
            else { loop { let x = addu(&some_x(r, false, false), &p); if ltu(&x, &lim) { break store(&x); } } } }
        c => panic!("class {c}"),
    }
}

fn kinds(fmt: &str) -> &'static [&'static str] {
    match fmt {
        "fvk" | "fvk_io" | "fvk_bits" => &["point", "num", "num"],
        "ivk" => &["any", "num"],
        "ak" | "cv" | "vk_spend" | "vk_bind" => &["point"],
        "addr" => &["any11", "point"],
        _ => &["num"],
    }
}
pub const FORMATS: &[&str] = &["fvk", "fvk_io", "fvk_bits", "ivk", "ak", "addr", "nf", "rho", "cmx", "anchor", "mhash", "mserde", "cv", "rcv", "sk_spend", "sk_bind", "vk_spend", "vk_bind"];

/// A stream that hands out and takes bytes a few at a time, with interruptions.
struct Pieces { b: Vec<u8>, at: usize, n: usize }
impl Pieces {
    fn next(&mut self, len: usize) -> std::io::Result<usize> {
        self.n += 1;
        if self.n % 4 == 2 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let h = self.b.iter().fold(self.n as u64, |x, y| (x ^ *y as u64).wrapping_mul(0x100000001b3));
        Ok(len.min([1, 2, 7, 31, 32, 33, 95, 4096][(h >> 40) as usize % 8]))
    }
}
impl std::io::Read for Pieces {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let k = self.next(out.len().min(self.b.len() - self.at))?;
        out[..k].copy_from_slice(&self.b[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}
impl std::io::Write for Pieces {
    fn write(&mut self, x: &[u8]) -> std::io::Result<usize> {
        let k = self.next(x.len())?;
        self.b.extend(&x[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn parse(fmt: &str, b: &[u8]) -> Option<Vec<u8>> {
    let a32 = || <[u8; 32]>::try_from(b).unwrap();
    match fmt {
        "fvk" => FullViewingKey::from_bytes(b.try_into().unwrap()).map(|x| x.to_bytes().to_vec()),
        "fvk_io" => FullViewingKey::read(b).ok().map(|x| { let mut v = vec![]; x.write(&mut v).unwrap(); v }),
        "fvk_bits" => {
            // Followed by other data, which stays where it is.
            let mut rd = Pieces { b: [b, &[0x5a; 40]].concat(), at: 0, n: 0 };
            let x = FullViewingKey::read(&mut rd).ok();
            if x.is_some() { assert_eq!(rd.at, 96, "bytes taken from the reader"); }
            x.map(|x| { let mut v = Pieces { b: vec![], at: 0, n: 0 }; x.write(&mut v).unwrap(); v.b })
        }
        "ivk" => Option::<IncomingViewingKey>::from(IncomingViewingKey::from_bytes(b.try_into().unwrap())).map(|x| x.to_bytes().to_vec()),
        "ak" => SpendValidatingKey::from_bytes(b).map(|x| x.to_bytes().to_vec()),
        "addr" => Option::<Address>::from(Address::from_raw_address_bytes(b.try_into().unwrap())).map(|x| x.to_raw_address_bytes().to_vec()),
        "nf" => Option::<Nullifier>::from(Nullifier::from_bytes(&a32())).map(|x| x.to_bytes().to_vec()),
        "rho" => Option::<Rho>::from(Rho::from_bytes(&a32())).map(|x| x.to_bytes().to_vec()),
        "cmx" => Option::<ExtractedNoteCommitment>::from(ExtractedNoteCommitment::from_bytes(&a32())).map(|x| x.to_bytes().to_vec()),
        "anchor" => Option::<Anchor>::from(Anchor::from_bytes(a32())).map(|x| x.to_bytes().to_vec()),
        "mhash" => Option::<MerkleHashOrchard>::from(MerkleHashOrchard::from_bytes(&a32())).map(|x| x.to_bytes().to_vec()),
        "mserde" => serde_json::from_value::<MerkleHashOrchard>(json!(b.to_vec())).ok().map(|x| {
            serde_json::to_value(x).unwrap().as_array().unwrap().iter().map(|y| y.as_u64().unwrap() as u8).collect() }),
        "cv" => Option::<ValueCommitment>::from(ValueCommitment::from_bytes(&a32())).map(|x| x.to_bytes().to_vec()),
        "rcv" => Option::<ValueCommitTrapdoor>::from(ValueCommitTrapdoor::from_bytes(a32())).map(|_| b.to_vec()),
        "sk_spend" => redpallas::SigningKey::<SpendAuth>::try_from(a32()).ok().map(|x| <[u8; 32]>::from(&x).to_vec()),
        "sk_bind" => redpallas::SigningKey::<Binding>::try_from(a32()).ok().map(|x| <[u8; 32]>::from(&x).to_vec()),
        "vk_spend" => redpallas::VerificationKey::<SpendAuth>::try_from(a32()).ok().map(|x| <[u8; 32]>::from(&x).to_vec()),
        "vk_bind" => redpallas::VerificationKey::<Binding>::try_from(a32()).ok().map(|x| <[u8; 32]>::from(&x).to_vec()),
        f => panic!("format {f}"),
    }
}
fn fields(fmt: &str, b: &[u8]) -> Vec<[u8; 32]> {
    // The 32-byte fields, in order ("any" fields as zeroes).
    let mut at = 0;
    kinds(fmt).iter().map(|k| { let w = if *k == "any11" { 11 } else { 32 }; let f = &b[at..at + w]; at += w; f.try_into().unwrap_or([0; 32]) }).collect()
}
fn classify(fmt: &str, b: &[u8]) -> Vec<&'static str> {
    kinds(fmt).iter().zip(fields(fmt, b)).map(|(k, f)| match *k { "num" => num_class(&f), "point" => point_class(&f), _ => "any" }).collect()
}
fn offer(fmt: &str, b: &[u8]) -> Value {
    let mut ev = json!({"op": "parse", "fmt": fmt, "cls": classify(fmt, b), "bytes": hex::encode(b)});
    match guard(|| parse(fmt, b)) {
        Ok(Some(re)) => { ev["ok"] = json!(true); ev["re"] = json!(if re == b { "same" } else { "differs" }); }
        Ok(None) => ev["ok"] = json!(false),
        Err(m) => ev["panic"] = json!(m),
    }
    ev
}

pub fn exec(run: &Run, seed: u64) -> Run {
    let mut r = rng(seed, "encodings");
    run.iter().map(|c| {
        let fmt = s(c, "fmt");
        let mut b = vec![];
        for (k, cl) in kinds(fmt).iter().zip(arr(c, "cls")) {
            let cl = cl.as_str().unwrap();
            match *k {
                "any" => { let mut x = [0u8; 32]; r.fill_bytes(&mut x); if r.gen_range(0..4) == 0 { x = [0xff; 32]; } b.extend(x) }
                "any11" => { let mut x = [0u8; 11]; r.fill_bytes(&mut x); b.extend(x) }
                "num" => b.extend(gen_num(cl, &mut r)),
                _ => b.extend(gen_point(cl, &mut r)),
            }
        }
        let got = classify(fmt, &b);
        if arr(c, "cls").iter().zip(&got).any(|(a, b)| a != b) { tool_error(&format!("class of {c}: {got:?}")); }
        offer(fmt, &b)
    }).collect()
}

/// Arbitrary bytes, bytes one bit away from canonical ones, lengths, and all flag bytes.
pub fn random(seed: u64, count: usize) -> Vec<Run> {
    use rayon::prelude::*;
    let mut out: Vec<Run> = (0..count).into_par_iter().map(|i| {
        let mut r = rng(seed, &format!("enc random {i}"));
        let mut run = vec![];
        for fmt in FORMATS {
            let len: usize = kinds(fmt).iter().map(|k| if *k == "any11" { 11 } else { 32 }).sum();
            let mut b = vec![0u8; len];
            r.fill_bytes(&mut b);
            run.push(offer(fmt, &b));
            // A valid encoding with one bit changed.
            let mut v = vec![];
            for k in kinds(fmt) {
                match *k {
                    "point" => v.extend(gen_point("even", &mut r)),
                    "num" => v.extend(gen_num("belowp", &mut r)),
                    "any" => { let mut x = [0u8; 32]; r.fill_bytes(&mut x); v.extend(x) }
                    _ => { let mut x = [0u8; 11]; r.fill_bytes(&mut x); v.extend(x) }
                }
            }
            run.push(offer(fmt, &v));
            let bit = if r.gen() { r.gen_range(0..len * 8) } else { len * 8 - 1 - r.gen_range(0..3) };
            v[bit / 8] ^= 1 << (bit % 8);
            run.push(offer(fmt, &v));
        }
        // Lengths, where the parser takes a slice or a stream.
        for (fmt, len) in [("ak", 32usize), ("mserde", 32), ("fvk_io", 96)] {
            let mut v = vec![];
            if fmt == "fvk_io" { v.extend(gen_point("even", &mut r)); v.extend(gen_num("belowp", &mut r)); v.extend(gen_num("belowp", &mut r)); }
            else if fmt == "ak" { v.extend(gen_point("even", &mut r)); } else { v.extend(gen_num("belowp", &mut r)); }
            let short = r.gen_range(0..len);
            for (n, right) in [(len, true), (short, false), (len - 1, false), (len + 1, false), (2 * len, false)] {
                if fmt == "fvk_io" && n > len { continue; } // a reader leaves what follows alone
                let mut w = v.clone();
                w.resize(n, 0);
                let mut ev = json!({"op": "length", "fmt": fmt, "n": n, "right": right});
                match guard(|| parse(fmt, &w)) { Ok(x) => ev["ok"] = json!(x.is_some()), Err(m) => ev["panic"] = json!(m) }
                run.push(ev);
            }
        }
        run
    }).collect();
    out.push((0..=255u8).map(|x| {
        let mut ev = json!({"op": "flags", "b": x});
        match guard(|| Flags::from_byte(x)) {
            Ok(Some(f)) => { ev["ok"] = json!(true); ev["re"] = json!(f.to_byte()); ev["spends"] = json!(f.spends_enabled()); ev["outputs"] = json!(f.outputs_enabled()); }
            Ok(None) => ev["ok"] = json!(false),
            Err(m) => ev["panic"] = json!(m),
        }
        ev
    }).collect());
    let consts = [(&Flags::ENABLED, 3u8), (&Flags::SPENDS_DISABLED, 2), (&Flags::OUTPUTS_DISABLED, 1)];
    out.push(consts.iter().map(|(f, b)| json!({"op": "flags", "b": b, "ok": true, "re": f.to_byte(), "spends": f.spends_enabled(), "outputs": f.outputs_enabled()})).collect());
    let _ = oracle::base(&[0; 32]);
    out
}
