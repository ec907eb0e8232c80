//! Evaluates the specification's terms (spec/Protocol.tla) with independent primitives.
use crate::oracle;
use aes::Aes256;
use chacha20poly1305::{AeadInPlace, ChaCha20Poly1305, KeyInit};
use ff::{Field, PrimeField, PrimeFieldBits};
use fpe::ff1::{BinaryNumeralString, FF1};
use group::{Group, GroupEncoding};
use halo2_gadgets::poseidon::primitives::{self as poseidon, ConstantLength, P128Pow5T3};
use halo2_gadgets::sinsemilla::primitives as sinsemilla;
use pasta_curves::pallas;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bytes(Vec<u8>),
    Base(pallas::Base),
    Scalar(pallas::Scalar),
    Point(pallas::Point),
    Bits(Vec<bool>),
    Int(i128),
    Bottom,
}
use Val::*;
pub type Env = HashMap<String, Val>;

thread_local! {
    static HASHES: RefCell<HashMap<(String, Vec<u8>), pallas::Point>> = Default::default();
    static SINS: RefCell<HashMap<String, std::rc::Rc<sinsemilla::HashDomain>>> = Default::default();
}
fn group_hash(dom: &str, msg: &[u8]) -> pallas::Point {
    HASHES.with(|h| {
        if let Some(p) = h.borrow().get(&(dom.to_string(), msg.to_vec())) { return *p; }
        let p = oracle::hash_to_curve(dom, msg);
        if h.borrow().len() < 100_000 { h.borrow_mut().insert((dom.to_string(), msg.to_vec()), p); }
        p
    })
}
fn sins(dom: &str, bits: Vec<bool>) -> Val {
    let d = SINS.with(|s| s.borrow_mut().entry(dom.to_string()).or_insert_with(|| std::rc::Rc::new(sinsemilla::HashDomain::new(dom))).clone());
    match Option::<pallas::Point>::from(d.hash_to_point(bits.into_iter())) { Some(p) => Point(p), None => Bottom }
}
pub fn bytes(v: &Val) -> Vec<u8> {
    match v {
        Bytes(b) => b.clone(),
        Base(b) => b.to_repr().to_vec(),
        Scalar(b) => b.to_repr().to_vec(),
        Point(p) => p.to_bytes().to_vec(),
        x => panic!("bytes of {x:?}"),
    }
}
fn point(v: &Val) -> pallas::Point { match v { Point(p) => *p, x => panic!("point of {x:?}") } }
fn base(v: &Val) -> pallas::Base { match v { Base(b) => *b, x => panic!("base of {x:?}") } }
fn scal(v: &Val) -> pallas::Scalar { match v { Scalar(b) => *b, x => panic!("scalar of {x:?}") } }
fn int(v: &Val) -> i128 { match v { Int(b) => *b, x => panic!("int of {x:?}") } }
fn text(v: &Val) -> String { String::from_utf8(bytes(v)).unwrap() }

pub fn eval(t: &Value, env: &Env) -> Val {
    let f = t["f"].as_str().unwrap_or_else(|| panic!("term {t}"));
    match f {
        "var" => return env.get(t["s"].as_str().unwrap()).unwrap_or_else(|| panic!("variable {t}")).clone(),
        "int" => return Int(t["n"].as_i64().unwrap() as i128),
        "str" => return Bytes(t["s"].as_str().unwrap().as_bytes().to_vec()),
        "lit" => return Bytes(t["b"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()),
        "flip" => {
            // One bit, chosen by the environment, is inverted.
            let mut b = bytes(&eval(&t["a"][0], env));
            let k = (int(&env["flipseed"]) as usize).wrapping_mul(2654435761) % (8 * b.len());
            b[k / 8] ^= 1 << (k % 8);
            return Bytes(b);
        }
        _ => {}
    }
    let empty = vec![];
    let args: Vec<Val> = t["a"].as_array().unwrap_or(&empty).iter().map(|x| eval(x, env)).collect();
    apply(f, &args)
}
pub fn apply(f: &str, a: &[Val]) -> Val {
    if a.contains(&Bottom) && f != "or_zero" { return Bottom; }
    match f {
        "cat" => Bytes(a.iter().flat_map(bytes).collect()),
        "slice" => { let (i, n) = (int(&a[1]) as usize, int(&a[2]) as usize); Bytes(bytes(&a[0])[i..i + n].to_vec()) }
        "blake2b" => Bytes(oracle::blake2b(int(&a[0]) as usize, &bytes(&a[1]), &bytes(&a[2]))),
        "repr" => Bytes(bytes(&a[0])),
        "to_scalar" => Scalar(oracle::to_scalar(&bytes(&a[0]))),
        "to_base" => Base(oracle::to_base(&bytes(&a[0]))),
        "neg" => match &a[0] { Base(x) => Base(-x), Scalar(x) => Scalar(-x), Point(x) => Point(-x), x => panic!("neg {x:?}") },
        "add" => match (&a[0], &a[1]) { (Base(x), Base(y)) => Base(x + y), (Scalar(x), Scalar(y)) => Scalar(x + y), (Point(x), Point(y)) => Point(x + y), x => panic!("add {x:?}") },
        "mul" => Point(point(&a[1]) * scal(&a[0])),
        "extract" => Base(oracle::extract_p(&point(&a[0]))),
        "group_hash" => Point(group_hash(&text(&a[0]), &bytes(&a[1]))),
        "sinsemilla" => match &a[1] { Bits(b) => sins(&text(&a[0]), b.clone()), x => panic!("{x:?}") },
        "poseidon" => Base(poseidon::Hash::<_, P128Pow5T3, ConstantLength<2>, 3, 2>::init().hash([base(&a[0]), base(&a[1])])),
        "bits" => {
            let n = int(&a[1]) as usize;
            match &a[0] {
                Int(x) => Bits((0..n).map(|i| (x >> i) & 1 == 1).collect()),
                x => Bits(oracle::bits_of(&bytes(x), n)),
            }
        }
        "bitcat" => Bits(a.iter().flat_map(|x| match x { Bits(b) => b.clone(), x => panic!("bitcat {x:?}") }).collect()),
        "if_odd_y" => if bytes(&a[0])[31] >> 7 == 1 { a[1].clone() } else { a[2].clone() },
        "or_if_identity" => if bool::from(point(&a[0]).is_identity()) { a[1].clone() } else { a[0].clone() },
        "or_zero" => match &a[0] { Bottom => Base(pallas::Base::ZERO), p => Base(oracle::extract_p(&point(p))) },
        "base_to_scalar" => Scalar(pallas::Scalar::from_repr(base(&a[0]).to_repr()).unwrap()),
        "int_to_scalar" => { let v = int(&a[0]); let m = pallas::Scalar::from_u128(v.unsigned_abs()); Scalar(if v < 0 { -m } else { m }) }
        "scale" => { let k = int(&a[0]); let m = pallas::Scalar::from_u128(k.unsigned_abs()); Scalar(scal(&a[1]) * if k < 0 { -m } else { m }) }
        "wide" => Int(int(&a[0]) + (int(&a[1]) << 24) + (int(&a[2]) << 48)),
        "harden" => { let mut b = bytes(&a[0]); b[3] |= 0x80; Bytes(b) }
        "base_int" => Base(pallas::Base::from_u128(int(&a[0]) as u128)),
        "aead" => {
            let mut b = bytes(&a[1]);
            let tag = ChaCha20Poly1305::new(bytes(&a[0]).as_slice().into()).encrypt_in_place_detached([0u8; 12][..].into(), &[], &mut b).unwrap();
            b.extend_from_slice(&tag);
            Bytes(b)
        }
        "ff1enc" | "ff1dec" => {
            let ff = FF1::<Aes256>::new(&bytes(&a[0]), 2).unwrap();
            let x = BinaryNumeralString::from_bytes_le(&bytes(&a[1]));
            let y = if f == "ff1enc" { ff.encrypt(&[], &x) } else { ff.decrypt(&[], &x) };
            Bytes(y.unwrap().to_bytes_le())
        }
        x => panic!("function {x}"),
    }
}
#[allow(dead_code)]
pub fn field_bits(b: &pallas::Base) -> Vec<bool> { b.to_le_bits().iter().by_vals().take(255).collect() }
/// Bytes of a term, as hex; "bottom" when undefined.
pub fn hexof(t: &Value, env: &Env) -> String {
    match eval(t, env) { Bottom => "bottom".into(), v => hex::encode(bytes(&v)) }
}
