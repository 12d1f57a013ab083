//! C25: sighash types.
use std::str::FromStr;

use bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use psbt_v2::{v0, v2, InvalidSighashTypeError, PsbtSighashType};
use serde_json::{json, Value};

use crate::util::{guard, hex, unhex, Rng};
use crate::world::World;

fn le(n: u32) -> String { hex(&n.to_le_bytes()) }
pub fn gen(w: &World, r: &mut Rng) -> Value {
    let ns: Vec<String> = (0..6).map(|_| le(match r.below(4) { 0 => w.r_sighash(r), 1 => r.below(256) as u32, 2 => r.below(256) as u32 | 1 << (8 + r.below(24)), _ => r.u32() })).collect();
    let texts: Vec<String> = (0..8).map(|_| {
        let n = if r.chance(50) { *r.pick(&[0u32, 1, 2, 3, 0x81, 0x82, 0x83]) } else { r.u32() >> r.below(32) };
        let mut t = match r.below(4) { 0 => format!("{:#x}", n), 1 => format!("{:x}", n), 2 => format!("{:X}", n), _ => PsbtSighashType::from_u32(n).to_string() };
        for _ in 0..r.below(3) {
            let c = *r.pick(&['0', '1', 'x', 'X', '|', '_', 'S', ' ', '+', '-', 'f', 'A']);
            let k = r.below(t.len() + 1);
            match r.below(4) { 0 => t.insert(k, c), 1 if k < t.len() => { t.remove(k); } 2 if k < t.len() => { t.remove(k); t.insert(k, c) } _ => t.push(c) }
        }
        if r.chance(5) { t = t.to_lowercase() }
        if r.chance(25) {
            let a = *r.pick(&["0x", "0X", "0", "00", "SIGHASH_", "|", "ALL", "NONE", "SINGLE", "ANYONECANPAY", "|SIGHASH_ANYONECANPAY", "0b", "0o", "#", "h", "u32", "\t", "\n", "+0x", "x", ",", "."]);
            t = if r.chance(50) { format!("{}{}", a, t) } else { format!("{}{}", t, a) };
        }
        if r.chance(5) { t = format!("{}{}", t, t) }
        t
    }).collect();
    json!({ "ns": ns, "texts": texts })
}
pub fn run(c: &Value) -> Value {
    match guard(|| {
        let ns: Vec<Value> = c["ns"].as_array().unwrap().iter().map(|n| one(n.as_str().unwrap())).collect();
        let texts: Vec<Value> = c["texts"].as_array().unwrap().iter().map(|t| {
            let t = t.as_str().unwrap();
            json!({ "s": t, "v": match PsbtSighashType::from_str(t) { Ok(x) => le(x.to_u32()), Err(e) => { crate::ops::disp(&e); "invalid".into() } } })
        }).collect();
        json!({ "ns": ns, "texts": texts })
    }) { Ok(v) => v, Err(m) => json!({ "panic": m }) }
}
fn one(h: &str) -> Value {
    let n = u32::from_le_bytes(unhex(h).try_into().unwrap());
    let t = PsbtSighashType::from_u32(n);
    let bad = || "invalid".to_string();
    let (ecdsa, ecdsaerr) = match t.ecdsa_hash_ty() { Ok(x) => (le(x as u32), String::new()), Err(e) => (bad(), le(e.0)) };
    let (tap, taperr) = match t.taproot_hash_ty() {
        Ok(x) => (le(x as u32), String::new()),
        Err(e) => { crate::ops::disp(&e); (bad(), match e { InvalidSighashTypeError::Invalid(x) => le(x), InvalidSighashTypeError::Bitcoin(x) => le(x.0), _ => "other".into() }) }
    };
    let ecdsaback = EcdsaSighashType::from_standard(n).map(|e| le(PsbtSighashType::from(e).to_u32())).unwrap_or_default();
    let tapback = if n < 256 { TapSighashType::from_consensus_u8(n as u8).map(|e| le(PsbtSighashType::from(e).to_u32())).unwrap_or_default() } else { String::new() };
    let text = t.to_string();
    let back = PsbtSighashType::from_str(&text).map(|x| le(x.to_u32())).unwrap_or(bad());
    // Through the wire.
    let mut p = v2::Psbt { global: v2::Creator::new().psbt().global, inputs: vec![], outputs: vec![] };
    let mut i = v2::Input::new(&bitcoin::OutPoint::null());
    i.sighash_type = Some(t);
    p.inputs.push(i);
    p.global.input_count = 1;
    let show = |x: Option<PsbtSighashType>| x.map(|x| le(x.to_u32())).unwrap_or("none".into());
    let r2 = v2::Psbt::deserialize(&p.serialize()).map(|p| show(p.inputs[0].sighash_type)).unwrap_or("error".into());
    let tx = bitcoin::Transaction { version: bitcoin::transaction::Version(2), lock_time: bitcoin::absolute::LockTime::ZERO, input: vec![Default::default()], output: vec![] };
    let mut q = v0::Psbt::from_unsigned_tx(tx).unwrap();
    q.inputs[0].sighash_type = Some(t);
    let r0 = v0::Psbt::deserialize(&q.serialize()).map(|p| show(p.inputs[0].sighash_type)).unwrap_or("error".into());
    let sj = serde_json::to_string(&t).ok().and_then(|s| serde_json::from_str::<PsbtSighashType>(&s).ok());
    json!({ "n": h, "u32": le(t.to_u32()), "ecdsa": ecdsa, "ecdsaerr": ecdsaerr, "tap": tap, "taperr": taperr, "ecdsaback": ecdsaback, "tapback": tapback,
        "text": text, "back": back, "v2": r2, "v0": r0, "serde": show(sj) })
}
