//! C10, C11, C12: combining.
use bitcoin::hashes::Hash;
use psbt_v2::{v0, v2};
use serde_json::{json, Value};

use crate::build;
use crate::dump;
use crate::ops::*;
use crate::util::{guard, hex, unhex, Rng};
use crate::world::World;

#[derive(Clone)]
enum P { V2(v2::Psbt), V0(v0::Psbt) }
fn mk(v: u64, d: &Value) -> P { if v == 2 { P::V2(build::v2_psbt(d).expect("case")) } else { P::V0(build::v0_psbt(d).expect("case")) } }
fn dumpp(p: &P) -> Value { match p { P::V2(p) => dump::v2_psbt(p), P::V0(p) => dump::v0_psbt(p) } }
fn comb(a: &P, b: &P) -> (Value, Option<P>) {
    let base = |r: &str| json!({ "x": dumpp(a), "y": dumpp(b), "res": r });
    let r = guard(|| match (a.clone(), b.clone()) {
        (P::V2(a), P::V2(b)) => {
            let (a2, b2) = (a.clone(), b.clone());
            let r = v2::combine(a, b);
            let s = a2.combine_with(b2);
            assert!(r == s, "combine and combine_with differ");
            r.map(P::V2).map_err(|e| disp(&e))
        }
        (P::V0(mut a), P::V0(b)) => match a.combine(b) { Ok(()) => Ok(P::V0(a)), Err(e) => Err(disp(&e)) },
        _ => unreachable!(),
    });
    match r {
        Err(m) => { let mut j = base("panic"); j["panic"] = json!(m); (j, None) }
        Ok(Err(_)) => (base("err"), None),
        Ok(Ok(q)) => { let mut j = base("ok"); j["q"] = dumpp(&q); (j, Some(q)) }
    }
}
pub fn run(c: &Value) -> Value {
    let v = c["v"].as_u64().unwrap();
    let ps: Vec<P> = c["ps"].as_array().unwrap().iter().map(|d| mk(v, d)).collect();
    let mut steps = vec![];
    let n = ps.len();
    let g = |j: usize| ps[j.min(n - 1)].clone();
    let (a, b, x) = (g(0), g(1), g(2));
    let mut go = |p: &P, q: &P| { let (j, r) = comb(p, q); steps.push(j); r };
    let ab = go(&a, &b);
    let _ba = go(&b, &a);
    let _aa = go(&a, &a);
    if n > 2 {
        let bc = go(&b, &x);
        if let Some(ab) = &ab { let _ = go(ab, &x); let _ = go(ab, &a); }
        if let Some(bc) = &bc { let _ = go(&a, bc); }
    }
    let (ins, outs) = parts(&a, &b);
    json!({ "v": v, "steps": steps, "ins": ins, "outs": outs })
}
/// The maps combined one by one: [result, map] for each index both have.
fn parts(a: &P, b: &P) -> (Value, Value) {
    fn one<T: Clone, E>(xs: &[T], ys: &[T], f: impl Fn(&mut T, T) -> Result<(), E>, d: impl Fn(&T) -> Value) -> Value {
        xs.iter().zip(ys).map(|(x, y)| {
            let mut q = x.clone();
            match guard(|| { let r = f(&mut q, y.clone()).is_ok(); (r, q) }) {
                Err(m) => json!(["panic", m]),
                Ok((true, q)) => json!(["ok", d(&q)]),
                Ok((false, _)) => json!(["err", ""]),
            }
        }).collect()
    }
    match (a, b) {
        (P::V2(a), P::V2(b)) => (
            one(&a.inputs, &b.inputs, |x, y| x.combine(y), |m| json!(dump::v2_input(m))),
            one(&a.outputs, &b.outputs, |x, y| x.combine(y), |m| json!(dump::v2_output(m))),
        ),
        (P::V0(a), P::V0(b)) => (
            one(&a.inputs, &b.inputs, |x, y| { x.combine(y); Ok::<(), ()>(()) }, |m| json!(dump::v0_input(m))),
            one(&a.outputs, &b.outputs, |x, y| { x.combine(y); Ok::<(), ()>(()) }, |m| json!(dump::v0_output(m))),
        ),
        _ => unreachable!(),
    }
}

// ---- generation on the dump ------------------------------------------------------------------------
fn required(f: &str) -> bool { ["version", "txver", "incount", "outcount", "mod", "unsignedtx", "txid", "vout", "amount", "script"].contains(&f) }
fn tweak(w: &World, r: &mut Rng, map: char, v0: bool, e: &Value) -> Value {
    let f = e[0].as_str().unwrap();
    if ["ripemd", "sha256", "hash160", "hash256"].contains(&f) { return e.clone() }
    if f == "tapleaf" {
        // Same control block, other leaf (both are only data here).
        let mut v = unhex(e[2].as_str().unwrap());
        v[0] ^= 1;
        return json!([f, e[1], hex(&v)]);
    }
    let (_, v) = w.r_entry(r, map, v0, f);
    json!([f, e[1], hex(&v)])
}
fn sub(w: &World, r: &mut Rng, d: &Value, keep: usize, conflict: usize, v0: bool) -> Value {
    let map = |r: &mut Rng, m: char, es: &Value| -> Value {
        json!(es.as_array().unwrap().iter().filter_map(|e| {
            let f = e[0].as_str().unwrap();
            if required(f) { Some(if f == "mod" && r.chance(30) { json!(["mod", "", hex(&[r.below(8) as u8])]) } else { e.clone() }) }
            else if !r.chance(keep) { None }
            else if r.chance(conflict) { Some(tweak(w, r, m, v0, e)) }
            else { Some(e.clone()) }
        }).collect::<Vec<_>>())
    };
    let g = map(r, 'g', &d["g"]);
    let i: Vec<Value> = d["i"].as_array().unwrap().iter().map(|m| map(r, 'i', m)).collect();
    let o: Vec<Value> = d["o"].as_array().unwrap().iter().map(|m| map(r, 'o', m)).collect();
    json!({ "g": g, "i": i, "o": o })
}
fn edit_v2(w: &World, r: &mut Rng, d: &Value) -> Value {
    let mut p = build::v2_psbt(d).unwrap();
    let (ni, no) = (p.inputs.len(), p.outputs.len());
    match r.below(9) {
        0 => p.global.tx_version.0 ^= 1 << r.below(32),
        1 if ni > 0 => { let k = r.below(ni); p.inputs[k].previous_txid = w.r_txid(r) }
        2 if ni > 0 => { let k = r.below(ni); p.inputs[k].spent_output_index ^= 1 << r.below(32) }
        3 if no > 0 => { let k = r.below(no); p.outputs[k].amount = bitcoin::Amount::from_sat(p.outputs[k].amount.to_sat() ^ 1 << r.below(64)) }
        4 if no > 0 => { let k = r.below(no); let mut s = p.outputs[k].script_pubkey.to_bytes(); s.push(0x51); p.outputs[k].script_pubkey = s.into() }
        5 => { p.inputs.push(w.fieldy_v2_input(r, 5)); p.global.input_count += 1 }
        6 => { p.outputs.push(w.fieldy_v2_output(r, 5)); p.global.output_count += 1 }
        7 if ni > 0 => { p.inputs.pop(); p.global.input_count -= 1 }
        _ => p.global.fallback_lock_time = Some(bitcoin::absolute::LockTime::from_consensus(w.r_lock(r))),
    }
    dump::v2_psbt(&p)
}
fn edit_v0(w: &World, r: &mut Rng, d: &Value) -> Value {
    let mut p = build::v0_psbt(d).unwrap();
    let t = &mut p.unsigned_tx;
    let (ni, no) = (t.input.len(), t.output.len());
    match r.below(8) {
        0 => t.version.0 ^= 1 << r.below(32),
        1 if ni > 0 => { let k = r.below(ni); t.input[k].previous_output.txid = bitcoin::Txid::from_byte_array(r.arr32()) }
        2 if ni > 0 => { let k = r.below(ni); t.input[k].previous_output.vout ^= 1 << r.below(32) }
        3 if ni > 0 => { let k = r.below(ni); t.input[k].sequence.0 ^= 1 << r.below(32) }
        4 if no > 0 => { let k = r.below(no); t.output[k].value = bitcoin::Amount::from_sat(t.output[k].value.to_sat() ^ 1 << r.below(64)) }
        5 if no > 0 => { let k = r.below(no); t.output[k].script_pubkey = w.r_script(r) }
        6 => { t.input.push(bitcoin::TxIn { previous_output: bitcoin::OutPoint { txid: w.r_txid(r), vout: 1 }, ..Default::default() }); p.inputs.push(Default::default()) }
        _ => t.lock_time = bitcoin::absolute::LockTime::from_consensus(w.r_lock(r)),
    }
    dump::v0_psbt(&p)
}
pub fn gen(w: &World, r: &mut Rng, v: u64) -> Value {
    let dens = r.range(5, 45);
    let base = if v == 2 {
        let mut p = w.fieldy_v2(r, 3, dens);
        // Most of the time one kind of lock time, so that it is determined.
        if r.chance(85) { let h = r.chance(50); for i in p.inputs.iter_mut() { if h { i.min_time = None } else { i.min_height = None } } }
        dump::v2_psbt(&p)
    } else { dump::v0_psbt(&w.fieldy_v0(r, 3, dens)) };
    let n = r.range(2, 3);
    let conflict = if r.chance(35) { r.range(5, 60) } else { 0 };
    // Lock requirements are what the transaction is made of; keep them equal unless this case is about them.
    let locks = r.chance(25);
    let mut ps: Vec<Value> = (0..n).map(|_| { let keep = r.range(20, 100); sub(w, r, &base, keep, conflict, v == 0) }).collect();
    if v == 2 && !locks {
        for p in ps.iter_mut() {
            for (m, b) in [("g", &base["g"])].into_iter().map(|(m, b)| (m.to_string(), b)) { restore(&mut p[m.as_str()], b) }
            for k in 0..base["i"].as_array().unwrap().len() { let b = base["i"][k].clone(); restore(&mut p["i"][k], &b) }
        }
    }
    if r.chance(25) { let k = r.below(n); ps[k] = if v == 2 { edit_v2(w, r, &ps[k]) } else { edit_v0(w, r, &ps[k]) } }
    json!({ "v": v, "ps": ps })
}
fn restore(m: &mut Value, b: &Value) {
    let lk = |e: &Value| ["fallback", "mintime", "minheight"].contains(&e[0].as_str().unwrap());
    let a = m.as_array_mut().unwrap();
    a.retain(|e| !lk(e));
    for e in b.as_array().unwrap() { if lk(e) { a.push(e.clone()) } }
}
/// C11: two operands that share extended keys with related key sources.
pub fn c11_gen(w: &World, r: &mut Rng) -> Value {
    let v = 2 * r.below(2) as u64;
    let mut base = if v == 2 { dump::v2_psbt(&w.fieldy_v2(r, 1, 0)) } else { dump::v0_psbt(&w.fieldy_v0(r, 1, 0)) };
    if v == 2 { base = dump::v2_psbt(&{ let mut p = build::v2_psbt(&base).unwrap(); for i in p.inputs.iter_mut() { i.min_time = None } p }) }
    let mut ps = vec![base.clone(), base.clone()];
    for _ in 0..r.range(1, 3) {
        let x = hex(&w.r_xpub(r).encode());
        let long: Vec<u32> = (0..r.range(0, 6)).map(|_| *r.pick(&[0u32, 1, 0x8000_0000, 0x8000_002c, 0x0100_0000, u32::MAX])).collect();
        let mut other = match r.below(6) {
            0 => long.clone(),
            1 | 2 => long[r.below(long.len() + 1)..].to_vec(),
            3 => long[..r.below(long.len() + 1)].to_vec(),
            4 => { let a = r.below(long.len() + 1); let b = r.range(a, long.len()); long[a..b].to_vec() }
            _ => (0..r.range(0, 6)).map(|_| r.below(2) as u32).collect(),
        };
        if r.chance(10) && !other.is_empty() { let k = r.below(other.len()); other[k] ^= 1 }
        let fp = |r: &mut Rng| [1, 2, 3, r.below(2) as u8];
        let ks = |f: [u8; 4], p: &[u32]| { let mut v = f.to_vec(); for c in p { v.extend(c.to_le_bytes()) } hex(&v) };
        let (fa, fb) = (fp(r), fp(r));
        let (ka, kb) = (ks(fa, &long), ks(fb, &other));
        let flip = r.below(2);
        for (j, k) in [(flip, ka), (1 - flip, kb)] {
            let g = ps[j]["g"].as_array_mut().unwrap();
            if !g.iter().any(|e| e[0] == "xpub" && e[1] == x.as_str()) { g.push(json!(["xpub", x, k])) }
        }
    }
    json!({ "v": v, "ps": ps })
}
