//! C15, C26: whole sessions, several parties with copies of one v2 PSBT.
use bitcoin::sighash::SighashCache;
use bitcoin::{Amount, PublicKey, Sequence};
use psbt_v2::v2::{self, Constructor, Creator, Extractor, Modifiable, Signer, Updater};
use serde_json::{json, Value};

use crate::build;
use crate::dump;
use crate::ops::*;
use crate::p_fin::{self, spendj, How};
use crate::p_sign::{candidates, sign_step, utxo_of, valid_for};
use crate::sgen::{self, Opts};
use crate::util::{guard, hex, unhex, Rng};
use crate::world::{Spend, World};

/// A signature made by the signer role: step, input (0-based), key, signature.
type Made = (usize, usize, PublicKey, bitcoin::ecdsa::Signature);

fn idh(p: &v2::Psbt) -> Value {
    match guard(|| Updater::new(p.clone()).ok().map(|u| hex(&bitcoin::consensus::serialize(&u.id())))) { Ok(Some(s)) => json!(s), Ok(None) => json!(""), Err(m) => json!(format!("panic {}", m)) }
}
fn sgntx(p: &v2::Psbt) -> Value {
    match guard(|| Signer::new(p.clone()).ok().map(|s| txj(&s.unsigned_tx()))) { Ok(Some(t)) => t, Ok(None) => json!(""), Err(m) => json!(format!("panic {}", m)) }
}
fn wire(p: &v2::Psbt, mode: &str) -> Result<v2::Psbt, String> {
    use std::str::FromStr;
    match mode {
        "b64" => v2::Psbt::from_str(&p.to_string()).map_err(|e| disp(&e)),
        "json" => serde_json::from_str(&serde_json::to_string(p).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        _ => v2::Psbt::deserialize(&p.serialize()).map_err(|e| disp(&e)),
    }
}
fn build_roles(p: &v2::Psbt) -> Result<v2::Psbt, String> {
    let mut c = Creator::new().transaction_version(p.global.tx_version);
    if let Some(l) = p.global.fallback_lock_time { c = c.fallback_lock_time(l) }
    let mut c: Constructor<Modifiable> = c.constructor_modifiable();
    for i in &p.inputs { c = c.input(i.clone()) }
    for o in &p.outputs { c = c.output(o.clone()) }
    c.psbt().map_err(|e| disp(&e))
}

pub fn run(w: &World, c: &Value) -> Value {
    let (p, spends) = if c.get("sess").is_some() { let (p, s) = mk(w, &c["sess"]); (p, json!(s.iter().map(spendj).collect::<Vec<_>>())) }
        else { (build::v2_psbt(&c["p"]).expect("case"), c["spends"].clone()) };
    let mut r = Rng::new(17);
    let n = c["n"].as_u64().unwrap() as usize;
    let mut ps = vec![p.clone(); n];
    let mut made: Vec<Made> = vec![];
    let mut steps: Vec<Value> = vec![];
    for (no, op) in c["ops"].as_array().unwrap().iter().enumerate() {
        let name = op[0].as_str().unwrap();
        let a = op.get(1).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
        let x = ps[a].clone();
        let base = |res: &str| json!({ "op": name, "a": a + 1, "res": res, "x": dump::v2_psbt(&x) });
        let put = |r: Result<Result<v2::Psbt, String>, String>, ps: &mut Vec<v2::Psbt>| match r {
            Err(m) => { let mut j = base("panic"); j["panic"] = json!(m); j }
            Ok(Err(m)) => { let mut j = base("err"); j["err"] = json!(m); j }
            Ok(Ok(q)) => { let mut j = base("ok"); j["q"] = dump::v2_psbt(&q); ps[a] = q; j }
        };
        let mut j = match name {
            "build" => put(guard(|| build_roles(&x)), &mut ps),
            "seq" => {
                let k = op[2].as_u64().unwrap() as usize;
                let s = Sequence(u32::from_le_bytes(unhex(op[3].as_str().unwrap()).try_into().unwrap()));
                let mut j = put(guard(|| Updater::new(x.clone()).map_err(|e| disp(&e)).and_then(|u| u.set_sequence(s, k).map_err(|e| disp(&e))).map(|u| u.psbt())), &mut ps);
                j["k"] = json!(k + 1);
                j["s"] = op[3].clone();
                j
            }
            "share" => { let q = ps[a].clone(); for t in ps.iter_mut() { *t = q.clone() } let mut j = base("ok"); j["q"] = j["x"].clone(); j }
            "sign" => {
                let (mut rec, q) = sign_step(w, &x, &op[2]);
                if let Some(q) = q {
                    for (k, (i0, i1)) in x.inputs.iter().zip(&q.inputs).enumerate() {
                        for (pk, s) in &i1.partial_sigs { if i0.partial_sigs.get(pk) != Some(s) { made.push((no, k, *pk, *s)) } }
                    }
                    ps[a] = q;
                }
                rec["op"] = json!(name);
                rec["a"] = json!(a + 1);
                rec["x"] = rec["p"].clone();
                rec
            }
            "hand" => {
                // Taproot signatures, which other software makes.
                let mut q = x.clone();
                if let Some(sp) = mk_spends(w, c) { for (k, s) in sp.iter().enumerate() { if s.spk.is_p2tr() { p_fin::sign_input(w, &mut r, &mut q, k, s, How { key: 100, wrong: 0 }) } } }
                put(Ok(Ok(q)), &mut ps)
            }
            "comb" => {
                let b = op[2].as_u64().unwrap() as usize;
                let y = match wire(&ps[b], op[3].as_str().unwrap_or("")) { Ok(y) => y, Err(_) => ps[b].clone() };
                let mut j = put(guard(|| v2::combine(x.clone(), y.clone()).map_err(|e| disp(&e))), &mut ps);
                j["y"] = dump::v2_psbt(&ps[b]);
                if b == a { j["y"] = j["x"].clone() }
                j["b"] = json!(b + 1);
                j
            }
            "wire" => put(guard(|| wire(&x, op[2].as_str().unwrap_or(""))), &mut ps),
            "fin" => {
                let (mut j, q) = p_fin::fin_step(w, &x, &spends);
                if let Some(q) = q { ps[a] = q }
                j["op"] = json!(name);
                j["a"] = json!(a + 1);
                j["x"] = j["p"].clone();
                j
            }
            "force" => {
                let mut q = x.clone();
                for i in q.inputs.iter_mut() { i.final_script_sig.get_or_insert_with(Default::default); i.final_script_witness.get_or_insert_with(Default::default); }
                put(Ok(Ok(q)), &mut ps)
            }
            "ext" => match guard(|| Extractor::new(x.clone()).map_err(|e| disp(&e)).and_then(|e| e.extract_tx_unchecked_fee_rate().map_err(|e| disp(&e)))) {
                Err(m) => { let mut j = base("panic"); j["panic"] = json!(m); j }
                Ok(Err(_)) => base("err"),
                Ok(Ok(t)) => {
                    let mut j = base("ok");
                    j["tx"] = txj(&t);
                    j["scr"] = sigsj(&t);
                    let mut cache = SighashCache::new(&t);
                    let rows: Vec<Value> = made.iter().map(|(no, k, pk, s)| {
                        let i = &p.inputs[*k];
                        let u = utxo_of(i);
                        let codes = candidates(u.as_ref().map(|u| &u.script_pubkey), i.redeem_script.as_ref(), i.witness_script.as_ref());
                        let v = if *k < t.input.len() { valid_for(w, &mut cache, *k, &codes, u.map(|u| u.value).unwrap_or(Amount::ZERO), pk, s) } else { vec![] };
                        json!([no + 1, k + 1, hex(&pk.to_bytes()), v])
                    }).collect();
                    j["made"] = json!(rows);
                    j
                }
            },
            o => panic!("HARNESS op {}", o),
        };
        j["id"] = idh(&ps[a]);
        j["sgntx"] = sgntx(&ps[a]);
        steps.push(j);
    }
    json!({ "p": dump::v2_psbt(&p), "tab": nw_tab_v2(&[&p]), "spends": spends, "steps": steps, "id": idh(&p), "exp": c.get("exp").cloned().unwrap_or(json!("")) })
}
/// The spends of the case, where they are known to this program (taproot only).
fn mk_spends(w: &World, c: &Value) -> Option<Vec<Spend>> {
    if c["spends"].as_array().map_or(true, |s| s.is_empty()) { return None }
    c.get("hand").map(|h| {
        let mut r = Rng::new(h.as_u64().unwrap());
        session(w, &mut r).1
    })
}

/// {"ver", "fallback", "ins": [{"kind", "ty", "seq", "lock"}]}
fn mk(w: &World, c: &Value) -> (v2::Psbt, Vec<Spend>) {
    let mut r = Rng::new(21);
    let (mut p, _) = sgen::ceremony(w, &mut r, 0, 2, &sgen::PLAIN);
    p.global.tx_modifiable_flags = 0;
    p.global.tx_version.0 = 2;
    let le = |v: &Value| u32::from_le_bytes(unhex(v.as_str().unwrap()).try_into().unwrap());
    p.global.fallback_lock_time = if c["fallback"] == "" { None } else { Some(bitcoin::absolute::LockTime::from_consensus(le(&c["fallback"]))) };
    let mut sp = vec![];
    for (n, c) in c["ins"].as_array().unwrap().iter().enumerate() {
        let kind: &'static str = crate::world::ECDSA_KINDS.iter().copied().find(|k| *k == c["kind"].as_str().unwrap()).unwrap();
        let s = w.spend_fixed(&mut r, kind, &[0, 1, 2, 3, 4, 5, 6, 7, 8], 100, 10, 32);
        let mut i = sgen::input(w, &mut r, &s, &sgen::PLAIN);
        i.bip32_derivations.clear();
        for &j in &s.keys { i.bip32_derivations.insert(w.keys[j].pk.inner, sgen::source(w, j, 0)); }
        i.sequence = if c["seq"] == "" { None } else { Some(Sequence(le(&c["seq"]))) };
        i.sighash_type = if c["ty"] == "" { None } else { Some(psbt_v2::PsbtSighashType::from_u32(le(&c["ty"]))) };
        i.min_height = None;
        i.min_time = None;
        for l in c["lock"].as_str().unwrap().chars() {
            match l { 'h' => i.min_height = bitcoin::absolute::Height::from_consensus(100 + n as u32).ok(), _ => i.min_time = bitcoin::absolute::Time::from_consensus(1_600_000_000 + n as u32).ok() }
        }
        p.inputs.push(i);
        sp.push(s);
    }
    p.global.input_count = p.inputs.len();
    (p, sp)
}

/// PSBT and spends of a random session; also used to know the taproot keys when the case is run.
fn session(w: &World, r: &mut Rng) -> (v2::Psbt, Vec<Spend>) {
    let n = *r.pick(&[1usize, 1, 2, 2, 3]);
    let nout = r.range(1, 3);
    let tap = *r.pick(&[0, 0, 20]);
    let (mut p, sp) = sgen::ceremony(w, r, n, nout, &Opts { tap, extra: 8, hashty: 35, list: 97, unlock: 4, ..sgen::PLAIN });
    // No final scripts or stray signatures at the start.
    for i in p.inputs.iter_mut() { i.final_script_sig = None; i.final_script_witness = None; i.partial_sigs.clear() }
    (p, sp)
}
pub fn mode(r: &mut Rng) -> &'static str { r.pick(&["", "bytes", "b64", "json"]) }
pub fn r_master(r: &mut Rng, n: usize) -> Value { let t = *r.pick(&["xpriv", "bset", "hset"]); json!({ "t": t, "ms": [[n % 3, 0]], "ks": [] }) }
pub fn c26_gen(w: &World, r: &mut Rng) -> Value {
    let hand = r.next() >> 12;
    let (p, sp) = session(w, &mut Rng::new(hand));
    let n = r.range(2, 4);
    let mut ops = vec![];
    for _ in 0..r.range(2, 9) {
        let a = r.below(n);
        ops.push(match r.below(10) {
            0..=3 => json!(["sign", a, if r.chance(80) { r_master(r, a) } else { sgen::r_prov(r) }]),
            4..=6 => json!(["comb", a, r.below(n), mode(r)]),
            7 => json!(["wire", a, mode(r)]),
            8 => json!(["hand", a]),
            _ => json!(["fin", a]),
        });
    }
    // Everybody's signatures gathered, or not.
    if r.chance(75) {
        for a in 0..n { if r.chance(80) { ops.push(json!(["sign", a, r_master(r, a)])) } }
        ops.push(json!(["hand", 0]));
        for b in 1..n { ops.push(json!(["comb", 0, b, mode(r)])) }
    }
    let a = if r.chance(80) { 0 } else { r.below(n) };
    ops.push(json!(["fin", a]));
    if r.chance(50) { ops.push(json!(["wire", a, mode(r)])) }
    ops.push(json!(["ext", a]));
    json!({ "p": dump::v2_psbt(&p), "spends": sp.iter().map(spendj).collect::<Vec<_>>(), "n": n, "ops": ops, "hand": hand })
}
pub fn c15_gen(w: &World, r: &mut Rng) -> Value {
    let hand = r.next() >> 12;
    let (mut p, sp) = if r.chance(70) { session(w, &mut Rng::new(hand)) } else { let d = r.range(0, 30); (w.fieldy_v2(r, 3, d), vec![]) };
    if sp.is_empty() {
        // Anything, as long as there is a lock time most of the time.
        if r.chance(90) { let h = r.chance(50); for i in p.inputs.iter_mut() { if h { i.min_time = None } else { i.min_height = None } } }
    } else if r.chance(50) {
        // Lock requirements of the inputs and the fallback, of one kind.
        let h = p.inputs.iter().all(|i| i.min_time.is_none());
        for i in p.inputs.iter_mut() { if r.chance(40) {
            if h { i.min_height.get_or_insert(bitcoin::absolute::Height::from_consensus(w.r_height(r)).unwrap()); }
            else { i.min_time.get_or_insert(bitcoin::absolute::Time::from_consensus(w.r_time(r)).unwrap()); }
        } }
        if !h { for i in p.inputs.iter_mut() { if i.min_time.is_none() { i.min_height = None } } }
    }
    let n = r.range(1, 2);
    let mut ops = vec![];
    if r.chance(50) { ops.push(json!(["build", 0])) }
    for _ in 0..r.below(3) { ops.push(json!(["seq", 0, if r.chance(92) { r.below(p.inputs.len().max(1)) } else { r.below(6) }, hex(&w.r_seq(r).to_le_bytes())])) }
    ops.push(json!(["share", 0]));
    for _ in 0..r.range(1, 5) {
        let a = r.below(n);
        ops.push(match r.below(6) {
            0..=2 => json!(["sign", a, sgen::r_prov(r)]),
            3 => json!(["comb", a, r.below(n), mode(r)]),
            _ => json!(["wire", a, mode(r)]),
        });
    }
    for m in 0..3 { ops.push(json!(["sign", 0, r_master(r, m)])) }
    ops.push(json!(["hand", 0]));
    for b in 1..n { ops.push(json!(["comb", 0, b, mode(r)])) }
    ops.push(json!(["fin", 0]));
    if r.chance(50) { ops.push(json!(["wire", 0, mode(r)])) }
    if r.chance(40) { ops.push(json!(["force", 0])) }
    ops.push(json!(["ext", 0]));
    json!({ "p": dump::v2_psbt(&p), "spends": sp.iter().map(spendj).collect::<Vec<_>>(), "n": n, "ops": ops, "hand": hand })
}
#[allow(unused)]
fn unused() { let _ = Sequence::MAX; }
