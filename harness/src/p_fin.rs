//! C16 v2 finalizer, C22 v0 finalizer, C17 v2 extractor.
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::Message;
use bitcoin::sighash::{EcdsaSighashType, SighashCache, TapSighashType};
use bitcoin::{ecdsa, taproot, ScriptBuf, TxOut, Witness};
use psbt_v2::v0;
use psbt_v2::v2::{self, Extractor, Finalizer};
use serde_json::{json, Value};

use crate::build;
use crate::dump;
use crate::inv;
use crate::ops::*;
use crate::oracle::{self, InV};
use crate::p_sign::{digest, utxo_of};
use crate::sgen::{self, Opts};
use crate::util::{guard, hex, Rng};
use crate::world::{Spend, World};

pub fn spendj(s: &Spend) -> Value {
    let h = |x: &Option<ScriptBuf>| x.as_ref().map(|s| hex(s.as_bytes())).unwrap_or_default();
    json!({ "kind": s.kind, "spk": hex(s.spk.as_bytes()), "redeem": h(&s.redeem), "wscript": h(&s.wscript), "segwit": s.segwit, "pol": s.policy,
        "sane": s.kind != "wshmall",
        "leaves": s.leaves.iter().map(|(l, s)| json!([hex(&l.to_byte_array()), hex(s.as_bytes())])).collect::<Vec<_>>() })
}
/// How to sign: percentage of the keys that sign, of signatures that are wrong in some way.
#[derive(Clone, Copy)]
pub struct How { pub key: usize, pub wrong: usize }

pub fn sign_input(w: &World, r: &mut Rng, p: &mut v2::Psbt, k: usize, s: &Spend, how: How) {
    let Some(tx) = own_tx(p) else { return };
    let mut cache = SighashCache::new(&tx);
    let utxos: Vec<Option<TxOut>> = p.inputs.iter().map(utxo_of).collect();
    let Some(u) = utxos[k].clone() else { return };
    let i = &mut p.inputs[k];
    if s.spk.is_p2tr() {
        let ty = i.sighash_type.and_then(|t| t.taproot_hash_ty().ok()).unwrap_or(TapSighashType::Default);
        let dummy = |t| taproot::Signature { signature: w.secp.sign_schnorr_no_aux_rand(&Message::from_digest([1; 32]), &w.tapkey_tweaked(0, None)), sighash_type: t };
        let mut one = |r: &mut Rng, leaf: Option<&ScriptBuf>, kp: &bitcoin::secp256k1::Keypair| -> Option<taproot::Signature> {
            let ty = if r.chance(how.wrong / 2) { TapSighashType::None } else { ty };
            let mut d = oracle::tap_digest(&mut cache, k, &utxos, leaf, &dummy(ty))?;
            if r.chance(how.wrong) { d[r.below(32)] ^= 1 }
            Some(taproot::Signature { signature: w.secp.sign_schnorr_no_aux_rand(&Message::from_digest(d), kp), sighash_type: ty })
        };
        if r.chance(how.key / 2) {
            i.tap_key_sig = one(r, None, &w.tapkey_tweaked(s.keys[0], s.tap.as_ref().and_then(|t| t.merkle_root())));
        }
        for ((lh, sc), (_, ks)) in s.leaves.iter().zip(&s.leaf_keys) {
            for &j in ks {
                if !r.chance(how.key) { continue }
                let kp = bitcoin::secp256k1::Keypair::from_secret_key(&w.secp, &w.keys[j].sk.inner);
                if let Some(sig) = one(r, Some(sc), &kp) { i.tap_script_sigs.insert((w.xonly(j), *lh), sig); }
            }
        }
        return;
    }
    let (algo, code) = if s.segwit {
        ("v0", s.wscript.clone().or_else(|| s.redeem.as_ref().unwrap_or(&s.spk).p2wpkh_script_code()).unwrap_or_default())
    } else { ("legacy", s.redeem.clone().unwrap_or(s.spk.clone())) };
    let ty = i.sighash_type.and_then(|t| t.ecdsa_hash_ty().ok()).unwrap_or(EcdsaSighashType::All);
    for &j in &s.keys {
        if !r.chance(how.key) { continue }
        let mut ty = ty;
        if r.chance(how.wrong / 3) { ty = *r.pick(&[EcdsaSighashType::All, EcdsaSighashType::None, EcdsaSighashType::SinglePlusAnyoneCanPay]) }
        let Some(mut d) = digest(&mut cache, k, algo, &code, u.value, ty as u32) else { continue };
        if r.chance(how.wrong) { d[r.below(32)] ^= 1 }
        let signature = w.secp.sign_ecdsa_low_r(&Message::from_digest(d), &w.keys[j].sk.inner);
        let mut pk = w.keys[j].pk;
        if r.chance(how.wrong / 4) { pk.compressed = false }
        i.partial_sigs.insert(pk, ecdsa::Signature { signature, sighash_type: ty });
    }
}

fn gen_fin(w: &World, r: &mut Rng) -> (v2::Psbt, Vec<Spend>) {
    let n = *r.pick(&[0usize, 1, 1, 1, 2, 2, 3]);
    let nout = r.range(0, 2);
    let dmg = *r.pick(&[0, 0, 0, 15, 40]);
    let unlock = *r.pick(&[0, 0, 40]);
    let list = *r.pick(&[100, 100, 85]);
    let (mut p, sp) = sgen::ceremony(w, r, n, nout, &Opts { tap: 14, odd: 3, damage: dmg, extra: 20, hashty: 30, list, oddty: 1, unlock, ..sgen::PLAIN });
    if r.chance(2) { for i in p.inputs.iter_mut() { i.min_height = None; i.min_time = None } }
    // Damaged scripts and UTXOs are known to the signer or not.
    let how = How { key: *r.pick(&[100, 100, 80]), wrong: *r.pick(&[0, 0, 0, 12]) };
    for (k, s) in sp.iter().enumerate() { sign_input(w, r, &mut p, k, s, how) }
    if r.chance(6) && n > 0 { let k = r.below(n); let d = r.below(6); tamper(w, r, &mut p, k, d) }
    // Some inputs are final already, or claim to be.
    if r.chance(10) && n > 0 {
        let own = guard(|| v2::Finalizer::new(p.clone()).ok().and_then(|f| f.finalize(&w.secp).ok())).ok().flatten();
        for k in 0..n {
            if !r.chance(60) { continue }
            let own = own.as_ref().map(|q| q.inputs[k].clone());
            let i = &mut p.inputs[k];
            match own {
                Some(o) if r.chance(60) => {
                    i.final_script_sig = o.final_script_sig; i.final_script_witness = o.final_script_witness;
                    if r.chance(30) { i.partial_sigs.clear(); i.tap_key_sig = None; i.tap_script_sigs.clear() }
                    if r.chance(20) { i.redeem_script = None; i.witness_script = None; i.bip32_derivations.clear() }
                }
                _ => {
                    if r.chance(60) { i.final_script_sig = Some(w.r_script(r)) }
                    if r.chance(60) { i.final_script_witness = Some(w.r_witness(r, 0)) }
                }
            }
        }
    }
    (p, sp)
}
/// Changes after signing.
fn tamper(w: &World, r: &mut Rng, p: &mut v2::Psbt, k: usize, d: usize) {
    match d {
        0 => p.inputs[k].sequence = Some(bitcoin::Sequence(w.r_seq(r))),
        1 => p.global.fallback_lock_time = Some(bitcoin::absolute::LockTime::from_consensus(w.r_lock(r))),
        2 => if let Some(o) = p.outputs.get_mut(0) { o.amount = bitcoin::Amount::from_sat(w.r_amount(r) >> 1) },
        3 => p.global.tx_version.0 ^= 1,
        4 => if let Some(u) = p.inputs[k].witness_utxo.as_mut() { u.value += bitcoin::Amount::from_sat(1) },
        _ => { let m = p.inputs.len(); p.inputs.swap(0, m - 1) }
    }
}
pub fn c16_gen(w: &World, r: &mut Rng) -> Value {
    let (p, sp) = gen_fin(w, r);
    json!({ "p": dump::v2_psbt(&p), "spends": sp.iter().map(spendj).collect::<Vec<_>>() })
}

/// A PSBT prescribed by the design model.
fn mk(w: &World, c: &Value) -> (v2::Psbt, Vec<Spend>) {
    let mut r = Rng::new(3);
    let (mut p, _) = sgen::ceremony(w, &mut r, 0, 1, &sgen::PLAIN);
    p.global.fallback_lock_time = None;
    let le = |f: &str| u32::from_le_bytes(crate::util::unhex(c[f].as_str().unwrap()).try_into().unwrap());
    let ks = [0usize, 1, 2, 3, 4, 5, 6, 7, 8];
    let kind: &'static str = crate::world::ECDSA_KINDS.iter().chain(crate::world::TAP_KINDS).copied().find(|k| *k == c["kind"].as_str().unwrap()).unwrap();
    let s = w.spend_fixed(&mut r, kind, &ks, le("after"), le("older"), if c["pre"] == "long" { 33 } else { 32 });
    let mut i = sgen::input(w, &mut r, &s, &sgen::PLAIN);
    let set = |f: &str| c[f].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>();
    i.bip32_derivations.clear();
    for &j in &s.keys { i.bip32_derivations.insert(w.keys[j].pk.inner, sgen::source(w, j, 0)); }
    i.ripemd160_preimages.clear(); i.sha256_preimages.clear(); i.hash160_preimages.clear(); i.hash256_preimages.clear();
    if c["pre"] != "no" { for (f, v) in &s.pre { build::set_v2_input(&mut i, f, &pre_key(f, v), v).unwrap() } }
    i.sequence = if c["seq"] == "" { None } else { Some(bitcoin::Sequence(le("seq"))) };
    i.min_height = None;
    i.min_time = None;
    p.global.tx_version.0 = le("ver") as i32;
    let l = bitcoin::absolute::LockTime::from_consensus(le("lock"));
    match c["src"].as_str().unwrap() {
        "fallback" => p.global.fallback_lock_time = Some(l),
        _ => match l { bitcoin::absolute::LockTime::Blocks(h) => i.min_height = Some(h), bitcoin::absolute::LockTime::Seconds(t) => i.min_time = Some(t) },
    }
    p.inputs.push(i);
    p.global.input_count = 1;
    for j in set("sigs") {
        let mut one = s.clone();
        one.keys = vec![s.keys[j - 1]];
        sign_input(w, &mut r, &mut p, 0, &one, How { key: 100, wrong: 0 });
    }
    for j in set("bad") {
        let mut one = s.clone();
        one.keys = vec![s.keys[j - 1]];
        sign_input(w, &mut r, &mut p, 0, &one, How { key: 100, wrong: 0 });
        let k = w.keys[s.keys[j - 1]].pk;
        let sg = p.inputs[0].partial_sigs.get_mut(&k).unwrap();
        sg.signature = w.secp.sign_ecdsa_low_r(&Message::from_digest([j as u8; 32]), &w.keys[s.keys[j - 1]].sk.inner);
    }
    if s.spk.is_p2tr() { mk_tap(w, c, &mut r, &mut p, &s) }
    (p, vec![s])
}
/// What a taproot input knows and has, as the model says.
fn mk_tap(w: &World, c: &Value, r: &mut Rng, p: &mut v2::Psbt, s: &Spend) {
    let sure = How { key: 200, wrong: 0 };
    p.inputs[0].sighash_type = None;
    sign_input(w, r, p, 0, s, sure);
    let i = &mut p.inputs[0];
    let num = |x: &Value| x.as_u64().unwrap() as usize;
    let known: Vec<&ScriptBuf> = c["leaves"].as_array().unwrap().iter().map(|x| &s.leaves[num(x) - 1].1).collect();
    i.tap_scripts.clear();
    if let Some(si) = &s.tap {
        for (x, lv) in si.script_map().keys() { if known.contains(&x) { i.tap_scripts.insert(si.control_block(&(x.clone(), *lv)).unwrap(), (x.clone(), *lv)); } }
    }
    let flip = |t: &mut taproot::Signature| { let mut b = t.signature.serialize(); b[40] ^= 1; t.signature = bitcoin::secp256k1::schnorr::Signature::from_slice(&b).unwrap() };
    match c["tap"].as_str().unwrap() { "no" => i.tap_key_sig = None, "bad" => flip(i.tap_key_sig.as_mut().unwrap()), _ => () }
    let ids = |f: &str| -> Vec<_> { c[f].as_array().unwrap().iter().map(|x| (w.xonly(num(&x[1])), s.leaves[num(&x[0]) - 1].0)).collect() };
    let (good, bad) = (ids("lsigs"), ids("lbad"));
    i.tap_script_sigs.retain(|k, v| { if bad.contains(k) { flip(v) } good.contains(k) || bad.contains(k) });
}
pub fn pre_key(f: &str, v: &[u8]) -> Vec<u8> {
    use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d};
    match f { "sha256" => sha256::Hash::hash(v).to_byte_array().to_vec(), "hash160" => hash160::Hash::hash(v).to_byte_array().to_vec(),
        "ripemd" => ripemd160::Hash::hash(v).to_byte_array().to_vec(), _ => sha256d::Hash::hash(v).to_byte_array().to_vec() }
}
pub fn c16_case(w: &World, c: &Value) -> (v2::Psbt, Value) {
    if c.get("kind").is_some() {
        let (p, s) = mk(w, c);
        (p, json!(s.iter().map(spendj).collect::<Vec<_>>()))
    } else { (build::v2_psbt(&c["p"]).expect("case"), c["spends"].clone()) }
}
pub fn views_v2(p: &v2::Psbt, q: Option<&v2::Psbt>) -> Vec<InV> {
    p.inputs.iter().enumerate().map(|(k, i)| {
        let f = q.and_then(|q| q.inputs.get(k)).map(|j| (j.final_script_sig.clone().unwrap_or_default(), j.final_script_witness.clone().unwrap_or_default()));
        inv!(*i, utxo_of(i), f.unwrap_or_default())
    }).collect()
}
pub fn c16_run(w: &World, c: &Value) -> Value {
    let (p, spends) = c16_case(w, c);
    fin_step(w, &p, &spends).0
}
pub fn fin_step(w: &World, p: &v2::Psbt, spends: &Value) -> (Value, Option<v2::Psbt>) {
    let mut post = None;
    let mut rec = json!({ "p": dump::v2_psbt(p), "tab": nw_tab_v2(&[p]), "spends": spends });
    let m = rec.as_object_mut().unwrap();
    let f = match guard(|| Finalizer::new(p.clone()).map_err(|e| { disp(&e); })) {
        Err(e) => { m.insert("new".into(), json!("panic")); m.insert("panic".into(), json!(e)); return (rec, None) }
        Ok(Err(())) => { m.insert("new".into(), json!("err")); m.insert("res".into(), json!("none")); return (rec, None) }
        Ok(Ok(f)) => { m.insert("new".into(), json!("ok")); f }
    };
    let tx = own_tx(p);
    match guard(|| f.finalize(&w.secp).map_err(|e| { disp(&e); })) {
        Err(e) => { m.insert("res".into(), json!("panic")); m.insert("panic".into(), json!(e)); }
        Ok(Err(())) => {
            m.insert("res".into(), json!("err"));
            if let Some(tx) = tx { m.insert("T".into(), oracle::tables(w, &tx, &views_v2(p, None))); }
        }
        Ok(Ok(q)) => {
            m.insert("res".into(), json!("ok"));
            m.insert("q".into(), dump::v2_psbt(&q));
            if let Some(tx) = tx { m.insert("T".into(), oracle::tables(w, &tx, &views_v2(p, Some(&q)))); }
            // The result is finalized, so it can be checked, serialized and extracted.
            m.insert("check".into(), json!(matches!(guard(|| q.interpreter_check(&w.secp).is_ok()), Ok(true))));
            m.insert("wire".into(), json!(matches!(guard(|| v2::Psbt::deserialize(&q.serialize()).map(|x| x == q).unwrap_or(false)), Ok(true))));
            if let Ok(Some(t)) = guard(|| Extractor::new(q.clone()).ok().and_then(|e| e.extract_tx_unchecked_fee_rate().ok())) {
                m.insert("ext".into(), json!({ "tx": txj(&t), "sigs": sigsj(&t) }));
            }
            post = Some(q);
        }
    }
    (rec, post)
}

// ---- C22: v0 ---------------------------------------------------------------------------------
pub fn utxo0(p: &v0::Psbt, k: usize) -> Option<TxOut> {
    let i = &p.inputs[k];
    i.witness_utxo.clone().or_else(|| i.non_witness_utxo.as_ref().and_then(|t| t.output.get(p.unsigned_tx.input[k].previous_output.vout as usize).cloned()))
}
pub fn nw_tab_v0(ps: &[&v0::Psbt]) -> Value {
    let mut seen = std::collections::BTreeMap::new();
    for p in ps { for i in &p.inputs { if let Some(t) = &i.non_witness_utxo { seen.insert(hex(&bitcoin::consensus::serialize(t)), outs(t)); } } }
    json!(seen.into_iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>())
}
pub fn views_v0(p: &v0::Psbt, q: &v0::Psbt) -> Vec<InV> {
    (0..p.inputs.len()).map(|k| {
        let f = q.inputs.get(k).map(|j| (j.final_script_sig.clone().unwrap_or_default(), j.final_script_witness.clone().unwrap_or_default()));
        inv!(p.inputs[k], utxo0(p, k), f.unwrap_or_default())
    }).collect()
}
pub const FIN0: &[&str] = &["fin", "mall", "inp", "inpmall", "old", "oldmall"];
pub fn c22_gen(w: &World, r: &mut Rng) -> Value {
    let (p, sp) = loop { let (p, sp) = gen_fin(w, r); if own_lock(&p).is_some() { break (p, sp) } };
    let mut q = sgen::to_v0(&p).unwrap();
    // Not everybody knows what the other inputs spend.
    if r.chance(10) && !q.inputs.is_empty() { let k = r.below(q.inputs.len()); q.inputs[k].witness_utxo = None; q.inputs[k].non_witness_utxo = None }
    let n = q.inputs.len();
    json!({ "p": dump::v0_psbt(&q), "spends": sp.iter().map(spendj).collect::<Vec<_>>(), "op": *r.pick(FIN0), "k": if r.chance(90) { r.below(n.max(1)) } else { n + r.below(2) } })
}
fn err_idx(e: &v0::miniscript::Error) -> Value {
    use v0::miniscript::Error::*;
    disp(e);
    match e { InputError(x, k) => { disp(x); json!(k + 1) } InputIdxOutofBounds { index, .. } => json!(index + 1), _ => json!(0) }
}
pub fn step0(w: &World, p: &v0::Psbt, op: &str, k: usize, consume: bool) -> Value {
    use v0::miniscript::PsbtExt;
    let s = &w.secp;
    // (errors, psbt afterwards)
    #[allow(deprecated)]
    let res = guard(|| {
        let mut q = p.clone();
        let one = |e: v0::miniscript::Error| vec![err_idx(&e)];
        let many = |es: Vec<v0::miniscript::Error>| es.iter().map(err_idx).collect::<Vec<_>>();
        if consume {
            match op {
                "fin" => q.finalize(s).map_err(|(q, e)| (q, many(e))),
                "mall" => q.finalize_mall(s).map_err(|(q, e)| (q, many(e))),
                "inp" => q.finalize_inp(s, k).map_err(|(q, e)| (q, one(e))),
                "inpmall" => q.finalize_inp_mall(s, k).map_err(|(q, e)| (q, one(e))),
                "old" => { match v0::miniscript::finalize(&mut q, s) { Ok(()) => Ok(q), Err(e) => { let e = one(e); Err((q, e)) } } }
                _ => { match v0::miniscript::finalize_mall(&mut q, s) { Ok(()) => Ok(q), Err(e) => { let e = one(e); Err((q, e)) } } }
            }
        } else {
            let e = match op {
                "fin" => q.finalize_mut(s).map_err(many),
                "mall" => q.finalize_mall_mut(s).map_err(many),
                "inp" => q.finalize_inp_mut(s, k).map_err(one),
                "inpmall" => q.finalize_inp_mall_mut(s, k).map_err(one),
                "old" => v0::miniscript::finalize(&mut q, s).map_err(one),
                _ => v0::miniscript::finalize_mall(&mut q, s).map_err(one),
            };
            match e { Ok(()) => Ok(q), Err(e) => Err((q, e)) }
        }
    });
    let (q, errs, res) = match res {
        Err(m) => return json!({ "res": "panic", "panic": m }),
        Ok(Ok(q)) => (q, vec![], "ok"),
        Ok(Err((q, e))) => (q, e, "err"),
    };
    let ext = match guard(|| q.extract(s).map_err(|e| { err_idx(&e); })) {
        Err(m) => json!({ "st": "panic", "panic": m }),
        Ok(Err(())) => json!({ "st": "err" }),
        Ok(Ok(t)) => json!({ "st": "ok", "tx": txj(&t), "sigs": sigsj(&t) }),
    };
    json!({ "res": res, "errs": errs, "q": dump::v0_psbt(&q), "ext": ext, "T": oracle::tables(w, &p.unsigned_tx, &views_v0(p, &q)),
        "check": matches!(guard(|| v0::miniscript::interpreter_check(&q, s).is_ok()), Ok(true)) })
}
pub fn c22_run(w: &World, c: &Value) -> Value {
    let (p, spends) = if c.get("kind").is_some() {
        let (p, s) = mk(w, c);
        (sgen::to_v0(&p).expect("lock"), json!(s.iter().map(spendj).collect::<Vec<_>>()))
    } else { (build::v0_psbt(&c["p"]).expect("case"), c["spends"].clone()) };
    let op = c.get("op").and_then(|x| x.as_str()).unwrap_or("fin");
    let k = c.get("k").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
    json!({ "p": dump::v0_psbt(&p), "tab": nw_tab_v0(&[&p]), "tx": txj(&p.unsigned_tx), "spends": spends, "op": op, "k": k + 1,
        "steps": [step0(w, &p, op, k, false), step0(w, &p, op, k, true)] })
}
