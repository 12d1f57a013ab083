//! C20 v0 signer checks, C21 v0 signing.
use bitcoin::hashes::Hash;
use bitcoin::key::TapTweak;
use bitcoin::secp256k1::Message;
use bitcoin::sighash::{Prevouts, SighashCache, TapSighashType};
use bitcoin::taproot::{LeafVersion, TapLeafHash};
use bitcoin::{Amount, ScriptBuf, Transaction, TxOut, XOnlyPublicKey};
use psbt_v2::v0::bitcoin as v0b;
use psbt_v2::v0::miniscript::{PsbtExt, PsbtSighashMsg};
use psbt_v2::{v0, v2, PsbtSighashType};
use serde_json::{json, Value};

use crate::build;
use crate::dump;
use crate::ops::*;
use crate::p_fin::{nw_tab_v0, utxo0};
use crate::p_sign::{candidates, digest, mk, valid_for};
use crate::sgen::{self, Opts};
use crate::util::{guard, hex, unhex, Rng};
use crate::with_prov;
use crate::world::World;

fn case_psbt(w: &World, c: &Value) -> v0::Psbt {
    let mut p = if c.get("mk").is_some() { sgen::to_v0(&mk(w, &c["mk"])).expect("HARNESS lock") } else { build::v0_psbt(&c["p"]).expect("HARNESS case") };
    // A PSBT whose lists do not match its transaction.
    match c["odd"].as_i64().unwrap_or(0) {
        1 => p.inputs.push(p.inputs.last().cloned().unwrap_or_default()),
        -1 => { p.inputs.pop(); }
        2 => { p.unsigned_tx.input.pop(); }
        3 => { p.unsigned_tx.output.pop(); p.outputs.clear(); }
        _ => (),
    }
    p
}
fn is_odd(c: &Value) -> bool { c["odd"].as_i64().unwrap_or(0) != 0 }

pub fn c20_run(w: &World, c: &Value) -> Value {
    use v0::SignerChecksError as E;
    let p = case_psbt(w, c);
    let res = guard(|| p.signer_checks().map_err(|e| { disp(&e); e }));
    let (res, panic) = match res {
        Err(m) => ("panic", m),
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => (match e {
            E::NonWitnessSig => "NonWitnessSig",
            E::NonWitnessUtxoTxidMismatch => "NonWitnessUtxoTxidMismatch",
            E::RedeemScriptMismatch => "RedeemScriptMismatch",
            E::MissingTxOut => "MissingTxOut",
            E::WitnessScriptMismatchWsh => "WitnessScriptMismatchWsh",
            E::WitnessScriptMismatchShWsh => "WitnessScriptMismatchShWsh",
            _ => "other",
        }, String::new()),
    };
    let mut ht = vec![];
    let mut ids = vec![];
    for i in &p.inputs {
        for s in [&i.redeem_script, &i.witness_script].into_iter().flatten() {
            let row = json!([hex(s.as_bytes()), { "sh": hex(own_p2sh(s).as_bytes()), "wsh": hex(own_p2wsh(s).as_bytes()) }]);
            if !ht.contains(&row) { ht.push(row) }
        }
        if let Some(t) = &i.non_witness_utxo {
            let row = json!([hex(&bitcoin::consensus::serialize(t)), hex(bitcoin::hashes::sha256d::Hash::hash(&dump::tx_nowit(t)).as_byte_array())]);
            if !ids.contains(&row) { ids.push(row) }
        }
    }
    json!({ "p": dump::v0_psbt(&p), "tx": txj(&p.unsigned_tx), "tab": nw_tab_v0(&[&p]), "ht": ht, "ids": ids, "res": res, "panic": panic, "odd": is_odd(c) })
}
fn own_p2sh(s: &ScriptBuf) -> ScriptBuf {
    let mut v = vec![0xa9, 0x14];
    v.extend(bitcoin::hashes::hash160::Hash::hash(s.as_bytes()).as_byte_array());
    v.push(0x87);
    ScriptBuf::from(v)
}
fn own_p2wsh(s: &ScriptBuf) -> ScriptBuf {
    let mut v = vec![0x00, 0x20];
    v.extend(bitcoin::hashes::sha256::Hash::hash(s.as_bytes()).as_byte_array());
    ScriptBuf::from(v)
}
fn r_odd(r: &mut Rng) -> i64 { if r.chance(4) { *r.pick(&[1, -1, 2, 3]) } else { 0 } }
pub fn c20_gen(w: &World, r: &mut Rng) -> Value {
    let n = r.range(0, 4);
    let dmg = *r.pick(&[0, 15, 50]);
    loop {
        let (mut p, _) = sgen::ceremony(w, r, n, 1, &Opts { tap: 10, odd: 10, damage: dmg, extra: 20, ..sgen::PLAIN });
        // Redeem and witness scripts of other inputs, and UTXOs of the wrong kind.
        if dmg > 0 && n > 0 {
            let k = r.below(n);
            let j = r.below(n);
            match r.below(8) {
                0 => p.inputs[k].redeem_script = p.inputs[j].redeem_script.clone(),
                1 => p.inputs[k].witness_script = p.inputs[j].witness_script.clone(),
                2 => p.inputs[k].redeem_script = p.inputs[j].witness_script.as_ref().map(own_p2wsh),
                3 => if let Some(s) = p.inputs[k].redeem_script.clone() { p.inputs[k].witness_script = Some(s) },
                4 => p.inputs[k].non_witness_utxo = p.inputs[j].non_witness_utxo.clone(),
                _ => (),
            }
        }
        if let Some(q) = sgen::to_v0(&p) { return json!({ "p": dump::v0_psbt(&q), "odd": r_odd(r) }) }
    }
}

/// Taproot digests of an input: "key" and "leaf:<hash>" for every leaf hash mentioned in it.
fn tap_tab(tx: &Transaction, p: &v0::Psbt, k: usize, ty: Option<TapSighashType>, extra: &[TapLeafHash]) -> Vec<(String, [u8; 32])> {
    let Some(ty) = ty else { return vec![] };
    let u: Vec<Option<TxOut>> = (0..p.inputs.len()).map(|j| utxo0(p, j)).collect();
    let dummy = TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::new() };
    // What an input commits to, computed with every output known or with its own only.
    let all: Vec<TxOut> = u.iter().map(|x| x.clone().unwrap_or(dummy.clone())).collect();
    if all.len() != tx.input.len() || u.get(k).map(|x| x.is_none()).unwrap_or(true) { return vec![] }
    let acp = (ty as u8) & 0x80 != 0;
    let po = if acp { Prevouts::One(k, all[k].clone()) } else { Prevouts::All(&all[..]) };
    let i = &p.inputs[k];
    let mut lhs: Vec<TapLeafHash> = i.tap_key_origins.values().flat_map(|x| x.0.clone()).chain(i.tap_script_sigs.keys().map(|x| x.1)).chain(extra.iter().copied()).collect();
    for (s, v) in i.tap_scripts.values() { lhs.push(TapLeafHash::from_script(s, *v)) }
    lhs.sort();
    lhs.dedup();
    let mut c = SighashCache::new(tx);
    let mut out = vec![];
    if let Ok(h) = c.taproot_key_spend_signature_hash(k, &po, ty) { out.push(("key".to_string(), h.to_byte_array())) }
    for l in lhs { if let Ok(h) = c.taproot_script_spend_signature_hash(k, &po, l, ty) { out.push((format!("leaf:{}", hex(l.as_byte_array())), h.to_byte_array())) } }
    let _ = LeafVersion::TapScript;
    out
}
pub fn sign_step(w: &World, p: &v0::Psbt, prov: &Value, odd: bool) -> (Value, v0::Psbt) {
    let (pr, xs, pks) = sgen::provider(w, prov);
    let pre = dump::v0_psbt(p);
    let mut q = p.clone();
    let res = guard(|| with_prov!(&pr, k, q.sign(k, &w.secp)));
    let fps: Vec<String> = xs.iter().map(|x| hex(&x.fingerprint(&w.secp).to_bytes())).collect();
    let mut rec = json!({ "p": pre, "q": dump::v0_psbt(&q), "odd": odd, "fps": fps, "pks": pks.iter().map(|k| hex(&k.to_bytes())).collect::<Vec<_>>(), "errs": [], "used": [], "panic": "" });
    let usedj = |u: &v0b::SigningKeysMap| json!(u.iter().map(|(k, v)| match v {
        v0b::SigningKeys::Ecdsa(v) => json!([k + 1, "ecdsa", v.iter().map(|x| hex(&x.to_bytes())).collect::<Vec<_>>()]),
        v0b::SigningKeys::Schnorr(v) => json!([k + 1, "schnorr", v.iter().map(|x| hex(&x.serialize())).collect::<Vec<_>>()]),
    }).collect::<Vec<_>>());
    match res {
        Err(e) => { rec["res"] = json!("panic"); rec["panic"] = json!(e); return (rec, p.clone()) }
        Ok(Ok(u)) => { rec["res"] = json!("ok"); rec["used"] = usedj(&u) }
        Ok(Err((u, e))) => {
            rec["res"] = json!("err");
            rec["used"] = usedj(&u);
            rec["errs"] = json!(e.iter().map(|(k, e)| { disp(e); k + 1 }).collect::<Vec<_>>());
        }
    }
    let tx = p.unsigned_tx.clone();
    let (mut sigs, mut taps) = (vec![], vec![]);
    let mut cache = SighashCache::new(&tx);
    if !odd { for (k, (a, b)) in p.inputs.iter().zip(&q.inputs).enumerate() {
        let u = utxo0(p, k);
        let codes = candidates(u.as_ref().map(|u| &u.script_pubkey), a.redeem_script.as_ref(), a.witness_script.as_ref());
        let amt = u.as_ref().map(|u| u.value).unwrap_or(Amount::ZERO);
        for (pk, sig) in &b.partial_sigs {
            sigs.push(json!([k + 1, hex(&pk.to_bytes()), hex(&sig.to_vec()), valid_for(w, &mut cache, k, &codes, amt, pk, sig), hex(&amt.to_sat().to_le_bytes())]));
        }
        let mut row = |kind: &str, x: &str, lh: &str, pk: XOnlyPublicKey, s: &bitcoin::taproot::Signature| {
            let labels: Vec<String> = tap_tab(&tx, p, k, Some(s.sighash_type), &[]).into_iter()
                .filter(|(_, d)| w.secp.verify_schnorr(&s.signature, &Message::from_digest(*d), &pk).is_ok()).map(|x| x.0).collect();
            taps.push(json!([k + 1, kind, x, lh, hex(&s.to_vec()), labels]));
        };
        if let (Some(s), Some(ik)) = (&b.tap_key_sig, a.tap_internal_key) {
            let (out, _) = ik.tap_tweak(&w.secp, a.tap_merkle_root);
            row("key", &hex(&ik.serialize()), "", out.to_inner(), s);
        }
        for ((x, lh), s) in &b.tap_script_sigs { row("leaf", &hex(&x.serialize()), &hex(lh.as_byte_array()), *x, s) }
    } }
    rec["sigs"] = json!(sigs);
    rec["taps"] = json!(taps);
    (rec, q)
}
/// What `sighash_ecdsa` and `sighash_msg` answer, and the digests they could.
fn digests(p: &v0::Psbt, odd: bool) -> Value {
    let tx = p.unsigned_tx.clone();
    let mut rows = vec![];
    for k in 0..p.inputs.len() + 2 {
        let idx = if k == p.inputs.len() + 1 { usize::MAX } else { k };
        let mut tab = vec![];
        let mut leaves: Vec<Option<TapLeafHash>> = vec![None];
        if let (Some(i), false) = (p.inputs.get(k), odd) {
            leaves.extend(i.tap_key_origins.values().flat_map(|x| x.0.clone()).map(Some).take(2));
            if leaves.len() == 1 { leaves.push(Some(TapLeafHash::from_byte_array([7; 32]))) }
            let u = utxo0(p, k);
            let amt = u.as_ref().map(|u| u.value).unwrap_or(Amount::ZERO);
            let ty = i.sighash_type.map(|t| t.to_u32()).unwrap_or(1);
            let mut c = SighashCache::new(&tx);
            for code in candidates(u.as_ref().map(|u| &u.script_pubkey), i.redeem_script.as_ref(), i.witness_script.as_ref()) {
                for algo in ["legacy", "v0"] {
                    if let Some(d) = digest(&mut c, k, algo, &code, amt, ty) { tab.push(json!([format!("{}:{}", algo, hex(code.as_bytes())), hex(&d)])) }
                }
            }
            let ty = i.sighash_type.map(|t| u8::try_from(t.to_u32()).ok().and_then(|b| TapSighashType::from_consensus_u8(b).ok())).unwrap_or(Some(TapSighashType::Default));
            for (l, d) in tap_tab(&tx, p, k, ty, &leaves.iter().flatten().copied().collect::<Vec<_>>()) { tab.push(json!([l, hex(&d)])) }
        }
        let mut put = |f: &str, leaf: String, r: Result<Result<(String, String, &str), String>, String>| rows.push(match r {
            Err(m) => json!({ "f": f, "k": k + 1, "leaf": leaf, "res": "panic", "panic": m, "d": "", "t": "", "alg": "", "tab": [] }),
            Ok(Err(_)) => json!({ "f": f, "k": k + 1, "leaf": leaf, "res": "err", "panic": "", "d": "", "t": "", "alg": "", "tab": tab }),
            Ok(Ok((d, t, a))) => json!({ "f": f, "k": k + 1, "leaf": leaf, "res": "ok", "panic": "", "d": d, "t": t, "alg": a, "tab": tab }),
        });
        put("sighash_ecdsa", String::new(), guard(|| { let mut c = SighashCache::new(&tx);
            p.sighash_ecdsa(idx, &mut c).map(|(m, t)| (hex(m.as_ref()), hex(&(t as u32).to_le_bytes()), "")).map_err(|e| disp(&e)) }));
        for l in leaves {
            put("sighash_msg", l.map(|l| hex(l.as_byte_array())).unwrap_or_default(), guard(|| { let mut c = SighashCache::new(&tx);
                p.sighash_msg(idx, &mut c, l).map(|m| {
                    let a = match m { PsbtSighashMsg::TapSighash(_) => "tap", PsbtSighashMsg::LegacySighash(_) => "legacy", PsbtSighashMsg::SegwitV0Sighash(_) => "v0" };
                    (hex(m.to_secp_msg().as_ref()), String::new(), a)
                }).map_err(|e| disp(&e)) }));
        }
    }
    json!(rows)
}
pub fn c21_run(w: &World, c: &Value) -> Value {
    let mut p = case_psbt(w, c);
    let odd = is_odd(c);
    let first = dump::v0_psbt(&p);
    let tab = nw_tab_v0(&[&p]);
    let digs = digests(&p, odd);
    let mut steps = vec![];
    for pr in c["provs"].as_array().unwrap() {
        let (rec, q) = sign_step(w, &p, pr, odd);
        steps.push(rec);
        p = q;
    }
    json!({ "p": first, "tx": txj(&p.unsigned_tx), "tab": tab, "steps": steps, "digs": digs, "odd": odd })
}
pub fn c21_gen(w: &World, r: &mut Rng) -> Value {
    let n = r.range(0, 4);
    let nout = r.range(0, 3);
    let dmg = *r.pick(&[0, 0, 0, 10, 40]);
    let oddty = *r.pick(&[0, 0, 10]);
    let tap = *r.pick(&[10, 50, 90]);
    loop {
        let (mut p, sp) = sgen::ceremony(w, r, n, nout, &Opts { tap, odd: 6, damage: dmg, extra: 25, hashty: 40, list: 85, oddty, unlock: 30, ..sgen::PLAIN });
        for (i, s) in p.inputs.iter_mut().zip(&sp) {
            if !s.spk.is_p2tr() { continue }
            // Keys listed for several leaves, for the internal key and leaves, without a tree.
            let lhs: Vec<TapLeafHash> = s.leaf_keys.iter().map(|x| x.0).collect();
            if r.chance(25) {
                let j = *r.pick(&s.keys);
                let l: Vec<TapLeafHash> = lhs.iter().copied().filter(|_| r.chance(60)).collect();
                i.tap_key_origins.insert(w.xonly(j), (l, sgen::source(w, j, 0)));
            }
            if r.chance(8) { i.tap_internal_key = None }
            if r.chance(8) { i.tap_merkle_root = None }
            if r.chance(10) { i.sighash_type = Some(PsbtSighashType::from_u32(*r.pick(&[3u32, 0x83]))) }
        }
        if let Some(q) = sgen::to_v0(&p) {
            let provs: Vec<Value> = (0..r.range(1, 4)).map(|_| sgen::r_prov(r)).collect();
            return json!({ "p": dump::v0_psbt(&q), "provs": provs, "odd": r_odd(r) })
        }
    }
}
#[allow(unused)]
fn unused(_: v2::Psbt) { let _ = unhex; }
