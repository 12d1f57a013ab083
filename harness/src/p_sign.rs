//! C09 modifiable flags, C13 signing, C14 key providers.
use std::collections::BTreeMap;

use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint};
use bitcoin::consensus::serialize as cser;
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::Message;
use bitcoin::sighash::{EcdsaSighashType, SighashCache};
use bitcoin::{Amount, PublicKey, ScriptBuf, Transaction, TxOut};
use psbt_v2::{v0, v2};
use serde_json::{json, Value};

use crate::build;
use crate::dump;
use crate::ops::*;
use crate::sgen::{self, Opts, Prov};
use crate::util::{guard, hex, unhex, Rng};
use crate::with_prov;
use crate::world::{World, NKEYS, ECDSA_KINDS};

pub fn utxo_of(i: &v2::Input) -> Option<TxOut> {
    i.witness_utxo.clone().or_else(|| i.non_witness_utxo.as_ref().and_then(|t| t.output.get(i.spent_output_index as usize).cloned()))
}
/// Script codes that could conceivably be signed for an input.
pub fn candidates(spk: Option<&ScriptBuf>, redeem: Option<&ScriptBuf>, wscript: Option<&ScriptBuf>) -> Vec<ScriptBuf> {
    let mut v: Vec<ScriptBuf> = vec![];
    for s in [spk, redeem, wscript].into_iter().flatten() {
        v.push(s.clone());
        if let Some(c) = s.p2wpkh_script_code() { v.push(c) }
    }
    v.sort();
    v.dedup();
    v
}
pub fn digest(cache: &mut SighashCache<&Transaction>, k: usize, algo: &str, code: &ScriptBuf, amt: Amount, ty: u32) -> Option<[u8; 32]> {
    match algo {
        "legacy" => cache.legacy_signature_hash(k, code, ty).ok().map(|h| h.to_byte_array()),
        _ => cache.p2wsh_signature_hash(k, code, amt, EcdsaSighashType::from_standard(ty).ok()?).ok().map(|h| h.to_byte_array()),
    }
}
/// For one ECDSA signature: the digests ("algo:code") for which it is valid.
pub fn valid_for(w: &World, cache: &mut SighashCache<&Transaction>, k: usize, codes: &[ScriptBuf], amt: Amount, pk: &PublicKey, sig: &bitcoin::ecdsa::Signature) -> Vec<String> {
    let mut v = vec![];
    for c in codes {
        for algo in ["legacy", "v0"] {
            if let Some(d) = digest(cache, k, algo, c, amt, sig.sighash_type as u32) {
                if w.secp.verify_ecdsa(&Message::from_digest(d), &sig.signature, &pk.inner).is_ok() { v.push(format!("{}:{}", algo, hex(c.as_bytes()))) }
            }
        }
    }
    v
}
/// [index, key, signature, [valid digests]] for the partial signatures of the inputs.
pub fn sig_table_v2(w: &World, pre: &v2::Psbt, post: &v2::Psbt) -> (Value, String) {
    let Some(tx) = own_tx(pre) else { return (json!([]), String::new()) };
    let mut cache = SighashCache::new(&tx);
    let mut rows = vec![];
    for (k, (a, b)) in pre.inputs.iter().zip(&post.inputs).enumerate() {
        let u = utxo_of(a);
        let codes = candidates(u.as_ref().map(|u| &u.script_pubkey), a.redeem_script.as_ref(), a.witness_script.as_ref());
        let amt = u.as_ref().map(|u| u.value).unwrap_or(Amount::ZERO);
        for (pk, sig) in &b.partial_sigs {
            rows.push(json!([k + 1, hex(&pk.to_bytes()), hex(&sig.to_vec()), valid_for(w, &mut cache, k, &codes, amt, pk, sig), hex(&amt.to_sat().to_le_bytes())]));
        }
    }
    (json!(rows), hex(&dump::tx_nowit(&tx)))
}

pub fn sign_step(w: &World, p: &v2::Psbt, prov: &Value) -> (Value, Option<v2::Psbt>) {
    let (pr, xs, pks) = sgen::provider(w, prov);
    let pre = dump::v2_psbt(p);
    let res = guard(|| match v2::Signer::new(p.clone()) {
        Err(_) => Err(()),
        Ok(s) => Ok(with_prov!(&pr, k, s.sign(k, &w.secp))),
    });
    let fps: Vec<String> = xs.iter().map(|x| hex(&x.fingerprint(&w.secp).to_bytes())).collect();
    let mut rec = json!({ "p": pre, "fps": fps, "pks": pks.iter().map(|k| hex(&k.to_bytes())).collect::<Vec<_>>(), "tab": nw_tab_v2(&[p]) });
    let m = rec.as_object_mut().unwrap();
    let usedj = |u: &v2::SigningKeys| json!(u.iter().map(|(k, v)| json!([k + 1, v.iter().map(|x| hex(&x.to_bytes())).collect::<Vec<_>>()])).collect::<Vec<_>>());
    let mut post = None;
    match res {
        Err(e) => { m.insert("res".into(), json!("panic")); m.insert("panic".into(), json!(e)); }
        Ok(Err(())) => { m.insert("res".into(), json!("nosigner")); }
        Ok(Ok(Ok((q, used)))) => {
            m.insert("res".into(), json!("ok"));
            m.insert("q".into(), dump::v2_psbt(&q));
            m.insert("used".into(), usedj(&used));
            let (rows, tx) = sig_table_v2(w, p, &q);
            m.insert("sigs".into(), rows);
            m.insert("tx".into(), json!(tx));
            post = Some(q);
        }
        Ok(Ok(Err((used, errs)))) => {
            m.insert("res".into(), json!("err"));
            m.insert("used".into(), usedj(&used));
            m.insert("errs".into(), json!(errs.iter().map(|(k, e)| { disp(e); k + 1 }).collect::<Vec<_>>()));
        }
    }
    (rec, post)
}
/// What `sighash_ecdsa` says about each input, and the digests it could be.
fn sighashes(p: &v2::Psbt) -> Value {
    let Some(tx) = own_tx(p) else { return json!([]) };
    let mut rows = vec![];
    for k in 0..p.inputs.len() + 2 {
        let idx = if k == p.inputs.len() + 1 { usize::MAX } else { k };
        let r = guard(|| { let mut c = SighashCache::new(&tx); p.sighash_ecdsa(idx, &mut c).map(|(m, t)| (hex(m.as_ref()), t as u32)).map_err(|e| disp(&e)) });
        let mut tab = vec![];
        if let Some(i) = p.inputs.get(k) {
            let u = utxo_of(i);
            let amt = u.as_ref().map(|u| u.value).unwrap_or(Amount::ZERO);
            let ty = i.sighash_type.map(|t| t.to_u32()).unwrap_or(1);
            let mut c = SighashCache::new(&tx);
            for code in candidates(u.as_ref().map(|u| &u.script_pubkey), i.redeem_script.as_ref(), i.witness_script.as_ref()) {
                for algo in ["legacy", "v0"] {
                    if let Some(d) = digest(&mut c, k, algo, &code, amt, ty) { tab.push(json!([format!("{}:{}", algo, hex(code.as_bytes())), hex(&d)])) }
                }
            }
        }
        rows.push(match r {
            Err(m) => json!({ "panic": m }),
            Ok(Ok((d, t))) => json!({ "ok": true, "d": d, "t": hex(&(t as u32).to_le_bytes()), "tab": tab }),
            Ok(Err(_)) => json!({ "ok": false, "d": "", "t": "", "tab": tab }),
        });
    }
    json!(rows)
}

pub fn sign_run(w: &World, c: &Value, with_digests: bool) -> Value {
    let mut p = match c.get("types") { Some(t) => plain(w, t, &c["flags"]), None if c.get("mk").is_some() => mk(w, &c["mk"]), None => build::v2_psbt(&c["p"]).expect("case") };
    let digs = if with_digests { sighashes(&p) } else { json!([]) };
    let first = dump::v2_psbt(&p);
    let tab = nw_tab_v2(&[&p]);
    let mut steps = vec![];
    for pr in c["provs"].as_array().unwrap() {
        let (rec, q) = sign_step(w, &p, pr);
        steps.push(rec);
        match q { Some(q) => p = q, None => if with_digests { continue } else { break } }
    }
    json!({ "p": first, "tab": tab, "steps": steps, "digs": digs, "clear": c.get("clear").map(|x| clear_run(w, c, x)).unwrap_or(json!([])) })
}
/// A PSBT whose input j is a P2WPKH output of key j with the given sighash type.
fn plain(w: &World, types: &Value, flags: &Value) -> v2::Psbt {
    let mut r = Rng::new(5);
    let n = types.as_array().unwrap().len();
    let (mut p, _) = sgen::ceremony(w, &mut r, 0, 2, &sgen::PLAIN);
    for (j, t) in types.as_array().unwrap().iter().enumerate() {
        let mut i = v2::Input::new(&bitcoin::OutPoint { txid: bitcoin::Txid::from_byte_array([j as u8 + 1; 32]), vout: j as u32 });
        i.witness_utxo = Some(TxOut { value: Amount::from_sat(5000), script_pubkey: ScriptBuf::new_p2wpkh(&w.keys[j].pk.wpubkey_hash().unwrap()) });
        i.bip32_derivations.insert(w.keys[j].pk.inner, sgen::source(w, j, 0));
        let t = t.as_str().unwrap();
        if !t.is_empty() { i.sighash_type = Some(psbt_v2::PsbtSighashType::from_u32(u32::from_le_bytes(unhex(t).try_into().unwrap()))) }
        p.inputs.push(i);
    }
    p.global.input_count = n;
    p.global.tx_version.0 = 2;
    p.global.fallback_lock_time = None;
    p.global.tx_modifiable_flags = unhex(flags.as_str().unwrap())[0];
    p
}
/// Inputs as configured by the design model: kind, UTXO data, scripts, sighash type, listed keys.
pub fn mk(w: &World, v: &Value) -> v2::Psbt {
    let mut r = Rng::new(9);
    let (mut p, _) = sgen::ceremony(w, &mut r, 0, 2, &sgen::PLAIN);
    p.global.tx_modifiable_flags = 3;
    for c in v.as_array().unwrap() {
        let s = |f: &str| c[f].as_str().unwrap();
        let kind = match s("kind") { "bare" => "baremulti", "sh" => "shmulti", "wpkh" => "wpkh", "wsh" => "wshmulti", "shwpkh" => "shwpkh", "shwsh" => "shwshmulti", "tr" => "trkey", k => { assert_eq!(k, "wit"); "wit2" } };
        let sp = w.spend(&mut r, kind);
        let prev = w.prev_tx(&mut r, &sp.spk, 70_000, 1);
        let oob = s("utxo") == "oob";
        let mut i = v2::Input::new(&bitcoin::OutPoint { txid: prev.compute_txid(), vout: if oob { 9 } else { 1 } });
        let out = prev.output[1].clone();
        match s("utxo") { "w" => i.witness_utxo = Some(out), "nw" | "oob" => i.non_witness_utxo = Some(prev), "badid" => { let mut t = prev; t.version.0 ^= 1; i.non_witness_utxo = Some(t) } "both" => { i.witness_utxo = Some(out); i.non_witness_utxo = Some(prev) } _ => () }
        i.redeem_script = match s("redeem") { "ok" => sp.redeem.clone(), "odd" => Some(ScriptBuf::from(vec![0x51])), _ => None };
        i.witness_script = match s("wscript") { "ok" => sp.wscript.clone(), "odd" => Some(ScriptBuf::from(vec![0x52])), _ => None };
        let t = s("ty");
        if !t.is_empty() { i.sighash_type = Some(psbt_v2::PsbtSighashType::from_u32(u32::from_le_bytes(unhex(t).try_into().unwrap()))) }
        for j in 0..c["list"].as_u64().unwrap() as usize { i.bip32_derivations.insert(w.keys[j].pk.inner, sgen::source(w, j, 0)); }
        if c["key3"] == true { i.bip32_derivations.insert(w.keys[2].pk.inner, sgen::source(w, 2, 0)); }
        if c["internal"] == true { i.tap_internal_key = Some(w.xonly(0)) }
        for (j, f) in [(0, "o1"), (1, "o2")] {
            let Some(o) = c[f].as_str() else { continue };
            if o == "none" { continue }
            let leaves = o.bytes().map(|b| bitcoin::taproot::TapLeafHash::from_byte_array([b - b'0'; 32])).collect();
            i.tap_key_origins.insert(w.xonly(j), (leaves, sgen::source(w, j, 0)));
        }
        if let Some(n) = c["nout"].as_u64() { p.outputs.truncate(n as usize); p.global.output_count = p.outputs.len() }
        p.inputs.push(i);
    }
    p.global.input_count = p.inputs.len();
    p.global.fallback_lock_time = None;
    p
}
/// `ecdsa_clear_tx_modifiable` applied step by step: the flag byte after each.
fn clear_run(w: &World, c: &Value, tys: &Value) -> Value {
    let mut p = plain(w, &json!([]), &c["flags"]);
    p.global.fallback_lock_time = None;
    let mut s = v2::Signer::new(p).unwrap();
    let mut out = vec![];
    for t in tys.as_array().unwrap() {
        let ty = EcdsaSighashType::from_standard(unhex(t.as_str().unwrap())[0] as u32).unwrap();
        match guard(|| { let mut s2 = s.clone(); s2.ecdsa_clear_tx_modifiable(ty); s2 }) { Ok(x) => s = x, Err(m) => { out.push(json!([t, "panic", m])); break } }
        out.push(json!([t, hex(&[s.clone().psbt().global.tx_modifiable_flags]), dump::v2_psbt(&s.clone().psbt())]));
    }
    json!([c["flags"], out])
}
pub fn c09_run(w: &World, c: &Value) -> Value { sign_run(w, c, false) }
pub fn c13_run(w: &World, c: &Value) -> Value { sign_run(w, c, true) }

pub fn c09_gen(w: &World, r: &mut Rng) -> Value {
    let n = r.range(1, 4);
    let nout = r.range(0, 3);
    let (mut p, _) = sgen::ceremony(w, r, n, nout, &Opts { tap: 5, odd: 5, damage: 8, extra: 10, hashty: 70, list: 80, oddty: 4, ..sgen::PLAIN });
    p.global.tx_modifiable_flags = if r.chance(80) { r.below(8) as u8 } else { r.next() as u8 };
    let provs: Vec<Value> = (0..r.range(1, 4)).map(|_| sgen::r_prov(r)).collect();
    let tys: Vec<String> = (0..r.range(1, 5)).map(|_| hex(&[*r.pick(&[1u8, 2, 3, 0x81, 0x82, 0x83])])).collect();
    json!({ "p": dump::v2_psbt(&p), "provs": provs, "clear": tys, "flags": hex(&[r.next() as u8]) })
}
pub fn c13_gen(w: &World, r: &mut Rng) -> Value {
    let n = r.range(0, 4);
    let nout = r.range(0, 3);
    let dmg = *r.pick(&[0, 0, 10, 40]);
    let oddty = *r.pick(&[0, 0, 10]);
    let (mut p, _) = sgen::ceremony(w, r, n, nout, &Opts { tap: 6, odd: 8, damage: dmg, extra: 25, hashty: 40, list: 85, oddty, unlock: 30, ..sgen::PLAIN });
    if r.chance(4) { p.global.input_count = r.below(n + 2) }
    let provs: Vec<Value> = (0..r.range(1, 3)).map(|_| sgen::r_prov(r)).collect();
    json!({ "p": dump::v2_psbt(&p), "provs": provs })
}

// ---- C14 -----------------------------------------------------------------------------------------
/// Requests: ["b", fingerprint, path bytes] or ["p", public key].
pub fn c14_gen(_w: &World, r: &mut Rng) -> Value {
    let prov = sgen::r_prov(r);
    let reqs: Vec<Value> = (0..r.range(1, 8)).map(|_| {
        if r.chance(75) {
            json!(["b", r.below(9), r.below(3), (0..r.below(4)).map(|_| if r.chance(30) { 0x8000_0000u32 + r.below(3) as u32 } else { r.below(3) as u32 }).collect::<Vec<_>>()])
        } else { json!(["p", r.below(NKEYS), r.below(4), []]) }
    }).collect();
    json!({ "prov": prov, "reqs": reqs })
}
pub fn c14_run(w: &World, c: &Value) -> Value {
    let (pr, xs, pks) = sgen::provider(w, &c["prov"]);
    let mut rows = vec![];
    for q in c["reqs"].as_array().unwrap() {
        let a = q[1].as_u64().unwrap() as usize;
        let b = q[2].as_u64().unwrap() as usize;
        let path: Vec<ChildNumber> = q[3].as_array().unwrap().iter().map(|x| ChildNumber::from(x.as_u64().unwrap() as u32)).collect();
        let path: DerivationPath = path.into();
        // Fingerprints: of masters, of their children, of parents of derived keys, or of nothing.
        let (kind, fp, pk) = if q[0] == "b" {
            let fp = match a { 0..=2 => sgen::ext(w, a, 0).fingerprint(&w.secp), 3..=5 => sgen::ext(w, a - 3, 1).fingerprint(&w.secp),
                6 => sgen::ext(w, b, 1).parent_fingerprint, 7 => Fingerprint::default(), _ => Fingerprint::from([1, 2, 3, 4]) };
            ("b", fp, w.keys[0].pk)
        } else {
            // The key itself, or the same point in uncompressed form (which is another map key).
            let k = w.keys[a].pk;
            ("p", Fingerprint::default(), if b == 3 { PublicKey { compressed: false, inner: k.inner } } else { k })
        };
        macro_rules! ask { ($tr:path, $rq:ident) => {{
            use $tr as GK;
            let rq = || if kind == "b" { $rq::KeyRequest::Bip32((fp, path.clone())) } else { $rq::KeyRequest::Pubkey(pk) };
            match guard(|| with_prov!(&pr, k, GK::get_key(k, rq(), &w.secp).map_err(|e| disp(&e)))) {
                Err(m) => json!({ "st": "panic", "sk": m }),
                Ok(Ok(Some(sk))) => json!({ "st": "some", "sk": hex(&sk.to_bytes()) }),
                Ok(Ok(None)) => json!({ "st": "none", "sk": "" }),
                Ok(Err(e)) => json!({ "st": "err", "sk": e }),
            }
        }}}
        use v0::bitcoin as v0b;
        let a2 = ask!(v2::GetKey, v2);
        let a0 = ask!(v0b::GetKey, v0b);
        // Oracle: what each extended key would derive, what the map holds.
        let der: Vec<Value> = xs.iter().map(|x| json!([hex(&x.fingerprint(&w.secp).to_bytes()),
            x.derive_priv(&w.secp, &path).map(|k| hex(&k.to_priv().to_bytes())).unwrap_or_default()])).collect();
        let held: Vec<Value> = pks.iter().map(|k| json!([hex(&k.to_bytes()), hex(&w.keys[w.key_of(k).unwrap()].sk.to_bytes())])).collect();
        rows.push(json!({ "k": kind, "fp": hex(&fp.to_bytes()), "pk": hex(&pk.to_bytes()), "a2": a2, "a0": a0, "der": der, "held": held }));
    }
    let _ = (BTreeMap::<u8, u8>::new(), ECDSA_KINDS.len(), cser(&0u8), Prov::BM(Default::default()));
    json!({ "map": c["prov"]["t"].as_str().unwrap().ends_with("map"), "rows": rows })
}
