//! Oracle tables for script execution: hashes, valid signatures, taproot commitments.
use std::collections::BTreeSet;

use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::script::Instruction;
use bitcoin::secp256k1::{Message, XOnlyPublicKey};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::taproot::{ControlBlock, LeafVersion, TapLeafHash};
use bitcoin::{ecdsa, taproot, Amount, PublicKey, ScriptBuf, Transaction, TxOut, Witness};
use serde_json::{json, Value};

use crate::p_sign::{candidates, digest};
use crate::util::hex;
use crate::world::World;

/// What matters for the oracle about one input.
pub struct InV {
    pub utxo: Option<TxOut>,
    pub redeem: Option<ScriptBuf>,
    pub wscript: Option<ScriptBuf>,
    pub psigs: Vec<(PublicKey, ecdsa::Signature)>,
    pub tks: Option<taproot::Signature>,
    pub tss: Vec<(XOnlyPublicKey, TapLeafHash, taproot::Signature)>,
    pub tap_scripts: Vec<ScriptBuf>,
    /// Final scriptSig and witness.
    pub ssig: ScriptBuf,
    pub wit: Witness,
}
#[macro_export]
macro_rules! inv { ($i:expr, $utxo:expr, $f:expr) => {{
    let (i, f) = (&$i, $f);
    $crate::oracle::InV {
        utxo: $utxo, redeem: i.redeem_script.clone(), wscript: i.witness_script.clone(),
        psigs: i.partial_sigs.iter().map(|(k, s)| (*k, *s)).collect(),
        tks: i.tap_key_sig, tss: i.tap_script_sigs.iter().map(|((x, l), s)| (*x, *l, *s)).collect(),
        tap_scripts: i.tap_scripts.values().map(|(s, _)| s.clone()).collect(),
        ssig: f.0, wit: f.1,
    }
}}}

fn pushes(s: &ScriptBuf) -> Vec<Vec<u8>> {
    s.instructions().filter_map(|i| match i { Ok(Instruction::PushBytes(b)) => Some(b.as_bytes().to_vec()), _ => None }).collect()
}
pub fn tap_digest(cache: &mut SighashCache<&Transaction>, k: usize, utxos: &[Option<TxOut>], leaf: Option<&ScriptBuf>, sig: &taproot::Signature) -> Option<[u8; 32]> {
    let all: Option<Vec<&TxOut>> = utxos.iter().map(|u| u.as_ref()).collect();
    let lh = leaf.map(|s| TapLeafHash::from_script(s, LeafVersion::TapScript));
    let acp = (sig.sighash_type as u8) & 0x80 != 0;
    let r = match all {
        Some(a) => match lh {
            Some(l) => cache.taproot_script_spend_signature_hash(k, &Prevouts::All(&a), l, sig.sighash_type),
            None => cache.taproot_key_spend_signature_hash(k, &Prevouts::All(&a), sig.sighash_type),
        },
        None if acp => {
            let p = Prevouts::One(k, utxos[k].as_ref()?);
            match lh {
                Some(l) => cache.taproot_script_spend_signature_hash(k, &p, l, sig.sighash_type),
                None => cache.taproot_key_spend_signature_hash(k, &p, sig.sighash_type),
            }
        }
        None => return None,
    };
    r.ok().map(|h| h.to_byte_array())
}

/// Per input {"h": rows, "sig": rows, "commit": rows}; see Script.tla.
pub fn tables(w: &World, tx: &Transaction, ins: &[InV]) -> Value {
    let mut cache = SighashCache::new(tx);
    let utxos: Vec<Option<TxOut>> = ins.iter().map(|i| i.utxo.clone()).collect();
    let mut out = vec![];
    for (k, i) in ins.iter().enumerate() {
        let mut elems: BTreeSet<Vec<u8>> = i.wit.iter().map(|x| x.to_vec()).collect();
        elems.extend(pushes(&i.ssig));
        let spk = i.utxo.as_ref().map(|u| &u.script_pubkey);
        let mut codes: BTreeSet<ScriptBuf> = candidates(spk, i.redeem.as_ref(), i.wscript.as_ref()).into_iter().collect();
        for last in [i.wit.iter().last().map(|x| x.to_vec()), pushes(&i.ssig).pop()].into_iter().flatten() {
            codes.extend(candidates(Some(&ScriptBuf::from(last)), None, None));
        }
        let amt = i.utxo.as_ref().map(|u| u.value).unwrap_or(Amount::ZERO);
        let mut rows: BTreeSet<(String, String, String, String)> = BTreeSet::new();
        let mut keys: BTreeSet<Vec<u8>> = i.psigs.iter().map(|p| p.0.to_bytes()).collect();
        for c in &codes { keys.extend(pushes(c)) }
        keys.extend(elems.iter().cloned());
        for d in keys.clone() { elems.insert(d); }
        let keys: Vec<(Vec<u8>, PublicKey)> = keys.into_iter().filter_map(|b| if b.len() == 33 || b.len() == 65 { PublicKey::from_slice(&b).ok().map(|k| (b, k)) } else { None }).collect();
        let mut sigs: BTreeSet<Vec<u8>> = i.psigs.iter().map(|p| p.1.to_vec()).collect();
        sigs.extend(elems.iter().filter(|e| e.len() > 8 && e.len() < 74).cloned());
        for s in &sigs {
            let Ok(sig) = ecdsa::Signature::from_slice(s) else { continue };
            for c in &codes { for algo in ["legacy", "v0"] {
                let Some(d) = digest(&mut cache, k, algo, c, amt, sig.sighash_type as u32) else { continue };
                for (kb, key) in &keys {
                    if w.secp.verify_ecdsa(&Message::from_digest(d), &sig.signature, &key.inner).is_ok() {
                        rows.insert((algo.into(), hex(c.as_bytes()), hex(kb), hex(s)));
                    }
                }
            } }
        }
        let mut commits = vec![];
        if spk.map(|s| s.is_p2tr()).unwrap_or(false) {
            let outkey = XOnlyPublicKey::from_slice(&spk.unwrap().as_bytes()[2..34]).ok();
            let mut tsigs: BTreeSet<Vec<u8>> = elems.iter().filter(|e| e.len() == 64 || e.len() == 65).cloned().collect();
            tsigs.extend(i.tks.iter().map(|s| s.to_vec()));
            tsigs.extend(i.tss.iter().map(|s| s.2.to_vec()));
            let mut scripts: BTreeSet<ScriptBuf> = i.tap_scripts.iter().cloned().collect();
            let n = i.wit.len();
            if n >= 2 {
                let sc = ScriptBuf::from(i.wit.nth(n - 2).unwrap().to_vec());
                if let (Ok(cb), Some(o)) = (ControlBlock::decode(i.wit.nth(n - 1).unwrap()), outkey) {
                    if cb.verify_taproot_commitment(&w.secp, o, &sc) { commits.push(json!([hex(spk.unwrap().as_bytes()), hex(sc.as_bytes()), hex(i.wit.nth(n - 1).unwrap())])) }
                }
                scripts.insert(sc);
            }
            for s in &tsigs {
                let Ok(sig) = taproot::Signature::from_slice(s) else { continue };
                if let (Some(o), Some(d)) = (outkey, tap_digest(&mut cache, k, &utxos, None, &sig)) {
                    if w.secp.verify_schnorr(&sig.signature, &Message::from_digest(d), &o).is_ok() { rows.insert(("key".into(), "".into(), hex(&o.serialize()), hex(s))); }
                }
                for sc in &scripts {
                    let mut ks: BTreeSet<Vec<u8>> = pushes(sc).into_iter().filter(|p| p.len() == 32).collect();
                    ks.extend(i.tss.iter().map(|t| t.0.serialize().to_vec()));
                    ks.extend(elems.iter().filter(|e| e.len() == 32).cloned());
                    let Some(d) = tap_digest(&mut cache, k, &utxos, Some(sc), &sig) else { continue };
                    for x in ks.iter().filter_map(|b| XOnlyPublicKey::from_slice(b).ok()) {
                        if w.secp.verify_schnorr(&sig.signature, &Message::from_digest(d), &x).is_ok() { rows.insert(("leaf".into(), hex(sc.as_bytes()), hex(&x.serialize()), hex(s))); }
                    }
                }
            }
        }
        let h: Vec<Value> = elems.iter().map(|e| json!([hex(e), hex(&sha256::Hash::hash(e).to_byte_array()), hex(&ripemd160::Hash::hash(e).to_byte_array()),
            hex(&hash160::Hash::hash(e).to_byte_array()), hex(&sha256d::Hash::hash(e).to_byte_array())])).collect();
        out.push(json!({ "h": h, "sig": rows.into_iter().collect::<Vec<_>>(), "commit": commits }));
    }
    json!(out)
}
