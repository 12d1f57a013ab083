//! C06 lock time, C07 identifier.
use bitcoin::absolute::{Height, LockTime, Time};
use bitcoin::consensus::serialize as cser;
use bitcoin::{Amount, Sequence, ScriptBuf, TxOut, Witness};
use psbt_v2::v2::{self, Constructor, Extractor, Finalizer, Modifiable, Signer, Updater};
use serde_json::{json, Value};

use crate::build;
use crate::dump;
use crate::ops::*;
use crate::util::{guard, hex, Rng};
use crate::world::World;

fn finalized(p: &v2::Psbt) -> v2::Psbt {
    let mut q = p.clone();
    for i in q.inputs.iter_mut() {
        i.final_script_sig.get_or_insert(ScriptBuf::new());
        i.final_script_witness.get_or_insert(Witness::new());
    }
    q
}
fn funded(p: &v2::Psbt) -> v2::Psbt {
    let mut q = p.clone();
    for i in q.inputs.iter_mut() {
        i.witness_utxo = Some(TxOut { value: Amount::from_sat(5), script_pubkey: ScriptBuf::new() });
        i.partial_sigs.clear();
        i.sighash_type = None;
    }
    q
}
fn idh(t: bitcoin::Txid) -> String { hex(&cser(&t)) }

/// What every role says about the lock time and the identifier of `p`.
pub fn views(p: &v2::Psbt) -> Value {
    panicking(|| {
        let lock = match p.determine_lock_time() { Ok(l) => hex(&l.to_consensus_u32().to_le_bytes()), Err(e) => { disp(&e); "ERR".into() } };
        let mut m = p.clone();
        m.global.tx_modifiable_flags |= 3;
        let ctor = || Constructor::<Modifiable>::new(m.clone()).expect("flags are set");
        let upd = Updater::new(p.clone()).ok();
        let sgn = Signer::new(p.clone()).ok();
        let ext = Extractor::new(finalized(p)).ok();
        let fin = Finalizer::new(funded(p)).ok();
        json!({
            "lock": lock,
            "ctor": ctor().psbt().is_ok(), "ctorupd": ctor().updater().is_ok(),
            "upd": upd.is_some(), "sgn": sgn.is_some(), "ext": ext.is_some(), "fin": fin.is_some(),
            "ids": [
                upd.as_ref().map(|u| idh(u.id())).unwrap_or_default(),
                sgn.as_ref().map(|s| s.id().map(idh).unwrap_or_default()).unwrap_or_default(),
                ext.as_ref().map(|s| idh(s.id())).unwrap_or_default(),
                fin.as_ref().map(|s| idh(s.id())).unwrap_or_default(),
            ],
            "sgntx": sgn.as_ref().map(|s| txj(&s.unsigned_tx())).unwrap_or(json!("")),
            "exttx": ext.as_ref().and_then(|s| s.extract_tx_unchecked_fee_rate().ok()).map(|t| txj(&t)).unwrap_or(json!("")),
        })
    })
}

pub fn c06_gen(w: &World, r: &mut Rng) -> Value {
    let dens = r.range(0, 30);
    let mut p = w.fieldy_v2(r, 5, dens);
    if r.chance(50) {
        // Mostly compatible requirements with close values.
        let base_h = w.r_height(r).min(499_999_990);
        let base_t = w.r_time(r).min(u32::MAX - 10);
        let mode = r.below(4);
        for i in p.inputs.iter_mut() {
            i.min_height = None;
            i.min_time = None;
            let (h, t) = match mode { 0 => (true, r.chance(40)), 1 => (r.chance(40), true), 2 => { let b = r.chance(60); (b, b) }, _ => (r.chance(50), r.chance(50)) };
            if h && !r.chance(20) { i.min_height = Some(Height::from_consensus(base_h + r.below(8) as u32).unwrap()) }
            if t && !r.chance(20) { i.min_time = Some(Time::from_consensus(base_t + r.below(8) as u32).unwrap()) }
        }
    }
    json!({ "p": dump::v2_psbt(&p) })
}
pub fn c06_run(c: &Value) -> Value {
    let p = build::v2_psbt(&c["p"]).expect("case");
    json!({ "p": dump::v2_psbt(&p), "r": views(&p), "tab": own_id(&p).map(|(k, v)| json!([[k, v]])).unwrap_or(json!([])) })
}

// ---- C07: a family of variants of one PSBT -----------------------------------------------------
pub fn c07_gen(w: &World, r: &mut Rng) -> Value {
    let dens = r.range(0, 40);
    let p = w.fieldy_v2(r, 3, dens);
    let mut ps = vec![p.clone()];
    for _ in 0..r.range(2, 5) {
        let mut q = if r.chance(25) { ps[r.below(ps.len())].clone() } else { p.clone() };
        let ni = q.inputs.len();
        let no = q.outputs.len();
        match r.below(14) {
            0 if ni > 0 => { let k = r.below(ni); q.inputs[k].sequence = Some(Sequence(w.r_seq(r))) }
            1 if ni > 0 => { let k = r.below(ni); q.inputs[k].sequence = None }
            2 if ni > 0 => { let k = r.below(ni); w.fill_v2_input(r, &mut q.inputs[k], 50); q.inputs[k].min_time = p.inputs.get(k).and_then(|i| i.min_time); q.inputs[k].min_height = p.inputs.get(k).and_then(|i| i.min_height) }
            3 if no > 0 => { let k = r.below(no); w.fill_v2_output(r, &mut q.outputs[k], 50) }
            4 if ni > 0 => { let k = r.below(ni); q.inputs[k].spent_output_index ^= 1 << r.below(32) }
            5 if ni > 0 => { let k = r.below(ni); q.inputs[k].previous_txid = w.r_txid(r) }
            6 if no > 0 => { let k = r.below(no); q.outputs[k].amount = Amount::from_sat(q.outputs[k].amount.to_sat() ^ 1 << r.below(64)) }
            7 if no > 0 => { let k = r.below(no); q.outputs[k].script_pubkey = w.r_script(r) }
            8 if ni > 1 => { q.inputs.swap(0, 1) }
            9 if no > 1 => { q.outputs.swap(0, 1) }
            10 => { q.global.tx_version.0 ^= 1 << r.below(3) }
            11 => { q.global.fallback_lock_time = if r.chance(30) { None } else { Some(LockTime::from_consensus(w.r_lock(r))) } }
            12 if ni > 0 => { let k = r.below(ni); q.inputs[k].min_height = if r.chance(40) { None } else { Some(Height::from_consensus(w.r_height(r)).unwrap()) } }
            13 if ni > 0 => { let k = r.below(ni); q.inputs[k].min_time = if r.chance(40) { None } else { Some(Time::from_consensus(w.r_time(r)).unwrap()) } }
            8 => { q.inputs.push(w.fieldy_v2_input(r, 10)); q.global.input_count += 1 }
            9 => { q.outputs.push(w.fieldy_v2_output(r, 10)); q.global.output_count += 1 }
            _ => { q.global.tx_modifiable_flags ^= 1 << r.below(3); w.fill_global_v2(r, &mut q.global, 10);
                   q.global.tx_version = p.global.tx_version; q.global.fallback_lock_time = p.global.fallback_lock_time }
        }
        ps.push(q);
    }
    json!({ "ps": ps.iter().map(dump::v2_psbt).collect::<Vec<_>>() })
}
pub fn c07_run(c: &Value) -> Value {
    let ps: Vec<v2::Psbt> = c["ps"].as_array().unwrap().iter().map(|p| build::v2_psbt(p).expect("case")).collect();
    let mut tab = std::collections::BTreeMap::new();
    for p in &ps { if let Some((k, v)) = own_id(p) { tab.insert(k, v); } }
    json!({
        "ps": ps.iter().map(dump::v2_psbt).collect::<Vec<_>>(),
        "rs": ps.iter().map(views).collect::<Vec<_>>(),
        // The same PSBT after a trip through the wire must have the same identifier.
        "wire": ps.iter().map(|p| match guard(|| v2::Psbt::deserialize(&p.serialize()).ok().and_then(|q| Updater::new(q).ok()).map(|u| idh(u.id())).unwrap_or_default()) {
            Ok(s) => s, Err(m) => format!("panic {}", m) }).collect::<Vec<_>>(),
        "tab": tab.into_iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
    })
}
