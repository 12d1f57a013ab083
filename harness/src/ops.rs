//! Shared pieces of the per-property operations: independent views of a PSBT.
use bitcoin::absolute::LockTime;
use bitcoin::consensus::serialize as cser;
use bitcoin::{OutPoint, Sequence, Transaction, TxIn, TxOut, Witness, ScriptBuf};
use psbt_v2::v2;
use serde_json::{json, Value};

use crate::dump;
use crate::util::{guard, hex};

pub fn txj(tx: &Transaction) -> Value {
    json!({
        "v": hex(&tx.version.0.to_le_bytes()),
        "lt": hex(&tx.lock_time.to_consensus_u32().to_le_bytes()),
        "ins": tx.input.iter().map(|i| json!({
            "txid": hex(&cser(&i.previous_output.txid)), "vout": hex(&i.previous_output.vout.to_le_bytes()),
            "seq": hex(&i.sequence.0.to_le_bytes()) })).collect::<Vec<_>>(),
        "outs": tx.output.iter().map(|o| json!({ "amt": hex(&o.value.to_sat().to_le_bytes()), "spk": hex(o.script_pubkey.as_bytes()) })).collect::<Vec<_>>(),
    })
}
/// scriptSigs and witnesses of a transaction.
pub fn sigsj(tx: &Transaction) -> Value {
    json!(tx.input.iter().map(|i| json!([hex(i.script_sig.as_bytes()), hex(&cser(&i.witness))])).collect::<Vec<_>>())
}
/// Lock time by the harness's own reading of BIP-370 (used only to build oracle transactions;
/// the specification recomputes it and compares).
pub fn own_lock(p: &v2::Psbt) -> Option<LockTime> {
    let req: Vec<&v2::Input> = p.inputs.iter().filter(|i| i.min_time.is_some() || i.min_height.is_some()).collect();
    if req.is_empty() { return Some(p.global.fallback_lock_time.unwrap_or(LockTime::ZERO)) }
    if let Some(hs) = req.iter().map(|i| i.min_height).collect::<Option<Vec<_>>>() {
        return hs.into_iter().max().map(LockTime::from);
    }
    req.iter().map(|i| i.min_time).collect::<Option<Vec<_>>>().and_then(|ts| ts.into_iter().max()).map(LockTime::from)
}
pub fn own_tx(p: &v2::Psbt) -> Option<Transaction> {
    Some(Transaction {
        version: p.global.tx_version,
        lock_time: own_lock(p)?,
        input: p.inputs.iter().map(|i| TxIn {
            previous_output: OutPoint { txid: i.previous_txid, vout: i.spent_output_index },
            script_sig: ScriptBuf::new(),
            sequence: i.sequence.unwrap_or(Sequence::MAX),
            witness: Witness::new(),
        }).collect(),
        output: p.outputs.iter().map(|o| TxOut { value: o.amount, script_pubkey: o.script_pubkey.clone() }).collect(),
    })
}
pub fn own_id(p: &v2::Psbt) -> Option<(String, String)> {
    let mut tx = own_tx(p)?;
    for i in tx.input.iter_mut() { i.sequence = Sequence::ZERO }
    Some((hex(&dump::tx_nowit(&tx)), hex(&cser(&tx.compute_txid()))))
}
pub fn ok_or<T>(r: Result<T, String>, f: impl FnOnce(T) -> Value) -> Value {
    match r { Ok(x) => f(x), Err(m) => json!({ "panic": m }) }
}
pub fn panicking(f: impl FnOnce() -> Value) -> Value { match guard(f) { Ok(v) => v, Err(m) => json!({ "panic": m }) } }
/// Outputs of every non-witness UTXO in the dumps, keyed by the UTXO's hex.
pub fn nw_tab_v2(ps: &[&v2::Psbt]) -> Value {
    let mut seen = std::collections::BTreeMap::new();
    for p in ps { for i in &p.inputs { if let Some(t) = &i.non_witness_utxo { seen.insert(hex(&cser(t)), outs(t)); } } }
    json!(seen.into_iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>())
}
pub fn outs(t: &Transaction) -> Value {
    json!(t.output.iter().map(|o| json!({ "amt": hex(&o.value.to_sat().to_le_bytes()), "spk": hex(o.script_pubkey.as_bytes()) })).collect::<Vec<_>>())
}
pub fn disp<E: std::fmt::Display + std::fmt::Debug>(e: &E) -> String { let d = format!("{}", e); let _ = format!("{:?}", e); d }
