//! C17 v2 extraction, C18 fees, C23 v0 extraction.
use bitcoin::{Amount, FeeRate, ScriptBuf, Transaction, Witness};
use psbt_v2::v0;
use psbt_v2::v2::{self, Extractor, ExtractError, ExtractTxError, ExtractTxFeeRateError};
use psbt_v2::FeeError;
use serde_json::{json, Value};

use crate::build;
use crate::dump;
use crate::ops::*;
use crate::p_fin::{nw_tab_v0, utxo0};
use crate::sgen::{self, Opts};
use crate::util::{guard, hex, unhex, Rng};
use crate::world::World;

fn le(a: Amount) -> String { hex(&a.to_sat().to_le_bytes()) }
fn ler(a: FeeRate) -> String { hex(&a.to_sat_per_kwu().to_le_bytes()) }
/// Arbitrary funds, amounts and final scripts; nothing has to be consistent.
fn fee_psbt(w: &World, r: &mut Rng) -> v2::Psbt {
    let n = *r.pick(&[0usize, 1, 1, 2, 2, 3]);
    let nout = r.range(0, 3);
    let (mut p, _) = sgen::ceremony(w, r, n, nout, &Opts { tap: 14, odd: 3, damage: 6, extra: 10, ..sgen::PLAIN });
    if r.chance(12) { for i in p.inputs.iter_mut() { if r.chance(50) { let (k, v) = w.r_entry(r, 'i', false, *r.clone().pick(&["mintime", "minheight"])); build::set_v2_input(i, if v.len() == 4 && u32::from_le_bytes(v.clone().try_into().unwrap()) >= 500_000_000 { "mintime" } else { "minheight" }, &k, &v).unwrap() } } }
    let huge = r.chance(20);
    let amt = |r: &mut Rng, big: u64| match r.below(if huge { 7 } else { 4 }) {
        0 => 0, 1 => r.next() % 1000, 4 => u64::MAX, 5 => (1 << 63) + r.below(3) as u64 - 1, 6 => r.next(), _ => r.next() % big };
    for i in p.inputs.iter_mut() {
        let v = amt(r, 2_000_000);
        set_value(i, Amount::from_sat(v));
        // Both present but different: the witness UTXO counts.
        if r.chance(20) { if let Some(u) = i.witness_utxo.as_mut() { u.value = Amount::from_sat(v.wrapping_add(1)) } }
        if r.chance(4) { i.witness_utxo = None; i.non_witness_utxo = None }
        if r.chance(4) { i.spent_output_index = *r.pick(&[3u32, 7, 0x0100_0000, u32::MAX]) }
    }
    for o in p.outputs.iter_mut() { o.amount = Amount::from_sat(amt(r, 100_000)) }
    p
}
fn set_value(i: &mut v2::Input, v: Amount) {
    if let Some(u) = i.witness_utxo.as_mut() { u.value = v }
    let k = i.spent_output_index as usize;
    if let Some(o) = i.non_witness_utxo.as_mut().and_then(|t| t.output.get_mut(k)) { o.value = v }
}
fn finals(r: &mut Rng, p: &mut v2::Psbt, some: bool) {
    let all = !some || r.chance(85);
    for i in p.inputs.iter_mut() {
        let s = { let n = if r.chance(50) { 0 } else if r.chance(10) { 300 } else { r.below(80) }; ScriptBuf::from(r.bytes(n)) };
        let wt = { let n = if r.chance(30) { 0 } else { r.below(4) }; Witness::from_slice(&(0..n).map(|_| { let m = if r.chance(10) { 260 } else { r.below(75) }; r.bytes(m) }).collect::<Vec<_>>()) };
        i.final_script_sig = if all || r.chance(60) { Some(s) } else { None };
        i.final_script_witness = if all || r.chance(60) { Some(wt) } else { None };
    }
}
/// Signing data, which has no place in what is extracted, beside the final scripts or instead of them.
fn signing_data(w: &World, r: &mut Rng, p: &mut v2::Psbt) {
    const F: [&str; 14] = ["psig", "sighash", "redeem", "wscript", "bip32", "ripemd", "sha256", "hash160", "hash256", "tapkeysig", "tapscriptsig", "tapleaf", "tapinternal", "tapmerkle"];
    for i in p.inputs.iter_mut() {
        if !r.chance(35) { continue }
        for _ in 0..r.range(1, 4) { let f = *r.pick(&F); let (k, v) = w.r_entry(r, 'i', false, f); let _ = build::set_v2_input(i, f, &k, &v); }
    }
}
fn final_tx(p: &v2::Psbt) -> Option<Transaction> {
    let mut t = own_tx(p)?;
    for (a, i) in t.input.iter_mut().zip(&p.inputs) { a.script_sig = i.final_script_sig.clone().unwrap_or_default(); a.witness = i.final_script_witness.clone().unwrap_or_default() }
    Some(t)
}
/// Limits to try, mostly around the fee rate; the funds may be changed to come close to the default.
fn limits(r: &mut Rng, p: &mut v2::Psbt) -> Vec<String> {
    let mut out = vec![];
    if let Some(t) = final_tx(p) {
        let w = t.weight().to_wu() as u128;
        let outs: u128 = p.outputs.iter().map(|o| o.amount.to_sat() as u128).sum();
        if r.chance(35) && !p.inputs.is_empty() {
            let f = (6_250_001u128 * w + 999) / 1000 + r.below(4) as u128 - 2;
            let v = outs + f;
            let n = p.inputs.len();
            if v < u64::MAX as u128 { for (k, i) in p.inputs.iter_mut().enumerate() { set_value(i, Amount::from_sat(if k + 1 == n { v as u64 } else { 0 })) } }
        }
        let ins: Option<u128> = p.inputs.iter().map(|i| crate::p_sign::utxo_of(i).map(|u| u.value.to_sat() as u128)).sum();
        if let Some(f) = ins.and_then(|i| i.checked_sub(outs)) {
            let rate = (f.min(u64::MAX as u128) * 1000 / w).min(u64::MAX as u128) as u64;
            out = vec![rate, rate.saturating_sub(1), rate.saturating_add(1)];
        }
    }
    if r.chance(30) { out.push(0) }
    if r.chance(30) { out.push(u64::MAX) }
    if r.chance(30) { out.push(r.next() >> r.below(64)) }
    out.into_iter().map(|x| hex(&x.to_le_bytes())).collect()
}
pub fn gen(w: &World, r: &mut Rng, prop: &str) -> Value {
    let mut p = loop { let p = fee_psbt(w, r); if prop != "C23" || own_lock(&p).is_some() { break p } };
    if prop != "C18" { finals(r, &mut p, true) }
    signing_data(w, r, &mut p);
    let maxs = limits(r, &mut p);
    let mut c = json!({ "maxs": maxs });
    if prop != "C23" { c["p"] = dump::v2_psbt(&p) }
    if prop != "C17" { if let Some(mut q) = sgen::to_v0(&p) {
        if r.chance(8) { // one of the two final scripts only, or UTXO data somewhere else
            for i in q.inputs.iter_mut() { if r.chance(50) { i.final_script_sig = None } }
        }
        c["p0"] = dump::v0_psbt(&q)
    } }
    c
}
fn max_of(s: &Value) -> FeeRate { FeeRate::from_sat_per_kwu(u64::from_le_bytes(unhex(s.as_str().unwrap()).try_into().unwrap())) }
fn okj(op: &str, max: &Value, t: &Transaction) -> Value { json!({ "op": op, "max": max, "res": "ok", "tx": txj(t), "sigs": sigsj(t) }) }
fn chain(e: &dyn std::error::Error) { let mut x = Some(e); while let Some(y) = x { disp(&y); x = y.source() } }
fn fee_kind(e: &FeeError) -> &'static str {
    use psbt_v2::FundingUtxoError;
    match e { FeeError::InputOverflow => "inoverflow", FeeError::OutputOverflow => "outoverflow", FeeError::Negative => "negative",
        FeeError::FundingUtxo(FundingUtxoError::MissingUtxo) => "missing", FeeError::FundingUtxo(FundingUtxoError::OutOfBounds { .. }) => "oob", _ => "other" }
}
pub fn c17_run(c: &Value) -> Value {
    let p = build::v2_psbt(&c["p"]).expect("case");
    let mut rec = json!({ "p": dump::v2_psbt(&p), "tab": nw_tab_v2(&[&p]), "fin": p.is_finalized() });
    let m = rec.as_object_mut().unwrap();
    let e = match guard(|| Extractor::new(p.clone()).map_err(|e| { chain(&e); match e { ExtractError::PsbtNotFinalized => "unfinalized", ExtractError::DetermineLockTime(_) => "lock" } })) {
        Err(s) => { m.insert("new".into(), json!("panic")); m.insert("panic".into(), json!(s)); return rec }
        Ok(Err(k)) => { m.insert("new".into(), json!("err")); m.insert("why".into(), json!(k)); return rec }
        Ok(Ok(e)) => { m.insert("new".into(), json!("ok")); e }
    };
    let mut ops = vec![];
    let nomax = json!("");
    let mut calls: Vec<(&str, &Value)> = vec![("default", &nomax), ("limit", &nomax), ("unchecked", &nomax)];
    for x in c["maxs"].as_array().unwrap() { calls.push(("with", x)) }
    for (op, max) in calls {
        let r = guard(|| match op {
            "unchecked" => e.extract_tx_unchecked_fee_rate().map_err(ExtractTxFeeRateError::ExtractTx),
            "default" => e.extract_tx(),
            "limit" => e.extract_tx_fee_rate_limit(),
            _ => e.extract_tx_with_fee_rate_limit(max_of(max)),
        }.map_err(|e| { chain(&e); e }));
        ops.push(match r {
            Err(s) => json!({ "op": op, "res": "panic", "panic": s }),
            Ok(Ok(t)) => okj(op, max, &t),
            Ok(Err(ExtractTxFeeRateError::FeeTooHigh { fee, max: lim })) => json!({ "op": op, "max": max, "res": "high", "rate": ler(fee), "limit": ler(lim) }),
            Ok(Err(ExtractTxFeeRateError::Fee(f))) => json!({ "op": op, "max": max, "res": fee_kind(&f) }),
            Ok(Err(ExtractTxFeeRateError::ExtractTx(ExtractTxError::Unfinalized))) => json!({ "op": op, "max": max, "res": "unfinalized" }),
            Ok(Err(_)) => json!({ "op": op, "max": max, "res": "othererror" }),
        });
    }
    m.insert("ops".into(), json!(ops));
    let (idhex, oid) = own_id(&p).unwrap_or_default();
    m.insert("idhex".into(), json!(idhex));
    m.insert("oid".into(), json!(oid));
    m.insert("id".into(), json!(guard(|| hex(&bitcoin::consensus::serialize(&e.id()))).unwrap_or_default()));
    rec
}
pub fn c23_run(c: &Value) -> Value {
    let p = build::v0_psbt(&c["p0"]).expect("case");
    use v0::bitcoin::ExtractTxError as E;
    let mut ops = vec![];
    let nomax = json!("");
    let mut calls: Vec<(&str, &Value)> = vec![("default", &nomax), ("limit", &nomax), ("unchecked", &nomax)];
    for x in c["maxs"].as_array().unwrap() { calls.push(("with", x)) }
    for (op, max) in calls {
        let q = p.clone();
        let r = guard(|| match op {
            "unchecked" => Ok(q.extract_tx_unchecked_fee_rate()),
            "default" => q.extract_tx(),
            "limit" => q.extract_tx_fee_rate_limit(),
            _ => q.extract_tx_with_fee_rate_limit(max_of(max)),
        }.map_err(|e| { chain(&e); e }));
        ops.push(match r {
            Err(s) => json!({ "op": op, "res": "panic", "panic": s }),
            Ok(Ok(t)) => okj(op, max, &t),
            Ok(Err(E::AbsurdFeeRate { fee_rate, tx })) => { let mut j = okj(op, max, &tx); j["res"] = json!("absurd"); j["rate"] = json!(ler(fee_rate)); j }
            Ok(Err(E::MissingInputValue { tx })) => { let mut j = okj(op, max, &tx); j["res"] = json!("missing"); j }
            Ok(Err(E::SendingTooMuch { psbt })) => json!({ "op": op, "max": max, "res": "toomuch", "p": dump::v0_psbt(&psbt) }),
            Ok(Err(_)) => json!({ "op": op, "res": "panic", "panic": "unknown error" }),
        });
    }
    json!({ "p": dump::v0_psbt(&p), "tx": txj(&p.unsigned_tx), "tab": nw_tab_v0(&[&p]), "ops": ops })
}
fn utxoj(r: Result<Result<bitcoin::TxOut, String>, String>) -> Value {
    match r { Err(m) => json!({ "st": "panic", "msg": m }), Ok(Err(k)) => json!({ "st": k }), Ok(Ok(o)) => json!({ "st": "ok", "amt": le(o.value), "spk": hex(o.script_pubkey.as_bytes()) }) }
}
pub fn c18_run(c: &Value) -> Value {
    let mut rec = json!({});
    let mut tab = vec![];
    if c.get("p").is_some() {
        let p = build::v2_psbt(&c["p"]).expect("case");
        use psbt_v2::FundingUtxoError as F;
        let k = |e: F| -> String { chain(&e); match e { F::MissingUtxo => "missing", F::OutOfBounds { .. } => "oob", _ => "other" }.into() };
        let fee = match guard(|| p.fee().map_err(|e| { chain(&e); fee_kind(&e) })) { Err(m) => json!({ "st": "panic", "msg": m }), Ok(Err(s)) => json!({ "st": s }), Ok(Ok(a)) => json!({ "st": "ok", "fee": le(a) }) };
        let iter = match guard(|| p.iter_funding_utxos().map(|u| u.cloned().map_err(k)).collect::<Vec<_>>()) { Err(m) => vec![json!({ "st": "panic", "msg": m })], Ok(v) => v.into_iter().map(|x| utxoj(Ok(x))).collect() };
        let at: Vec<Value> = p.inputs.iter().enumerate().map(|(j, i)| json!({ "k": j, "r": utxoj(guard(|| i.funding_utxo().cloned().map_err(k))) })).collect();
        tab.extend(nw_tab_v2(&[&p]).as_array().unwrap().clone());
        rec["p"] = dump::v2_psbt(&p);
        rec["d2"] = json!({ "fee": fee, "iter": iter, "at": at });
    }
    if c.get("p0").is_some() {
        let p = build::v0_psbt(&c["p0"]).expect("case");
        use v0::bitcoin::{Error as F, SignError as S};
        let k = |e: F| -> String { chain(&e); match e { F::MissingUtxo => "missing", F::PsbtUtxoOutOfbounds => "oob", F::NegativeFee => "negative", F::FeeOverflow => "overflow", _ => "other" }.into() };
        let k2 = |e: S| -> String { chain(&e); match e { S::MissingSpendUtxo => "missing", S::IndexOutOfBounds(_) => "index", _ => "other" }.into() };
        let fee = match guard(|| p.fee().map_err(k)) { Err(m) => json!({ "st": "panic", "msg": m }), Ok(Err(s)) => json!({ "st": s }), Ok(Ok(a)) => json!({ "st": "ok", "fee": le(a) }) };
        let iter = match guard(|| p.iter_funding_utxos().map(|u| u.cloned().map_err(k)).collect::<Vec<_>>()) { Err(m) => vec![json!({ "st": "panic", "msg": m })], Ok(v) => v.into_iter().map(|x| utxoj(Ok(x))).collect() };
        let n = p.inputs.len();
        let at: Vec<Value> = (0..n).chain([n, n + 1, usize::MAX >> 33]).map(|j| json!({ "k": j, "r": utxoj(guard(|| p.spend_utxo(j).cloned().map_err(k2))) })).collect();
        for e in nw_tab_v0(&[&p]).as_array().unwrap() { if !tab.contains(e) { tab.push(e.clone()) } }
        rec["p0"] = dump::v0_psbt(&p);
        rec["tx0"] = txj(&p.unsigned_tx);
        rec["d0"] = json!({ "fee": fee, "iter": iter, "at": at });
    }
    let _ = utxo0;
    rec["tab"] = json!(tab);
    rec
}
