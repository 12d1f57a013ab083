//! C28: creating a v0 PSBT from a transaction.
use bitcoin::absolute::LockTime;
use bitcoin::consensus::deserialize as cde;
use bitcoin::{transaction, Amount, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Witness};
use psbt_v2::v0;
use serde_json::{json, Value};

use crate::dump;
use crate::ops::*;
use crate::util::{guard, hex, unhex, Rng};
use crate::world::{self, World};

fn b(v: &Value) -> Vec<u8> { unhex(v.as_str().unwrap()) }
fn le4(v: &Value) -> u32 { u32::from_le_bytes(b(v).try_into().unwrap()) }
pub fn tx_of(t: &Value, sigs: &Value) -> Transaction {
    Transaction {
        version: transaction::Version(le4(&t["v"]) as i32),
        lock_time: LockTime::from_consensus(le4(&t["lt"])),
        input: t["ins"].as_array().unwrap().iter().zip(sigs.as_array().unwrap()).map(|(i, s)| TxIn {
            previous_output: OutPoint { txid: cde(&b(&i["txid"])).unwrap(), vout: le4(&i["vout"]) },
            sequence: Sequence(le4(&i["seq"])), script_sig: ScriptBuf::from(b(&s[0])), witness: cde(&b(&s[1])).unwrap(),
        }).collect(),
        output: t["outs"].as_array().unwrap().iter().map(|o| TxOut {
            value: Amount::from_sat(u64::from_le_bytes(b(&o["amt"]).try_into().unwrap())), script_pubkey: ScriptBuf::from(b(&o["spk"])),
        }).collect(),
    }
}
pub fn gen(w: &World, r: &mut Rng) -> Value {
    let many = world::wide(r, 250);
    let n = if many { r.range(252, 255) } else { r.range(0, 4) };
    let m = if world::wide(r, 250) { r.range(252, 255) } else { r.range(0, 4) };
    let odd = *r.pick(&[0usize, 0, 10, 40]);
    let tx = Transaction {
        version: transaction::Version(w.r_txver(r)),
        lock_time: LockTime::from_consensus(w.r_lock(r)),
        input: (0..n).map(|k| {
            let last = many && k + 1 == n && r.chance(50);
            TxIn {
                previous_output: OutPoint { txid: w.r_txid(r), vout: w.r_vout(r) }, sequence: Sequence(w.r_seq(r)),
                script_sig: if (!many || last) && r.chance(odd) { w.r_script(r) } else { ScriptBuf::new() },
                witness: if last || !many && r.chance(odd) { w.r_witness(r, 0) } else { Witness::new() },
            }
        }).collect(),
        output: (0..m).map(|_| TxOut { value: Amount::from_sat(w.r_amount(r)), script_pubkey: w.r_script(r) }).collect(),
    };
    json!({ "tx": txj(&tx), "sigs": sigsj(&tx) })
}
pub fn run(c: &Value) -> Value {
    let tx = tx_of(&c["tx"], &c["sigs"]);
    let mut o = json!({ "tx": c["tx"], "sigs": c["sigs"] });
    let r = guard(|| match v0::Psbt::from_unsigned_tx(tx.clone()) {
        Err(e) => {
            disp(&e);
            json!({ "res": "err", "err": match e {
                v0::bitcoin::Error::UnsignedTxHasScriptSigs => "scriptsig",
                v0::bitcoin::Error::UnsignedTxHasScriptWitnesses => "witness",
                _ => "other",
            } })
        }
        Ok(p) => {
            let mut j = json!({ "res": "ok", "p": dump::v0_psbt(&p), "tx2": txj(&p.unsigned_tx), "sigs2": sigsj(&p.unsigned_tx) });
            let ser = p.serialize();
            j["ser"] = json!(hex(&ser));
            j["back"] = json!(v0::Psbt::deserialize(&ser).map(|q| q == p).unwrap_or(false));
            let t = p.extract_tx_unchecked_fee_rate();
            j["ext"] = json!(t == tx);
            j
        }
    });
    match r {
        Ok(j) => for (k, v) in j.as_object().unwrap() { o[k] = v.clone() },
        Err(m) => { o["res"] = json!("panic"); o["panic"] = json!(m) }
    }
    o
}
