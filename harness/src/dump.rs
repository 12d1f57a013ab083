//! Projection of the real PSBT structs to the abstract state of the specification:
//! every map is a set of <<field, keydata, value>> entries (keydata and value in wire form, hex).
//! Only rust-bitcoin encoders are used here, never the serializer under test.
use bitcoin::bip32::KeySource;
use bitcoin::consensus::{serialize as cser, Encodable};
use bitcoin::taproot::{TapLeafHash, TapTree};
use bitcoin::hashes::Hash;
use bitcoin::Transaction;
use psbt_v2::{v0, v2};
use serde_json::{json, Value};

use crate::util::hex;

pub type Entry = (&'static str, String, String);

pub fn ks(k: &KeySource) -> Vec<u8> {
    let mut v = k.0.to_bytes().to_vec();
    for c in k.1.into_iter() { v.extend(u32::from(*c).to_le_bytes()) }
    v
}
pub fn tapks(lh: &[TapLeafHash], k: &KeySource) -> Vec<u8> {
    let mut v = cser(&bitcoin::VarInt(lh.len() as u64));
    for h in lh { v.extend(h.to_byte_array()) }
    v.extend(ks(k));
    v
}
pub fn taptree(t: &TapTree) -> Vec<u8> {
    let mut v = vec![];
    for l in t.script_leaves() {
        v.push(l.merkle_branch().len() as u8);
        v.push(l.version().to_consensus());
        l.script().consensus_encode(&mut v).unwrap();
    }
    v
}
pub fn prop_key(prefix: &[u8], subtype: u8, key: &[u8]) -> Vec<u8> {
    let mut v = cser(&bitcoin::VarInt(prefix.len() as u64));
    v.extend(prefix);
    v.push(subtype);
    v.extend(key);
    v
}
/// The unsigned transaction in the form BIP-174 prescribes (never the segwit form).
pub fn tx_nowit(tx: &Transaction) -> Vec<u8> {
    let mut v = vec![];
    tx.version.consensus_encode(&mut v).unwrap();
    tx.input.consensus_encode(&mut v).unwrap();
    tx.output.consensus_encode(&mut v).unwrap();
    tx.lock_time.consensus_encode(&mut v).unwrap();
    v
}

fn e(f: &'static str, k: Vec<u8>, v: Vec<u8>) -> Entry { (f, hex(&k), hex(&v)) }
fn unk(t: u8, k: &[u8]) -> Vec<u8> { let mut v = vec![t]; v.extend(k); v }

macro_rules! common_input { ($i:ident, $r:ident, $bip32:ident, $prop:ident, $unk:ident) => {
    if let Some(x) = &$i.non_witness_utxo { $r.push(e("nwutxo", vec![], cser(x))) }
    if let Some(x) = &$i.witness_utxo { $r.push(e("wutxo", vec![], cser(x))) }
    for (k, v) in &$i.partial_sigs { $r.push(e("psig", k.to_bytes(), v.to_vec())) }
    if let Some(x) = &$i.sighash_type { $r.push(e("sighash", vec![], x.to_u32().to_le_bytes().to_vec())) }
    if let Some(x) = &$i.redeem_script { $r.push(e("redeem", vec![], x.to_bytes())) }
    if let Some(x) = &$i.witness_script { $r.push(e("wscript", vec![], x.to_bytes())) }
    for (k, v) in &$i.$bip32 { $r.push(e("bip32", k.serialize().to_vec(), ks(v))) }
    if let Some(x) = &$i.final_script_sig { $r.push(e("fsig", vec![], x.to_bytes())) }
    if let Some(x) = &$i.final_script_witness { $r.push(e("fwit", vec![], cser(x))) }
    for (k, v) in &$i.ripemd160_preimages { $r.push(e("ripemd", k.to_byte_array().to_vec(), v.clone())) }
    for (k, v) in &$i.sha256_preimages { $r.push(e("sha256", k.to_byte_array().to_vec(), v.clone())) }
    for (k, v) in &$i.hash160_preimages { $r.push(e("hash160", k.to_byte_array().to_vec(), v.clone())) }
    for (k, v) in &$i.hash256_preimages { $r.push(e("hash256", k.to_byte_array().to_vec(), v.clone())) }
    if let Some(x) = &$i.tap_key_sig { $r.push(e("tapkeysig", vec![], x.to_vec())) }
    for ((x, lh), v) in &$i.tap_script_sigs {
        let mut k = x.serialize().to_vec(); k.extend(lh.to_byte_array());
        $r.push(e("tapscriptsig", k, v.to_vec()))
    }
    for (cb, (s, ver)) in &$i.tap_scripts {
        let mut v = s.to_bytes(); v.push(ver.to_consensus());
        $r.push(e("tapleaf", cb.serialize(), v))
    }
    for (k, (lh, o)) in &$i.tap_key_origins { $r.push(e("tapbip32", k.serialize().to_vec(), tapks(lh, o))) }
    if let Some(x) = &$i.tap_internal_key { $r.push(e("tapinternal", vec![], x.serialize().to_vec())) }
    if let Some(x) = &$i.tap_merkle_root { $r.push(e("tapmerkle", vec![], x.to_byte_array().to_vec())) }
    for (k, v) in &$i.$prop { $r.push(e("prop", prop_key(&k.prefix, k.subtype, &k.key), v.clone())) }
    for (k, v) in &$i.$unk { $r.push(e("unk", unk(k.type_value, &k.key), v.clone())) }
}}
macro_rules! common_output { ($o:ident, $r:ident, $bip32:ident, $prop:ident, $unk:ident) => {
    if let Some(x) = &$o.redeem_script { $r.push(e("redeem", vec![], x.to_bytes())) }
    if let Some(x) = &$o.witness_script { $r.push(e("wscript", vec![], x.to_bytes())) }
    for (k, v) in &$o.$bip32 { $r.push(e("bip32", k.serialize().to_vec(), ks(v))) }
    if let Some(x) = &$o.tap_internal_key { $r.push(e("tapinternal", vec![], x.serialize().to_vec())) }
    if let Some(x) = &$o.tap_tree { $r.push(e("taptree", vec![], taptree(x))) }
    for (k, (lh, o)) in &$o.tap_key_origins { $r.push(e("tapbip32", k.serialize().to_vec(), tapks(lh, o))) }
    for (k, v) in &$o.$prop { $r.push(e("prop", prop_key(&k.prefix, k.subtype, &k.key), v.clone())) }
    for (k, v) in &$o.$unk { $r.push(e("unk", unk(k.type_value, &k.key), v.clone())) }
}}

pub fn v2_global(g: &v2::Global) -> Vec<Entry> {
    let mut r = vec![];
    r.push(e("version", vec![], u32::from(g.version).to_le_bytes().to_vec()));
    r.push(e("txver", vec![], g.tx_version.0.to_le_bytes().to_vec()));
    if let Some(l) = g.fallback_lock_time { r.push(e("fallback", vec![], l.to_consensus_u32().to_le_bytes().to_vec())) }
    r.push(e("incount", vec![], cser(&bitcoin::VarInt(g.input_count as u64))));
    r.push(e("outcount", vec![], cser(&bitcoin::VarInt(g.output_count as u64))));
    r.push(e("mod", vec![], vec![g.tx_modifiable_flags]));
    for (k, v) in &g.xpubs { r.push(e("xpub", k.encode().to_vec(), ks(v))) }
    #[cfg(feature = "sp")]
    {
        for (k, v) in &g.sp_ecdh_shares { r.push(e("ecdh", k.to_bytes().to_vec(), v.to_bytes().to_vec())) }
        for (k, v) in &g.sp_dleq_proofs { r.push(e("dleq", k.to_bytes().to_vec(), v.0.to_vec())) }
    }
    for (k, v) in &g.proprietaries { r.push(e("prop", prop_key(&k.prefix, k.subtype, &k.key), v.clone())) }
    for (k, v) in &g.unknowns { r.push(e("unk", unk(k.type_value, &k.key), v.clone())) }
    r
}
pub fn v2_input(i: &v2::Input) -> Vec<Entry> {
    let mut r = vec![];
    r.push(e("txid", vec![], i.previous_txid.to_byte_array().to_vec()));
    r.push(e("vout", vec![], i.spent_output_index.to_le_bytes().to_vec()));
    if let Some(s) = i.sequence { r.push(e("sequence", vec![], s.0.to_le_bytes().to_vec())) }
    if let Some(t) = i.min_time { r.push(e("mintime", vec![], t.to_consensus_u32().to_le_bytes().to_vec())) }
    if let Some(t) = i.min_height { r.push(e("minheight", vec![], t.to_consensus_u32().to_le_bytes().to_vec())) }
    common_input!(i, r, bip32_derivations, proprietaries, unknowns);
    #[cfg(feature = "sp")]
    {
        for (k, v) in &i.sp_ecdh_shares { r.push(e("ecdh", k.to_bytes().to_vec(), v.to_bytes().to_vec())) }
        for (k, v) in &i.sp_dleq_proofs { r.push(e("dleq", k.to_bytes().to_vec(), v.0.to_vec())) }
    }
    r
}
pub fn v2_output(o: &v2::Output) -> Vec<Entry> {
    let mut r = vec![];
    r.push(e("amount", vec![], o.amount.to_sat().to_le_bytes().to_vec()));
    r.push(e("script", vec![], o.script_pubkey.to_bytes()));
    common_output!(o, r, bip32_derivations, proprietaries, unknowns);
    #[cfg(feature = "sp")]
    {
        if let Some(x) = &o.sp_v0_info { r.push(e("spinfo", vec![], x.clone())) }
        if let Some(x) = &o.sp_v0_label { r.push(e("splabel", vec![], x.to_le_bytes().to_vec())) }
    }
    r
}
pub fn v2_psbt(p: &v2::Psbt) -> Value {
    json!({
        "g": v2_global(&p.global),
        "i": p.inputs.iter().map(v2_input).collect::<Vec<_>>(),
        "o": p.outputs.iter().map(v2_output).collect::<Vec<_>>(),
    })
}
pub fn v0_global(p: &v0::Psbt) -> Vec<Entry> {
    let mut r = vec![];
    r.push(e("unsignedtx", vec![], tx_nowit(&p.unsigned_tx)));
    if p.version != 0 { r.push(e("version", vec![], p.version.to_le_bytes().to_vec())) }
    for (k, v) in &p.xpub { r.push(e("xpub", k.encode().to_vec(), ks(v))) }
    for (k, v) in &p.proprietary { r.push(e("prop", prop_key(&k.prefix, k.subtype, &k.key), v.clone())) }
    for (k, v) in &p.unknown { r.push(e("unk", unk(k.type_value, &k.key), v.clone())) }
    r
}
pub fn v0_input(i: &v0::Input) -> Vec<Entry> {
    let mut r = vec![];
    common_input!(i, r, bip32_derivation, proprietary, unknown);
    r
}
pub fn v0_output(o: &v0::Output) -> Vec<Entry> {
    let mut r = vec![];
    common_output!(o, r, bip32_derivation, proprietary, unknown);
    r
}
pub fn v0_psbt(p: &v0::Psbt) -> Value {
    json!({
        "g": v0_global(p),
        "i": p.inputs.iter().map(v0_input).collect::<Vec<_>>(),
        "o": p.outputs.iter().map(v0_output).collect::<Vec<_>>(),
    })
}
