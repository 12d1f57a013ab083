//! Inverse of `dump`: builds real PSBT structs from abstract entries <<field, keydata, value>>.
//! Only rust-bitcoin decoders are used here, never the deserializer under test.
use bitcoin::absolute::{Height, LockTime, Time};
use bitcoin::bip32::{ChildNumber, Fingerprint, KeySource, Xpub};
use bitcoin::consensus::{deserialize as cde, encode::deserialize_partial};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{self, XOnlyPublicKey};
use bitcoin::taproot::{ControlBlock, LeafVersion, TapLeafHash, TapNodeHash, TapTree, TaprootBuilder};
use bitcoin::{
    ecdsa, taproot, transaction, Amount, PublicKey, ScriptBuf, Sequence, Transaction, TxOut, Txid,
    VarInt, Witness,
};
use psbt_v2::{raw, v0, v2, PsbtSighashType};
use serde_json::Value;

use crate::util::unhex;

pub type R<T> = Result<T, String>;
fn er<E: std::fmt::Debug>(e: E) -> String { format!("{:?}", e) }
fn u32le(v: &[u8]) -> R<u32> { Ok(u32::from_le_bytes(v.try_into().map_err(er)?)) }
fn u64le(v: &[u8]) -> R<u64> { Ok(u64::from_le_bytes(v.try_into().map_err(er)?)) }

pub fn keysource(v: &[u8]) -> R<KeySource> {
    if v.len() < 4 || v.len() % 4 != 0 { return Err("keysource".into()) }
    let fp: [u8; 4] = v[..4].try_into().unwrap();
    let path: Vec<ChildNumber> =
        v[4..].chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap()).into()).collect();
    Ok((Fingerprint::from(fp), path.into()))
}
pub fn tapkeysource(v: &[u8]) -> R<(Vec<TapLeafHash>, KeySource)> {
    let (lh, n) = deserialize_partial::<Vec<TapLeafHash>>(v).map_err(er)?;
    Ok((lh, keysource(&v[n..])?))
}
pub fn tap_tree(v: &[u8]) -> R<TapTree> {
    let mut b = TaprootBuilder::new();
    let mut p = 0;
    while p < v.len() {
        if p + 1 >= v.len() { return Err("taptree".into()) }
        let (depth, ver) = (v[p], v[p + 1]);
        let (s, n) = deserialize_partial::<ScriptBuf>(&v[p + 2..]).map_err(er)?;
        let lv = LeafVersion::from_consensus(ver).map_err(er)?;
        b = b.add_leaf_with_ver(depth, s, lv).map_err(er)?;
        p += 2 + n;
    }
    TapTree::try_from(b).map_err(er)
}
/// v0 and v2 have their own raw key types.
pub trait MkProp { fn mk(prefix: Vec<u8>, subtype: u8, key: Vec<u8>) -> Self; }
pub trait MkKey { fn mk(type_value: u8, key: Vec<u8>) -> Self; }
impl MkProp for raw::ProprietaryKey { fn mk(prefix: Vec<u8>, subtype: u8, key: Vec<u8>) -> Self { Self { prefix, subtype, key } } }
impl MkProp for v0::bitcoin::raw::ProprietaryKey { fn mk(prefix: Vec<u8>, subtype: u8, key: Vec<u8>) -> Self { Self { prefix, subtype, key } } }
impl MkKey for raw::Key { fn mk(type_value: u8, key: Vec<u8>) -> Self { Self { type_value, key } } }
impl MkKey for v0::bitcoin::raw::Key { fn mk(type_value: u8, key: Vec<u8>) -> Self { Self { type_value, key } } }
pub fn propkey<T: MkProp>(k: &[u8]) -> R<T> {
    let (prefix, n) = deserialize_partial::<Vec<u8>>(k).map_err(er)?;
    let rest = &k[n..];
    if rest.is_empty() { return Err("propkey".into()) }
    Ok(T::mk(prefix, rest[0], rest[1..].to_vec()))
}
pub fn unkkey<T: MkKey>(k: &[u8]) -> T { T::mk(k[0], k[1..].to_vec()) }
fn script(v: &[u8]) -> ScriptBuf { ScriptBuf::from(v.to_vec()) }

macro_rules! set_common_input { ($i:ident, $f:expr, $k:expr, $v:expr, $bip32:ident, $prop:ident, $unk:ident) => {{
    let (k, v): (&[u8], &[u8]) = ($k, $v);
    match $f {
        "nwutxo" => $i.non_witness_utxo = Some(cde::<Transaction>(v).map_err(er)?),
        "wutxo" => $i.witness_utxo = Some(cde::<TxOut>(v).map_err(er)?),
        "psig" => { $i.partial_sigs.insert(PublicKey::from_slice(k).map_err(er)?, ecdsa::Signature::from_slice(v).map_err(er)?); }
        "sighash" => $i.sighash_type = Some(PsbtSighashType::from_u32(u32le(v)?)),
        "redeem" => $i.redeem_script = Some(script(v)),
        "wscript" => $i.witness_script = Some(script(v)),
        "bip32" => { $i.$bip32.insert(secp256k1::PublicKey::from_slice(k).map_err(er)?, keysource(v)?); }
        "fsig" => $i.final_script_sig = Some(script(v)),
        "fwit" => $i.final_script_witness = Some(cde::<Witness>(v).map_err(er)?),
        "ripemd" => { $i.ripemd160_preimages.insert(Hash::from_slice(k).map_err(er)?, v.to_vec()); }
        "sha256" => { $i.sha256_preimages.insert(Hash::from_slice(k).map_err(er)?, v.to_vec()); }
        "hash160" => { $i.hash160_preimages.insert(Hash::from_slice(k).map_err(er)?, v.to_vec()); }
        "hash256" => { $i.hash256_preimages.insert(Hash::from_slice(k).map_err(er)?, v.to_vec()); }
        "tapkeysig" => $i.tap_key_sig = Some(taproot::Signature::from_slice(v).map_err(er)?),
        "tapscriptsig" => {
            if k.len() != 64 { return Err("tapscriptsig".into()) }
            let x = XOnlyPublicKey::from_slice(&k[..32]).map_err(er)?;
            let l = TapLeafHash::from_slice(&k[32..]).map_err(er)?;
            $i.tap_script_sigs.insert((x, l), taproot::Signature::from_slice(v).map_err(er)?);
        }
        "tapleaf" => {
            if v.is_empty() { return Err("tapleaf".into()) }
            let cb = ControlBlock::decode(k).map_err(er)?;
            let lv = LeafVersion::from_consensus(v[v.len() - 1]).map_err(er)?;
            $i.tap_scripts.insert(cb, (script(&v[..v.len() - 1]), lv));
        }
        "tapbip32" => { $i.tap_key_origins.insert(XOnlyPublicKey::from_slice(k).map_err(er)?, tapkeysource(v)?); }
        "tapinternal" => $i.tap_internal_key = Some(XOnlyPublicKey::from_slice(v).map_err(er)?),
        "tapmerkle" => $i.tap_merkle_root = Some(TapNodeHash::from_slice(v).map_err(er)?),
        "prop" => { $i.$prop.insert(propkey(k)?, v.to_vec()); }
        "unk" => { $i.$unk.insert(unkkey(k), v.to_vec()); }
        f => return Err(format!("input field {}", f)),
    }
}}}
macro_rules! set_common_output { ($o:ident, $f:expr, $k:expr, $v:expr, $bip32:ident, $prop:ident, $unk:ident) => {{
    let (k, v): (&[u8], &[u8]) = ($k, $v);
    match $f {
        "redeem" => $o.redeem_script = Some(script(v)),
        "wscript" => $o.witness_script = Some(script(v)),
        "bip32" => { $o.$bip32.insert(secp256k1::PublicKey::from_slice(k).map_err(er)?, keysource(v)?); }
        "tapinternal" => $o.tap_internal_key = Some(XOnlyPublicKey::from_slice(v).map_err(er)?),
        "taptree" => $o.tap_tree = Some(tap_tree(v)?),
        "tapbip32" => { $o.tap_key_origins.insert(XOnlyPublicKey::from_slice(k).map_err(er)?, tapkeysource(v)?); }
        "prop" => { $o.$prop.insert(propkey(k)?, v.to_vec()); }
        "unk" => { $o.$unk.insert(unkkey(k), v.to_vec()); }
        f => return Err(format!("output field {}", f)),
    }
}}}

#[cfg(feature = "sp")]
fn ck(k: &[u8]) -> R<bitcoin::CompressedPublicKey> { bitcoin::CompressedPublicKey::from_slice(k).map_err(er) }
#[cfg(feature = "sp")]
fn proof(v: &[u8]) -> R<v2::DleqProof> { Ok(v2::DleqProof(v.try_into().map_err(er)?)) }

pub fn set_v2_global(g: &mut v2::Global, f: &str, k: &[u8], v: &[u8]) -> R<()> {
    match f {
        "version" => (),
        "txver" => g.tx_version = transaction::Version(u32le(v)? as i32),
        "fallback" => g.fallback_lock_time = Some(LockTime::from_consensus(u32le(v)?)),
        "incount" => g.input_count = cde::<VarInt>(v).map_err(er)?.0 as usize,
        "outcount" => g.output_count = cde::<VarInt>(v).map_err(er)?.0 as usize,
        "mod" => g.tx_modifiable_flags = v[0],
        "xpub" => { g.xpubs.insert(Xpub::decode(k).map_err(er)?, keysource(v)?); }
        #[cfg(feature = "sp")]
        "ecdh" => { g.sp_ecdh_shares.insert(ck(k)?, ck(v)?); }
        #[cfg(feature = "sp")]
        "dleq" => { g.sp_dleq_proofs.insert(ck(k)?, proof(v)?); }
        "prop" => { g.proprietaries.insert(propkey(k)?, v.to_vec()); }
        "unk" => { g.unknowns.insert(unkkey(k), v.to_vec()); }
        f => return Err(format!("global field {}", f)),
    }
    Ok(())
}
pub fn set_v2_input(i: &mut v2::Input, f: &str, k: &[u8], v: &[u8]) -> R<()> {
    match f {
        "txid" => i.previous_txid = Txid::from_slice(v).map_err(er)?,
        "vout" => i.spent_output_index = u32le(v)?,
        "sequence" => i.sequence = Some(Sequence(u32le(v)?)),
        "mintime" => i.min_time = Some(Time::from_consensus(u32le(v)?).map_err(er)?),
        "minheight" => i.min_height = Some(Height::from_consensus(u32le(v)?).map_err(er)?),
        #[cfg(feature = "sp")]
        "ecdh" => { i.sp_ecdh_shares.insert(ck(k)?, ck(v)?); }
        #[cfg(feature = "sp")]
        "dleq" => { i.sp_dleq_proofs.insert(ck(k)?, proof(v)?); }
        _ => set_common_input!(i, f, k, v, bip32_derivations, proprietaries, unknowns),
    }
    Ok(())
}
pub fn set_v2_output(o: &mut v2::Output, f: &str, k: &[u8], v: &[u8]) -> R<()> {
    match f {
        "amount" => o.amount = Amount::from_sat(u64le(v)?),
        "script" => o.script_pubkey = script(v),
        #[cfg(feature = "sp")]
        "spinfo" => o.sp_v0_info = Some(v.to_vec()),
        #[cfg(feature = "sp")]
        "splabel" => o.sp_v0_label = Some(u32le(v)?),
        _ => set_common_output!(o, f, k, v, bip32_derivations, proprietaries, unknowns),
    }
    Ok(())
}
pub fn set_v0_global(p: &mut v0::Psbt, f: &str, k: &[u8], v: &[u8]) -> R<()> {
    match f {
        "unsignedtx" => p.unsigned_tx = tx_from_nowit(v)?,
        "version" => p.version = u32le(v)?,
        "xpub" => { p.xpub.insert(Xpub::decode(k).map_err(er)?, keysource(v)?); }
        "prop" => { p.proprietary.insert(propkey(k)?, v.to_vec()); }
        "unk" => { p.unknown.insert(unkkey(k), v.to_vec()); }
        f => return Err(format!("v0 global field {}", f)),
    }
    Ok(())
}
pub fn set_v0_input(i: &mut v0::Input, f: &str, k: &[u8], v: &[u8]) -> R<()> {
    set_common_input!(i, f, k, v, bip32_derivation, proprietary, unknown);
    Ok(())
}
pub fn set_v0_output(o: &mut v0::Output, f: &str, k: &[u8], v: &[u8]) -> R<()> {
    set_common_output!(o, f, k, v, bip32_derivation, proprietary, unknown);
    Ok(())
}
/// Decodes exactly the non-segwit transaction encoding.
pub fn tx_from_nowit(v: &[u8]) -> R<Transaction> {
    use bitcoin::consensus::Decodable;
    let mut c = v;
    let version = transaction::Version::consensus_decode(&mut c).map_err(er)?;
    let input = Vec::<bitcoin::TxIn>::consensus_decode(&mut c).map_err(er)?;
    let output = Vec::<TxOut>::consensus_decode(&mut c).map_err(er)?;
    let lock_time = LockTime::consensus_decode(&mut c).map_err(er)?;
    if !c.is_empty() { return Err("trailing".into()) }
    Ok(Transaction { version, lock_time, input, output })
}
pub fn empty_tx() -> Transaction {
    Transaction { version: transaction::Version::TWO, lock_time: LockTime::ZERO, input: vec![], output: vec![] }
}

fn entries(v: &Value) -> Vec<(String, Vec<u8>, Vec<u8>)> {
    v.as_array().unwrap().iter().map(|e| {
        let s = |i: usize| e[i].as_str().unwrap();
        (s(0).to_string(), unhex(s(1)), unhex(s(2)))
    }).collect()
}
pub fn v2_input(v: &Value) -> R<v2::Input> {
    let mut i = v2::Input::new(&bitcoin::OutPoint::null());
    for (f, k, v) in entries(v) { set_v2_input(&mut i, &f, &k, &v)? }
    Ok(i)
}
pub fn v2_output(v: &Value) -> R<v2::Output> {
    let mut o = v2::Output::new(TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::new() });
    for (f, k, v) in entries(v) { set_v2_output(&mut o, &f, &k, &v)? }
    Ok(o)
}
pub fn v2_psbt(v: &Value) -> R<v2::Psbt> {
    let mut p = v2::Creator::new().psbt();
    for (f, k, v) in entries(&v["g"]) { set_v2_global(&mut p.global, &f, &k, &v)? }
    for i in v["i"].as_array().unwrap() { p.inputs.push(v2_input(i)?) }
    for o in v["o"].as_array().unwrap() { p.outputs.push(v2_output(o)?) }
    Ok(p)
}
pub fn v0_psbt(v: &Value) -> R<v0::Psbt> {
    let mut p = v0::Psbt::from_unsigned_tx(empty_tx()).map_err(er)?;
    for (f, k, v) in entries(&v["g"]) { set_v0_global(&mut p, &f, &k, &v)? }
    p.inputs.clear();
    p.outputs.clear();
    for i in v["i"].as_array().unwrap() {
        let mut x = v0::Input::default();
        for (f, k, v) in entries(i) { set_v0_input(&mut x, &f, &k, &v)? }
        p.inputs.push(x)
    }
    for o in v["o"].as_array().unwrap() {
        let mut x = v0::Output::default();
        for (f, k, v) in entries(o) { set_v0_output(&mut x, &f, &k, &v)? }
        p.outputs.push(x)
    }
    Ok(p)
}
