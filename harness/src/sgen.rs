//! PSBTs whose inputs spend known outputs, so that they can be signed and finalized.
use bitcoin::absolute::{Height, Time};
use bitcoin::bip32::{ChildNumber, DerivationPath, KeySource, Xpriv};
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::taproot::{LeafVersion, TapLeafHash};
use bitcoin::{Amount, OutPoint, PrivateKey, PublicKey, ScriptBuf, Sequence, TxOut};
use psbt_v2::{v0, v2, PsbtSighashType};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use crate::build;
use crate::ops::own_tx;
use crate::util::Rng;
use crate::world::{Spend, World, NKEYS};

pub struct Opts {
    /// percentages: taproot kinds, odd kinds, per-field damage, unrelated extra fields, non-default sighash, listed key
    pub tap: usize,
    pub odd: usize,
    pub damage: usize,
    pub extra: usize,
    pub hashty: usize,
    pub list: usize,
    pub oddty: usize,
    /// percentage of timelocked inputs whose transaction fields do not satisfy the lock
    pub unlock: usize,
    pub kinds: &'static [&'static str],
}
pub const PLAIN: Opts = Opts { tap: 0, odd: 0, damage: 0, extra: 0, hashty: 0, list: 100, oddty: 0, unlock: 0, kinds: &[] };

/// The key source of key j relative to its master (depth 0) or to the master's first child (1).
pub fn source(w: &World, j: usize, depth: usize) -> KeySource {
    let k = &w.keys[j];
    let x = ext(w, k.m, depth);
    let path: Vec<ChildNumber> = k.path.into_iter().copied().skip(depth).collect();
    (x.fingerprint(&w.secp), path.into())
}
/// Extended key of master m: the master itself or the child that all its keys descend from.
pub fn ext(w: &World, m: usize, depth: usize) -> Xpriv {
    let p: DerivationPath = if depth == 0 { vec![] } else { vec![ChildNumber::from(0x8000_0054)] }.into();
    w.masters[m].derive_priv(&w.secp, &p).unwrap()
}

pub fn ceremony(w: &World, r: &mut Rng, nin: usize, nout: usize, o: &Opts) -> (v2::Psbt, Vec<Spend>) {
    let mut p = v2::Creator::new().psbt();
    let mut sp = vec![];
    let cls = 1 + r.below(2) as u8;
    p.global.tx_modifiable_flags = if r.chance(50) { r.below(8) as u8 } else { 0 };
    p.global.tx_version.0 = if r.chance(80) { 2 } else { w.r_txver(r) };
    if r.chance(40) { p.global.fallback_lock_time = Some(bitcoin::absolute::LockTime::from_consensus(if cls == 1 { w.r_height(r) } else { w.r_time(r) })) }
    for _ in 0..nin {
        let kind = if o.kinds.is_empty() { w.r_kind(r, o.tap, o.odd) } else { *r.pick(o.kinds) };
        let s = w.spend_cls(r, kind, cls);
        p.inputs.push(input(w, r, &s, o));
        sp.push(s);
    }
    for _ in 0..nout {
        let s = { let k = w.r_kind(r, 20, 0); w.spend(r, k).spk };
        let v = r.next() % 90_000;
        let mut out = v2::Output::new(TxOut { value: Amount::from_sat(v), script_pubkey: s });
        if r.chance(o.extra) { w.fill_v2_output(r, &mut out, 25) }
        p.outputs.push(out);
    }
    if r.chance(o.extra) {
        for f in ["xpub", "prop", "unk"] { if r.chance(50) { let (k, v) = w.r_entry(r, 'g', false, f); build::set_v2_global(&mut p.global, f, &k, &v).unwrap(); } }
    }
    p.global.input_count = nin;
    p.global.output_count = nout;
    (p, sp)
}

pub fn input(w: &World, r: &mut Rng, s: &Spend, o: &Opts) -> v2::Input {
    let value = 100_000 + r.next() % 1_000_000;
    let vout = r.below(3);
    let prev = w.prev_tx(r, &s.spk, value, vout);
    let mut i = v2::Input::new(&OutPoint { txid: prev.compute_txid(), vout: vout as u32 });
    let txout = prev.output[vout].clone();
    let (nw, wu) = if s.segwit { *r.pick(&[(false, true), (false, true), (true, false), (true, true)]) } else { (true, r.chance(o.damage)) };
    if nw { i.non_witness_utxo = Some(prev) }
    if wu { i.witness_utxo = Some(txout) }
    i.redeem_script = s.redeem.clone();
    i.witness_script = s.wscript.clone();
    let tapr = s.spk.is_p2tr();
    for &j in &s.keys {
        if !r.chance(o.list) { continue }
        let src = source(w, j, r.chance(25) as usize);
        if !tapr { i.bip32_derivations.insert(w.keys[j].pk.inner, src); }
    }
    if r.chance(15) {
        let j = r.below(NKEYS);
        i.bip32_derivations.insert(w.keys[j].pk.inner, source(w, j, 0));
    }
    if tapr { tap_fields_v2(w, r, s, &mut i) }
    for (f, v) in &s.pre {
        if !r.chance(85) { continue }
        match *f {
            "sha256" => { i.sha256_preimages.insert(sha256::Hash::hash(v), v.clone()); }
            "hash160" => { i.hash160_preimages.insert(hash160::Hash::hash(v), v.clone()); }
            "ripemd" => { i.ripemd160_preimages.insert(ripemd160::Hash::hash(v), v.clone()); }
            "hash256" => { i.hash256_preimages.insert(sha256d::Hash::hash(v), v.clone()); }
            _ => unreachable!(),
        }
    }
    if r.chance(o.hashty) {
        let t = if tapr { *r.pick(&[0u32, 1, 2, 3, 0x81, 0x82, 0x83]) } else { *r.pick(&[1u32, 2, 3, 0x81, 0x82, 0x83]) };
        i.sighash_type = Some(PsbtSighashType::from_u32(t));
    }
    if r.chance(o.oddty) { i.sighash_type = Some(PsbtSighashType::from_u32(w.r_sighash(r))) }
    // Transaction fields that satisfy the script's locks (or not).
    let sat = !r.chance(o.unlock);
    if let Some(t) = s.after {
        let d = r.below(3) as u32;
        let v = if sat { t.saturating_add(d) } else { t.saturating_sub(1 + d) };
        if t < 500_000_000 { i.min_height = Height::from_consensus(v).ok() } else { i.min_time = Time::from_consensus(v.max(500_000_000)).ok() }
        i.sequence = if sat { Some(Sequence(*r.pick(&[0xffff_fffeu32, 0xffff_fffd, 0]))) } else if r.chance(50) { None } else { Some(Sequence(0)) };
    } else if let Some(t) = s.older {
        let d = r.below(3) as u32;
        i.sequence = Some(Sequence(if sat { t + d } else { *r.pick(&[t.saturating_sub(1), t | 1 << 31, t ^ 1 << 22, 0xffff_ffff]) }));
    } else if r.chance(50) { i.sequence = Some(Sequence(w.r_seq(r))) }
    if r.chance(o.damage) { damage(w, r, &mut i) }
    if r.chance(o.extra) {
        for f in ["prop", "unk", "tapscriptsig", "tapbip32", "ripemd", "sha256", "fsig", "fwit", "psig"] {
            // Final scripts and unrelated signatures only now and then.
            if r.chance(match f { "prop" | "unk" => 50, "fsig" | "fwit" | "psig" => 4, _ => 12 }) {
                let (k, v) = w.r_entry(r, 'i', false, f);
                build::set_v2_input(&mut i, f, &k, &v).unwrap();
            }
        }
        if cfg!(feature = "sp") && r.chance(20) {
            for f in ["ecdh", "dleq"] { let (k, v) = w.r_entry(r, 'i', false, f); build::set_v2_input(&mut i, f, &k, &v).unwrap(); }
        }
    }
    i
}
pub fn tap_fields_v2(w: &World, r: &mut Rng, s: &Spend, i: &mut v2::Input) {
    i.tap_internal_key = Some(w.xonly(s.keys[0]));
    if r.chance(85) { i.tap_key_origins.insert(w.xonly(s.keys[0]), (vec![], source(w, s.keys[0], 0))); }
    if let Some(si) = &s.tap {
        i.tap_merkle_root = si.merkle_root();
        let keep = *r.pick(&[100, 100, 100, 100, 100, 100, 50, 0]);
        for (x, lv) in si.script_map().keys() {
            if !r.chance(keep) { continue }
            i.tap_scripts.insert(si.control_block(&(x.clone(), *lv)).unwrap(), (x.clone(), *lv));
        }
        for (lh, ks) in &s.leaf_keys {
            for &j in ks { if r.chance(85) { i.tap_key_origins.entry(w.xonly(j)).or_insert_with(|| (vec![], source(w, j, 0))).0.push(*lh) } }
        }
    }
    let _ = (LeafVersion::TapScript, None::<TapLeafHash>);
}
fn damage(w: &World, r: &mut Rng, i: &mut v2::Input) {
    match r.below(12) {
        0 => i.redeem_script = None,
        1 => i.witness_script = None,
        2 => i.redeem_script = Some(w.r_script(r)),
        3 => i.witness_script = Some(w.r_script(r)),
        4 => { i.witness_utxo = None; i.non_witness_utxo = None }
        5 => i.spent_output_index = *r.pick(&[7u32, u32::MAX]),
        6 => i.spent_output_index ^= 1,
        7 => if let Some(u) = i.witness_utxo.as_mut() { u.script_pubkey = w.r_script(r) },
        8 => i.witness_utxo = i.non_witness_utxo.as_ref().and_then(|t| t.output.get(i.spent_output_index as usize).cloned()),
        9 => i.previous_txid = w.r_txid(r),
        10 => { let s = { let k = w.r_kind(r, 0, 0); w.spend(r, k) }; i.redeem_script = s.redeem; i.witness_script = s.wscript }
        _ => if let Some(t) = i.non_witness_utxo.as_mut() { t.version.0 ^= 1 },
    }
}

// ---- key providers ---------------------------------------------------------------------------
/// {"t": kind, "ms": [[master, depth]...], "ks": [key...]}
pub fn r_prov(r: &mut Rng) -> Value {
    let t = *r.pick(&["xpriv", "bset", "hset", "bmap", "hmap"]);
    let ms: Vec<Value> = match t {
        "xpriv" => vec![json!([r.below(3), r.below(5) / 4])],
        "bset" | "hset" => (0..r.below(4)).map(|_| json!([r.below(3), r.below(4) / 3])).collect(),
        _ => vec![],
    };
    let ks: Vec<usize> = if t.ends_with("map") { (0..NKEYS).filter(|_| r.chance(60)).collect() } else { vec![] };
    json!({ "t": t, "ms": ms, "ks": ks })
}
pub enum Prov { X(Xpriv), BS(BTreeSet<Xpriv>), HS(HashSet<Xpriv>), BM(BTreeMap<PublicKey, PrivateKey>), HM(HashMap<PublicKey, PrivateKey>) }
pub fn provider(w: &World, v: &Value) -> (Prov, Vec<Xpriv>, Vec<PublicKey>) {
    let xs: Vec<Xpriv> = v["ms"].as_array().unwrap().iter().map(|m| ext(w, m[0].as_u64().unwrap() as usize, m[1].as_u64().unwrap() as usize)).collect();
    let ks: Vec<usize> = v["ks"].as_array().unwrap().iter().map(|k| k.as_u64().unwrap() as usize).collect();
    let pairs = || ks.iter().map(|&j| (w.keys[j].pk, w.keys[j].sk));
    let pks: Vec<PublicKey> = ks.iter().map(|&j| w.keys[j].pk).collect();
    let pr = match v["t"].as_str().unwrap() {
        "xpriv" => Prov::X(xs[0]),
        "bset" => Prov::BS(bset(&xs)),
        "hset" => Prov::HS(hset(&xs)),
        "bmap" => Prov::BM(pairs().collect()),
        "hmap" => Prov::HM(pairs().collect()),
        t => panic!("HARNESS provider {}", t),
    };
    (pr, xs, pks)
}
/// `Xpriv` has neither an order nor a hash, so sets of it can only come from sets of a transparent
/// wrapper that has.
#[repr(transparent)]
#[derive(Clone, Copy, PartialEq, Eq)]
struct W(Xpriv);
impl PartialOrd for W { fn partial_cmp(&self, o: &W) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for W { fn cmp(&self, o: &W) -> std::cmp::Ordering { self.0.encode().cmp(&o.0.encode()) } }
impl std::hash::Hash for W { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.encode().hash(h) } }
fn bset(xs: &[Xpriv]) -> BTreeSet<Xpriv> {
    let s: BTreeSet<W> = xs.iter().map(|x| W(*x)).collect();
    unsafe { std::mem::transmute::<BTreeSet<W>, BTreeSet<Xpriv>>(s) }
}
fn hset(xs: &[Xpriv]) -> HashSet<Xpriv> {
    let s: HashSet<W> = xs.iter().map(|x| W(*x)).collect();
    unsafe { std::mem::transmute::<HashSet<W>, HashSet<Xpriv>>(s) }
}
#[macro_export]
macro_rules! with_prov { ($p:expr, $k:ident, $e:expr) => { match $p {
    $crate::sgen::Prov::X($k) => $e, $crate::sgen::Prov::BS($k) => $e, $crate::sgen::Prov::HS($k) => $e,
    $crate::sgen::Prov::BM($k) => $e, $crate::sgen::Prov::HM($k) => $e,
} } }

// ---- v0 form of a v2 PSBT ------------------------------------------------------------------------
pub fn to_v0(p: &v2::Psbt) -> Option<v0::Psbt> {
    use crate::dump;
    let mut q = v0::Psbt::from_unsigned_tx(own_tx(p)?).ok()?;
    let own = ["txid", "vout", "sequence", "mintime", "minheight", "ecdh", "dleq", "amount", "script", "spinfo", "splabel"];
    use crate::util::unhex;
    for (a, b) in p.inputs.iter().zip(q.inputs.iter_mut()) {
        for (f, k, v) in dump::v2_input(a) { if !own.contains(&f) { build::set_v0_input(b, f, &unhex(&k), &unhex(&v)).unwrap() } }
    }
    for (a, b) in p.outputs.iter().zip(q.outputs.iter_mut()) {
        for (f, k, v) in dump::v2_output(a) { if !own.contains(&f) { build::set_v0_output(b, f, &unhex(&k), &unhex(&v)).unwrap() } }
    }
    for (f, k, v) in dump::v2_global(&p.global) { if ["xpub", "prop", "unk"].contains(&f) { build::set_v0_global(&mut q, f, &unhex(&k), &unhex(&v)).unwrap() } }
    Some(q)
}
#[allow(dead_code)]
pub fn script(b: &[u8]) -> ScriptBuf { ScriptBuf::from(b.to_vec()) }
