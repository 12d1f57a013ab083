//! C24 updating v0 inputs and outputs with descriptors.
use std::str::FromStr;

use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, Xpub};
use bitcoin::hashes::{hash160, Hash};
use bitcoin::key::TapTweak;
use bitcoin::taproot::{LeafVersion, TapLeafHash, TaprootBuilder};
use bitcoin::{absolute, transaction, Amount, OutPoint, PublicKey, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Witness, XOnlyPublicKey};
use miniscript::{DefiniteDescriptorKey, Descriptor, Legacy, Miniscript, Segwitv0, Tap};
use psbt_v2::v0;
use psbt_v2::v0::miniscript::{OutputUpdateError, PsbtExt, PsbtInputExt, PsbtOutputExt, UtxoUpdateError};
use serde_json::{json, Value};

use crate::build;
use crate::dump;
use crate::ops::*;
use crate::p_fin::nw_tab_v0;
use crate::sgen;
use crate::util::{guard, hex, unhex, Rng};
use crate::world::{World, NKEYS};

pub const KINDS: [&str; 27] = ["pk", "pkh", "wpkh", "shwpkh", "shpk", "shpkh", "shmulti", "shsorted", "shold", "wshpk", "wshpkh", "wshmulti", "wshsorted", "wshold", "wshor",
    "shwshpk", "shwshmulti", "shwshsorted", "shwshor", "bare", "tr", "tr1", "tr2", "tr3", "trself", "trtwice", "tr7"];

/// How a key is written: 0 with its origin, 1 as an extended key with an origin and a path, 2 on its own,
/// 3 as an extended key without an origin, 4 as an extended key with a hardened step that it cannot take,
/// 5 uncompressed with its origin, 6 x-only with its origin, 7 uncompressed on its own, 8 the extended key itself.
struct Key { text: String, pk: PublicKey, src: Vec<u8> }
fn child(w: &World, m: usize, depth: usize) -> (Xpub, DerivationPath) {
    let p: DerivationPath = vec![ChildNumber::from(0x8000_0054); depth.min(1)].into();
    (Xpub::from_priv(&w.secp, &w.masters[m].derive_priv(&w.secp, &p).unwrap()), p)
}
fn src(fp: Fingerprint, path: &[ChildNumber]) -> Vec<u8> { dump::ks(&(fp, path.to_vec().into())) }
fn key(w: &World, j: usize, form: u64, tap: bool) -> Key {
    let k = &w.keys[j];
    let steps: Vec<ChildNumber> = k.path.into_iter().copied().collect();
    let mfp = w.masters[k.m].fingerprint(&w.secp);
    let full: String = steps.iter().map(|c| format!("/{}", c)).collect();
    let tail: String = steps[1..].iter().map(|c| format!("/{}", c)).collect();
    let fp4 = |b: &[u8]| Fingerprint::from(<[u8; 4]>::try_from(&hash160::Hash::hash(b).to_byte_array()[..4]).unwrap());
    let un = PublicKey { compressed: false, inner: k.pk.inner };
    let (x, _) = child(w, k.m, 1);
    match form {
        1 => Key { text: format!("[{}/84h]{}{}", mfp, x, tail), pk: k.pk, src: src(mfp, &steps) },
        2 if tap => Key { text: hex(&w.xonly(j).serialize()), pk: k.pk, src: src(fp4(&w.xonly(j).serialize()), &[]) },
        2 => Key { text: k.pk.to_string(), pk: k.pk, src: src(fp4(&k.pk.to_bytes()), &[]) },
        3 => Key { text: format!("{}{}", x, tail), pk: k.pk, src: src(x.fingerprint(), &steps[1..]) },
        4 => Key { text: format!("[{}]{}/84h/0", mfp, child(w, k.m, 0).0), pk: k.pk, src: vec![] },
        5 => Key { text: format!("[{}{}]{}", mfp, full, un), pk: un, src: src(mfp, &steps) },
        6 if tap => Key { text: format!("[{}{}]{}", mfp, full, hex(&w.xonly(j).serialize())), pk: k.pk, src: src(mfp, &steps) },
        7 => Key { text: un.to_string(), pk: un, src: src(fp4(&un.to_bytes()), &[]) },
        8 => {
            let y = Xpub::from_priv(&w.secp, &w.masters[k.m].derive_priv(&w.secp, &k.path).unwrap());
            Key { text: y.to_string(), pk: k.pk, src: src(y.fingerprint(), &[]) }
        }
        _ => Key { text: format!("[{}{}]{}", mfp, full, k.pk), pk: k.pk, src: src(mfp, &steps) },
    }
}

/// A descriptor and what it determines.
struct D { text: String, kind: String, bad: bool, spk: ScriptBuf, redeem: Option<ScriptBuf>, wscript: Option<ScriptBuf>, segwit: bool, keys: Vec<(PublicKey, Vec<u8>)>,
    tap: Option<T> }
struct T { internal: XOnlyPublicKey, isrc: Vec<u8>, merkle: Option<[u8; 32]>, leaves: Vec<L> }
struct L { hash: TapLeafHash, script: ScriptBuf, control: Vec<u8>, depth: u8, keys: Vec<(XOnlyPublicKey, Vec<u8>)> }

fn p2wsh(s: &ScriptBuf) -> ScriptBuf {
    let mut v = vec![0x00, 0x20];
    v.extend(bitcoin::hashes::sha256::Hash::hash(s.as_bytes()).as_byte_array());
    ScriptBuf::from(v)
}
fn p2sh(s: &ScriptBuf) -> ScriptBuf {
    let mut v = vec![0xa9, 0x14];
    v.extend(hash160::Hash::hash(s.as_bytes()).as_byte_array());
    v.push(0x87);
    ScriptBuf::from(v)
}
fn push(k: &PublicKey) -> Vec<u8> { let b = k.to_bytes(); let mut v = vec![b.len() as u8]; v.extend(b); v }
fn p2pkh(k: &PublicKey) -> ScriptBuf {
    let mut v = vec![0x76, 0xa9, 0x14];
    v.extend(hash160::Hash::hash(&k.to_bytes()).as_byte_array());
    v.extend([0x88, 0xac]);
    ScriptBuf::from(v)
}
fn p2wpkh(k: &PublicKey) -> ScriptBuf {
    let mut v = vec![0x00, 0x14];
    v.extend(hash160::Hash::hash(&k.to_bytes()).as_byte_array());
    ScriptBuf::from(v)
}
fn p2pk(k: &PublicKey) -> ScriptBuf { let mut v = push(k); v.push(0xac); ScriptBuf::from(v) }
fn multi(t: u8, ks: &[PublicKey]) -> ScriptBuf {
    let mut v = vec![0x50 + t];
    for k in ks { v.extend(push(k)) }
    v.extend([0x50 + ks.len() as u8, 0xae]);
    ScriptBuf::from(v)
}
fn sorted(t: u8, ks: &[PublicKey]) -> ScriptBuf {
    let mut ks = ks.to_vec();
    ks.sort_by_key(|k| k.to_bytes());
    multi(t, &ks)
}

fn desc(w: &World, c: &Value) -> D {
    let kind = c["kind"].as_str().unwrap();
    let is_tap = kind.starts_with("tr");
    let segwit = is_tap || kind.starts_with("w") || kind.starts_with("shw");
    let js: Vec<usize> = c["keys"].as_array().unwrap().iter().map(|j| j.as_u64().unwrap() as usize).collect();
    let form = |i: usize| match &c["form"] { Value::Array(a) => a[i % a.len()].as_u64().unwrap(), v => v.as_u64().unwrap_or(0) };
    let ok_form = |f: u64| if (segwit || kind == "shsorted") && (f == 5 || f == 7) { 0 } else { f };
    let ks: Vec<Key> = js.iter().enumerate().map(|(i, j)| key(w, *j, ok_form(form(i)), is_tap)).collect();
    let t = |i: usize| ks[i].text.clone();
    let p = |i: usize| ks[i].pk;
    let pks = |n: usize| ks[..n].iter().map(|k| k.pk).collect::<Vec<_>>();
    let x = |i: usize| hex(&p(i).inner.x_only_public_key().0.serialize());
    let sw = |s: String| Miniscript::<PublicKey, Segwitv0>::from_str_insane(&s).unwrap().encode();
    let lg = |s: String| Miniscript::<PublicKey, Legacy>::from_str_insane(&s).unwrap().encode();
    // inner text, number of keys used, script
    let wsh = |k: &str| -> (String, usize, ScriptBuf) { match k {
        "pk" => (format!("pk({})", t(0)), 1, p2pk(&p(0))),
        "pkh" => (format!("pkh({})", t(0)), 1, p2pkh(&p(0))),
        "multi" => (format!("multi(2,{},{},{})", t(0), t(1), t(2)), 3, multi(2, &pks(3))),
        "sorted" => (format!("sortedmulti(2,{},{},{})", t(0), t(1), t(2)), 3, sorted(2, &pks(3))),
        "old" => (format!("and_v(v:pk({}),older(5))", t(0)), 1, sw(format!("and_v(v:pk({}),older(5))", p(0)))),
        _ => (format!("or_d(pk({}),and_v(v:pkh({}),after(500)))", t(0), t(1)), 2, sw(format!("or_d(pk({}),and_v(v:pkh({}),after(500)))", p(0), p(1)))),
    } };
    let mut d = D { text: String::new(), kind: kind.to_string(), bad: js.iter().enumerate().any(|(i, _)| form(i) == 4), spk: ScriptBuf::new(), redeem: None, wscript: None, segwit, keys: vec![], tap: None };
    let mut used = 1;
    if let Some(k) = kind.strip_prefix("wsh") {
        let (s, n, sc) = wsh(k);
        d.text = format!("wsh({})", s);
        d.spk = p2wsh(&sc);
        d.wscript = Some(sc);
        used = n;
    } else if let Some(k) = kind.strip_prefix("shwsh") {
        let (s, n, sc) = wsh(k);
        d.text = format!("sh(wsh({}))", s);
        d.redeem = Some(p2wsh(&sc));
        d.spk = p2sh(&p2wsh(&sc));
        d.wscript = Some(sc);
        used = n;
    } else if is_tap {
        let (tree, leaves, n): (String, Vec<(u8, String, Vec<usize>)>, usize) = match kind {
            "tr" => (String::new(), vec![], 1),
            "tr1" => (format!("pk({})", t(1)), vec![(0, format!("pk({})", x(1)), vec![1])], 2),
            "tr2" => (format!("{{pk({}),and_v(v:pk({}),older(5))}}", t(1), t(2)), vec![(1, format!("pk({})", x(1)), vec![1]), (1, format!("and_v(v:pk({}),older(5))", x(2)), vec![2])], 3),
            "tr3" => (format!("{{pk({}),{{multi_a(2,{},{}),and_v(v:pkh({}),older(3))}}}}", t(1), t(1), t(2), t(3)),
                vec![(1, format!("pk({})", x(1)), vec![1]), (2, format!("multi_a(2,{},{})", x(1), x(2)), vec![1, 2]), (2, format!("and_v(v:pkh({}),older(3))", x(3)), vec![3])], 4),
            "trself" => (format!("{{pk({}),pk({})}}", t(0), t(1)), vec![(1, format!("pk({})", x(0)), vec![0]), (1, format!("pk({})", x(1)), vec![1])], 2),
            "trtwice" => (format!("{{{{pk({}),and_v(v:pk({}),older(7))}},multi_a(1,{},{})}}", t(1), t(1), t(1), t(0)),
                vec![(2, format!("pk({})", x(1)), vec![1]), (2, format!("and_v(v:pk({}),older(7))", x(1)), vec![1]), (1, format!("multi_a(1,{},{})", x(1), x(0)), vec![1, 0])], 2),
            _ => (format!("{{{{{{pk({}),after(9)}},pk({})}},{{and_v(v:pk({}),after(10)),pk({})}}}}", t(1), t(2), t(2), t(3)).replace(",after(9)", &format!(",and_v(v:pk({}),after(9))", t(1))),
                vec![(3, format!("pk({})", x(1)), vec![1]), (3, format!("and_v(v:pk({}),after(9))", x(1)), vec![1]), (2, format!("pk({})", x(2)), vec![2]), (2, format!("and_v(v:pk({}),after(10))", x(2)), vec![2]), (2, format!("pk({})", x(3)), vec![3])], 4),
        };
        used = n;
        d.text = if tree.is_empty() { format!("tr({})", t(0)) } else { format!("tr({},{})", t(0), tree) };
        let internal = p(0).inner.x_only_public_key().0;
        let mut b = TaprootBuilder::new();
        let mut ls = vec![];
        for (depth, s, keys) in leaves {
            let script = Miniscript::<XOnlyPublicKey, Tap>::from_str_insane(&s).unwrap().encode();
            b = b.add_leaf(depth, script.clone()).unwrap();
            ls.push((depth, script, keys));
        }
        let (merkle, cbs): (Option<[u8; 32]>, Vec<Vec<u8>>) = if ls.is_empty() { (None, vec![]) } else {
            let si = b.finalize(&w.secp, internal).unwrap();
            (si.merkle_root().map(|m| m.to_byte_array()), ls.iter().map(|l| si.control_block(&(l.1.clone(), LeafVersion::TapScript)).unwrap().serialize()).collect())
        };
        let (out, _) = internal.tap_tweak(&w.secp, merkle.map(bitcoin::TapNodeHash::assume_hidden));
        let mut v = vec![0x51, 0x20];
        v.extend(out.to_inner().serialize());
        d.spk = ScriptBuf::from(v);
        d.tap = Some(T { internal, isrc: ks[0].src.clone(), merkle, leaves: ls.into_iter().zip(cbs).map(|((depth, script, keys), control)| L {
            hash: TapLeafHash::from_script(&script, LeafVersion::TapScript), script, control, depth,
            keys: keys.iter().map(|j| (p(*j).inner.x_only_public_key().0, ks[*j].src.clone())).collect() }).collect() });
    } else {
        match kind {
            "pk" => { d.text = format!("pk({})", t(0)); d.spk = p2pk(&p(0)) }
            "pkh" => { d.text = format!("pkh({})", t(0)); d.spk = p2pkh(&p(0)) }
            "wpkh" => { d.text = format!("wpkh({})", t(0)); d.spk = p2wpkh(&p(0)) }
            "shwpkh" => { d.text = format!("sh(wpkh({}))", t(0)); d.redeem = Some(p2wpkh(&p(0))) }
            "shpk" => { d.text = format!("sh(pk({}))", t(0)); d.redeem = Some(p2pk(&p(0))) }
            "shpkh" => { d.text = format!("sh(pkh({}))", t(0)); d.redeem = Some(p2pkh(&p(0))) }
            "shmulti" => { d.text = format!("sh(multi(1,{},{}))", t(0), t(1)); used = 2; d.redeem = Some(multi(1, &pks(2))) }
            "shsorted" => { d.text = format!("sh(sortedmulti(2,{},{}))", t(0), t(1)); used = 2; d.redeem = Some(sorted(2, &pks(2))) }
            "shold" => { d.text = format!("sh(and_v(v:pk({}),older(5)))", t(0)); d.redeem = Some(lg(format!("and_v(v:pk({}),older(5))", p(0)))) }
            "bare" => { d.text = format!("multi(2,{},{},{})", t(0), t(1), t(2)); used = 3; d.spk = multi(2, &pks(3)) }
            k => panic!("HARNESS kind {}", k),
        }
        if let Some(r) = &d.redeem { d.spk = p2sh(r) }
    }
    d.bad = (0..used).any(|i| form(i) == 4);
    d.keys = ks[..used].iter().map(|k| (k.pk, k.src.clone())).collect();
    d
}
fn dj(d: &D) -> Value {
    let o = |s: &Option<ScriptBuf>| s.as_ref().map(|s| hex(s.as_bytes())).unwrap_or_default();
    let sk = |v: &[(XOnlyPublicKey, Vec<u8>)]| json!(v.iter().map(|(k, s)| json!([hex(&k.serialize()), hex(s)])).collect::<Vec<_>>());
    json!({ "text": d.text, "kind": d.kind, "bad": d.bad, "spk": hex(d.spk.as_bytes()), "redeem": o(&d.redeem), "wscript": o(&d.wscript), "segwit": d.segwit, "tap": d.tap.is_some(),
        "keys": d.keys.iter().map(|(k, s)| json!([hex(&k.inner.serialize()), hex(s)])).collect::<Vec<_>>(),
        "internal": d.tap.as_ref().map(|t| hex(&t.internal.serialize())).unwrap_or_default(),
        "isrc": d.tap.as_ref().map(|t| hex(&t.isrc)).unwrap_or_default(),
        "merkle": d.tap.as_ref().and_then(|t| t.merkle).map(|m| hex(&m)).unwrap_or_default(),
        "leaves": d.tap.as_ref().map(|t| t.leaves.iter().map(|l| json!({ "hash": hex(l.hash.as_byte_array()), "script": hex(l.script.as_bytes()), "control": hex(&l.control), "depth": l.depth, "keys": sk(&l.keys) })).collect::<Vec<_>>()).unwrap_or_default() })
}

/// Fields present before the first update.
fn pre_in(w: &World, i: &mut v0::Input, m: u64, d: &D) {
    let ob = |b: u64| m & b != 0;
    if ob(1) {
        i.bip32_derivation.insert(w.keys[8].pk.inner, sgen::source(w, 8, 1));
        i.bip32_derivation.insert(d.keys[0].0.inner, sgen::source(w, 7, 1));
    }
    if ob(2) { i.redeem_script = Some(ScriptBuf::from(vec![0x51])); i.witness_script = Some(ScriptBuf::from(vec![0x52])) }
    if ob(4) { i.tap_internal_key = Some(w.xonly(8)); i.tap_merkle_root = Some(bitcoin::TapNodeHash::from_byte_array([9; 32])) }
    if ob(8) { for (k, l) in origins(w, d) { i.tap_key_origins.insert(k, (l, sgen::source(w, 7, 1))); } }
    if ob(16) { for (f, k, v) in extra() { build::set_v0_input(i, f, &unhex(k), &unhex(v)).unwrap() } }
    if ob(32) { i.tap_scripts.insert(bitcoin::taproot::ControlBlock::decode(&[&[0xc0u8][..], &w.xonly(8).serialize()[..], &[7; 32][..]].concat()).unwrap(), (ScriptBuf::from(vec![0x51]), LeafVersion::TapScript)); }
}
fn pre_out(w: &World, o: &mut v0::Output, m: u64, d: &D) {
    let ob = |b: u64| m & b != 0;
    if ob(1) {
        o.bip32_derivation.insert(w.keys[8].pk.inner, sgen::source(w, 8, 1));
        o.bip32_derivation.insert(d.keys[0].0.inner, sgen::source(w, 7, 1));
    }
    if ob(2) { o.redeem_script = Some(ScriptBuf::from(vec![0x51])); o.witness_script = Some(ScriptBuf::from(vec![0x52])) }
    if ob(4) { o.tap_internal_key = Some(w.xonly(8)); o.tap_tree = Some(bitcoin::taproot::TapTree::try_from(TaprootBuilder::new().add_leaf(0, ScriptBuf::from(vec![0x51])).unwrap()).unwrap()) }
    if ob(8) { for (k, l) in origins(w, d) { o.tap_key_origins.insert(k, (l, sgen::source(w, 7, 1))); } }
    if ob(16) { for (f, k, v) in &extra()[..2] { build::set_v0_output(o, f, &unhex(k), &unhex(v)).unwrap() } }
}
fn origins(w: &World, d: &D) -> Vec<(XOnlyPublicKey, Vec<TapLeafHash>)> {
    let h = TapLeafHash::from_byte_array([0x80; 32]);
    let mut v = vec![(w.xonly(8), vec![h])];
    if let Some(t) = &d.tap {
        v.push((t.internal, vec![h]));
        if let Some(l) = t.leaves.last() { if let Some((k, _)) = l.keys.last() { v.push((*k, vec![h, l.hash])) } }
    }
    v
}
fn extra() -> Vec<(&'static str, &'static str, &'static str)> { vec![("prop", "03aabbcc0105", "0102"), ("unk", "fa01", "05"), ("sighash", "", "01000000")] }

fn psbt(w: &World, c: &Value, ds: &[D]) -> v0::Psbt {
    let mut r = Rng::new(11);
    let mut tx = Transaction { version: transaction::Version(2), lock_time: absolute::LockTime::ZERO, input: vec![], output: vec![] };
    let (mut ins, mut outs) = (vec![], vec![]);
    let of = |v: &Value| v["own"].as_u64().unwrap() as usize;
    for i in c["ins"].as_array().unwrap() {
        let d = &ds[of(i)];
        let prev = w.prev_tx(&mut r, &d.spk, 70_000, 1);
        let u = i["utxo"].as_str().unwrap();
        let mut m = v0::Input::default();
        let out = prev.output[1].clone();
        let txid = prev.compute_txid();
        let mut other = out.clone();
        match u {
            "w" => m.witness_utxo = Some(out),
            "nw" | "oob" => m.non_witness_utxo = Some(prev),
            "both" => { m.witness_utxo = Some(out); m.non_witness_utxo = Some(prev) }
            "amount" => { other.value = Amount::from_sat(69_999); m.witness_utxo = Some(other); m.non_witness_utxo = Some(prev) }
            "script" => { other.script_pubkey = ScriptBuf::from(vec![0x51]); m.witness_utxo = Some(other); m.non_witness_utxo = Some(prev) }
            "swap" => { let mut p = prev; p.output[0].script_pubkey = p.output[1].script_pubkey.clone(); p.output[1].script_pubkey = ScriptBuf::from(vec![0x51]); m.witness_utxo = Some(p.output[0].clone()); m.non_witness_utxo = Some(p) }
            "badid" => { let mut t = prev; t.version.0 ^= 1; m.non_witness_utxo = Some(t) }
            "badboth" => { let mut t = prev; t.version.0 ^= 1; m.non_witness_utxo = Some(t); m.witness_utxo = Some(out) }
            "oobboth" => { m.witness_utxo = Some(out); m.non_witness_utxo = Some(prev) }
            _ => (),
        }
        let txid = if u == "swap" { m.non_witness_utxo.as_ref().unwrap().compute_txid() } else { txid };
        tx.input.push(TxIn { previous_output: OutPoint { txid, vout: if u.starts_with("oob") { 9 } else { 1 } }, script_sig: ScriptBuf::new(), sequence: Sequence::MAX, witness: Witness::new() });
        pre_in(w, &mut m, i["pre"].as_u64().unwrap_or(0), d);
        ins.push(m);
    }
    for o in c["outs"].as_array().unwrap() {
        let d = &ds[of(o)];
        tx.output.push(TxOut { value: Amount::from_sat(5_000), script_pubkey: d.spk.clone() });
        let mut m = v0::Output::default();
        pre_out(w, &mut m, o["pre"].as_u64().unwrap_or(0), d);
        outs.push(m);
    }
    let mut p = v0::Psbt::from_unsigned_tx(tx).unwrap();
    p.inputs = ins;
    p.outputs = outs;
    match c["odd"].as_str().unwrap_or("") {
        "in" => { p.unsigned_tx.input.pop(); }
        "out" => { p.unsigned_tx.output.pop(); }
        _ => (),
    }
    p
}

pub fn c24_run(w: &World, c: &Value) -> Value {
    let ds: Vec<D> = c["ds"].as_array().unwrap().iter().map(|d| desc(w, d)).collect();
    let xs: Vec<Descriptor<DefiniteDescriptorKey>> = ds.iter().map(|d| Descriptor::from_str(&d.text).unwrap_or_else(|e| panic!("HARNESS descriptor {} {}", d.text, e))).collect();
    let mut p = psbt(w, c, &ds);
    let first = dump::v0_psbt(&p);
    let tab = nw_tab_v0(&[&p]);
    let ids: Vec<Value> = p.inputs.iter().filter_map(|i| i.non_witness_utxo.as_ref()).map(|t| json!([hex(&bitcoin::consensus::serialize(t)), hex(bitcoin::hashes::sha256d::Hash::hash(&dump::tx_nowit(t)).as_byte_array())])).collect();
    let mut steps = vec![];
    for o in c["ops"].as_array().unwrap() {
        let op = o[0].as_str().unwrap();
        let k = o[1].as_i64().unwrap();
        let idx = if k < 0 { usize::MAX } else { k as usize };
        let di = o[2].as_u64().unwrap() as usize;
        let x = &xs[di];
        let mut q = p.clone();
        let mut spk = String::new();
        let res = match op {
            "in" => guard(|| q.update_input_with_descriptor(idx, x).map_err(|e| { disp(&e); match e {
                UtxoUpdateError::IndexOutOfBounds(..) => "IndexOutOfBounds", UtxoUpdateError::MissingInputUtxo => "MissingInputUtxo", UtxoUpdateError::DerivationError(_) => "DerivationError",
                UtxoUpdateError::UtxoCheck => "UtxoCheck", UtxoUpdateError::MismatchedScriptPubkey => "MismatchedScriptPubkey", _ => "other" } })),
            "out" => guard(|| q.update_output_with_descriptor(idx, x).map_err(|e| { disp(&e); match e {
                OutputUpdateError::IndexOutOfBounds(..) => "IndexOutOfBounds", OutputUpdateError::MissingTxOut => "MissingTxOut", OutputUpdateError::DerivationError(_) => "DerivationError",
                OutputUpdateError::MismatchedScriptPubkey => "MismatchedScriptPubkey", _ => "other" } })),
            "uin" => match q.inputs.get_mut(idx) { None => continue, Some(i) => guard(|| i.update_with_descriptor_unchecked(x).map(|d| { spk = hex(d.script_pubkey().as_bytes()) }).map_err(|e| { disp(&e); "DerivationError" })) },
            _ => match q.outputs.get_mut(idx) { None => continue, Some(i) => guard(|| i.update_with_descriptor_unchecked(x).map(|d| { spk = hex(d.script_pubkey().as_bytes()) }).map_err(|e| { disp(&e); "DerivationError" })) },
        };
        let mut trees = vec![];
        for t in q.outputs.iter().filter_map(|o| o.tap_tree.as_ref()) { trees.push(json!([hex(&dump::taptree(t)), hex(t.root_hash().as_byte_array())])) }
        let (r, panic) = match &res { Err(m) => ("panic", m.clone()), Ok(Ok(())) => ("ok", String::new()), Ok(Err(e)) => (*e, String::new()) };
        steps.push(json!({ "op": op, "k": if k < 0 || k > 1000 { 0 } else { k + 1 }, "d": di + 1, "res": r, "panic": panic, "spk": spk, "p": dump::v0_psbt(&p), "q": dump::v0_psbt(&q), "trees": trees }));
        if r != "panic" { p = q }
    }
    json!({ "p": first, "tx": txj(&p.unsigned_tx), "tab": tab, "ids": ids, "ds": ds.iter().map(dj).collect::<Vec<_>>(), "steps": steps })
}
pub fn c24_gen(_w: &World, r: &mut Rng) -> Value {
    let nd = r.range(1, 3);
    let mix = r.chance(30);
    let one: Vec<u64> = vec![*r.pick(&[0u64, 0, 1, 1, 2, 3, 5, 6, 8])];
    let ds: Vec<Value> = (0..nd).map(|_| {
        let mut js: Vec<usize> = (0..NKEYS - 1).collect();
        r.shuffle(&mut js);
        let form: Vec<u64> = if mix { (0..4).map(|_| *r.pick(&[0u64, 1, 2, 3, 5, 6, 7, 8])).collect() } else { one.clone() };
        let form = if r.chance(3) { vec![0, 4] } else { form };
        json!({ "kind": *r.pick(&KINDS), "keys": js[..4], "form": form })
    }).collect();
    let pre = |r: &mut Rng| if r.chance(50) { 0 } else { r.below(64) };
    let ins: Vec<Value> = (0..r.range(0, 3)).map(|_| json!({ "own": r.below(nd), "utxo": *r.pick(&["nw", "nw", "nw", "both", "both", "w", "w", "none", "oob", "oobboth", "amount", "script", "swap", "badid", "badboth"]), "pre": pre(r) })).collect();
    let outs: Vec<Value> = (0..r.range(0, 3)).map(|_| json!({ "own": r.below(nd), "pre": pre(r) })).collect();
    let mut ops = vec![];
    for _ in 0..r.range(1, 5) {
        let op = *r.pick(&["in", "in", "in", "out", "out", "uin", "uout"]);
        let l = if op.ends_with("in") { &ins } else { &outs };
        let k = if l.is_empty() || r.chance(5) { *r.pick(&[l.len() as i64, -1, 7]) } else { r.below(l.len()) as i64 };
        let d = match l.get(k as usize) { Some(x) if r.chance(75) => x["own"].as_u64().unwrap() as usize, _ => r.below(nd) };
        ops.push(json!([op, k, d]));
    }
    json!({ "ds": ds, "ins": ins, "outs": outs, "ops": ops, "odd": if r.chance(4) { *r.pick(&["in", "out"]) } else { "" } })
}
