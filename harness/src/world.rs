//! Deterministic keys, random field values and random PSBTs.
use std::str::FromStr;

use bitcoin::absolute::LockTime;
use bitcoin::bip32::{ChildNumber, DerivationPath, KeySource, Xpriv, Xpub};
use bitcoin::consensus::serialize as cser;
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::key::TapTweak;
use bitcoin::secp256k1::{All, Keypair, Message, Secp256k1, XOnlyPublicKey};
use bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use bitcoin::taproot::{LeafVersion, TapLeafHash, TapNodeHash, TapTree, TaprootBuilder, TaprootSpendInfo};
use bitcoin::{
    ecdsa, taproot, transaction, Amount, NetworkKind, OutPoint, PrivateKey, PublicKey, ScriptBuf,
    Sequence, Transaction, TxIn, TxOut, Txid, VarInt, Witness,
};
use miniscript::policy::{Liftable, Semantic};
use miniscript::{Descriptor, Miniscript, MiniscriptKey, Segwitv0};
use psbt_v2::{v0, v2};
use serde_json::{json, Value};

use crate::build;
use crate::dump;
use crate::util::{hex, Rng};

pub struct K {
    pub m: usize,
    pub path: DerivationPath,
    pub sk: PrivateKey,
    pub pk: PublicKey,
    pub src: KeySource,
}
pub struct World {
    pub secp: Secp256k1<All>,
    pub masters: Vec<Xpriv>,
    pub keys: Vec<K>,
}

pub const NKEYS: usize = 9;

impl World {
    pub fn new() -> World {
        let secp = Secp256k1::new();
        let mut masters = vec![];
        for i in 0..3u8 {
            masters.push(Xpriv::new_master(NetworkKind::Test, &[i + 1; 32]).unwrap());
        }
        let mut keys = vec![];
        for j in 0..NKEYS {
            let m = j % 3;
            let path: DerivationPath =
                vec![ChildNumber::from(0x8000_0054), ChildNumber::from((j / 3) as u32), ChildNumber::from(7 * j as u32)].into();
            let sk = masters[m].derive_priv(&secp, &path).unwrap().to_priv();
            let pk = sk.public_key(&secp);
            keys.push(K { m, src: (masters[m].fingerprint(&secp), path.clone()), path, sk, pk });
        }
        World { secp, masters, keys }
    }
    pub fn xonly(&self, j: usize) -> XOnlyPublicKey { self.keys[j].pk.inner.x_only_public_key().0 }
    pub fn key_of(&self, pk: &PublicKey) -> Option<usize> { self.keys.iter().position(|k| k.pk.inner == pk.inner) }

    // ---- primitive random values -------------------------------------------------------------
    pub fn r_script(&self, r: &mut Rng) -> ScriptBuf {
        match r.below(9) {
            0 => ScriptBuf::new(),
            1 => ScriptBuf::from(r.bytes(1)),
            2 => { let n = r.range(2, 40); ScriptBuf::from(r.bytes(n)) }
            3 if wide(r, 80) => { let n = r.range(65533, 65538); ScriptBuf::from(r.bytes(n)) }
            3 => { let n = r.range(250, 260); ScriptBuf::from(r.bytes(n)) }
            4 => ScriptBuf::new_p2pkh(&self.keys[r.below(NKEYS)].pk.pubkey_hash()),
            5 => ScriptBuf::new_p2wpkh(&self.keys[r.below(NKEYS)].pk.wpubkey_hash().unwrap()),
            6 => ScriptBuf::new_p2sh(&bitcoin::ScriptHash::from_byte_array(r.arr32()[..20].try_into().unwrap())),
            7 => ScriptBuf::new_p2wsh(&bitcoin::WScriptHash::from_byte_array(r.arr32())),
            _ => ScriptBuf::new_p2tr(&self.secp, self.xonly(r.below(NKEYS)), None),
        }
    }
    pub fn r_amount(&self, r: &mut Rng) -> u64 {
        match r.below(8) {
            0 => 0, 1 => 1, 2 => u64::MAX, 3 => 2_100_000_000_000_000, 4 => r.next(),
            _ => r.next() % 100_000_000,
        }
    }
    pub fn r_seq(&self, r: &mut Rng) -> u32 {
        match r.below(8) {
            0 => 0, 1 => 1, 2 => 0xffff_ffff, 3 => 0xffff_fffe, 4 => 0xffff_fffd, 5 => r.below(65536) as u32 | 1 << 22,
            6 => r.below(65536) as u32, _ => r.u32(),
        }
    }
    pub fn r_height(&self, r: &mut Rng) -> u32 {
        match r.below(6) { 0 => 0, 1 => 1, 2 => 499_999_999, _ => r.below(500_000_000) as u32 }
    }
    pub fn r_time(&self, r: &mut Rng) -> u32 {
        match r.below(6) { 0 => 500_000_000, 1 => 500_000_001, 2 => u32::MAX, _ => 500_000_000 + r.below(3_794_967_295) as u32 }
    }
    pub fn r_lock(&self, r: &mut Rng) -> u32 { if r.chance(50) { self.r_height(r) } else { self.r_time(r) } }
    pub fn r_vout(&self, r: &mut Rng) -> u32 {
        match r.below(6) { 0 => 0, 1 => 1, 2 => u32::MAX, 3 => u32::MAX - 1, _ => r.u32() }
    }
    pub fn r_sighash(&self, r: &mut Rng) -> u32 {
        match r.below(10) { 0 => 0, 1..=6 => *r.pick(&[1, 2, 3, 0x81, 0x82, 0x83]), 7 => 0x80, 8 => r.u32(), _ => r.below(256) as u32 }
    }
    pub fn r_txver(&self, r: &mut Rng) -> i32 {
        match r.below(6) { 0 => 1, 1..=3 => 2, 4 => 3, _ => r.u32() as i32 }
    }
    pub fn r_txid(&self, r: &mut Rng) -> Txid {
        if r.chance(4) { Txid::all_zeros() } else { Txid::from_byte_array(r.arr32()) }
    }
    pub fn r_path(&self, r: &mut Rng) -> Vec<u8> {
        let mut v = r.bytes(4);
        let n = if wide(r, 300) { *r.pick(&[62usize, 63, 64, 127, 128, 254, 255, 256]) } else { r.below(4) };
        for _ in 0..n { let c = if r.chance(30) { r.u32() } else { r.below(3) as u32 }; v.extend(c.to_le_bytes()) }
        v
    }
    pub fn r_tx(&self, r: &mut Rng, segwit: bool) -> Transaction {
        let nin = if wide(r, 200) { r.range(252, 254) } else { r.range(1, 2) };
        let nout = if wide(r, 200) { r.range(252, 254) } else { r.range(1, 3) };
        Transaction {
            version: transaction::Version(self.r_txver(r)),
            lock_time: LockTime::from_consensus(self.r_lock(r)),
            input: (0..nin).map(|_| TxIn {
                previous_output: OutPoint { txid: Txid::from_byte_array(r.arr32()), vout: r.below(5) as u32 },
                script_sig: if segwit { ScriptBuf::new() } else { ScriptBuf::from({ let n = r.below(6); r.bytes(n) }) },
                sequence: Sequence(self.r_seq(r)),
                witness: if segwit { self.r_witness(r, 1) } else { Witness::new() },
            }).collect(),
            output: (0..nout).map(|_| TxOut { value: Amount::from_sat(self.r_amount(r)), script_pubkey: self.r_script(r) }).collect(),
        }
    }
    pub fn r_witness(&self, r: &mut Rng, min: usize) -> Witness {
        let n = if wide(r, 100) { r.range(251, 258) } else { r.range(min, 3) };
        let mut w = Witness::new();
        for _ in 0..n { let l = if wide(r, 200) { r.range(252, 260) } else { r.below(5) }; w.push(r.bytes(l)) }
        w
    }
    pub fn r_ecdsa_sig(&self, r: &mut Rng) -> ecdsa::Signature {
        let k = &self.keys[r.below(NKEYS)];
        let signature = self.secp.sign_ecdsa(&Message::from_digest(r.arr32()), &k.sk.inner);
        let t = *r.pick(&[1u32, 1, 2, 3, 0x81, 0x82, 0x83]);
        ecdsa::Signature { signature, sighash_type: EcdsaSighashType::from_standard(t).unwrap() }
    }
    pub fn r_tap_sig(&self, r: &mut Rng) -> taproot::Signature {
        let kp = Keypair::from_secret_key(&self.secp, &self.keys[r.below(NKEYS)].sk.inner);
        let signature = self.secp.sign_schnorr_no_aux_rand(&Message::from_digest(r.arr32()), &kp);
        let t = *r.pick(&[0u8, 0, 1, 2, 3, 0x81, 0x82, 0x83]);
        taproot::Signature { signature, sighash_type: TapSighashType::from_consensus_u8(t).unwrap() }
    }
    pub fn r_taptree(&self, r: &mut Rng) -> TapTree {
        // A random binary tree in depth-first order.
        fn leaves(r: &mut Rng, d: u8, out: &mut Vec<u8>) {
            if d < 3 && r.chance(55) { leaves(r, d + 1, out); leaves(r, d + 1, out) } else { out.push(d) }
        }
        let mut ds = vec![];
        leaves(r, 0, &mut ds);
        if wide(r, 60) { ds = deep(r) }
        let mut b = TaprootBuilder::new();
        for d in ds {
            let n = r.range(1, 12);
            let ver = if r.chance(80) { LeafVersion::TapScript } else { LeafVersion::from_consensus(0xc2).unwrap() };
            b = b.add_leaf_with_ver(d, ScriptBuf::from(r.bytes(n)), ver).unwrap();
        }
        TapTree::try_from(b).unwrap()
    }
    pub fn r_spend_info(&self, r: &mut Rng) -> TaprootSpendInfo {
        let mut b = TaprootBuilder::new();
        let mut ds: Vec<u8> = r.pick(&[&[0u8][..], &[1, 1], &[1, 2, 2], &[2, 2, 1]]).to_vec();
        if wide(r, 60) { ds = deep(r) }
        for d in &ds { let n = r.range(1, 10); b = b.add_leaf(*d, ScriptBuf::from(r.bytes(n))).unwrap() }
        b.finalize(&self.secp, self.xonly(r.below(NKEYS))).unwrap()
    }
    pub fn r_xpub(&self, r: &mut Rng) -> Xpub {
        let m = &self.masters[r.below(3)];
        let path: DerivationPath = (0..r.below(3)).map(|_| ChildNumber::from(r.below(3) as u32)).collect::<Vec<_>>().into();
        Xpub::from_priv(&self.secp, &m.derive_priv(&self.secp, &path).unwrap())
    }
    fn r_value(&self, r: &mut Rng) -> Vec<u8> {
        if wide(r, 300) { let n = r.range(65534, 65537); return r.bytes(n) }
        let n = match r.below(8) { 0 => 0, 1 => 252, 2 => 253, 3 => 300, _ => r.below(20) };
        r.bytes(n)
    }
    pub fn r_prop_key(&self, r: &mut Rng) -> Vec<u8> {
        let n = match r.below(6) { 0 => 0, 1 => 253, _ => r.below(6) };
        let prefix = r.bytes(n);
        let sub = r.next() as u8;
        let n = match r.below(6) { 0 => 0, 1 => 260, _ => r.below(6) };
        let key = r.bytes(n);
        dump::prop_key(&prefix, sub, &key)
    }
    /// A key type without meaning in the given map, and key data.
    pub fn r_unk_key(&self, r: &mut Rng, map: char, v0: bool) -> Vec<u8> {
        let t = loop {
            let t = if r.chance(60) { r.next() as u8 } else { *r.pick(&[0x09u8, 0x19, 0x1a, 0x1b, 0x1c, 0x0f, 0x2f, 0x7f, 0x80, 0xf0, 0xfa, 0xfd, 0xfe, 0xff, 0x18, 0x08, 0x0b]) };
            if !assigned(map, v0, t) { break t }
        };
        let n = match r.below(6) { 0 => 0, 1 => 251, 2 => 252, _ => r.below(6) };
        let mut k = vec![t];
        k.extend(r.bytes(n));
        k
    }
    /// A random valid <<keydata, value>> for a field.
    pub fn r_entry(&self, r: &mut Rng, map: char, v0: bool, f: &str) -> (Vec<u8>, Vec<u8>) {
        let le4 = |x: u32| x.to_le_bytes().to_vec();
        let e: Vec<u8> = vec![];
        match f {
            "version" => (e, le4(if v0 { 0 } else { 2 })),
            "txver" => (e, le4(self.r_txver(r) as u32)),
            "fallback" => (e, le4(self.r_lock(r))),
            "mod" => (e, vec![if r.chance(85) { r.below(8) as u8 } else { r.next() as u8 }]),
            "xpub" => (self.r_xpub(r).encode().to_vec(), self.r_path(r)),
            "ecdh" => (self.ckey(r), self.ckey(r)),
            "dleq" => (self.ckey(r), if r.chance(15) { vec![r.below(2) as u8 * 255; 64] } else { r.bytes(64) }),
            "txid" => (e, self.r_txid(r).to_byte_array().to_vec()),
            "vout" => (e, le4(self.r_vout(r))),
            "sequence" => (e, le4(self.r_seq(r))),
            "mintime" => (e, le4(self.r_time(r))),
            "minheight" => (e, le4(self.r_height(r))),
            "nwutxo" => { let s = r.chance(40); (e, cser(&self.r_tx(r, s))) }
            "wutxo" => (e, cser(&TxOut { value: Amount::from_sat(self.r_amount(r)), script_pubkey: self.r_script(r) })),
            "psig" => {
                let k = self.keys[r.below(NKEYS)].pk;
                let k = if r.chance(15) { PublicKey { compressed: false, inner: k.inner } } else { k };
                (k.to_bytes(), self.r_ecdsa_sig(r).to_vec())
            }
            "sighash" => (e, le4(self.r_sighash(r))),
            "redeem" | "wscript" | "fsig" | "script" => (e, self.r_script(r).to_bytes()),
            "bip32" => (self.ckey(r), self.r_path(r)),
            "fwit" => (e, cser(&self.r_witness(r, 0))),
            "ripemd" => { let v = self.r_value(r); (ripemd160::Hash::hash(&v).to_byte_array().to_vec(), v) }
            "sha256" => { let v = self.r_value(r); (sha256::Hash::hash(&v).to_byte_array().to_vec(), v) }
            "hash160" => { let v = self.r_value(r); (hash160::Hash::hash(&v).to_byte_array().to_vec(), v) }
            "hash256" => { let v = self.r_value(r); (sha256d::Hash::hash(&v).to_byte_array().to_vec(), v) }
            "tapkeysig" => (e, self.r_tap_sig(r).to_vec()),
            "tapscriptsig" => { let mut k = self.xonly(r.below(NKEYS)).serialize().to_vec(); k.extend(r.arr32()); (k, self.r_tap_sig(r).to_vec()) }
            "tapleaf" => {
                let si = self.r_spend_info(r);
                let sv: Vec<_> = si.script_map().keys().cloned().collect();
                let x = r.pick(&sv).clone();
                let cb = si.control_block(&x).unwrap();
                let mut v = x.0.to_bytes(); v.push(x.1.to_consensus());
                (cb.serialize(), v)
            }
            "tapbip32" => {
                let n = if wide(r, 80) { r.range(252, 254) } else { r.below(3) };
                let mut lh: Vec<TapLeafHash> = (0..n).map(|_| TapLeafHash::from_byte_array(r.arr32())).collect();
                if n > 0 && r.chance(15) { lh.push(lh[n - 1]) }
                let mut v = cser(&lh); v.extend(self.r_path(r));
                (self.xonly(r.below(NKEYS)).serialize().to_vec(), v)
            }
            "tapinternal" => (e, self.xonly(r.below(NKEYS)).serialize().to_vec()),
            "tapmerkle" => (e, if r.chance(10) { vec![r.below(2) as u8 * 255; 32] } else { r.arr32().to_vec() }),
            "taptree" => (e, dump::taptree(&self.r_taptree(r))),
            "amount" => (e, self.r_amount(r).to_le_bytes().to_vec()),
            "spinfo" => (e, if r.chance(15) { vec![r.below(2) as u8 * 255; 66] } else { r.bytes(66) }),
            "splabel" => (e, le4(r_label(r))),
            "prop" => (self.r_prop_key(r), self.r_value(r)),
            "unk" => (self.r_unk_key(r, map, v0), self.r_value(r)),
            f => panic!("r_entry {}", f),
        }
    }
    pub fn ckey(&self, r: &mut Rng) -> Vec<u8> { self.keys[r.below(NKEYS)].pk.inner.serialize().to_vec() }

    // ---- "fieldy" PSBTs: every field independently present, values unrelated ---------------------
    pub fn fieldy_v2(&self, r: &mut Rng, maxio: usize, dens: usize) -> v2::Psbt {
        let mut p = v2::Creator::new().psbt();
        self.fill_global_v2(r, &mut p.global, dens);
        let (ni, no) = if wide(r, 250) { many(r) } else { (r.range(0, maxio), r.range(0, maxio)) };
        let dens = if ni + no > 200 { 0 } else { dens };
        for _ in 0..ni { p.inputs.push(self.fieldy_v2_input(r, dens)) }
        for _ in 0..no { p.outputs.push(self.fieldy_v2_output(r, dens)) }
        p.global.input_count = p.inputs.len();
        p.global.output_count = p.outputs.len();
        p
    }
    pub fn fill_global_v2(&self, r: &mut Rng, g: &mut v2::Global, dens: usize) {
        for f in G2 {
            for _ in 0..reps(r, f, dens) { let (k, v) = self.r_entry(r, 'g', false, f); build::set_v2_global(g, f, &k, &v).unwrap() }
        }
        if cfg!(feature = "sp") && r.chance(dens) {
            for f in ["ecdh", "dleq"] { for _ in 0..r.range(1, 2) { let (k, v) = self.r_entry(r, 'g', false, f); build::set_v2_global(g, f, &k, &v).unwrap() } }
        }
    }
    pub fn fieldy_v2_input(&self, r: &mut Rng, dens: usize) -> v2::Input {
        let mut i = v2::Input::new(&OutPoint { txid: self.r_txid(r), vout: self.r_vout(r) });
        self.fill_v2_input(r, &mut i, dens);
        i
    }
    pub fn fill_v2_input(&self, r: &mut Rng, i: &mut v2::Input, dens: usize) {
        for f in I2 { for _ in 0..reps(r, f, dens) { let (k, v) = self.r_entry(r, 'i', false, f); build::set_v2_input(i, f, &k, &v).unwrap() } }
        if cfg!(feature = "sp") && r.chance(dens) {
            for f in ["ecdh", "dleq"] { for _ in 0..r.range(1, 2) { let (k, v) = self.r_entry(r, 'i', false, f); build::set_v2_input(i, f, &k, &v).unwrap() } }
        }
    }
    pub fn fieldy_v2_output(&self, r: &mut Rng, dens: usize) -> v2::Output {
        let mut script_pubkey = self.r_script(r);
        if script_pubkey.is_empty() && !cfg!(feature = "sp") { script_pubkey = ScriptBuf::from(vec![0x51]) }
        let mut o = v2::Output::new(TxOut { value: Amount::from_sat(self.r_amount(r)), script_pubkey });
        self.fill_v2_output(r, &mut o, dens);
        o
    }
    pub fn fill_v2_output(&self, r: &mut Rng, o: &mut v2::Output, dens: usize) {
        for f in O2 { for _ in 0..reps(r, f, dens) { let (k, v) = self.r_entry(r, 'o', false, f); build::set_v2_output(o, f, &k, &v).unwrap() } }
        if cfg!(feature = "sp") && r.chance(dens) {
            let (k, v) = self.r_entry(r, 'o', false, "spinfo"); build::set_v2_output(o, "spinfo", &k, &v).unwrap();
            if r.chance(50) { let (k, v) = self.r_entry(r, 'o', false, "splabel"); build::set_v2_output(o, "splabel", &k, &v).unwrap() }
        }
    }
    pub fn fieldy_v0(&self, r: &mut Rng, maxio: usize, dens: usize) -> v0::Psbt {
        let (ni, no) = if wide(r, 250) { many(r) } else { (r.range(0, maxio), r.range(0, maxio)) };
        let dens = if ni + no > 200 { 0 } else { dens };
        let tx = Transaction {
            version: transaction::Version(self.r_txver(r)),
            lock_time: LockTime::from_consensus(self.r_lock(r)),
            input: (0..ni).map(|_| TxIn {
                previous_output: OutPoint { txid: self.r_txid(r), vout: self.r_vout(r) },
                script_sig: ScriptBuf::new(), sequence: Sequence(self.r_seq(r)), witness: Witness::new(),
            }).collect(),
            output: (0..no).map(|_| TxOut { value: Amount::from_sat(self.r_amount(r)), script_pubkey: self.r_script(r) }).collect(),
        };
        let mut p = v0::Psbt::from_unsigned_tx(tx).unwrap();
        self.fill_v0(r, &mut p, dens);
        p
    }
    pub fn fill_v0(&self, r: &mut Rng, p: &mut v0::Psbt, dens: usize) {
        for f in ["xpub", "prop", "unk"] {
            for _ in 0..reps(r, f, dens) { let (k, v) = self.r_entry(r, 'g', true, f); build::set_v0_global(p, f, &k, &v).unwrap() }
        }
        for i in p.inputs.iter_mut() {
            for f in IC { for _ in 0..reps(r, f, dens) { let (k, v) = self.r_entry(r, 'i', true, f); build::set_v0_input(i, f, &k, &v).unwrap() } }
        }
        for o in p.outputs.iter_mut() {
            for f in OC { for _ in 0..reps(r, f, dens) { let (k, v) = self.r_entry(r, 'o', true, f); build::set_v0_output(o, f, &k, &v).unwrap() } }
        }
    }
}

pub const G2: &[&str] = &["txver", "fallback", "mod", "xpub", "prop", "unk"];
pub const I2: &[&str] = &["sequence", "mintime", "minheight", "nwutxo", "wutxo", "psig", "sighash", "redeem", "wscript", "bip32",
    "fsig", "fwit", "ripemd", "sha256", "hash160", "hash256", "tapkeysig", "tapscriptsig", "tapleaf", "tapbip32", "tapinternal",
    "tapmerkle", "prop", "unk"];
pub const IC: &[&str] = &["nwutxo", "wutxo", "psig", "sighash", "redeem", "wscript", "bip32",
    "fsig", "fwit", "ripemd", "sha256", "hash160", "hash256", "tapkeysig", "tapscriptsig", "tapleaf", "tapbip32", "tapinternal",
    "tapmerkle", "prop", "unk"];
pub const O2: &[&str] = &["redeem", "wscript", "bip32", "tapinternal", "taptree", "tapbip32", "prop", "unk"];
pub const OC: &[&str] = O2;
pub const KEYED: &[&str] = &["xpub", "psig", "bip32", "ripemd", "sha256", "hash160", "hash256", "tapscriptsig", "tapleaf", "tapbip32",
    "prop", "unk", "ecdh", "dleq"];

/// One in n: sizes beyond what one byte, or two, can count.
pub fn wide(r: &mut Rng, n: usize) -> bool { r.below(n) == 0 }
fn many(r: &mut Rng) -> (usize, usize) {
    match r.below(3) { 0 => (r.range(252, 254), r.range(0, 2)), 1 => (r.range(0, 2), r.range(252, 254)), _ => (r.range(252, 256), r.range(252, 256)) }
}
/// The depths of a tree that is as deep as it may be.
fn deep(r: &mut Rng) -> Vec<u8> {
    let mut v: Vec<u8> = (1..=128).collect();
    v.push(128);
    if r.chance(30) { v.reverse() }
    v
}
fn reps(r: &mut Rng, f: &str, dens: usize) -> usize {
    if !r.chance(dens) { 0 } else if (f == "unk" || f == "prop") && wide(r, 600) { 254 } else if KEYED.contains(&f) { r.range(1, 3) } else { 1 }
}

/// Key types with a meaning in the given map (so not available as "unknown").
pub fn assigned(map: char, v0: bool, t: u8) -> bool {
    let sp = cfg!(feature = "sp") && !v0;
    match (map, v0) {
        ('g', false) => t <= 0x06 || t == 0xfb || t == 0xfc || (sp && (t == 0x07 || t == 0x08)),
        ('g', true) => t <= 0x06 || t == 0xfb || t == 0xfc,
        ('i', _) => t <= 0x08 || (0x0a..=0x18).contains(&t) || t == 0xfc || (sp && (t == 0x1d || t == 0x1e)),
        _ => t <= 0x07 || t == 0xfc || (sp && (t == 0x09 || t == 0x0a)),
    }
}

// ---- spendable outputs -----------------------------------------------------------------------

/// Everything about one spent output.
#[derive(Clone)]
pub struct Spend {
    pub kind: &'static str,
    pub desc: Option<Descriptor<PublicKey>>,
    pub spk: ScriptBuf,
    pub redeem: Option<ScriptBuf>,
    pub wscript: Option<ScriptBuf>,
    pub keys: Vec<usize>,
    pub segwit: bool,
    pub policy: Value,
    pub pre: Vec<(&'static str, Vec<u8>)>,
    pub tap: Option<TaprootSpendInfo>,
    pub leaf_keys: Vec<(TapLeafHash, Vec<usize>)>,
    pub leaves: Vec<(TapLeafHash, ScriptBuf)>,
    pub after: Option<u32>,
    pub older: Option<u32>,
}

pub fn policy_json(p: &Semantic<PublicKey>) -> Value { policy_with(p, &|k: &PublicKey| json!(["pk", hex(&k.to_bytes())])) }
pub fn policy_with<K>(p: &Semantic<K>, key: &dyn Fn(&K) -> Value) -> Value
where K: MiniscriptKey<Sha256 = sha256::Hash, Hash256 = miniscript::hash256::Hash, Ripemd160 = ripemd160::Hash, Hash160 = hash160::Hash> {
    match p {
        Semantic::Unsatisfiable => json!(["no"]),
        Semantic::Trivial => json!(["yes"]),
        Semantic::Key(k) => key(k),
        Semantic::After(t) => json!(["after", hex(&t.to_consensus_u32().to_le_bytes())]),
        Semantic::Older(t) => json!(["older", hex(&t.to_consensus_u32().to_le_bytes())]),
        Semantic::Sha256(h) => json!(["sha256", hex(&h.to_byte_array())]),
        Semantic::Hash256(h) => json!(["hash256", hex(&h.to_byte_array())]),
        Semantic::Ripemd160(h) => json!(["ripemd", hex(&h.to_byte_array())]),
        Semantic::Hash160(h) => json!(["hash160", hex(&h.to_byte_array())]),
        Semantic::Thresh(t) => json!(["thr", t.k(), t.data().iter().map(|x| policy_with(x, key)).collect::<Vec<_>>()]),
    }
}

/// Labels: 0 and 1 have a meaning of their own.
pub fn r_label(r: &mut Rng) -> u32 { if r.chance(40) { *r.pick(&[0u32, 0, 1, u32::MAX, 1 << 31]) } else { r.next() as u32 } }
pub const ECDSA_KINDS: &[&str] = &["pk", "pkh", "wpkh", "shwpkh", "shmulti", "baremulti", "wshmulti", "shwshmulti", "shpk", "wshpk",
    "wsholder", "wshafter", "wshsha", "wshor", "shwshafter", "shafter", "sholder", "wshh160", "wshthresh", "wshripemd", "wshh256", "wshmall",
    "shpkh", "wshpkh", "shor", "wshthro", "wshps", "wshpr", "wshp1", "wshp2"];
pub const TAP_KINDS: &[&str] = &["trkey", "trleaf", "tr2leaf", "trolder", "trafter", "trmulti", "trsha", "trpkh", "trdeep"];
pub const ODD_KINDS: &[&str] = &["wit2", "nonstd", "opreturn", "shnonstd", "empty", "wit0odd"];

impl World {
    pub fn spend(&self, r: &mut Rng, kind: &'static str) -> Spend { self.spend_cls(r, kind, 0) }
    /// `cls`: absolute locks by height (1), by time (2) or either (0).
    pub fn spend_cls(&self, r: &mut Rng, kind: &'static str, cls: u8) -> Spend {
        let mut ks: Vec<usize> = (0..NKEYS).collect();
        r.shuffle(&mut ks);
        let after: u32 = if if cls == 0 { r.chance(50) } else { cls == 1 } { r.range(1, 700_000) as u32 } else { r.range(500_000_001, 1_700_000_000) as u32 };
        let older: u32 = if r.chance(60) { r.range(1, 1000) as u32 } else { 1 << 22 | r.range(1, 1000) as u32 };
        let n = if r.chance(6) { *r.pick(&[31, 33, 40]) } else { 32 };
        self.spend_fixed(r, kind, &ks, after, older, n)
    }
    pub fn spend_fixed(&self, r: &mut Rng, kind: &'static str, ks: &[usize], after: u32, older: u32, plen: usize) -> Spend {
        let h = |j: usize| self.keys[ks[j]].pk.to_string();
        let mut pre = vec![];
        let pr = r.bytes(plen);
        let (mut af, mut ol) = (None, None);
        let (nk, ds): (usize, String) = match kind {
            "pk" => (1, format!("pk({})", h(0))),
            "pkh" => (1, format!("pkh({})", h(0))),
            "wpkh" => (1, format!("wpkh({})", h(0))),
            "shwpkh" => (1, format!("sh(wpkh({}))", h(0))),
            "shpk" => (1, format!("sh(pk({}))", h(0))),
            "wshpk" => (1, format!("wsh(pk({}))", h(0))),
            "shmulti" => (3, format!("sh(multi(2,{},{},{}))", h(0), h(1), h(2))),
            "baremulti" => (2, format!("multi(1,{},{})", h(0), h(1))),
            "wshmulti" => (3, format!("wsh(multi(2,{},{},{}))", h(0), h(1), h(2))),
            "shwshmulti" => (2, format!("sh(wsh(sortedmulti(2,{},{})))", h(0), h(1))),
            "wsholder" => { ol = Some(older); (1, format!("wsh(and_v(v:pk({}),older({})))", h(0), older)) }
            "sholder" => { ol = Some(older); (1, format!("sh(and_v(v:pk({}),older({})))", h(0), older)) }
            "wshafter" => { af = Some(after); (1, format!("wsh(and_v(v:pk({}),after({})))", h(0), after)) }
            "shwshafter" => { af = Some(after); (1, format!("sh(wsh(and_v(v:pk({}),after({}))))", h(0), after)) }
            "shafter" => { af = Some(after); (1, format!("sh(and_v(v:pk({}),after({})))", h(0), after)) }
            "wshor" => { ol = Some(older); (2, format!("wsh(or_d(pk({}),and_v(v:pkh({}),older({}))))", h(0), h(1), older)) }
            "wshthresh" => { af = Some(after); (2, format!("wsh(thresh(2,pk({}),s:pk({}),sln:after({})))", h(0), h(1), after)) }
            "shpkh" => (1, format!("sh(pkh({}))", h(0))),
            "wshpkh" => (1, format!("wsh(pkh({}))", h(0))),
            "shor" => { ol = Some(older); (2, format!("sh(or_d(pk({}),and_v(v:pkh({}),older({}))))", h(0), h(1), older)) }
            "wshthro" => { ol = Some(older); (2, format!("wsh(thresh(2,pk({}),s:pk({}),sln:older({})))", h(0), h(1), older)) }
            "wshps" | "wshpr" | "wshp1" | "wshp2" => {
                let (f, n, i) = match kind {
                    "wshps" => ("sha256", "sha256", hex(&sha256::Hash::hash(&pr).to_byte_array())),
                    "wshpr" => ("ripemd", "ripemd160", hex(&ripemd160::Hash::hash(&pr).to_byte_array())),
                    "wshp1" => ("hash160", "hash160", hex(&hash160::Hash::hash(&pr).to_byte_array())),
                    _ => ("hash256", "hash256", hex(&sha256d::Hash::hash(&pr).to_byte_array())),
                };
                pre.push((f, pr.clone()));
                (3, format!("wsh(or_i(and_v(v:pk({}),{}({})),and_v(v:pk({}),pk({}))))", h(0), n, i, h(1), h(2)))
            }
            "wshsha" => { pre.push(("sha256", pr.clone())); (1, format!("wsh(and_v(v:pk({}),sha256({})))", h(0), sha256::Hash::hash(&pr))) }
            "wshh160" => { pre.push(("hash160", pr.clone())); (1, format!("wsh(and_v(v:pk({}),hash160({})))", h(0), hash160::Hash::hash(&pr))) }
            "wshripemd" => { pre.push(("ripemd", pr.clone())); (1, format!("wsh(and_v(v:pk({}),ripemd160({})))", h(0), ripemd160::Hash::hash(&pr))) }
            "wshh256" => { pre.push(("hash256", pr.clone())); (2, format!("wsh(or_d(pk({}),and_v(v:pk({}),hash256({}))))", h(0), h(1), hex(&sha256d::Hash::hash(&pr).to_byte_array()))) }
            // Satisfiable with one preimage only in a malleable way.
            "wshmall" => { pre.push(("sha256", pr.clone())); (1, format!("and_v(v:pk({}),or_b(sha256({}),a:sha256({})))", h(0), sha256::Hash::hash(&pr), sha256::Hash::hash(&[7; 9]))) }
            k if k.starts_with("tr") && !["trkey", "trleaf", "tr2leaf"].contains(&k) => return self.spend_tr(kind, ks, after, older, pr),
            _ => return self.spend_odd(r, kind, ks),
        };
        let desc = if kind == "wshmall" {
            Descriptor::new_wsh(Miniscript::<PublicKey, Segwitv0>::from_str_insane(&ds).unwrap()).unwrap()
        } else { Descriptor::<PublicKey>::from_str(&ds).unwrap_or_else(|e| panic!("{} {:?}", ds, e)) };
        let pol = desc.lift().unwrap();
        let spk = desc.script_pubkey();
        let (redeem, wscript) = match kind {
            "pk" | "pkh" | "wpkh" | "baremulti" => (None, None),
            "shwpkh" => (Some(ScriptBuf::new_p2wpkh(&self.keys[ks[0]].pk.wpubkey_hash().unwrap())), None),
            k if k.starts_with("shwsh") => { let w = desc.explicit_script().unwrap(); (Some(w.to_p2wsh()), Some(w)) }
            k if k.starts_with("wsh") => (None, Some(desc.explicit_script().unwrap())),
            _ => (Some(desc.explicit_script().unwrap()), None),
        };
        let segwit = kind.starts_with("w") || kind.starts_with("shw");
        Spend { kind, desc: Some(desc), spk, redeem, wscript, keys: ks[..nk].to_vec(), segwit, policy: policy_json(&pol), pre,
            tap: None, leaf_keys: vec![], leaves: vec![], after: af, older: ol }
    }
    /// Taproot outputs with script trees.
    fn spend_tr(&self, kind: &'static str, ks: &[usize], after: u32, older: u32, pr: Vec<u8>) -> Spend {
        let x = |j: usize| self.xonly(ks[j]).to_string();
        let (mut af, mut ol, mut pre) = (None, None, vec![]);
        let tree = match kind {
            "trolder" => { ol = Some(older); format!("and_v(v:pk({}),older({}))", x(1), older) }
            "trafter" => { af = Some(after); format!("{{and_v(v:pk({}),after({})),pk({})}}", x(1), after, x(2)) }
            "trmulti" => format!("{{multi_a(2,{},{},{}),pk({})}}", x(1), x(2), x(3), x(1)),
            "trsha" => { ol = Some(older); pre.push(("sha256", pr.clone())); format!("{{and_v(v:pk({}),sha256({})),and_v(v:pkh({}),older({}))}}", x(1), sha256::Hash::hash(&pr), x(2), older) }
            "trpkh" => format!("pkh({})", x(1)),
            _ => { af = Some(after); pre.push(("hash160", pr.clone()));
                format!("{{{{pk({}),and_v(v:pk({}),hash160({}))}},{{multi_a(1,{},{}),and_v(v:pkh({}),after({}))}}}}", x(1), x(2), hash160::Hash::hash(&pr), x(2), x(3), x(4), after) }
        };
        let tr = match Descriptor::<XOnlyPublicKey>::from_str(&format!("tr({},{})", x(0), tree)).unwrap() { Descriptor::Tr(t) => t, _ => unreachable!() };
        let (mut alts, mut leaves, mut leaf_keys, mut keys) = (vec![json!(["tapkey", ""])], vec![], vec![], vec![ks[0]]);
        for (_, ms) in tr.iter_scripts() {
            let sc = ms.encode();
            let lh = TapLeafHash::from_script(&sc, LeafVersion::TapScript);
            let me: Vec<usize> = ks.iter().copied().filter(|j| ms.iter_pk().any(|k| k == self.xonly(*j))).collect();
            for j in &me { if !keys.contains(j) { keys.push(*j) } }
            alts.push(policy_with(&ms.lift().unwrap(), &|k: &XOnlyPublicKey| json!(["leaf", hex(&lh.to_byte_array()) + &hex(&k.serialize())])));
            leaves.push((lh, sc));
            leaf_keys.push((lh, me));
        }
        Spend { kind, desc: None, spk: tr.script_pubkey(), redeem: None, wscript: None, keys, segwit: true, policy: json!(["thr", 1, alts]), pre,
            tap: Some((*tr.spend_info()).clone()), leaf_keys, leaves, after: af, older: ol }
    }
    fn spend_odd(&self, r: &mut Rng, kind: &'static str, ks: &[usize]) -> Spend {
        let mut s = Spend { kind, desc: None, spk: ScriptBuf::new(), redeem: None, wscript: None, keys: vec![ks[0]], segwit: false,
            policy: json!(["no"]), pre: vec![], tap: None, leaf_keys: vec![], leaves: vec![], after: None, older: None };
        let pkscript = |j: usize| { let mut v = vec![0x20]; v.extend(self.xonly(ks[j]).serialize()); v.push(0xac); ScriptBuf::from(v) };
        match kind {
            "trkey" => { s.spk = ScriptBuf::new_p2tr(&self.secp, self.xonly(ks[0]), None); s.segwit = true; s.policy = json!(["tapkey", ""]); }
            "trleaf" | "tr2leaf" => {
                let mut b = TaprootBuilder::new();
                let scripts = if kind == "trleaf" { vec![(0u8, 1)] } else { vec![(1, 1), (1, 2)] };
                for (d, j) in &scripts { b = b.add_leaf(*d, pkscript(*j)).unwrap() }
                let si = b.finalize(&self.secp, self.xonly(ks[0])).unwrap();
                for (_, j) in &scripts {
                    s.leaf_keys.push((TapLeafHash::from_script(&pkscript(*j), LeafVersion::TapScript), vec![ks[*j]]));
                    s.leaves.push((TapLeafHash::from_script(&pkscript(*j), LeafVersion::TapScript), pkscript(*j)));
                    s.keys.push(ks[*j]);
                }
                s.spk = ScriptBuf::new_p2tr_tweaked(si.output_key());
                let mut alts = vec![json!(["tapkey", ""])];
                for (d, (_, j)) in s.leaf_keys.iter().zip(&scripts) { alts.push(json!(["leaf", hex(&d.0.to_byte_array()) + &hex(&self.xonly(ks[*j]).serialize())])) }
                s.policy = json!(["thr", 1, alts]);
                s.tap = Some(si);
                s.segwit = true;
            }
            "wit2" => { let mut v = vec![0x52, 0x20]; v.extend(r.arr32()); s.spk = ScriptBuf::from(v); s.segwit = true }
            "wit0odd" => { let mut v = vec![0x00, 0x15]; v.extend(&r.arr32()[..21]); s.spk = ScriptBuf::from(v); s.segwit = true }
            "nonstd" => { let n = r.range(1, 30); let mut v = vec![0x75]; v.extend(r.bytes(n)); s.spk = ScriptBuf::from(v) }
            "opreturn" => { let mut v = vec![0x6a, 0x04]; v.extend(r.bytes(4)); s.spk = ScriptBuf::from(v) }
            "shnonstd" => { let red = ScriptBuf::from(vec![0x75, 0x51]); s.spk = red.to_p2sh(); s.redeem = Some(red) }
            "empty" => (),
            _ => panic!("kind {}", kind),
        }
        s
    }
    pub fn r_kind(&self, r: &mut Rng, tap: usize, odd: usize) -> &'static str {
        let x = r.below(100);
        if x < odd { *r.pick(ODD_KINDS) } else if x < odd + tap { *r.pick(TAP_KINDS) } else { *r.pick(ECDSA_KINDS) }
    }
    /// The transaction that creates the spent output, at index `vout`.
    pub fn prev_tx(&self, r: &mut Rng, spk: &ScriptBuf, value: u64, vout: usize) -> Transaction {
        let mut tx = self.r_tx(r, false);
        tx.output.clear();
        let extra = r.below(2);
        for j in 0..=vout + extra {
            tx.output.push(TxOut { value: Amount::from_sat(if j == vout { value } else { 1000 + j as u64 }),
                script_pubkey: if j == vout { spk.clone() } else { self.r_script(r) } })
        }
        tx
    }
    pub fn tapkey_tweaked(&self, j: usize, merkle: Option<TapNodeHash>) -> Keypair {
        Keypair::from_secret_key(&self.secp, &self.keys[j].sk.inner).tap_tweak(&self.secp, merkle).to_keypair()
    }
}
#[allow(dead_code)]
pub fn varint(n: u64) -> Vec<u8> { cser(&VarInt(n)) }
