//! C01 - C05, C19: the wire format.
use std::collections::BTreeMap;
use std::str::FromStr;

use bitcoin::bip32::Xpub;
use bitcoin::consensus::{deserialize as cde, serialize as cser};
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::secp256k1::{self, XOnlyPublicKey};
use bitcoin::{ecdsa, taproot, PublicKey, Transaction, VarInt};
use psbt_v2::{v0, v2};
use serde_json::{json, Value};

use crate::build;
use crate::dump;
use crate::ops::disp;
use crate::util::{guard, hex, metered, unhex, Rng};
use crate::world::{self, World};

pub const SP: bool = cfg!(feature = "sp");
const MAGIC: &[u8] = b"psbt\xff";

// ---- an encoder of its own: entries to key-value pairs ------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub struct Pair { pub t: u8, pub k: Vec<u8>, pub v: Vec<u8> }

const TYPES: &[(char, &[(&str, u8)])] = &[
    ('g', &[("unsignedtx", 0), ("xpub", 1), ("txver", 2), ("fallback", 3), ("incount", 4), ("outcount", 5), ("mod", 6), ("ecdh", 7), ("dleq", 8),
        ("version", 0xfb), ("prop", 0xfc)]),
    ('i', &[("nwutxo", 0), ("wutxo", 1), ("psig", 2), ("sighash", 3), ("redeem", 4), ("wscript", 5), ("bip32", 6), ("fsig", 7), ("fwit", 8),
        ("ripemd", 0xa), ("sha256", 0xb), ("hash160", 0xc), ("hash256", 0xd), ("txid", 0xe), ("vout", 0xf), ("sequence", 0x10), ("mintime", 0x11),
        ("minheight", 0x12), ("tapkeysig", 0x13), ("tapscriptsig", 0x14), ("tapleaf", 0x15), ("tapbip32", 0x16), ("tapinternal", 0x17),
        ("tapmerkle", 0x18), ("ecdh", 0x1d), ("dleq", 0x1e), ("prop", 0xfc)]),
    ('o', &[("redeem", 0), ("wscript", 1), ("bip32", 2), ("amount", 3), ("script", 4), ("tapinternal", 5), ("taptree", 6), ("tapbip32", 7),
        ("spinfo", 9), ("splabel", 0xa), ("prop", 0xfc)]),
];
fn type_of(m: char, f: &str) -> u8 {
    TYPES.iter().find(|x| x.0 == m).unwrap().1.iter().find(|x| x.0 == f).unwrap_or_else(|| panic!("no type for {}", f)).1
}
fn pairs(m: char, es: &Value) -> Vec<Pair> {
    es.as_array().unwrap().iter().map(|e| {
        let s = |i: usize| e[i].as_str().unwrap();
        let (k, v) = (unhex(s(1)), unhex(s(2)));
        if s(0) == "unk" { Pair { t: k[0], k: k[1..].to_vec(), v } } else { Pair { t: type_of(m, s(0)), k, v } }
    }).collect()
}
/// Global map, inputs, outputs.
#[derive(Clone)]
pub struct Toks { pub maps: Vec<(char, Vec<Pair>)> }
pub fn toks(d: &Value) -> Toks {
    let mut maps = vec![('g', pairs('g', &d["g"]))];
    for i in d["i"].as_array().unwrap() { maps.push(('i', pairs('i', i))) }
    for o in d["o"].as_array().unwrap() { maps.push(('o', pairs('o', o))) }
    Toks { maps }
}
fn vi(n: usize) -> Vec<u8> { cser(&VarInt(n as u64)) }
pub fn enc_pair(p: &Pair) -> Vec<u8> {
    let mut b = vi(p.k.len() + 1);
    b.push(p.t);
    b.extend(&p.k);
    b.extend(vi(p.v.len()));
    b.extend(&p.v);
    b
}
pub fn enc(t: &Toks) -> Vec<u8> {
    let mut b = MAGIC.to_vec();
    for (_, ps) in &t.maps {
        for p in ps { b.extend(enc_pair(p)) }
        b.push(0);
    }
    b
}
fn shuffle(r: &mut Rng, t: &mut Toks) { for (_, ps) in t.maps.iter_mut() { r.shuffle(ps) } }

// ---- the oracle: what the cryptographic libraries make of a byte string --------------------------
fn lenient(b: &[u8]) -> Vec<Pair> {
    let mut out = vec![];
    let mut i = MAGIC.len();
    let rd = |i: usize| -> Option<(usize, usize)> {
        let x = *b.get(i)?;
        let w = match x { 0xfd => 2, 0xfe => 4, 0xff => 8, _ => return Some((x as usize, i + 1)) };
        let mut n = 0u64;
        for j in (0..w).rev() { n = n << 8 | *b.get(i + 1 + j)? as u64 }
        Some((n as usize, i + 1 + w))
    };
    loop {
        let Some((n, j)) = rd(i) else { break };
        if n == 0 { i = j; continue }
        let Some(end) = j.checked_add(n) else { break };
        if end > b.len() { break }
        let Some((m, l)) = rd(end) else { break };
        let Some(fin) = l.checked_add(m) else { break };
        if fin > b.len() { break }
        out.push(Pair { t: b[j], k: b[j + 1..end].to_vec(), v: b[l..fin].to_vec() });
        i = fin;
    }
    out
}
pub fn oracle(b: &[u8]) -> Value {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    let mut put = |kind: &str, raw: &[u8], c: Option<Vec<u8>>| if let Some(c) = c { m.insert(format!("{}:{}", kind, hex(raw)), hex(&c)); };
    for p in lenient(b) {
        for x in [&p.k, &p.v] {
            if [33, 65].contains(&x.len()) {
                put("pk", x, PublicKey::from_slice(x).ok().map(|k| k.to_bytes()));
                put("spk", x, secp256k1::PublicKey::from_slice(x).ok().map(|k| k.serialize().to_vec()));
            }
            if x.len() == 32 { put("x", x, XOnlyPublicKey::from_slice(x).ok().map(|k| k.serialize().to_vec())) }
        }
        if p.k.len() == 64 { put("x", &p.k[..32], XOnlyPublicKey::from_slice(&p.k[..32]).ok().map(|k| k.serialize().to_vec())) }
        if p.k.len() >= 33 && p.t == 0x15 { put("x", &p.k[1..33], XOnlyPublicKey::from_slice(&p.k[1..33]).ok().map(|k| k.serialize().to_vec())) }
        if p.t == 1 { put("xpub", &p.k, Xpub::decode(&p.k).ok().map(|x| x.encode().to_vec())) }
        if p.t == 0 { put("tx", &p.v, cde::<Transaction>(&p.v).ok().map(|t| cser(&t))) }
        if p.t == 2 { put("esig", &p.v, ecdsa::Signature::from_slice(&p.v).ok().map(|s| s.to_vec())) }
        if p.t == 0x13 || p.t == 0x14 { put("tsig", &p.v, taproot::Signature::from_slice(&p.v).ok().map(|s| s.to_vec())) }
        if p.t == 6 { put("tree", &p.v, build::tap_tree(&p.v).ok().map(|t| dump::taptree(&t))) }
        match p.t {
            0xa => put("ripemd", &p.v, Some(ripemd160::Hash::hash(&p.v).to_byte_array().to_vec())),
            0xb => put("sha256", &p.v, Some(sha256::Hash::hash(&p.v).to_byte_array().to_vec())),
            0xc => put("hash160", &p.v, Some(hash160::Hash::hash(&p.v).to_byte_array().to_vec())),
            0xd => put("hash256", &p.v, Some(sha256d::Hash::hash(&p.v).to_byte_array().to_vec())),
            _ => (),
        }
    }
    json!(m.into_iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>())
}

// ---- running the decoders ------------------------------------------------------------------------
pub fn run2(b: &[u8]) -> Value {
    match guard(|| v2::Psbt::deserialize(b).map(|p| (dump::v2_psbt(&p), hex(&p.serialize()))).map_err(|e| chain(&e))) {
        Err(m) => json!({ "res": "panic", "panic": m }),
        Ok(Err(e)) => json!({ "res": "err", "err": e }),
        Ok(Ok((d, s))) => json!({ "res": "ok", "d": d, "ser": s }),
    }
}
pub fn run0(b: &[u8]) -> Value {
    match guard(|| v0::Psbt::deserialize(b).map(|p| (dump::v0_psbt(&p), hex(&p.serialize()))).map_err(|e| chain(&e))) {
        Err(m) => json!({ "res": "panic", "panic": m }),
        Ok(Err(e)) => json!({ "res": "err", "err": e }),
        Ok(Ok((d, s))) => json!({ "res": "ok", "d": d, "ser": s }),
    }
}
/// The error and its sources, displayed.
fn chain<E: std::error::Error>(e: &E) -> String {
    let mut s = disp(e);
    let mut c: Option<&dyn std::error::Error> = e.source();
    let mut n = 0;
    while let Some(x) = c { s = format!("{} / {}", s, x); c = x.source(); n += 1; if n > 20 { break } }
    s.chars().take(200).collect()
}
/// C02, C04, C19: bytes.
pub fn run_bytes(c: &Value) -> Value {
    let b = unhex(c["hex"].as_str().unwrap());
    json!({ "k": "bytes", "sp": SP, "hex": hex(&b), "orc": oracle(&b), "v2": run2(&b), "v0": run0(&b) })
}

// ---- C01, C04: the round trip of a PSBT -----------------------------------------------------------
fn shuffled(r: &mut Rng, d: &Value) -> Value {
    let mut d = d.clone();
    let sh = |r: &mut Rng, v: &mut Value| { let a = v.as_array_mut().unwrap(); r.shuffle(a) };
    sh(r, &mut d["g"]);
    for m in ["i", "o"] { for v in d[m].as_array_mut().unwrap() { sh(r, v) } }
    d
}
/// Two PSBTs, each holding part of the keyed pairs of `d`.
fn split(r: &mut Rng, d: &Value) -> (Value, Value) {
    let (mut a, mut b) = (d.clone(), d.clone());
    let cut = |r: &mut Rng, x: &mut Value, y: &mut Value| {
        let keep: Vec<usize> = x.as_array().unwrap().iter().map(|e| if world::KEYED.contains(&e[0].as_str().unwrap()) { r.below(3) } else { 2 }).collect();
        let mut n = 0; x.as_array_mut().unwrap().retain(|_| { n += 1; keep[n - 1] != 0 });
        n = 0; y.as_array_mut().unwrap().retain(|_| { n += 1; keep[n - 1] != 1 });
    };
    cut(r, &mut a["g"], &mut b["g"]);
    for m in ["i", "o"] { for k in 0..d[m].as_array().unwrap().len() { cut(r, &mut a[m][k], &mut b[m][k]) } }
    (a, b)
}
pub fn run_round(c: &Value) -> Value {
    let ver = c["ver"].as_u64().unwrap();
    let mut r = Rng::new(c["rs"].as_u64().unwrap_or(1));
    let d = &c["p"];
    let base = json!({ "k": "round", "ver": ver, "sp": SP });
    let res = guard(|| -> Result<Value, String> {
        let (d1, d2) = (shuffled(&mut r, d), shuffled(&mut r, d));
        let (sa, sb) = split(&mut r, d);
        let mut t = toks(d);
        shuffle(&mut r, &mut t);
        let bytes = enc(&t);
        macro_rules! go { ($T:ty, $mk:path, $dump:path, $comb:expr) => {{
            let p = $mk(&d1).map_err(|e| format!("HARNESS {}", e)).unwrap();
            let ser = p.serialize();
            let back = <$T>::deserialize(&ser).map_err(|e| disp(&e))?;
            let ser2 = back.serialize();
            let mut alts = vec![hex(&$mk(&d2).unwrap().serialize())];
            alts.push(hex(&<$T>::deserialize(&bytes).map_err(|e| disp(&e))?.serialize()));
            let q: Option<$T> = $comb($mk(&sa).unwrap(), $mk(&sb).unwrap());
            if let Some(q) = q { alts.push(hex(&q.serialize())) }
            let q: Option<$T> = $comb($mk(&sb).unwrap(), $mk(&sa).unwrap());
            if let Some(q) = q { alts.push(hex(&q.serialize())) }
            json!({ "res": "ok", "p": $dump(&p), "ser": hex(&ser), "back": $dump(&back), "eq": p == back, "ser2": hex(&ser2), "alts": alts })
        }}}
        Ok(if ver == 2 {
            go!(v2::Psbt, build::v2_psbt, dump::v2_psbt, |a: v2::Psbt, b: v2::Psbt| v2::combine(a, b).ok())
        } else {
            go!(v0::Psbt, build::v0_psbt, dump::v0_psbt, |mut a: v0::Psbt, b: v0::Psbt| a.combine(b).ok().map(|_| a))
        })
    });
    let j = match res { Ok(Ok(j)) => j, Ok(Err(e)) => json!({ "res": "err", "msg": e }), Err(e) => json!({ "res": "panic", "msg": e }) };
    let mut o = base;
    for (k, v) in j.as_object().unwrap() { o[k] = v.clone() }
    o
}

// ---- generation ------------------------------------------------------------------------------------
pub fn small(w: &World, r: &mut Rng, ver: u64, maxio: usize, dens: usize) -> Value {
    if ver == 2 { dump::v2_psbt(&w.fieldy_v2(r, maxio, dens)) } else { dump::v0_psbt(&w.fieldy_v0(r, maxio, dens)) }
}
pub fn c01_gen(w: &World, r: &mut Rng) -> Value {
    let dens = *r.pick(&[5, 15, 30, 60]);
    json!({ "k": "round", "ver": 2, "rs": r.next() >> 12, "p": small(w, r, 2, 3, dens) })
}
fn fields_of(m: char, v0: bool) -> Vec<&'static str> {
    match (m, v0) {
        ('g', false) => { let mut v = world::G2.to_vec(); v.extend(["version", "incount", "outcount"]); if SP { v.extend(["ecdh", "dleq"]) } v }
        ('g', true) => vec!["xpub", "prop", "unk"],
        ('i', false) => { let mut v = world::I2.to_vec(); v.extend(["txid", "vout"]); if SP { v.extend(["ecdh", "dleq"]) } v }
        ('i', true) => world::IC.to_vec(),
        ('o', false) => { let mut v = world::O2.to_vec(); v.extend(["amount", "script"]); if SP { v.extend(["spinfo", "splabel"]) } v }
        _ => world::OC.to_vec(),
    }
}
fn r_pair(w: &World, r: &mut Rng, m: char, v0: bool) -> Pair {
    let f = *r.pick(&fields_of(m, v0));
    if f == "incount" || f == "outcount" { return Pair { t: type_of(m, f), k: vec![], v: vi(r.below(3)) } }
    let (k, v) = w.r_entry(r, m, v0, f);
    if f == "unk" { Pair { t: k[0], k: k[1..].to_vec(), v } } else { Pair { t: type_of(m, f), k, v } }
}
/// A damaged string: one byte changed, dropped, added, cut off, repeated ...
fn damage(r: &mut Rng, v: &mut Vec<u8>) {
    match r.below(8) {
        0 => v.clear(),
        1 => { v.pop(); }
        2 => { let b = r.next() as u8; v.push(b) }
        3 => { let n = v.len(); v.truncate(r.below(n + 1)) }
        4 if !v.is_empty() => { let k = r.below(v.len()); v[k] ^= 1 << r.below(8) }
        5 if !v.is_empty() => { let k = r.below(v.len()); v[k] = *r.pick(&[0u8, 1, 2, 3, 0x4f, 0x50, 0x51, 0x7f, 0x80, 0x81, 0xc0, 0xfc, 0xfd, 0xfe, 0xff]) }
        6 => { let k = r.below(v.len() + 1); let b = r.next() as u8; v.insert(k, b) }
        _ if !v.is_empty() => { let k = r.below(v.len()); v.remove(k); }
        _ => v.push(0),
    }
}
fn bad_vi(r: &mut Rng, n: u64) -> Vec<u8> {
    match r.below(5) {
        0 => { let mut b = vec![0xfd]; b.extend((n as u16).to_le_bytes()); b }
        1 => { let mut b = vec![0xfe]; b.extend((n as u32).to_le_bytes()); b }
        2 => { let mut b = vec![0xff]; b.extend(n.to_le_bytes()); b }
        3 => vec![0xff; 9],
        _ => { let mut b = vec![0xfe]; b.extend([0xff, 0xff, 0xff, 0x7f]); b }
    }
}
pub fn mutate(w: &World, r: &mut Rng, t: &mut Toks, v0: bool) {
    let n = t.maps.len();
    let mi = if r.chance(35) { 0 } else { r.below(n) };
    let m = t.maps[mi].0;
    let ps = &mut t.maps[mi].1;
    let np = ps.len();
    match r.below(16) {
        0 if np > 0 => { ps.remove(r.below(np)); }
        1 if np > 0 => { let p = ps[r.below(np)].clone(); let k = r.below(np + 1); ps.insert(k, p) }
        2 if np > 0 => { let mut p = ps[r.below(np)].clone(); damage(r, &mut p.v); ps.push(p) }
        3 | 4 if np > 0 => { let k = r.below(np); damage(r, &mut ps[k].v) }
        5 | 6 if np > 0 => { let k = r.below(np); damage(r, &mut ps[k].k) }
        7 if np > 0 => { let k = r.below(np); ps[k].t = if r.chance(50) { r.below(0x20) as u8 } else { r.next() as u8 } }
        8 | 9 => { let p = r_pair(w, r, m, v0); let k = r.below(np + 1); ps.insert(k, p) }
        10 => { let mut p = r_pair(w, r, m, v0); if r.chance(50) { damage(r, &mut p.v) } else { damage(r, &mut p.k) } ps.push(p) }
        11 => { let p = r_pair(w, r, m, !v0); ps.push(p) }
        12 if n > 1 => { let p = r_pair(w, r, m, v0); let o = r.below(n); t.maps[o].1.push(p) }
        13 if np > 1 => { let (a, b) = (r.below(np), r.below(np)); let v = ps[a].v.clone(); ps[b].v = v }
        14 if mi == 0 && !v0 => for p in ps.iter_mut() { if (p.t == 4 || p.t == 5) && p.k.is_empty() && r.chance(60) {
            p.v = match r.below(6) { 0 => vi(r.below(4)), 1 => bad_vi(r, 1), 2 => vi(1 << r.below(40)), 3 => { let mut v = p.v.clone(); v.push(0); v } 4 => vec![], _ => vi(n) } } },
        _ => { let t2 = if r.chance(50) { t.maps[mi].1.iter().map(|p| p.t).max().unwrap_or(0) } else { r.next() as u8 };
            let k = { let l = r.below(5); r.bytes(l) }; let v = { let l = r.below(70); r.bytes(l) };
            t.maps[mi].1.push(Pair { t: t2, k, v }) }
    }
}
/// Damage below the level of pairs.
fn mutate_bytes(r: &mut Rng, t: &Toks, b: &mut Vec<u8>) {
    match r.below(9) {
        0 => { let k = r.below(6); if k < b.len() { b[k] ^= 1 << r.below(8) } }
        1 => { let n = b.len(); b.truncate(r.below(n + 1)) }
        2 => { for _ in 0..r.range(1, 3) { let x = r.next() as u8; b.push(x) } }
        3 => b.push(0),
        4 => { b.pop(); }
        5 => { let k = r.below(b.len()); b[k] ^= 1 << r.below(8) }
        6 => { let k = r.below(b.len()); b.remove(k); }
        7 => { let k = r.range(5, b.len()); let x = r.next() as u8; b.insert(k, x) }
        _ => {
            // One length written in another way.
            let mut out = MAGIC.to_vec();
            let total: usize = t.maps.iter().map(|m| m.1.len()).sum();
            let hit = r.below(2 * total.max(1));
            let mut c = 0;
            for (_, ps) in &t.maps {
                for p in ps {
                    out.extend(if c == hit { bad_vi(r, p.k.len() as u64 + 1) } else { vi(p.k.len() + 1) }); c += 1;
                    out.push(p.t); out.extend(&p.k);
                    out.extend(if c == hit { bad_vi(r, p.v.len() as u64) } else { vi(p.v.len()) }); c += 1;
                    out.extend(&p.v);
                }
                out.push(0);
            }
            *b = out
        }
    }
}
pub fn gen_bytes(w: &World, r: &mut Rng, v0: bool) -> Vec<u8> {
    let dens = *r.pick(&[0, 4, 8, 20]);
    let d = small(w, r, if v0 { 0 } else { 2 }, 2, dens);
    let mut t = toks(&d);
    shuffle(r, &mut t);
    let k = *r.pick(&[0, 1, 1, 1, 2, 3]);
    for _ in 0..k { mutate(w, r, &mut t, v0) }
    // Some are a mixture of the two versions.
    if r.chance(4) {
        let d = small(w, r, if v0 { 2 } else { 0 }, 2, 0);
        let o = toks(&d);
        for p in &o.maps[0].1 { if r.chance(70) { t.maps[0].1.push(p.clone()) } }
    }
    if r.chance(30) { shuffle(r, &mut t) }
    let mut b = enc(&t);
    if r.chance(15) { mutate_bytes(r, &t, &mut b) }
    b
}
pub fn c02_gen(w: &World, r: &mut Rng, v0: bool) -> Value { json!({ "k": "bytes", "hex": hex(&gen_bytes(w, r, v0)) }) }
pub fn c04_gen(w: &World, r: &mut Rng) -> Value {
    if r.chance(25) { let dens = *r.pick(&[5, 15, 30]); return json!({ "k": "round", "ver": 0, "rs": r.next() >> 12, "p": small(w, r, 0, 3, dens) }) }
    if r.chance(15) {
        // About the unsigned transaction.
        let d = small(w, r, 0, 2, 3);
        let mut t = toks(&d);
        let utx = t.maps[0].1.iter().position(|p| p.t == 0).unwrap();
        if r.chance(50) { damage(r, &mut t.maps[0].1[utx].v) } else {
            let mut tx = build::tx_from_nowit(&t.maps[0].1[utx].v).unwrap();
            for i in tx.input.iter_mut() { if r.chance(50) { i.script_sig = vec![0x51; r.below(3)].into() } else if r.chance(30) { i.witness.push([1, 2]) } }
            t.maps[0].1[utx].v = if r.chance(50) { cser(&tx) } else { dump::tx_nowit(&tx) };
        }
        if r.chance(30) { let m = if r.chance(50) { 'i' } else { 'o' }; if r.chance(50) { t.maps.push((m, vec![])) } else if t.maps.len() > 1 { t.maps.pop(); } }
        return json!({ "k": "bytes", "hex": hex(&enc(&t)) });
    }
    c02_gen(w, r, true)
}
/// C19: silent payment pairs, valid and not.
pub fn c19_gen(w: &World, r: &mut Rng) -> Value {
    let d = small(w, r, 2, 2, 4);
    let mut t = toks(&d);
    for (m, ps) in t.maps.iter_mut() {
        if *m == 'o' {
            let mut info = if r.chance(50) { Some(r.bytes(66)) } else { None };
            let mut label = if r.chance(40) { Some(crate::world::r_label(r).to_le_bytes().to_vec()) } else { None };
            ps.retain(|p| p.t != 9 && p.t != 10);
            if r.chance(15) { for x in [&mut info, &mut label].into_iter().flatten() { if r.chance(50) { damage(r, x) } } }
            if let Some(v) = info { ps.push(Pair { t: 9, k: if r.chance(5) { vec![1] } else { vec![] }, v }) }
            if let Some(v) = label { ps.push(Pair { t: 10, k: if r.chance(5) { vec![1] } else { vec![] }, v }) }
            if r.chance(25) { ps.retain(|p| p.t != 4) }
        } else {
            let (te, td) = if *m == 'g' { (7, 8) } else { (0x1d, 0x1e) };
            ps.retain(|p| p.t != te && p.t != td);
            let mode = r.below(10);
            for (ty, on) in [(te, mode < 6), (td, mode < 5 || mode == 6)] {
                if !on { continue }
                let mut ks: Vec<Vec<u8>> = vec![];
                for _ in 0..r.range(1, 2) { ks.push(w.ckey(r)) }
                if !r.chance(5) { ks.dedup() }
                for mut k in ks {
                    let mut v = if ty == te { w.ckey(r) } else { r.bytes(64) };
                    if r.chance(6) { damage(r, &mut v) }
                    if r.chance(6) { damage(r, &mut k) }
                    if r.chance(3) { let pk = PublicKey { compressed: false, inner: w.keys[0].pk.inner }.to_bytes(); if r.chance(50) { k = pk } else { v = pk } }
                    ps.push(Pair { t: ty, k, v })
                }
            }
        }
    }
    shuffle(r, &mut t);
    json!({ "k": "bytes", "hex": hex(&enc(&t)) })
}

// ---- C05: text forms --------------------------------------------------------------------------------
const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for j in 0..4 { s.push(if j > c.len() { '=' } else { B64[(n >> (18 - 6 * j)) as usize & 63] as char }) }
    }
    s
}
fn parse_text(ver: u64, t: &str) -> Value {
    let r = guard(|| if ver == 2 { v2::Psbt::from_str(t).map(|p| (dump::v2_psbt(&p), hex(&p.serialize()))).map_err(|e| chain(&e)) }
        else { v0::Psbt::from_str(t).map(|p| (dump::v0_psbt(&p), hex(&p.serialize()))).map_err(|e| chain(&e)) });
    match r {
        Err(m) => json!({ "res": "panic", "panic": m }),
        Ok(Err(e)) => json!({ "res": "err", "err": e }),
        Ok(Ok((d, s))) => json!({ "res": "ok", "d": d, "ser": s }),
    }
}
fn serde_ways<T>(x: &T) -> Vec<Result<T, String>>
where T: serde::Serialize + serde::de::DeserializeOwned {
    let e = |e: serde_json::Error| e.to_string();
    let s = serde_json::to_string(x);
    let v = serde_json::to_value(x);
    vec![
        s.map_err(e).and_then(|s| serde_json::from_str(&s).map_err(e)),
        serde_json::to_vec_pretty(x).map_err(e).and_then(|s| serde_json::from_reader(&s[..]).map_err(e)),
        v.map_err(e).and_then(|v| serde_json::from_value(v).map_err(e)),
        bincode::serialize(x).map_err(|e| e.to_string()).and_then(|b| bincode::deserialize(&b).map_err(|e| e.to_string())),
    ]
}
const WAYS: &[&str] = &["JSON text", "JSON from a reader", "JSON value", "binary serde"];
pub fn c05_run(c: &Value) -> Value {
    let ver = c["ver"].as_u64().unwrap();
    if c["k"] == "text" {
        let t = c["text"].as_str().unwrap();
        let b = c["hex"].as_str().map(unhex).unwrap_or_default();
        let _ = b;
        let raw = own_unb64(t).unwrap_or_default();
        return json!({ "k": "text", "ver": ver, "sp": SP, "text": t, "orc": oracle(&raw), "v": parse_text(ver, t) });
    }
    let d = &c["p"];
    let res = guard(|| {
        let mut ways: Vec<Value> = vec![];
        macro_rules! way { ($name:expr, $x:expr, $T:ty, $dump:expr) => { way!($name, $x, $T, $dump, |y: &$T, x: &$T| y == x) }; ($name:expr, $x:expr, $T:ty, $dump:expr, $eq:expr) => {{
            let x: $T = $x;
            for (k, r) in serde_ways(&x).into_iter().enumerate() {
                let n = format!("{} of {}", WAYS[k], $name);
                ways.push(match r { Ok(y) => json!({ "n": n, "res": "ok", "eq": $eq(&y, &x), "d": $dump(y) }), Err(e) => json!({ "n": n, "res": "err", "err": e }) })
            }
        }}}
        let none = json!({ "g": [], "i": [], "o": [] });
        if ver == 2 {
            let p = build::v2_psbt(d).expect("HARNESS case");
            way!("the PSBT", p.clone(), v2::Psbt, |q: v2::Psbt| dump::v2_psbt(&q));
            if let Ok(x) = v2::Signer::new(p.clone()) { way!("a Signer", x, v2::Signer, |q: v2::Signer| dump::v2_psbt(&q.psbt())) }
            if let Ok(x) = v2::Updater::new(p.clone()) { way!("an Updater", x, v2::Updater, |q: v2::Updater| dump::v2_psbt(&q.psbt())) }
            if let Ok(x) = v2::Constructor::<v2::Modifiable>::new(p.clone()) { way!("a Constructor", x, v2::Constructor<v2::Modifiable>, |q: v2::Constructor<v2::Modifiable>| q.psbt().map(|p| dump::v2_psbt(&p)).unwrap_or(d.clone()), |_y, _x| true) }
            if let Ok(x) = v2::Constructor::<v2::InputsOnlyModifiable>::new(p.clone()) { way!("a Constructor", x, v2::Constructor<v2::InputsOnlyModifiable>, |q: v2::Constructor<v2::InputsOnlyModifiable>| q.psbt().map(|p| dump::v2_psbt(&p)).unwrap_or(d.clone()), |_y, _x| true) }
            let mut cr = v2::Creator::new();
            if let Some(l) = p.global.fallback_lock_time { cr = cr.fallback_lock_time(l) }
            if p.global.tx_modifiable_flags & 1 > 0 { cr = cr.inputs_modifiable() }
            if p.global.tx_modifiable_flags & 4 > 0 { cr = cr.sighash_single() }
            way!("a Creator", cr, v2::Creator, |_q: v2::Creator| d.clone());
            for x in p.inputs.iter().take(1) { way!("an Input", x.clone(), v2::Input, |q: v2::Input| json!({ "g": [], "i": [dump::v2_input(&q)], "o": [] })) }
            for x in p.outputs.iter().take(1) { way!("an Output", x.clone(), v2::Output, |q: v2::Output| json!({ "g": [], "i": [], "o": [dump::v2_output(&q)] })) }
            way!("the Global", p.global.clone(), v2::Global, |q: v2::Global| json!({ "g": dump::v2_global(&q), "i": [], "o": [] }));
            let disp = p.to_string();
            json!({ "res": "ok", "p": dump::v2_psbt(&p), "ser": hex(&p.serialize()), "hexs": p.serialize_hex(), "b64": disp, "text": parse_text(2, &disp), "ways": ways, "none": none })
        } else {
            let p = build::v0_psbt(d).expect("HARNESS case");
            way!("the PSBT", p.clone(), v0::Psbt, |q: v0::Psbt| dump::v0_psbt(&q));
            let disp = p.to_string();
            json!({ "res": "ok", "p": dump::v0_psbt(&p), "ser": hex(&p.serialize()), "hexs": p.serialize_hex(), "b64": disp, "text": parse_text(0, &disp), "ways": ways, "none": none })
        }
    });
    let mut o = match res { Ok(j) => j, Err(e) => json!({ "res": "panic", "msg": e }) };
    o["k"] = json!("forms"); o["ver"] = json!(ver); o["sp"] = json!(SP);
    o
}
/// Lenient: what the characters of the alphabet stand for.
fn own_unb64(t: &str) -> Option<Vec<u8>> {
    let (mut acc, mut n, mut out) = (0u32, 0, vec![]);
    for c in t.bytes() {
        if c == b'=' { break }
        acc = acc << 6 | B64.iter().position(|x| *x == c)? as u32;
        n += 6;
        if n >= 8 { n -= 8; out.push((acc >> n) as u8); acc &= (1 << n) - 1 }
    }
    Some(out)
}
/// What is longer takes the judge too long to write in base64.
const FORM_MAX: usize = 20_000;
pub fn c05_gen(w: &World, r: &mut Rng) -> Value {
    let ver = if r.chance(65) { 2 } else { 0u64 };
    if r.chance(50) {
        let dens = *r.pick(&[5, 15, 40]);
        loop {
            let p = small(w, r, ver, 2, dens);
            if enc(&toks(&p)).len() <= FORM_MAX { return json!({ "k": "forms", "ver": ver, "p": p }) }
        }
    }
    let b = loop {
        let b = if r.chance(60) { enc(&toks(&small(w, r, ver, 1, 3))) } else { gen_bytes(w, r, ver == 0) };
        if b.len() <= FORM_MAX { break b }
    };
    let mut t = b64(&b);
    if r.chance(75) { for _ in 0..r.range(1, 2) {
        let k = r.below(t.len() + 1);
        let c = *r.pick(&['=', ' ', '\n', '-', '_', 'A', '/', '+', '!', 'z', '\u{e9}', '\0', '0']);
        match r.below(6) {
            0 if k < t.len() && t.is_char_boundary(k) => { t.remove(k); }
            1 if t.is_char_boundary(k) => t.insert(k, c),
            2 if k < t.len() && t.is_char_boundary(k) => { t.remove(k); t.insert(k, c) }
            3 => t.push(c),
            4 => { t.pop(); }
            _ => t = t.trim_end_matches('=').to_string(),
        }
    } }
    if r.chance(4) { t = hex(&b) }
    if r.chance(2) { t.clear() }
    json!({ "k": "text", "ver": ver, "text": t })
}

// ---- C03: hostile bytes --------------------------------------------------------------------------------
fn meter(f: impl FnOnce() -> Result<(), String>) -> Value {
    let t = std::time::Instant::now();
    let ((r, peak), total) = crate::util::totalled(|| metered(|| guard(f)));
    let ms = t.elapsed().as_millis() as u64;
    let (res, msg) = match r { Ok(Ok(())) => ("ok", String::new()), Ok(Err(e)) => ("err", e), Err(m) => ("panic", m) };
    json!({ "res": res, "msg": msg, "kb": peak / 1024, "total": total / 1024, "s": ms / 1000 })
}
pub fn c03_run(c: &Value) -> Value {
    let mut runs = vec![];
    let mut add = |n: &str, len: usize, v: Value| { let mut v = v; v["n"] = json!(n); v["len"] = json!(len); runs.push(v) };
    if let Some(h) = c["hex"].as_str() {
        let b = unhex(h);
        add("v2", b.len(), meter(|| v2::Psbt::deserialize(&b).map(drop).map_err(|e| chain(&e))));
        add("v0", b.len(), meter(|| v0::Psbt::deserialize(&b).map(drop).map_err(|e| chain(&e))));
        let t = b64(&b);
        add("v2 base64", t.len(), meter(|| v2::Psbt::from_str(&t).map(drop).map_err(|e| chain(&e))));
        add("v0 base64", t.len(), meter(|| v0::Psbt::from_str(&t).map(drop).map_err(|e| chain(&e))));
        add("v2 serde", b.len(), meter(|| bincode::deserialize::<v2::Psbt>(&b).map(drop).map_err(|e| chain(&e))));
        add("v0 serde", b.len(), meter(|| bincode::deserialize::<v0::Psbt>(&b).map(drop).map_err(|e| chain(&e))));
    }
    if let Some(s) = c["json"].as_str() {
        add("v2 JSON", s.len(), meter(|| serde_json::from_str::<v2::Psbt>(s).map(drop).map_err(|e| chain(&e))));
        add("v0 JSON", s.len(), meter(|| serde_json::from_str::<v0::Psbt>(s).map(drop).map_err(|e| chain(&e))));
    }
    if let Some(h) = c["bin"].as_str() {
        let b = unhex(h);
        add("v2 serde", b.len(), meter(|| bincode::deserialize::<v2::Psbt>(&b).map(drop).map_err(|e| chain(&e))));
        add("v0 serde", b.len(), meter(|| bincode::deserialize::<v0::Psbt>(&b).map(drop).map_err(|e| chain(&e))));
    }
    json!({ "runs": runs })
}
pub fn c03_gen(w: &World, r: &mut Rng) -> Value {
    let v0 = r.chance(40);
    let dens = *r.pick(&[3, 10, 40]);
    match r.below(10) {
        0 | 1 => {
            // serde forms, damaged
            let d = small(w, r, if v0 { 0 } else { 2 }, 2, dens);
            let (mut s, mut b) = if v0 { let p = build::v0_psbt(&d).unwrap(); (serde_json::to_string(&p).unwrap(), bincode::serialize(&p).unwrap()) }
                else { let p = build::v2_psbt(&d).unwrap(); (serde_json::to_string(&p).unwrap(), bincode::serialize(&p).unwrap()) };
            for _ in 0..r.range(1, 3) {
                let k = r.below(s.len());
                match r.below(5) {
                    0 => { s.remove(k); }
                    1 => s.insert(k, *r.pick(&['"', '0', '-', ',', '[', ']', '{', 'f', 'g', '9'])),
                    2 => { s.remove(k); s.insert(k, *r.pick(&['"', '0', '-', ',', 'f', 'z', '9'])) }
                    3 => {
                        // a number or a string put in the place of another one
                        let vals = ["4294967296", "18446744073709551615", "-1", "1e400", "\"\"", "\"0\"", "null", "[]", "{}", "\"zz\"", "4000000000", "256"];
                        let at: Vec<usize> = s.match_indices(':').map(|x| x.0 + 1).collect();
                        if !at.is_empty() { let a = *r.pick(&at); let e = s[a..].find([',', '}', ']']).map(|x| a + x).unwrap_or(s.len()); s.replace_range(a..e, r.pick(&vals)) }
                    }
                    _ => s.truncate(k),
                }
                if s.is_empty() { s.push('x') }
                let k = r.below(b.len());
                match r.below(5) {
                    0 => b.truncate(k.max(1)),
                    1 => { let e = (k + 8).min(b.len()); for x in &mut b[k..e] { *x = 0xff } }
                    2 => { b[k] ^= 1 << r.below(8) }
                    3 => { let e = (k + 8).min(b.len()); let n = (1u64 << r.below(40)).to_le_bytes(); for (j, x) in b[k..e].iter_mut().enumerate() { *x = n[j] } }
                    _ => b.push(0),
                }
            }
            json!({ "json": s, "bin": hex(&b) })
        }
        2 => {
            // a run of random bytes behind a valid beginning
            let mut b = gen_bytes(w, r, v0);
            let n = b.len(); b.truncate(r.range(0, n));
            let l = r.below(200); b.extend(r.bytes(l));
            json!({ "hex": hex(&b) })
        }
        3 => {
            // big: many pairs or long strings
            let mut t = toks(&small(w, r, if v0 { 0 } else { 2 }, 2, 5));
            let n = r.range(1, 3000);
            let mi = r.below(t.maps.len());
            match r.below(3) {
                0 => for j in 0..n { t.maps[mi].1.push(Pair { t: 0xf0, k: (j as u32).to_le_bytes().to_vec(), v: vec![] }) },
                1 => { let l = r.range(1, 60000); t.maps[mi].1.push(Pair { t: 0xf0, k: vec![], v: r.bytes(l) }) }
                _ => { let l = r.range(1, 60000); t.maps[mi].1.push(Pair { t: 0xf0, k: r.bytes(l), v: vec![] }) }
            }
            json!({ "hex": hex(&enc(&t)) })
        }
        4 | 5 => {
            // a claim far beyond the data somewhere in a value or key
            let mut t = toks(&small(w, r, if v0 { 0 } else { 2 }, 2, dens));
            for _ in 0..r.range(1, 2) {
                let mi = r.below(t.maps.len());
                let ps = &mut t.maps[mi].1;
                if ps.is_empty() { continue }
                let k = r.below(ps.len());
                let c: Vec<u8> = match r.below(4) { 0 => vec![0xfd, 0xff, 0xff], 1 => { let mut b = vec![0xfe]; b.extend((1u32 << r.range(16, 31)).to_le_bytes()); b }
                    2 => { let mut b = vec![0xff]; b.extend((1u64 << r.range(32, 63)).to_le_bytes()); b } _ => vec![0xff; 9] };
                let s = if r.chance(75) { &mut ps[k].v } else { &mut ps[k].k };
                let at = r.below(s.len().min(12) + 1);
                if r.chance(50) { for (j, x) in c.iter().enumerate() { s.insert(at + j, *x) } } else { let e = (at + 1).min(s.len()); s.splice(at..e, c); }
            }
            json!({ "hex": hex(&enc(&t)) })
        }
        6 => {
            // claims in the framing
            let t = toks(&small(w, r, if v0 { 0 } else { 2 }, 2, dens));
            let mut b = enc(&t);
            for _ in 0..r.range(1, 2) { mutate_bytes(r, &t, &mut b); if b.len() < 6 { b = enc(&t) } }
            let k = r.range(5, b.len());
            let c: Vec<u8> = { let mut x = vec![0xfe]; x.extend(((1u32 << r.range(8, 31)) - r.below(3) as u32).to_le_bytes()); x };
            b.truncate(k);
            b.extend(c);
            let l = r.below(10); b.extend(r.bytes(l));
            json!({ "hex": hex(&b) })
        }
        _ => json!({ "hex": hex(&gen_bytes(w, r, v0)) }),
    }
}
