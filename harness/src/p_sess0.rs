//! C27: whole sessions, several parties with copies of one v0 PSBT.
use psbt_v2::v0;
use psbt_v2::v0::miniscript::PsbtExt;
use psbt_v2::PsbtSighashType;
use serde_json::{json, Value};

use crate::build;
use crate::dump;
use crate::ops::*;
use crate::oracle;
use crate::p_fin::{nw_tab_v0, spendj, step0, views_v0};
use crate::p_sess::{mode, r_master};
use crate::p_v0::sign_step;
use crate::sgen::{self, Opts};
use crate::util::{guard, unhex, Rng};
use crate::world::{Spend, World};

fn wire(p: &v0::Psbt, mode: &str) -> Result<v0::Psbt, String> {
    use std::str::FromStr;
    match mode {
        "b64" => v0::Psbt::from_str(&p.to_string()).map_err(|e| disp(&e)),
        "json" => serde_json::from_str(&serde_json::to_string(p).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        _ => v0::Psbt::deserialize(&p.serialize()).map_err(|e| disp(&e)),
    }
}
pub fn run(w: &World, c: &Value) -> Value {
    let (p, spends) = if c.get("sess").is_some() { let (p, s) = mk(w, &c["sess"]); (p, json!(s.iter().map(spendj).collect::<Vec<_>>())) }
        else { (build::v0_psbt(&c["p"]).expect("case"), c["spends"].clone()) };
    let n = c["n"].as_u64().unwrap() as usize;
    let mut ps = vec![p.clone(); n];
    let mut steps: Vec<Value> = vec![];
    for op in c["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let a = op[1].as_u64().unwrap() as usize;
        let x = ps[a].clone();
        let base = |res: &str| json!({ "res": res, "panic": "" });
        let put = |r: Result<Result<v0::Psbt, String>, String>, ps: &mut Vec<v0::Psbt>| match r {
            Err(m) => json!({ "res": "panic", "panic": m }),
            Ok(Err(_)) => base("err"),
            Ok(Ok(q)) => { let mut j = base("ok"); j["q"] = dump::v0_psbt(&q); ps[a] = q; j }
        };
        let mut j = match name {
            "sign" => { let (rec, q) = sign_step(w, &x, &op[2], false); ps[a] = q; rec }
            "comb" => {
                let b = op[2].as_u64().unwrap() as usize;
                let y = wire(&ps[b], op[3].as_str().unwrap_or("")).unwrap_or_else(|_| ps[b].clone());
                let yd = dump::v0_psbt(&ps[b]);
                let mut j = put(guard(|| { let mut q = x.clone(); q.combine(y.clone()).map(|_| q).map_err(|e| disp(&e)) }), &mut ps);
                j["y"] = yd;
                j
            }
            "wire" => put(guard(|| wire(&x, op[2].as_str().unwrap_or(""))), &mut ps),
            "fin" => {
                let how = op[2].as_str().unwrap();
                let k = op.get(3).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
                let mut j = step0(w, &x, how, k, a % 2 == 1 && !how.starts_with("old"));
                j["how"] = json!(how);
                j["k"] = json!(k + 1);
                if j["res"] != "panic" { ps[a] = build::v0_psbt(&j["q"]).expect("HARNESS result") }
                j
            }
            "ext" => {
                let mut j = base("ok");
                j["ext"] = match guard(|| x.extract(&w.secp).map_err(|e| { disp(&e); })) {
                    Err(m) => json!({ "st": "panic", "panic": m }),
                    Ok(Err(())) => json!({ "st": "err" }),
                    Ok(Ok(t)) => json!({ "st": "ok", "tx": txj(&t), "sigs": sigsj(&t) }),
                };
                j["raw"] = match guard(|| x.clone().extract_tx_unchecked_fee_rate()) {
                    Err(m) => json!({ "st": "panic", "panic": m }),
                    Ok(t) => json!({ "st": "ok", "tx": txj(&t), "sigs": sigsj(&t) }),
                };
                j["T"] = oracle::tables(w, &x.unsigned_tx, &views_v0(&x, &x));
                j
            }
            o => panic!("HARNESS op {}", o),
        };
        j["op"] = json!(name);
        j["a"] = json!(a + 1);
        j["x"] = dump::v0_psbt(&x);
        steps.push(j);
    }
    json!({ "p": dump::v0_psbt(&p), "tx": txj(&p.unsigned_tx), "tab": nw_tab_v0(&[&p]), "spends": spends, "steps": steps,
        "fins": c.get("fins").cloned().unwrap_or(json!([])) })
}
/// {"ins": [{"kind", "ty", "key"}]}
fn mk(w: &World, c: &Value) -> (v0::Psbt, Vec<Spend>) {
    let mut r = Rng::new(22);
    let (mut p, _) = sgen::ceremony(w, &mut r, 0, 2, &sgen::PLAIN);
    p.global.tx_version.0 = 2;
    p.global.fallback_lock_time = None;
    let mut sp = vec![];
    for c in c["ins"].as_array().unwrap() {
        let kind: &'static str = crate::world::ECDSA_KINDS.iter().chain(crate::world::TAP_KINDS).copied().find(|k| *k == c["kind"].as_str().unwrap()).unwrap();
        let s = w.spend_fixed(&mut r, kind, &[0, 1, 2, 3, 4, 5, 6, 7, 8], 100, 10, 32);
        let mut i = sgen::input(w, &mut r, &s, &sgen::PLAIN);
        i.bip32_derivations.clear();
        i.tap_key_origins.clear();
        i.sequence = None;
        i.min_height = None;
        i.min_time = None;
        if s.spk.is_p2tr() {
            if c["key"] == true { i.tap_key_origins.insert(w.xonly(s.keys[0]), (vec![], sgen::source(w, s.keys[0], 0))); }
            for (lh, ks) in &s.leaf_keys { for &j in ks { i.tap_key_origins.entry(w.xonly(j)).or_insert_with(|| (vec![], sgen::source(w, j, 0))).0.push(*lh) } }
            if let Some(si) = &s.tap { for (x, lv) in si.script_map().keys() { i.tap_scripts.insert(si.control_block(&(x.clone(), *lv)).unwrap(), (x.clone(), *lv)); } }
        } else { for &j in &s.keys { i.bip32_derivations.insert(w.keys[j].pk.inner, sgen::source(w, j, 0)); } }
        i.sighash_type = if c["ty"] == "" { None } else { Some(PsbtSighashType::from_u32(u32::from_le_bytes(unhex(c["ty"].as_str().unwrap()).try_into().unwrap()))) };
        p.inputs.push(i);
        sp.push(s);
    }
    p.global.input_count = p.inputs.len();
    (sgen::to_v0(&p).expect("HARNESS lock"), sp)
}
pub fn gen(w: &World, r: &mut Rng) -> Value {
    let (p, sp) = loop {
        let n = *r.pick(&[1usize, 1, 2, 2, 3]);
        let nout = r.range(1, 3);
        let tap = *r.pick(&[10, 40, 80]);
        let (mut p, sp) = sgen::ceremony(w, r, n, nout, &Opts { tap, extra: 8, hashty: 35, list: 97, unlock: 4, ..sgen::PLAIN });
        for i in p.inputs.iter_mut() { i.final_script_sig = None; i.final_script_witness = None; i.partial_sigs.clear() }
        if let Some(q) = sgen::to_v0(&p) { break (q, sp) }
    };
    let n = r.range(2, 4);
    let mut ops = vec![];
    let fin = |r: &mut Rng, a: usize| json!(["fin", a, *r.pick(&["fin", "fin", "fin", "mall", "inp", "inpmall", "old", "oldmall"]), r.below(p.inputs.len())]);
    for _ in 0..r.range(2, 9) {
        let a = r.below(n);
        ops.push(match r.below(12) {
            0..=4 => json!(["sign", a, if r.chance(80) { r_master(r, a) } else { sgen::r_prov(r) }]),
            5..=7 => json!(["comb", a, r.below(n), mode(r)]),
            8 => json!(["wire", a, mode(r)]),
            9 => json!(["ext", a]),
            _ => fin(r, a),
        });
    }
    if r.chance(75) {
        for a in 0..n { if r.chance(85) { ops.push(json!(["sign", a, r_master(r, a)])) } }
        for b in 1..n { if r.chance(20) { ops.push(fin(r, b)) } ops.push(json!(["comb", 0, b, mode(r)])) }
    }
    let a = if r.chance(80) { 0 } else { r.below(n) };
    ops.push(fin(r, a));
    if r.chance(50) { ops.push(json!(["wire", a, mode(r)])) }
    ops.push(json!(["ext", a]));
    json!({ "p": dump::v0_psbt(&p), "spends": sp.iter().map(spendj).collect::<Vec<_>>(), "n": n, "ops": ops })
}
