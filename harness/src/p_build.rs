//! C08: creator, constructor and updater operations.
use bitcoin::absolute::{Height, LockTime, Time};
use bitcoin::consensus::deserialize as cde;
use bitcoin::{transaction, Amount, OutPoint, Sequence, ScriptBuf, TxOut};
use psbt_v2::v2::{self, Constructor, Creator, InputBuilder, InputsOnlyModifiable, Modifiable, OutputBuilder, OutputsOnlyModifiable, Updater};
use serde_json::{json, Value};

use crate::build;
use crate::dump;
use crate::util::{guard, unhex, Rng};
use crate::world::World;

enum Role {
    Creator(Creator),
    M(Constructor<Modifiable>),
    I(Constructor<InputsOnlyModifiable>),
    O(Constructor<OutputsOnlyModifiable>),
    U(Updater),
    P(v2::Psbt),
    Dead,
}
use Role::*;

fn u32le(v: &Value) -> u32 { u32::from_le_bytes(unhex(v.as_str().unwrap()).try_into().unwrap()) }

/// The input, through the builder when its entries are those the builder can set.
fn mk_input(v: &Value) -> v2::Input {
    let es = v.as_array().unwrap();
    let i = build::v2_input(v).expect("case");
    if es.iter().all(|e| ["txid", "vout", "mintime", "minheight", "wutxo", "nwutxo"].contains(&e[0].as_str().unwrap())) {
        let mut b = InputBuilder::new(&OutPoint { txid: i.previous_txid, vout: i.spent_output_index });
        for e in es {
            let x = unhex(e[2].as_str().unwrap());
            b = match e[0].as_str().unwrap() {
                "mintime" => b.minimum_required_time_based_lock_time(Time::from_consensus(u32le(&e[2])).unwrap()),
                "minheight" => b.minimum_required_height_based_lock_time(Height::from_consensus(u32le(&e[2])).unwrap()),
                "wutxo" => b.segwit_fund(cde(&x).unwrap()),
                "nwutxo" => b.legacy_fund(cde(&x).unwrap()),
                _ => b,
            }
        }
        return b.build();
    }
    i
}
fn mk_output(v: &Value) -> v2::Output {
    let o = build::v2_output(v).expect("case");
    if v.as_array().unwrap().len() == 2 {
        return OutputBuilder::new(TxOut { value: Amount::from_sat(o.amount.to_sat()), script_pubkey: ScriptBuf::from(o.script_pubkey.to_bytes()) }).build();
    }
    o
}

/// One operation: (accepted, role afterwards).
fn step(role: Role, op: &Value) -> (bool, Role) {
    let n = op[0].as_str().unwrap();
    macro_rules! ctor { ($c:ident, $w:ident) => { match n {
        "nomorein" => (true, $w($c.no_more_inputs())),
        "nomoreout" => (true, $w($c.no_more_outputs())),
        "updater" => match $c.updater() { Ok(u) => (true, U(u)), Err(_) => (false, Dead) },
        "psbt" => match $c.psbt() { Ok(p) => (true, P(p)), Err(_) => (false, Dead) },
        _ => panic!("HARNESS op {}", n),
    }}}
    match role {
        Creator(c) => (true, match n {
            "fallback" => Creator(c.fallback_lock_time(LockTime::from_consensus(u32le(&op[1])))),
            "txver" => Creator(c.transaction_version(transaction::Version(u32le(&op[1]) as i32))),
            "single" => Creator(c.sighash_single()),
            "inmod" => Creator(c.inputs_modifiable()),
            "outmod" => Creator(c.outputs_modifiable()),
            "cM" => M(c.constructor_modifiable()),
            "cI" => I(c.constructor_inputs_only_modifiable()),
            "cO" => O(c.constructor_outputs_only_modifiable()),
            "psbt" => P(c.psbt()),
            _ => panic!("HARNESS op {}", n),
        }),
        M(c) => match n {
            "input" => (true, M(c.input(mk_input(&op[1])))),
            "output" => (true, M(c.output(mk_output(&op[1])))),
            _ => ctor!(c, M),
        },
        I(c) => if n == "input" { (true, I(c.input(mk_input(&op[1])))) } else { ctor!(c, I) },
        O(c) => if n == "output" { (true, O(c.output(mk_output(&op[1])))) } else { ctor!(c, O) },
        P(p) => match n {
            "newM" => match Constructor::<Modifiable>::new(p.clone()) { Ok(c) => (true, M(c)), Err(_) => (false, P(p)) },
            "newI" => match Constructor::<InputsOnlyModifiable>::new(p.clone()) { Ok(c) => (true, I(c)), Err(_) => (false, P(p)) },
            "newO" => match Constructor::<OutputsOnlyModifiable>::new(p.clone()) { Ok(c) => (true, O(c)), Err(_) => (false, P(p)) },
            "newU" => {
                let a = Updater::new(p.clone());
                let b = Updater::try_from(p.clone());
                if a.is_ok() != b.is_ok() { return (a.is_err(), P(p)) }
                match a { Ok(u) => (true, U(u)), Err(_) => (false, P(p)) }
            }
            _ => panic!("HARNESS op {}", n),
        },
        U(u) => match n {
            "seq" => {
                // Numbers the specification cannot hold stand for the largest ones.
                let idx = match op[1].as_u64().unwrap() { 2_000_000_000 => usize::MAX, 2_000_000_001 => 1 << 32, 2_000_000_002 => 1 << 31, 2_000_000_003 => 1 << 16, 2_000_000_004 => 1 << 8, i => i as usize };
                match u.clone().set_sequence(Sequence(u32le(&op[2])), idx) { Ok(u) => (true, U(u)), Err(e) => { let _ = e.to_string(); (false, U(u)) } }
            }
            "psbt" => (true, P(u.psbt())),
            _ => panic!("HARNESS op {}", n),
        },
        Dead => panic!("HARNESS dead"),
    }
}
fn look(role: Role) -> Value {
    let p = match role {
        Creator(c) => c.psbt(),
        M(c) => match c.psbt() { Ok(p) => p, Err(_) => return json!({"err": 1}) },
        I(c) => match c.psbt() { Ok(p) => p, Err(_) => return json!({"err": 1}) },
        O(c) => match c.psbt() { Ok(p) => p, Err(_) => return json!({"err": 1}) },
        U(u) => u.psbt(),
        P(p) => p,
        Dead => return json!({"err": 1}),
    };
    dump::v2_psbt(&p)
}
pub fn c08_run(c: &Value) -> Value {
    let ops = c["ops"].as_array().unwrap();
    let start = || if c["start"]["new"] == 1 { Creator(if ops.len() % 2 == 0 { Creator::new() } else { Creator::default() }) } else { P(build::v2_psbt(&c["start"]).expect("case")) };
    let mut steps = vec![];
    // Constructors can only be looked into by consuming them, so each prefix is run from the start.
    for k in 1..=ops.len() {
        let r = guard(|| {
            let (mut role, mut ok) = (start(), true);
            for op in &ops[..k] { let (o, r) = step(role, op); ok = o; role = r; }
            let dead = matches!(role, Dead);
            (ok, dead, look(role))
        });
        match r {
            Ok((ok, dead, p)) => { steps.push(json!({ "ok": ok, "p": p })); if dead { break } }
            Err(m) => { assert!(!m.contains("HARNESS"), "{}", m); steps.push(json!({ "panic": m })); break }
        }
    }
    json!({ "start": c["start"], "ops": &ops[..steps.len()], "steps": steps })
}
pub fn c08_gen(w: &World, r: &mut Rng) -> Value {
    let dens = r.below(25);
    let fresh = r.chance(40);
    // The role is tracked loosely; only operations of the current role are generated.
    let mut role = "creator";
    let start = if fresh { json!({"new": 1}) } else {
        role = "psbt";
        let mut p = w.fieldy_v2(r, 2, dens);
        p.global.tx_modifiable_flags = if r.chance(85) { r.below(8) as u8 } else { r.next() as u8 };
        if r.chance(80) { for i in p.inputs.iter_mut() { i.min_time = None } }
        dump::v2_psbt(&p)
    };
    let lockless = r.chance(80);
    let mut ops = vec![];
    for _ in 0..r.range(2, 14) {
        let name: &str = match role {
            "creator" => *r.pick(&["fallback", "txver", "single", "inmod", "outmod", "cM", "cI", "cO", "psbt", "cM"]),
            "cM" => *r.pick(&["input", "output", "input", "output", "nomorein", "nomoreout", "updater", "psbt"]),
            "cI" => *r.pick(&["input", "input", "nomorein", "nomoreout", "updater", "psbt"]),
            "cO" => *r.pick(&["output", "output", "nomorein", "nomoreout", "updater", "psbt"]),
            "upd" => *r.pick(&["seq", "seq", "psbt"]),
            _ => *r.pick(&["newM", "newI", "newO", "newU"]),
        };
        match name {
            "fallback" => ops.push(json!([name, crate::util::hex(&w.r_lock(r).to_le_bytes())])),
            "txver" => ops.push(json!([name, crate::util::hex(&w.r_txver(r).to_le_bytes())])),
            "input" => {
                let mut i = w.fieldy_v2_input(r, dens);
                if lockless { i.min_time = None }
                if r.chance(40) {
                    i = v2::Input { min_time: i.min_time, min_height: i.min_height, witness_utxo: i.witness_utxo, non_witness_utxo: i.non_witness_utxo,
                        ..v2::Input::new(&OutPoint { txid: i.previous_txid, vout: i.spent_output_index }) };
                }
                ops.push(json!([name, dump::v2_input(&i)]))
            }
            "output" => { let d = if r.chance(40) { 0 } else { dens }; ops.push(json!([name, dump::v2_output(&w.fieldy_v2_output(r, d))])) }
            "seq" => { let i = if r.chance(80) { r.below(4) } else if r.chance(70) { 2_000_000_000 + r.below(5) } else { r.next() as usize % 2_000_000_000 }; ops.push(json!([name, i, crate::util::hex(&w.r_seq(r).to_le_bytes())])) }
            _ => ops.push(json!([name])),
        }
        // What the role is now is decided by running the prefix.
        let c = json!({ "start": start, "ops": ops });
        role = now(&c);
        if role == "dead" { break }
    }
    json!({ "start": start, "ops": ops })
}
fn now(c: &Value) -> &'static str {
    let ops = c["ops"].as_array().unwrap();
    guard(|| {
        let mut role = if c["start"]["new"] == 1 { Creator(Creator::new()) } else { P(build::v2_psbt(&c["start"]).expect("case")) };
        for op in ops { role = step(role, op).1 }
        match role { Creator(_) => "creator", M(_) => "cM", I(_) => "cI", O(_) => "cO", U(_) => "upd", P(_) => "psbt", Dead => "dead" }
    }).unwrap_or("dead")
}
