//! psbt-harness gen <PROP> <seed> <first> <count> <out>   random cases, executed
//! psbt-harness exec <PROP> <cases.ndjson> <out>          given cases, executed
//! A record is what the implementation did, one line per case; `<out>.cases` holds the cases, each
//! written before it is run.
mod build;
mod dump;
mod ops;
mod sgen;
mod p_build;
mod p_combine;
mod p_create0;
mod p_desc;
mod p_sign;
mod oracle;
mod p_fin;
mod p_fee;
mod p_sht;
mod p_sess;
mod p_sess0;
mod p_tx;
mod p_v0;
mod p_wire;
mod util;
mod world;

use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};

use serde_json::Value;
use util::Rng;
use world::World;

#[global_allocator]
static A: util::Meter = util::Meter;

pub fn gen_case(w: &World, prop: &str, r: &mut Rng) -> Value {
    match prop {
        "C06" => p_tx::c06_gen(w, r),
        "C07" => p_tx::c07_gen(w, r),
        "C08" => p_build::c08_gen(w, r),
        "C09" => p_sign::c09_gen(w, r),
        "C13" => p_sign::c13_gen(w, r),
        "C14" => p_sign::c14_gen(w, r),
        "C16" => p_fin::c16_gen(w, r),
        "C22" => p_fin::c22_gen(w, r),
        "C20" => p_v0::c20_gen(w, r),
        "C15" => p_sess::c15_gen(w, r),
        "C26" => p_sess::c26_gen(w, r),
        "C27" => p_sess0::gen(w, r),
        "C21" => p_v0::c21_gen(w, r),
        "C24" => p_desc::c24_gen(w, r),
        "C25" => p_sht::gen(w, r),
        "C28" => p_create0::gen(w, r),
        "C17" | "C18" | "C23" => p_fee::gen(w, r, prop),
        "C01" => p_wire::c01_gen(w, r),
        "C02" => p_wire::c02_gen(w, r, false),
        "C03" => p_wire::c03_gen(w, r),
        "C04" => p_wire::c04_gen(w, r),
        "C05" => p_wire::c05_gen(w, r),
        "C19" => p_wire::c19_gen(w, r),
        "C10" => p_combine::gen(w, r, 2),
        "C11" => p_combine::c11_gen(w, r),
        "C12" => p_combine::gen(w, r, 0),
        _ => panic!("unknown property {}", prop),
    }
}
pub fn run_case(w: &World, prop: &str, c: &Value) -> Value {
    let _ = w;
    match prop {
        "C06" => p_tx::c06_run(c),
        "C07" => p_tx::c07_run(c),
        "C08" => p_build::c08_run(c),
        "C09" => p_sign::c09_run(w, c),
        "C13" => p_sign::c13_run(w, c),
        "C14" => p_sign::c14_run(w, c),
        "C16" => p_fin::c16_run(w, c),
        "C22" => p_fin::c22_run(w, c),
        "C20" => p_v0::c20_run(w, c),
        "C15" | "C26" => p_sess::run(w, c),
        "C27" => p_sess0::run(w, c),
        "C21" => p_v0::c21_run(w, c),
        "C24" => p_desc::c24_run(w, c),
        "C25" => p_sht::run(c),
        "C28" => p_create0::run(c),
        "C17" => p_fee::c17_run(c),
        "C18" => p_fee::c18_run(c),
        "C23" => p_fee::c23_run(c),
        "C03" => p_wire::c03_run(c),
        "C05" => p_wire::c05_run(c),
        "C01" | "C02" | "C04" | "C19" => if c["k"] == "round" { p_wire::run_round(c) } else { p_wire::run_bytes(c) },
        "C10" | "C11" | "C12" => p_combine::run(c),
        _ => panic!("unknown property {}", prop),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    util::install_hook();
    let w = World::new();
    let w = &w;
    let out = a.last().unwrap().clone();
    let mut f = BufWriter::new(File::create(&out).unwrap());
    let mut cases = File::create(format!("{}.cases", out)).unwrap();
    let mut emit = |c: Value| {
        // Written first, so that an abort can be attributed to the case in progress.
        cases.write_all(format!("{}\n", c).as_bytes()).unwrap();
        let rec = run_case(w, &a[2], &c);
        writeln!(f, "{}", rec).unwrap();
    };
    match a[1].as_str() {
        "gen" => {
            let seed: u64 = a[3].parse().unwrap();
            let first: u64 = a[4].parse().unwrap();
            let n: u64 = a[5].parse().unwrap();
            for i in first..first + n {
                let mut r = Rng::stream(seed, &a[2], i);
                let c = gen_case(w, &a[2], &mut r);
                emit(c);
            }
        }
        "exec" => for l in BufReader::new(File::open(&a[3]).unwrap()).lines() {
            let l = l.unwrap();
            if !l.is_empty() { emit(serde_json::from_str(&l).unwrap()) }
        },
        "samples" => {
            // Two keys and two values for every field of every map, for the design models.
            let mut r = Rng::new(77);
            use std::collections::BTreeMap;
            for (m, v0, fs) in [('g', false, world::G2), ('i', false, world::I2), ('o', false, world::O2), ('g', false, &["ecdh", "dleq"][..]), ('i', false, &["ecdh", "dleq"][..]), ('o', false, &["spinfo", "splabel"][..])] {
                for f_ in fs {
                    let mut t: BTreeMap<String, Vec<String>> = BTreeMap::new();
                    for _ in 0..300 {
                        let (k, v) = w.r_entry(&mut r, m, v0, f_);
                        if v.len() > 120 || k.len() > 120 || (*f_ == "prop" && k[0] == 0xfd) { continue }
                        let (k, v) = (util::hex(&k), util::hex(&v));
                        if t.contains_key(&k) || t.len() < 2 { let e = t.entry(k).or_default(); if e.len() < 2 && !e.contains(&v) { e.push(v) } }
                    }
                    for (k, vs) in t { writeln!(f, "{}", serde_json::json!([m.to_string(), f_, k, vs])).unwrap() }
                }
            }
        }
        _ => panic!("usage"),
    }
    f.flush().unwrap();
}
