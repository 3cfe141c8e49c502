#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//! Command line of the symbolic harnesses.
//!   harness list
//!   harness run NAME [--tag PROPERTY] [--budget SECONDS]
//!   harness replay NAME VALUES.json [--tag PROPERTY]
#[macro_use]
mod common;
mod minter_main;
mod world;
#[cfg(feature = "h_tx")]
mod h_tx;
#[cfg(feature = "h_withdraw")]
mod h_withdraw;
#[cfg(feature = "h_deposit")]
mod h_deposit;
#[cfg(feature = "h_endpoints")]
mod h_endpoints;
#[cfg(feature = "h_data")]
mod h_data;
#[cfg(feature = "h_rpc")]
mod h_rpc;
#[cfg(feature = "h_cycles")]
mod h_cycles;
#[cfg(feature = "h_admin")]
mod h_admin;
#[cfg(feature = "h_queue")]
mod h_queue;
#[cfg(feature = "h_backing")]
mod h_backing;
#[cfg(feature = "h_contract")]
mod h_contract;
#[cfg(feature = "h_contract")]
mod sol;

use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Duration;

/// Hash maps of the code under test must iterate in the same order on every re-execution of a path.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    unsafe { std::ptr::write_bytes(buf, 0x5a, len) };
    len as isize
}

fn all() -> Vec<common::Harness> {
    let mut v = vec![];
    #[cfg(feature = "h_tx")]
    v.extend(h_tx::harnesses());
    #[cfg(feature = "h_withdraw")]
    v.extend(h_withdraw::harnesses());
    #[cfg(feature = "h_deposit")]
    v.extend(h_deposit::harnesses());
    #[cfg(feature = "h_endpoints")]
    v.extend(h_endpoints::harnesses());
    #[cfg(feature = "h_data")]
    v.extend(h_data::harnesses());
    #[cfg(feature = "h_rpc")]
    v.extend(h_rpc::harnesses());
    #[cfg(feature = "h_cycles")]
    v.extend(h_cycles::harnesses());
    #[cfg(feature = "h_admin")]
    v.extend(h_admin::harnesses());
    #[cfg(feature = "h_queue")]
    v.extend(h_queue::harnesses());
    #[cfg(feature = "h_contract")]
    v.extend(h_contract::harnesses());
    #[cfg(feature = "h_backing")]
    v.extend(h_backing::harnesses());
    v
}

fn to_json(r: &symx::Report) -> Value {
    let s = &r.stats;
    json!({
        "paths": s.paths, "killed": s.killed, "queries": s.queries, "sat": s.sat, "unsat": s.unsat, "unknown": s.unknown,
        "forks": s.forks, "checks": s.checks, "max_depth": s.max_depth, "solver_s": s.solver_s, "wall_s": s.wall_s,
        "primitive_escapes": s.primitive_escapes, "concretized": s.concretized,
        "covers": r.covers, "fatal": r.fatal, "undecided": r.undecided, "complete": r.complete, "trace": r.trace,
        "violations": r.violations.iter().map(|v| json!({"tag": v.tag, "msg": v.msg, "values": v.values})).collect::<Vec<_>>(),
    })
}
fn emit(r: &symx::Report) {
    println!("{}", to_json(r));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            let v: Vec<Value> = all()
                .iter()
                .map(|h| json!({"name": h.name, "props": h.props, "tier": h.tier, "covers": h.covers, "bounds": h.bounds, "functions": h.functions, "workers": h.workers}))
                .collect();
            println!("{}", Value::Array(v));
        }
        // developer tool: regenerates src/golden_events.json
        #[cfg(feature = "h_data")]
        Some("golden") => println!("[\n{}\n]", h_data::golden().iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",\n")),
        Some(m @ ("run" | "replay")) => {
            common::install_panic_hook();
            let name = a[2].as_str();
            let h = all().into_iter().find(|h| h.name == name).expect("no such harness");
            symx::set_active(opt("--tag").as_deref());
            symx::set_exit_hook(emit);
            let r = if m == "run" {
                if let Some(w) = opt("--worker") {
                    let v: Vec<u64> = w.split('/').map(|x| x.parse().expect("--worker i/n")).collect();
                    symx::set_split(v[0], v[1], opt("--split-depth").and_then(|s| s.parse().ok()).unwrap_or(9));
                }
                let budget = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(600);
                let maxv = opt("--max-violations").and_then(|s| s.parse().ok()).unwrap_or(1);
                symx::explore(h.run, Duration::from_secs(budget), maxv)
            } else {
                let s = std::fs::read_to_string(&a[3]).expect("values file");
                let v: BTreeMap<String, String> = serde_json::from_str(&s).expect("values file");
                symx::replay(h.run, v)
            };
            emit(&r);
        }
        _ => eprintln!("usage: harness list | run NAME | replay NAME VALUES"),
    }
}
