//! Deposits: log scraping, registration and minting.
use crate::common::*;
use crate::minter_main::verif_main_probe as probe;
use crate::world::*;
use evm_minter::deposit::{register_deposit_events, scrape_logs, update_last_observed_block_number};
use evm_minter::deposit_logs::*;
use evm_minter::endpoints::RequestScrapingError;
use evm_minter::eth_types::Address;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::memo::MintMemo;
use evm_minter::numeric::*;
use evm_minter::rpc_declrations::Hash;
use evm_minter::state::InvalidEventReason;
use evm_rpc_types as rpc;
use icrc_ledger_types::icrc1::transfer::{TransferArg, TransferError};
use num_bigint::BigUint;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

const MINT_FUNCS: &str = "register_deposit_events, mint (timer task), calculate_deposit_amount_deducting_fee, process_event, State::{record_event_to_mint,record_successful_mint,record_quarantined_deposit,events_to_mint}, Memo::from(&ReceivedDepositEvent), TimerGuard, scopeguard clean-up";
const SCRAPE_FUNCS: &str = "scrape_logs, update_last_observed_block_number, scrape_until_block, scrape_block_range, BlockRangeInclusive::*, BlockRangeChunks, ReceivedDepositLogScraping::next_scrape, RpcClient::{get_logs,get_block_by_number}, ReceivedDepositLogParser, register_deposit_events, State::{record_event_to_mint,record_invalid_deposit,record_skipped_block}";

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "mint",
            props: &["P01", "P02", "P16"],
            tier: "quick",
            run: || mint(2),
            covers: &["minted", "retried", "quarantined", "fee minted", "fee callback traps", "late deposit", "below the fee"],
            bounds: "a native and an ERC-20 deposit, and a second native deposit arriving at any point of the run; every deposited value and the deposit fee symbolic (256/128 bit); at most two ledger calls fail, each in every way (error, rejection, unusable answer, trap of the callback); retry and a later scraping round",
            functions: MINT_FUNCS,
            workers: 8,
        },
        Harness {
            name: "mint_deep",
            props: &["P01", "P02"],
            tier: "thorough",
            run: || mint(4),
            covers: &["minted", "retried", "quarantined", "fee minted", "fee callback traps", "late deposit", "below the fee"],
            bounds: "as mint, with at most four failing ledger calls",
            functions: MINT_FUNCS,
            workers: 8,
        },
        Harness {
            name: "scrape_wide",
            props: &["P10"],
            tier: "quick",
            run: || scrape(2_500, 2, 1, &[0, 2]),
            covers: &["registered", "invalid recorded", "skipped", "stopped", "complete"],
            bounds: "last scraped block, newest block (at most 2500 above it) and the block of the deposit symbolic 64-bit; none or two registered tokens; native, ERC-20, unsupported-token, malformed and removed logs; at most two oversized answers and one failing log call",
            functions: SCRAPE_FUNCS,
            workers: 8,
        },
        Harness {
            name: "scrape_split",
            props: &["P10"],
            tier: "quick",
            run: || scrape(3, 9, 1, &[0, 1, 2]),
            covers: &["registered", "skipped", "stopped", "complete"],
            bounds: "up to three new blocks at a symbolic height; every log call may be oversized (any pattern), one failing call per run",
            functions: SCRAPE_FUNCS,
            workers: 8,
        },
        Harness {
            name: "scrape_twice",
            props: &["P10"],
            tier: "quick",
            run: || scrape(1_200, 0, 2, &[1]),
            covers: &["registered", "invalid recorded", "stopped", "complete"],
            bounds: "two runs over up to 1200 new blocks each (symbolic heights), one registered token, one failing call per run",
            functions: SCRAPE_FUNCS,
            workers: 8,
        },
        Harness {
            name: "scrape_twice_wide",
            props: &["P10"],
            tier: "thorough",
            run: || scrape(2_500, 2, 2, &[0, 1, 2]),
            covers: &["registered", "invalid recorded", "skipped", "stopped", "complete"],
            bounds: "two runs over up to 2500 new blocks each (symbolic heights), up to two registered tokens, at most two oversized and one failing call per run",
            functions: SCRAPE_FUNCS,
            workers: 8,
        },
        Harness {
            name: "finality",
            props: &["P26"],
            tier: "quick",
            run: finality,
            covers: &["observed", "kept", "too young"],
            bounds: "all ten networks; newest block number symbolic 64-bit; the block call succeeds or fails, any previous observation",
            functions: "update_last_observed_block_number, RpcClient::get_block_by_number, State::block_height",
            workers: 1,
        },
        Harness {
            name: "throttle",
            props: &["P26"],
            tier: "quick",
            run: throttle,
            covers: &["accepted", "refused block", "refused time"],
            bounds: "requested and last observed block numbers symbolic 64-bit; time since the last observation at the boundary values 0, 60 s - 1 ns, 60 s, 60 s + 1 ns, 1 h",
            functions: "request_scraping_logs, validate_log_scraping_request, scrape_logs",
            workers: 1,
        },
        Harness {
            name: "scrape_gives_up",
            props: &["P26", "P16"],
            tier: "quick",
            run: gives_up,
            covers: &["given up", "scraped", "trapped", "too young", "stale observation"],
            bounds: "two runs of the scraping task; every block query fails, answers or (once) lets its callback trap, in every combination; a previous observation or none; block numbers symbolic 64-bit; a network with and one without a safety distance",
            functions: "scrape_logs, update_last_observed_block_number, scrape_until_block, TimerGuard",
            workers: 1,
        },
        Harness {
            name: "deposit_recover",
            props: &["P31"],
            tier: "quick",
            run: || deposit_recover(2, 2),
            covers: &["block query failed", "log query failed", "scraping trapped", "mint failed", "mint unusable", "second run later", "both minted", "one set aside"],
            bounds: "a native deposit and a token deposit in the same or a later block, up to 1200 blocks to scrape; two runs of the scraping task with at most two failures (all block queries of a run, a log query, a mint; each as an error or as a trap of the callback), then one run without; newest blocks symbolic 64-bit",
            functions: "scrape_logs, update_last_observed_block_number, scrape_until_block, scrape_block_range, register_deposit_events, mint (timer task), TimerGuard, scopeguard clean-up",
            workers: 8,
        },
        Harness {
            name: "deposit_recover_deep",
            props: &["P31"],
            tier: "thorough",
            run: || deposit_recover(3, 4),
            covers: &["block query failed", "log query failed", "scraping trapped", "mint failed", "mint unusable", "second run later", "both minted", "one set aside"],
            bounds: "as deposit_recover, with three runs and at most four failures",
            functions: "as deposit_recover",
            workers: 8,
        },
        Harness {
            name: "parse",
            props: &["P09"],
            tier: "quick",
            run: parse,
            covers: &["native", "erc20", "invalid", "pending"],
            bounds: "one log; amount, block number and log index symbolic (256 bit); each of: number of topics 0..5, event signature, padding of the addresses, principal encoding (all lengths 0..31), data length, removed flag, missing fields",
            functions: "ReceivedDepositLogParser::{parse_log,parse_all_logs}, parse_principal_from_slice, Address::try_from, LedgerSubaccount::{from_bytes,to_bytes}",
            workers: 1,
        },
    ]
}

/// Fire one-shot timers armed after `base` whose delay is at most `max`.
pub fn fire(base: usize, max: u64) {
    loop {
        let ts = ic_cdk_timers::sim_timers();
        let Some(k) = (base..ts.len()).find(|k| !ts[*k].1 && ts[*k].0 <= Duration::from_secs(max)) else { return };
        ic_cdk_timers::sim_fire(k);
    }
}

// ------------------------------------------------------------------------------------------------ minting

#[derive(Clone)]
struct Dep {
    ev: ReceivedDepositEvent,
    ledger: candid::Principal,
    sub: Option<[u8; 32]>,
}
fn native_dep(i: u8, v: Wei, sub: Option<[u8; 32]>) -> Dep {
    Dep {
        ev: ReceivedNativeEvent {
            transaction_hash: Hash([i; 32]),
            block_number: BlockNumber::from(900u64 + i as u64),
            log_index: LogIndex::from(40 + i),
            from_address: addr(0x70 + i),
            value: v,
            principal: user(i),
            subaccount: sub.and_then(LedgerSubaccount::from_bytes),
        }
        .into(),
        ledger: native_ledger(),
        sub,
    }
}
#[derive(Default)]
struct Ledger {
    minted: BTreeMap<candid::Principal, Vec<BigUint>>,
    fees: Vec<BigUint>,
    fee_due: u32,
    unusable: BTreeSet<candid::Principal>,
    attempts: BTreeMap<candid::Principal, u32>,
    faults: u32,
    errors_in_run: u32,
    last: Option<candid::Principal>,
    bad: Option<(&'static str, String)>,
    n: u32,
}

fn mint(max_faults: u32) {
    let mut arg = init_arg(EvmNetwork::Sepolia);
    let fee = if flag("deposit_fee") { nat("fee", 128) } else { n(0) };
    arg.deposit_native_fee = fee.clone().into();
    install(arg);
    add_token(1);
    add_token(2);
    let base = ic_cdk_timers::sim_timers().len();
    let v: [BigUint; 3] = [nat("value1", 255), nat("value2", 256), nat("value3", 255)];
    let d1 = native_dep(1, to_amt(&v[0]), Some([9; 32]));
    let d3 = native_dep(3, to_amt(&v[2]), None);
    let d2 = Dep {
        ev: ReceivedErc20Event {
            transaction_hash: Hash([2; 32]),
            block_number: BlockNumber::from(902u64),
            log_index: LogIndex::from(42u8),
            from_address: addr(0x72),
            value: to_amt(&v[1]),
            principal: user(2),
            erc20_contract_address: token_addr(2),
            subaccount: None,
        }
        .into(),
        ledger: erc20_ledger(2),
        sub: None,
    };
    let deps = vec![d1, d2, d3];
    let l = shared(Ledger::default());
    let (l2, deps2, fee2, v2) = (l.clone(), deps.clone(), fee.clone(), v.clone());
    handle(move |c| {
        if c.method != "icrc1_transfer" {
            return None;
        }
        let (a,): (TransferArg,) = args(c);
        let mut l = l2.borrow_mut();
        let ok = |b: u64| reply((Ok::<candid::Nat, TransferError>(b.into()),));
        if a.from_subaccount.is_some() || a.fee.is_some() {
            l.bad = Some(("P02", "a mint is not made from the minting account".into()));
        }
        let is_fee = a.to.owner == self_account();
        l.n += 1;
        let can_fail = l.faults < max_faults;
        // 0 fine, 1 error, 2 rejected, 3 done but the callback traps, 4 done but the answer cannot be used
        let out = if can_fail { choose(&format!("ledger_{}", l.n), if is_fee { 4 } else { 5 }) } else { 0 };
        if out > 0 {
            l.faults += 1;
        }
        if is_fee {
            if a.to.subaccount != Some(evm_minter::FEES_SUBACCOUNT) {
                l.bad = Some(("P02", "the deposit fee goes to the wrong account".into()));
            } else if c.callee != native_ledger() {
                l.bad = Some(("P02", "the deposit fee is minted on the wrong ledger".into()));
            } else if a.amount.0 != fee2 {
                l.bad = Some(("P02", "the deposit fee minted is not the configured one".into()));
            } else if l.fee_due == 0 {
                l.bad = Some(("P02", "a deposit fee is minted without a deposit".into()));
            }
            l.fee_due = l.fee_due.saturating_sub(1);
            return Some(match out {
                0 | 3 => {
                    cover("fee minted");
                    l.fees.push(a.amount.0.clone());
                    if out == 3 {
                        cover("fee callback traps");
                        // the deposit whose fee this is
                        let who = l.last.unwrap();
                        l.unusable.insert(who);
                        sim::callback_traps()
                    } else {
                        ok(600)
                    }
                }
                1 => reply((Err::<candid::Nat, TransferError>(TransferError::TemporarilyUnavailable),)),
                _ => rejected(),
            });
        }
        let Some(k) = deps2.iter().position(|d| d.ev.principal() == a.to.owner) else {
            l.bad = Some(("P02", "tokens are minted for someone who deposited nothing".into()));
            return Some(rejected());
        };
        let d = &deps2[k];
        *l.attempts.entry(a.to.owner).or_default() += 1;
        let native = d.ledger == native_ledger();
        let want = if native { &v2[k] - &fee2 } else { v2[k].clone() };
        if c.callee != d.ledger {
            l.bad = Some(("P02", "tokens are minted on the wrong ledger".into()));
        } else if a.to.subaccount != d.sub {
            l.bad = Some(("P02", "tokens are minted into the wrong subaccount".into()));
        } else if a.amount.0 != want {
            l.bad = Some(("P02", "the minted amount is not the deposited value less the fee".into()));
        } else if symx::active("P02") {
            let m = a.memo.as_ref().and_then(|m| minicbor::decode::<MintMemo>(&m.0).ok());
            if m != Some(MintMemo::Convert { from_address: d.ev.from_address(), tx_hash: d.ev.transaction_hash(), log_index: d.ev.log_index() }) {
                l.bad = Some(("P02", "the memo of a mint does not name the deposit".into()));
            }
        }
        Some(match out {
            0 | 3 | 4 => {
                l.last = Some(a.to.owner);
                l.minted.entry(a.to.owner).or_default().push(a.amount.0.clone());
                if native && out == 0 && fee2 > n(0) {
                    l.fee_due += 1;
                }
                if out == 3 {
                    l.unusable.insert(a.to.owner);
                    sim::callback_traps()
                } else if out == 4 {
                    l.unusable.insert(a.to.owner);
                    reply((Ok::<candid::Nat, TransferError>(candid::Nat(BigUint::from(1u8) << 70u32)),))
                } else {
                    ok(700 + k as u64)
                }
            }
            1 => {
                l.errors_in_run += 1;
                reply((Err::<candid::Nat, TransferError>(TransferError::TemporarilyUnavailable),))
            }
            _ => {
                l.errors_in_run += 1;
                rejected()
            }
        })
    });
    let below = |k: usize| -> bool { deps[k].ledger == native_ledger() && v[k] < fee };
    let register = |d: &[Dep]| {
        let e: Vec<_> = d.iter().map(|d| d.ev.clone()).collect();
        sim::message(|| register_deposit_events(e, vec![])).is_ok()
    };
    let registered = register(&deps[..2]);
    verify!("P01", registered, "registering new deposits trapped");
    fire(base, 0);
    // the third deposit is seen before the k-th ledger answer of the first run, or afterwards
    let late = choose("late_deposit_before_answer", 4);
    let mut known = 2;
    let mut steps = 0;
    let quiesce = |known: &mut usize, steps: &mut usize| {
        while !sim::pending().is_empty() {
            if *steps == late && *known == 2 {
                cover("late deposit");
                let registered = register(&deps[2..]);
    verify!("P01", registered, "registering a new deposit trapped");
                *known = 3;
                fire(base, 0);
            }
            *steps += 1;
            let np = sim::pending().len();
            let k = if np > 1 { choose(&format!("next_answer_{steps}"), np) } else { 0 };
            sim::step(k);
        }
    };
    quiesce(&mut known, &mut steps);
    check_mint(&deps[..known], &l.borrow(), &v, &fee, false);
    if known == 2 {
        let registered = register(&deps[2..]);
    verify!("P01", registered, "registering a new deposit trapped");
        known = 3;
    }
    // a failed mint is retried without anyone asking
    if l.borrow().errors_in_run > 0 && l.borrow().unusable.is_empty() && !below(0) {
        let armed = ic_cdk_timers::sim_timers().iter().skip(base).any(|t| !t.1 && t.0 <= Duration::from_secs(3 * 60));
        verify!("P01", armed, "a failed mint is not scheduled again");
    }
    fire(base, 3 * 60);
    quiesce(&mut known, &mut steps);
    check_mint(&deps, &l.borrow(), &v, &fee, false);
    fire(base, 3 * 60);
    quiesce(&mut known, &mut steps);
    // the same log reported once more must not be minted again
    if flag("reported_again") {
        let k = choose("reported_again_which", 3);
        register(&deps[k..k + 1]);
        fire(base, 3 * 60);
        quiesce(&mut known, &mut steps);
        check_mint(&deps, &l.borrow(), &v, &fee, false);
    }
    // two further scraping rounds with a ledger that works: nothing stays behind
    l.borrow_mut().faults = 99;
    for _ in 0..2 {
        register(&[]);
        fire(base, 3 * 60);
        quiesce(&mut known, &mut steps);
    }
    check_mint(&deps, &l.borrow(), &v, &fee, true);
    verify!("P16", read_state(|s| s.active_tasks.is_empty()), "a task guard is still held after the task ended");
    done();
}
fn check_mint(deps: &[Dep], l: &Ledger, v: &[BigUint; 3], fee: &BigUint, last: bool) {
    if let Some((t, m)) = &l.bad {
        verify!(*t, false, m);
    }
    let s = state();
    let mut total = n(0);
    for (k, d) in deps.iter().enumerate() {
        let src = d.ev.source();
        let who = d.ev.principal();
        let minted = l.minted.get(&who).map_or(0, |x| x.len());
        verify!("P01", minted <= 1, "a deposit was minted twice");
        let (a, b, c) = (s.events_to_mint.contains_key(&src), s.minted_events.contains_key(&src), s.invalid_events.contains_key(&src));
        verify!("P01", a as u8 + b as u8 + c as u8 == 1, "a deposit is not exactly one of: waiting, minted, set aside");
        if b {
            cover("minted");
            let m = &s.minted_events[&src];
            verify!("P01", minted == 1, "a deposit is recorded as minted but was not");
            verify!("P01", m.mint_block_index.get() == 700 + k as u64 && m.deposit_event == d.ev, "the record of a mint is wrong");
        }
        if a {
            verify!("P01", minted == 0, "a minted deposit is still waiting to be minted");
            if l.attempts.get(&who).copied().unwrap_or(0) > 0 {
                cover("retried");
            }
        }
        if c {
            let below = d.ledger == native_ledger() && v[k] < *fee;
            if below {
                cover("below the fee");
            } else {
                cover("quarantined");
            }
            verify!("P01", below || l.unusable.contains(&who), "a good deposit was set aside");
            verify!("P01", s.invalid_events[&src] == InvalidEventReason::QuarantinedDeposit, "a deposit was set aside for the wrong reason");
        }
        if last {
            verify!("P01", !a, "a deposit stays unminted although the ledger works");
        }
        // what was minted for this deposit never exceeds it
        if symx::active("P02") {
            let sum = l.minted.get(&who).into_iter().flatten().fold(n(0), |x, y| x + y);
            verify!("P02", sum <= v[k], "more was minted for a deposit than was deposited");
            if d.ledger == native_ledger() {
                total += sum;
            }
        }
    }
    if symx::active("P02") {
        let fees = l.fees.iter().fold(n(0), |x, y| x + y);
        verify!("P02", total + fees <= &v[0] + &v[2], "more native tokens were minted than coins deposited");
        if last {
            verify!("P02", l.fee_due == 0, "the fee of a minted deposit was not collected");
        }
    }
}

// ------------------------------------------------------------------------------------------------ scraping

const TOPIC: [u8; 32] = hex32("deaddf8708b62ae1bf8ec4693b523254aa961b2da6bc5be57f3188ee784d6275");
const fn hex32(s: &str) -> [u8; 32] {
    let b = s.as_bytes();
    let mut o = [0u8; 32];
    let mut i = 0;
    while i < 32 {
        let h = b[2 * i];
        let l = b[2 * i + 1];
        o[i] = (if h >= b'a' { h - b'a' + 10 } else { h - b'0' }) << 4 | (if l >= b'a' { l - b'a' + 10 } else { l - b'0' });
        i += 1;
    }
    o
}
fn word(a: Address) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[12..].copy_from_slice(a.as_ref());
    o
}
fn principal_word(p: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[0] = p.len() as u8;
    o[1..=p.len()].copy_from_slice(p);
    o
}
fn log_entry(token: Address, value: &BigUint, who: &[u8], block: &BigUint, index: u64) -> rpc::LogEntry {
    let v: Wei = to_amt(value);
    let mut data = word(addr(0x70)).to_vec();
    data.extend([0u8; 32]);
    rpc::LogEntry {
        address: rpc::Hex20::from(<[u8; 20]>::try_from(helper().as_ref()).unwrap()),
        topics: vec![rpc::Hex32::from(TOPIC), rpc::Hex32::from(word(token)), rpc::Hex32::from(v.to_be_bytes()), rpc::Hex32::from(principal_word(who))],
        data: rpc::Hex::from(data),
        block_number: Some(nat256(block)),
        transaction_hash: Some(rpc::Hex32::from([0x51; 32])),
        transaction_index: Some(rpc::Nat256::from(1u8)),
        block_hash: Some(rpc::Hex32::from([0x52; 32])),
        log_index: Some(rpc::Nat256::from(index)),
        removed: false,
    }
}
fn un256(x: &rpc::Nat256) -> BigUint {
    BigUint::from_bytes_be(&x.clone().into_be_bytes())
}
fn number(t: &Option<rpc::BlockTag>) -> Option<BigUint> {
    match t {
        Some(rpc::BlockTag::Number(x)) => Some(un256(x)),
        _ => None,
    }
}
/// Does a node return this log for this filter (block range aside)?
fn admitted(f: &rpc::GetLogsArgs, log: &rpc::LogEntry) -> bool {
    let addr_ok = f.addresses.is_empty() || f.addresses.iter().any(|a| *a == log.address);
    let topics = f.topics.clone().unwrap_or_default();
    addr_ok
        && topics.len() <= log.topics.len()
        && topics.iter().zip(&log.topics).all(|(any, t)| any.is_empty() || any.iter().any(|x| x == t))
}

fn scrape(max_new: u64, max_large: u32, runs: usize, registered: &[u8]) {
    let mut arg = init_arg(EvmNetwork::Sepolia);
    let last = nat("last_scraped", 64);
    arg.last_scraped_block_number = last.clone().into();
    install(arg);
    let tokens = registered[choose("registered_tokens", registered.len())];
    for k in 1..=tokens {
        add_token(k);
    }
    // 0 native, 1.. registered tokens, then: unsupported token, malformed principal, removed
    let kind = choose("log_kind", tokens as usize + 4);
    let d = nat("deposit_block", 64);
    let unsupported = kind == tokens as usize + 1;
    let malformed = kind == tokens as usize + 2;
    let removed = kind == tokens as usize + 3;
    let tok = if kind == 0 || malformed || removed { Address::ZERO } else if unsupported { token_addr(9) } else { token_addr(kind as u8) };
    let mut log = log_entry(tok, &n(5_000), &if malformed { vec![4] } else { user(5).as_slice().to_vec() }, &d, 3);
    log.removed = removed;
    let src = EventSource { transaction_hash: Hash([0x51; 32]), log_index: LogIndex::from(3u8) };
    #[derive(Default)]
    struct P {
        large: u32,
        failed: u32,
        n: u32,
        bad: Option<&'static str>,
        newest: BigUint,
        single_large: bool,
    }
    let p = shared(P::default());
    let (p2, log2, d2) = (p.clone(), log.clone(), d.clone());
    handle(move |c| {
        if c.method != "eth_getLogs" {
            return None;
        }
        let (_, _, f): (rpc::RpcServices, Option<rpc::RpcConfig>, rpc::GetLogsArgs) = args(c);
        let mut p = p2.borrow_mut();
        p.n += 1;
        let (Some(from), Some(to)) = (number(&f.from_block), number(&f.to_block)) else {
            p.bad = Some("logs are requested without a definite block range");
            return Some(rejected());
        };
        if from > to {
            p.bad = Some("logs are requested for an empty range");
        } else if to > p.newest {
            p.bad = Some("logs are requested for blocks that are not final yet");
        } else if &to - &from >= n(1000) {
            p.bad = Some("logs are requested for more blocks than the RPC canister allows");
        }
        let mut opts = vec![0];
        if p.large < max_large {
            opts.push(1);
        }
        if p.failed < 1 {
            opts.push(2);
        }
        let out = opts[choose(&format!("logs_{}", p.n), opts.len())];
        Some(match out {
            0 => consistent(if admitted(&f, &log2) && d2 >= from && d2 <= to { vec![log2.clone()] } else { vec![] }),
            1 => {
                p.large += 1;
                rpc_error::<Vec<rpc::LogEntry>>(http_err(true))
            }
            _ => {
                p.failed += 1;
                rpc_error::<Vec<rpc::LogEntry>>(http_err(false))
            }
        })
    });
    let mut prev = last.clone();
    for run in 0..runs {
        // the newest block may also lie below what was scraped (a lagging provider)
        let newest = nat(&format!("newest{run}"), 64);
        assume_le(&newest, &(&prev + n(max_new)));
        p.borrow_mut().newest = newest.clone();
        p.borrow_mut().failed = 0;
        p.borrow_mut().large = 0;
        env(|e| e.latest_block = newest.clone());
        let ok = sim::block_on(scrape_logs()).is_some();
        if let Some(b) = p.borrow().bad {
            verify!("P10", false, b);
        }
        verify!("P10", ok, "scraping the logs trapped");
        let s = state();
        let now = big(s.last_scraped_block_number);
        verify!("P10", now >= prev, "the scraping position moved backwards");
        verify!("P10", now == prev || now <= newest, "the scraping position is beyond the final blocks");
        let in_mint = s.events_to_mint.contains_key(&src);
        let in_invalid = s.invalid_events.contains_key(&src);
        let skipped = s.skipped_blocks.iter().any(|b| big(*b) == d);
        let passed = d > last && d <= now;
        if passed {
            if unsupported {
                verify!("P10", !in_mint, "a deposit of an unsupported token was accepted");
            } else if malformed || removed {
                if in_invalid {
                    cover("invalid recorded");
                }
                verify!("P10", in_invalid || skipped, "a malformed deposit was passed without a record");
                verify!("P10", !in_mint, "a malformed deposit was accepted");
            } else {
                if in_mint {
                    cover("registered");
                }
                verify!("P10", in_mint != skipped, "a deposit was passed without being registered");
            }
        } else {
            verify!("P10", !in_mint && !in_invalid, "a deposit outside the scraped blocks was registered");
        }
        if skipped {
            cover("skipped");
            verify!("P10", passed && p.borrow().large > 0 || run > 0, "a block was skipped although its logs could be fetched");
        }
        if p.borrow().failed == 0 {
            cover("complete");
            verify!("P10", now == max_of(prev.clone(), newest), "the scraping position did not reach the newest final block");
        } else {
            cover("stopped");
        }
        prev = now;
    }
    done();
}

// ------------------------------------------------------------------------------------------------ finality

fn finality() {
    let (net, off) = [
        (EvmNetwork::Ethereum, 0u64),
        (EvmNetwork::Sepolia, 0),
        (EvmNetwork::ArbitrumOne, 12),
        (EvmNetwork::BSC, 20),
        (EvmNetwork::BSCTestnet, 0),
        (EvmNetwork::Polygon, 0),
        (EvmNetwork::Optimism, 12),
        (EvmNetwork::Base, 12),
        (EvmNetwork::Avalanche, 12),
        (EvmNetwork::Fantom, 12),
    ][choose("network", 10)];
    let mut arg = init_arg(net);
    let tag = choose("height", 3);
    use evm_minter::endpoints::CandidBlockTag as T;
    arg.block_height = [T::Latest, T::Safe, T::Finalized][tag].clone();
    install(arg);
    let newest = nat("newest", 64);
    let before = if flag("observed_before") {
        let b: BlockNumber = amt("before", 64);
        mutate_state(|s| s.last_observed_block_number = Some(b));
        Some(b)
    } else {
        None
    };
    let fails = flag("rpc_fails");
    let nb = newest.clone();
    let bad = shared(false);
    let b2 = bad.clone();
    handle(move |c| {
        if c.method != "eth_getBlockByNumber" {
            return None;
        }
        let (_, _, t): (rpc::RpcServices, Option<rpc::RpcConfig>, rpc::BlockTag) = args(c);
        if t != [rpc::BlockTag::Latest, rpc::BlockTag::Safe, rpc::BlockTag::Finalized][tag] {
            *b2.borrow_mut() = true;
        }
        Some(if fails { rpc_error::<rpc::Block>(http_err(false)) } else { consistent(block(&nb)) })
    });
    let r = sim::block_on(update_last_observed_block_number());
    verify!("P26", r.is_some(), "observing the newest block trapped");
    let r = r.unwrap();
    verify!("P26", !*bad.borrow(), "another block height than the configured one was asked for");
    let stored = read_state(|s| s.last_observed_block_number);
    if fails {
        cover("kept");
        verify!("P26", r == before && stored == before, "a failed observation changed the observed block");
    } else if newest < n(off) {
        cover("too young");
        verify!("P26", r.is_none(), "a block is taken as final before the safety distance");
    } else {
        cover("observed");
        verify!("P26", r.map(big) == Some(&newest - n(off)), "the observed block is not the newest one minus the safety distance of the network");
        verify!("P26", stored == r, "the observed block is not stored");
    }
    done();
}

/// A scraping run whose block queries fail ends, leaves nothing behind and scrapes nothing it should not.
fn gives_up() {
    const MANY: u32 = 30;
    let (net, off) = [(EvmNetwork::Sepolia, 0u64), (EvmNetwork::BSC, 20)][choose("network", 2)];
    let mut arg = init_arg(net);
    let last = nat("last_scraped", 64);
    arg.last_scraped_block_number = last.clone().into();
    install(arg);
    let before = if flag("observed_before") {
        let b: BlockNumber = amt("before", 64);
        // an observation is never behind the blocks already scraped from it
        assume_le(&last, &big(b));
        mutate_state(|s| s.last_observed_block_number = Some(b));
        Some(big(b))
    } else {
        None
    };
    let newest = nat("newest", 64);
    // newest usable block known so far, number of queries of this run, logs asked for
    let known = shared(before.clone());
    let queries = shared(0u32);
    let asked = shared(0u32);
    let works = shared(false);
    let trapped = shared(false);
    let young = newest < n(off);
    {
        let (known, queries, asked, works, trapped, newest) = (known.clone(), queries.clone(), asked.clone(), works.clone(), trapped.clone(), newest.clone());
        handle(move |c| match c.method.as_str() {
            "eth_getBlockByNumber" => {
                *queries.borrow_mut() += 1;
                let w = *works.borrow() || *queries.borrow() > MANY;
                let kind = if w { 0 } else { choose("answer", if *trapped.borrow() { 2 } else { 3 }) };
                Some(match kind {
                    0 => {
                        *known.borrow_mut() = if young { None } else { Some(&newest - n(off)) };
                        consistent(block(&newest))
                    }
                    1 => rpc_error::<rpc::Block>(http_err(false)),
                    _ => {
                        *trapped.borrow_mut() = true;
                        sim::callback_traps()
                    }
                })
            }
            "eth_getLogs" => {
                *asked.borrow_mut() += 1;
                Some(consistent(Vec::<rpc::LogEntry>::new()))
            }
            _ => None,
        });
    }
    // few blocks to scrape: what is scraped is the subject of other harnesses
    assume_le(&newest, &(&last + n(40)));
    if let Some(b) = &before {
        assume_le(b, &(&last + n(40)));
    }
    let mut prev = last;
    for run in 0..2 {
        *queries.borrow_mut() = 0;
        *asked.borrow_mut() = 0;
        *trapped.borrow_mut() = false;
        *works.borrow_mut() = run == 1;
        let ended = sim::block_on(scrape_logs()).is_some();
        let traps = *trapped.borrow();
        verify!("P16", ended || traps, "a scraping run trapped although no answer was lost");
        verify!("P16", read_state(|s| s.active_tasks.is_empty()), "the scraping guard is still held after the run ended");
        verify!("P26", *queries.borrow() <= MANY, "the newest block is asked for without end");
        let now = read_state(|s| big(s.last_scraped_block_number));
        let k = known.borrow().clone();
        if traps {
            cover("trapped");
            verify!("P26", now == prev && *asked.borrow() == 0, "a run that trapped scraped blocks");
        } else {
            match k {
                None => {
                    cover(if young && run == 1 { "too young" } else { "given up" });
                    verify!("P26", now == prev && *asked.borrow() == 0, "blocks were scraped although the newest final block is not known");
                }
                Some(k) => {
                    cover(if Some(&k) == before.as_ref() && run == 0 { "stale observation" } else { "scraped" });
                    verify!("P26", now == max_of(prev.clone(), k), "the scraping position is not the newest final block known");
                }
            }
        }
        prev = now;
    }
    done();
}

/// Failures while scraping and minting only delay deposits.
fn deposit_recover(runs: usize, max_faults: u32) {
    let mut arg = init_arg(EvmNetwork::Sepolia);
    let last = nat("last_scraped", 64);
    arg.last_scraped_block_number = last.clone().into();
    install(arg);
    add_token(1);
    let base = ic_cdk_timers::sim_timers().len();
    let ds = [nat("native_block", 64), nat("token_block", 64)];
    let mut logs = vec![
        log_entry(Address::ZERO, &n(5_000), user(1).as_slice(), &ds[0], 3),
        log_entry(token_addr(1), &n(7_000), user(2).as_slice(), &ds[1], 4),
    ];
    // of the same transaction or not: only the position tells them apart
    logs[1].transaction_index = Some(rpc::Nat256::from(2u8));
    #[derive(Default)]
    struct P {
        faults: u32,
        n: u32,
        down: bool,
        minted: [u32; 2],
        unusable: [bool; 2],
        trapped: bool,
        newest: BigUint,
        clean: bool,
        bad: Option<&'static str>,
    }
    let p = shared(P::default());
    let (p2, logs2, ds2) = (p.clone(), logs.clone(), ds.clone());
    handle(move |c| {
        let mut p = p2.borrow_mut();
        p.n += 1;
        let can = !p.clean && p.faults < max_faults;
        let k = p.n;
        let mut fault = |p: &mut P, kinds: usize| {
            let f = if can { choose(&format!("fault_{k}"), kinds) } else { 0 };
            if f > 0 {
                p.faults += 1;
            }
            f
        };
        match c.method.as_str() {
            "eth_getBlockByNumber" => {
                let f = if p.down { 1 } else { fault(&mut p, 3) };
                Some(match f {
                    0 => consistent(block(&p.newest)),
                    1 => {
                        cover("block query failed");
                        // the providers stay down for the rest of the run
                        p.down = true;
                        rpc_error::<rpc::Block>(http_err(false))
                    }
                    _ => {
                        p.trapped = true;
                        sim::callback_traps()
                    }
                })
            }
            "eth_getLogs" => {
                let (_, _, q): (rpc::RpcServices, Option<rpc::RpcConfig>, rpc::GetLogsArgs) = args(c);
                let f = fault(&mut p, 3);
                Some(match f {
                    0 => {
                        let (Some(from), Some(to)) = (number(&q.from_block), number(&q.to_block)) else { return Some(rejected()) };
                        let found = (0..2).filter(|i| admitted(&q, &logs2[*i]) && ds2[*i] >= from && ds2[*i] <= to).map(|i| logs2[i].clone()).collect::<Vec<_>>();
                        consistent(found)
                    }
                    1 => {
                        cover("log query failed");
                        rpc_error::<Vec<rpc::LogEntry>>(http_err(false))
                    }
                    _ => {
                        p.trapped = true;
                        sim::callback_traps()
                    }
                })
            }
            "icrc1_transfer" => {
                let (a,): (TransferArg,) = args(c);
                let Some(i) = [user(1), user(2)].iter().position(|u| *u == a.to.owner) else {
                    p.bad = Some("tokens are minted for someone who deposited nothing");
                    return Some(rejected());
                };
                let f = fault(&mut p, 3);
                Some(match f {
                    1 => {
                        cover("mint failed");
                        reply((Err::<candid::Nat, TransferError>(TransferError::TemporarilyUnavailable),))
                    }
                    0 => {
                        p.minted[i] += 1;
                        reply((Ok::<candid::Nat, TransferError>((700 + i as u64).into()),))
                    }
                    _ => {
                        cover("mint unusable");
                        p.minted[i] += 1;
                        p.unusable[i] = true;
                        sim::callback_traps()
                    }
                })
            }
            _ => None,
        }
    });
    symx::assume(ds[0] > last);
    assume_le(&ds[0], &ds[1]);
    let mut newest = last.clone();
    for run in 0..=runs {
        // there are new blocks in every run
        let next = nat(&format!("newest{run}"), 64);
        symx::assume(next > newest);
        assume_le(&next, &(&newest + n(if run == 0 { 1200 } else { 40 })));
        newest = next;
        if run == runs {
            assume_le(&ds[1], &newest);
        }
        {
            let mut p = p.borrow_mut();
            p.newest = newest.clone();
            p.down = false;
            p.trapped = false;
            p.clean = run == runs;
        }
        if run > 0 {
            cover("second run later");
        }
        let ended = sim::block_on(scrape_logs()).is_some();
        let trapped = p.borrow().trapped;
        if trapped {
            cover("scraping trapped");
        }
        verify!("P31", ended || trapped, "the scraping run trapped although no answer was lost");
        fire(base, 3 * 60);
        sim::run_until_idle(|_| 0);
        fire(base, 3 * 60);
        sim::run_until_idle(|_| 0);
    }
    let p = p.borrow();
    if let Some(b) = p.bad {
        verify!("P31", false, b);
    }
    let s = state();
    verify!("P31", big(s.last_scraped_block_number) == newest, "the scraping position stays behind although everything works again");
    for i in 0..2 {
        verify!("P31", p.minted[i] == 1, if p.minted[i] == 0 { "a deposit is not minted although everything works again" } else { "a deposit is minted more than once" });
    }
    verify!("P31", s.events_to_mint.is_empty(), "a deposit still waits although everything works again");
    let bad = p.unusable.iter().filter(|x| **x).count();
    if bad == 1 {
        cover("one set aside");
    }
    if bad == 0 {
        cover("both minted");
    }
    verify!("P31", s.invalid_events.len() == bad && s.minted_events.len() == 2 - bad, "a deposit is set aside although the outcome of its mint is known");
    verify!("P31", s.skipped_blocks.is_empty(), "a block was skipped although its logs can be fetched");
    verify!("P31", s.active_tasks.is_empty(), "a task is still locked");
    done();
}

fn throttle() {
    install(init_arg(EvmNetwork::Sepolia));
    let base = ic_cdk_timers::sim_timers().len();
    let t0 = 1_700_000_000_000_000_000u64;
    let delta = [0u64, 59_999_999_999, 60_000_000_000, 60_000_000_001, 3_600_000_000_000][choose("elapsed", 5)];
    let seen: BlockNumber = amt("observed", 64);
    // the minter looked at the chain at t0
    sim::set_time(t0);
    let sb = big(seen);
    handle(move |c| (c.method == "eth_getBlockByNumber").then(|| consistent(block(&sb))));
    // nothing new to scrape: only the observation matters here
    mutate_state(|s| s.last_scraped_block_number = seen);
    let ended = sim::block_on(scrape_logs()).is_some();
    verify!("P26", ended, "scraping the logs trapped");
    sim::set_time(t0 + delta);
    let asked = nat("asked", 64);
    let r = sim::block_on(probe::call_request_scraping_logs(asked.clone().into()));
    let armed = ic_cdk_timers::sim_timers().len() - base;
    let Some(r) = r else {
        verify!("P26", false, "a request to scrape trapped");
        return;
    };
    let too_soon = delta < 60_000_000_000;
    match r {
        Ok(()) => {
            cover("accepted");
            verify!("P26", !too_soon, "a scraping request was accepted within a minute of the last one");
            verify!("P26", asked > big(seen), "a scraping request for an observed block was accepted");
            verify!("P26", armed == 1, "an accepted scraping request does not start scraping");
            // the scraping it starts opens a new minute
            fire(base, 0);
            sim::run_until_idle(|_| 0);
            let again = sim::block_on(probe::call_request_scraping_logs((asked + n(1)).into()));
            verify!("P26", !matches!(again, Some(Ok(()))), "two scraping requests were accepted within a minute");
        }
        Err(RequestScrapingError::BlockAlreadyObserved) => {
            cover("refused block");
            verify!("P26", asked <= big(seen) && armed == 0, "a scraping request was refused as already observed, but is not");
        }
        Err(RequestScrapingError::CalledTooManyTimes) => {
            cover("refused time");
            verify!("P26", too_soon && armed == 0, "a scraping request was refused as too early, but is not");
        }
        Err(_) => verify!("P26", false, "a valid block number was refused"),
    }
    done();
}

// ------------------------------------------------------------------------------------------------ parsing

fn parse() {
    use evm_minter::deposit_logs::{LogParser, ReceivedDepositLogParser};
    use evm_minter::rpc_declrations::{Data, FixedSizeData, LogEntry};
    let value = nat("value", 256);
    let block = nat("block", 256);
    let index: LogIndex = amt("log_index", 256);
    let v: Wei = to_amt(&value);
    // what is wrong with the log
    let defect = choose("variation", 11);
    let native = flag("native");
    let token = if native { Address::ZERO } else { token_addr(1) };
    let plen = if defect == 1 { choose("principal_length", 32) } else { 10 };
    let mut pw = [0u8; 32];
    pw[0] = plen as u8;
    for i in 0..plen.min(31) {
        pw[1 + i] = 0x30 + i as u8;
    }
    let mut principal_ok = (1..=29).contains(&plen);
    let mut expect = pw[1..1 + plen.min(29)].to_vec();
    if defect == 2 {
        // padding of the principal must be zero, at every position
        let at = 11 + choose("padding_at", 21);
        pw[at] = 1;
        principal_ok = false;
    }
    if defect == 3 {
        match choose("special_principal", 3) {
            0 => {
                pw = principal_word(&[4]);
                principal_ok = false;
            }
            1 => {
                pw = [0; 32];
                principal_ok = false;
            }
            _ => {
                pw = [0xff; 32];
                principal_ok = false;
            }
        }
    }
    let mut t1 = word(token);
    let mut from = word(addr(0x70));
    let mut good = principal_ok;
    if defect == 4 {
        t1[choose("address_padding_at", 12)] = 1;
        good = false;
    }
    if defect == 5 {
        from[choose("from_padding_at", 12)] = 0x80;
        good = false;
    }
    let mut topics = vec![FixedSizeData(TOPIC), FixedSizeData(t1), FixedSizeData(v.to_be_bytes()), FixedSizeData(pw)];
    if defect == 6 {
        let k = choose("topics", 6);
        good &= k == 4;
        topics.truncate(k);
        if k == 5 {
            topics.push(FixedSizeData([0; 32]));
        }
    }
    if defect == 7 {
        let mut t = TOPIC;
        t[choose("signature_byte", 32)] ^= 1;
        topics[0] = FixedSizeData(t);
        good = false;
    }
    let sub = [[0u8; 32], [7u8; 32], { let mut s = [0u8; 32]; s[31] = 1; s }, { let mut s = [0u8; 32]; s[0] = 1; s }][if defect == 0 { choose("subaccount", 4) } else { 1 }];
    let mut data = from.to_vec();
    data.extend(sub);
    if defect == 8 {
        let k = [0usize, 31, 32, 63, 65, 96, 128][choose("data_length", 7)];
        data.resize(k, 0);
        good = false;
    }
    let missing = if defect == 9 { choose("missing", 5) } else { 99 };
    let removed = defect == 10;
    let entry = LogEntry {
        address: helper(),
        topics,
        data: Data(data),
        block_number: (missing != 0).then(|| to_amt(&block)),
        transaction_hash: (missing != 1).then_some(Hash([0x51; 32])),
        transaction_index: (missing != 2).then(|| 1u8.into()),
        block_hash: (missing != 3).then_some(Hash([0x52; 32])),
        log_index: (missing != 4).then_some(index),
        removed,
    };
    let copy = entry.clone();
    let Ok((ok, errs)) = sim::message(move || ReceivedDepositLogParser::parse_all_logs(vec![entry])) else {
        verify!("P09", false, "parsing a log trapped");
        return;
    };
    verify!("P09", ok.len() + errs.len() == 1, "a log is neither accepted nor refused");
    if missing != 99 {
        cover("pending");
        verify!("P09", matches!(errs.as_slice(), [ReceivedDepsitEventError::PendingLogEntry]), "a pending log was not ignored");
        return;
    }
    if removed || !good {
        cover("invalid");
        match errs.as_slice() {
            [ReceivedDepsitEventError::InvalidEventSource { source, .. }] => {
                verify!("P09", source.transaction_hash == Hash([0x51; 32]) && source.log_index == index, "an invalid log is recorded under another source");
            }
            _ => verify!("P09", false, "an invalid log was accepted or ignored"),
        }
        return;
    }
    let [e] = ok.as_slice() else {
        verify!("P09", false, "a valid deposit was refused");
        return;
    };
    verify!("P09", e.source() == EventSource { transaction_hash: Hash([0x51; 32]), log_index: index }, "wrong source");
    verify!("P09", big(e.block_number()) == block, "wrong block number");
    verify!("P09", e.from_address() == addr(0x70), "wrong sender");
    verify!("P09", e.principal().as_slice() == expect.as_slice(), "wrong beneficiary");
    verify!("P09", e.value().0 == value, "wrong amount");
    verify!("P09", e.subaccount() == if sub == [0u8; 32] { None } else { Some(sub) }, "wrong subaccount");
    match e {
        ReceivedDepositEvent::Native(_) => {
            cover("native");
            verify!("P09", native, "a token deposit was taken for a native one");
        }
        ReceivedDepositEvent::Erc20(x) => {
            cover("erc20");
            verify!("P09", !native && x.erc20_contract_address == token, "wrong token");
        }
    }
    // a defective neighbour changes nothing
    if flag("with_neighbour") {
        let mut bad = copy.clone();
        bad.topics.clear();
        let (ok2, errs2) = ReceivedDepositLogParser::parse_all_logs(vec![bad, copy]);
        verify!("P09", ok2 == ok && errs2.len() == 1, "a malformed log affects another deposit");
    }
}
