//! The queue of waiting withdrawals: order, batches, limits and follow-up runs (P29).
use crate::common::*;
use crate::h_tx::*;
use crate::world::*;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::numeric::*;
use evm_minter::state::audit::EventType;
use evm_minter::state::transactions::*;
use evm_minter::tx::GasFeeEstimate;
use evm_minter::withdraw::{estimate_gas_limit, process_retrieve_tokens_requests};
use evm_rpc_types as rpc;
use num_bigint::BigUint;
use std::collections::BTreeMap;
use std::time::Duration;

const FUNCS: &str = "process_retrieve_tokens_requests, create_transactions_batch, sign_transactions_batch, send_transactions_batch, WithdrawalTransactions::{withdrawal_requests_batch,reschedule_withdrawal_request,transactions_to_sign_batch,transactions_to_send_batch,has_pending_requests,create_resubmit_transactions}, create_transaction";

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "queue",
            props: &["P29"],
            tier: "quick",
            run: || queue(2, 2),
            covers: &["all payable", "moved to the end", "second batch", "more than five to send", "replaced"],
            bounds: "seven waiting withdrawals (native and ERC-20), the amounts of two of them (one of each kind) and the fees of both runs symbolic (64 bit), two runs; none to three transactions mined in between",
            functions: FUNCS,
            workers: 8,
        },
        Harness {
            name: "queue_deep",
            props: &["P29"],
            tier: "thorough",
            run: || queue(3, 2),
            covers: &["all payable", "moved to the end", "second batch", "more than five to send", "replaced"],
            bounds: "seven waiting withdrawals, the amounts of three of them and the fees of both runs symbolic (64 bit), two runs; none to three transactions mined in between",
            functions: FUNCS,
            workers: 8,
        },
        Harness {
            name: "queue_limit",
            props: &["P29"],
            tier: "quick",
            run: limit,
            covers: &["room", "little room", "full", "moved to the end"],
            bounds: "0, 994, 996, 999 or 1000 nonces in flight (created or sent) and seven waiting withdrawals, the amount of one of them and the fees symbolic (64 bit), one run",
            functions: FUNCS,
            workers: 4,
        },
    ]
}

fn request(i: u64, amount: Wei) -> WithdrawalRequest {
    if i % 3 == 1 {
        erc20_request(amount, Erc20Value::from(500 + i), i, 1).into()
    } else {
        native_request(amount, i).into()
    }
}
fn accept(r: &WithdrawalRequest) {
    event(match r.clone() {
        WithdrawalRequest::Native(r) => EventType::AcceptedNativeWithdrawalRequest(r),
        WithdrawalRequest::Erc20(r) => EventType::AcceptedErc20WithdrawalRequest(r),
    });
}
/// The current fees are covered by what was burned.
fn payable(r: &WithdrawalRequest, base: &BigUint, prio: &BigUint) -> bool {
    match r {
        WithdrawalRequest::Native(r) => big(r.withdrawal_amount) >= (base * n(2) + prio) * n(21_000),
        WithdrawalRequest::Erc20(r) => big(r.max_transaction_fee) >= (base + prio) * n(65_000),
    }
}
/// Nonces that are in flight: created and not signed, and sent (with the hash of the latest version).
fn flight() -> (BTreeMap<LedgerBurnIndex, TransactionNonce>, BTreeMap<LedgerBurnIndex, (TransactionNonce, String)>) {
    read_state(|s| {
        (
            s.withdrawal_transactions.transactions_to_sign_iter().map(|(n, i, _)| (*i, *n)).collect(),
            s.withdrawal_transactions.sent_transactions_iter().map(|(n, i, t)| (*i, (*n, t.last().unwrap().raw_transaction_hex()))).collect(),
        )
    })
}
fn waiting() -> Vec<LedgerBurnIndex> {
    read_state(|s| s.withdrawal_transactions.withdrawal_requests_iter().map(|r| r.native_ledger_burn_index()).collect())
}

/// One run of the withdrawal task, compared with the queue as it should be served.
fn run(reqs: &BTreeMap<LedgerBurnIndex, WithdrawalRequest>, queue: &mut Vec<LedgerBurnIndex>, next: &mut u64, latest: u64, room: usize, base: &BigUint, prio: &BigUint) {
    let t = "P29";
    let batch: Vec<_> = queue.iter().take(room.min(5)).cloned().collect();
    let mut expected = vec![];
    for id in &batch {
        queue.retain(|x| x != id);
        if payable(&reqs[id], base, prio) {
            expected.push((*id, *next));
            *next += 1;
        } else {
            queue.push(*id);
            cover("moved to the end");
        }
    }
    if expected.len() == 5 {
        cover("all payable");
    }
    let (c0, s0) = flight();
    let sends = seen_of("eth_sendRawTransaction").len();
    let signs = seen_of("sign_with_ecdsa").len();
    let timers = ic_cdk_timers::sim_mark();
    sim::set_time(sim::time() + 60_000_000_000);
    let r = sim::block_on(process_retrieve_tokens_requests());
    verify!(t, r.is_some(), "the withdrawal task trapped");
    let (c, s) = flight();
    let nonce = |id: &LedgerBurnIndex| c.get(id).copied().or_else(|| s.get(id).map(|x| x.0));
    for (id, k) in &expected {
        verify!(t, nonce(id) == Some(TransactionNonce::from(*k)), "a waiting withdrawal was not served, or not in its turn");
    }
    for id in reqs.keys() {
        let before = c0.contains_key(id) || s0.contains_key(id);
        verify!(t, before || nonce(id).is_none() || expected.iter().any(|x| x.0 == *id), "a withdrawal was served out of its turn");
    }
    verify!(t, waiting() == *queue, "the order of the waiting withdrawals is wrong");
    // signed: lowest nonces first
    let signed = seen_of("sign_with_ecdsa").len() - signs;
    verify!(t, signed <= 5 && (c.is_empty() || signed == 5), "created transactions are not signed five at a time");
    if let Some(low) = c.values().min() {
        let newly = s.iter().filter(|(id, (_, h))| s0.get(*id).map_or(true, |(_, g)| g != h)).all(|(_, (x, _))| x < low);
        verify!(t, newly, "a transaction was signed before one with a lower nonce");
    }
    // sent: those that the network has not counted, lowest nonces first
    let raw: Vec<String> = seen_of("eth_sendRawTransaction")[sends..]
        .iter()
        .map(|c| {
            let (_, _, raw): (rpc::RpcServices, Option<rpc::RpcConfig>, String) = args(c);
            raw
        })
        .collect();
    let mut due: Vec<(TransactionNonce, String)> = s.values().filter(|(x, _)| *x >= TransactionNonce::from(latest)).cloned().collect();
    due.sort();
    if due.len() > 5 {
        cover("more than five to send");
    }
    due.truncate(5);
    verify!(t, raw.len() == due.len() && due.iter().all(|(_, h)| raw.contains(h)), "not exactly the first unfinished transactions were sent");
    if s.iter().any(|(id, (_, h))| s0.get(id).is_some_and(|(_, g)| g != h)) {
        cover("replaced");
    }
    if !(queue.is_empty() && c.is_empty() && s.is_empty()) {
        let again = ic_cdk_timers::sim_timers().iter().any(|(d, _)| *d <= Duration::from_secs(60)) && ic_cdk_timers::sim_mark() > timers;
        verify!(t, again, "unfinished withdrawals are left without another run");
    }
}
fn fees(k: usize) -> (BigUint, BigUint) {
    let (b, p) = (nat(&format!("base{k}"), 64), nat(&format!("prio{k}"), 64));
    assume_le(&n(1_500), &p);
    env(|e| {
        e.base_fee = b.clone();
        e.priority = p.clone();
    });
    (b, p)
}

fn queue(symbolic: u64, rounds: usize) {
    let net = EvmNetwork::Sepolia;
    install(init_arg(net));
    add_token(1);
    handle(|_| None);
    let mut reqs = BTreeMap::new();
    for i in 10..17u64 {
        let a: Wei = if i - 10 < symbolic { amt(&format!("amount{i}"), 90) } else { to_amt(&((n(1) << 100u32) + n(i))) };
        let r = request(i, a);
        accept(&r);
        reqs.insert(burn(i), r);
    }
    let mut queue: Vec<_> = reqs.keys().cloned().collect();
    let (mut next, mut mined) = (0u64, 0u64);
    for k in 0..rounds {
        let (b, p) = fees(k);
        env(|e| e.latest_count = n(mined));
        if k > 0 && queue.len() > 0 {
            cover("second batch");
        }
        run(&reqs, &mut queue, &mut next, mined, 1000, &b, &p);
        let sent = read_state(|s| s.withdrawal_transactions.sent_transactions_iter().count()) as u64;
        if k + 1 == rounds {
            break;
        }
        mined = (mined + choose(&format!("mined{k}"), 4) as u64).min(sent);
    }
    done();
}

fn limit() {
    let net = EvmNetwork::Sepolia;
    install(init_arg(net));
    add_token(1);
    handle(|_| None);
    let inflight = [0u64, 994, 996, 999, 1000][choose("in_flight", 5)];
    let est = GasFeeEstimate { base_fee_per_gas: WeiPerGas::from(1_000u64), max_priority_fee_per_gas: WeiPerGas::from(2_000u64) };
    let mut reqs = BTreeMap::new();
    for i in 0..inflight {
        let r = request(5_000 + i, Wei::from(1_000_000_000u64 + i));
        accept(&r);
        let transaction = create_transaction(&r, TransactionNonce::from(i), est.clone(), estimate_gas_limit(&r), net).expect("the fee suffices");
        event(EventType::CreatedTransaction { withdrawal_id: r.native_ledger_burn_index(), transaction });
        reqs.insert(r.native_ledger_burn_index(), r);
    }
    for i in 10..17u64 {
        let a: Wei = if i == 12 { amt("amount", 90) } else { to_amt(&((n(1) << 100u32) + n(i))) };
        let r = request(i, a);
        accept(&r);
        reqs.insert(burn(i), r);
    }
    let mut queue: Vec<_> = (10..17).map(burn).collect();
    let room = 1000 - inflight as usize;
    cover(if room == 0 { "full" } else if room < 5 { "little room" } else { "room" });
    let (b, p) = fees(0);
    let mut next = inflight;
    run(&reqs, &mut queue, &mut next, 0, room, &b, &p);
    done();
}
