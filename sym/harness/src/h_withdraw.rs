//! The withdrawal pipeline end to end: the real timer task against models of the EVM RPC canister, the chain,
//! the management canister and the ledgers.
use crate::common::*;
use crate::h_tx::*;
use crate::world::*;
use evm_minter::deposit_logs::{ReceivedErc20Event, ReceivedNativeEvent};
use evm_minter::endpoints::{RetrieveWithdrawalStatus, TxFinalizedStatus};
use evm_minter::eth_types::Address;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::numeric::*;
use evm_minter::rpc_declrations::{Hash, TransactionStatus};
use evm_minter::state::audit::EventType;
use evm_minter::state::transactions::*;
use evm_minter::withdraw::{process_reimbursement, process_retrieve_tokens_requests};
use evm_rpc_types as rpc;
use num_bigint::BigUint;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const FUNCS: &str = "process_retrieve_tokens_requests (resubmit, create, sign, send and finalize batches), lazy_refresh_gas_fee_estimate, RpcClient and its reductions, EvmRpcClient::call_internal, WithdrawalTransactions::*, create_transaction, Eip1559TransactionRequest::{sign,hash,rlp_inner}, SignedEip1559TransactionRequest::*, State::record_finalized_transaction and balance updates, process_event, apply_state_transition, TimerGuard";

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "pipe_native",
            props: &["P03", "P06", "P07", "P08", "P23", "P13"],
            tier: "quick",
            run: || pipeline(Cfg { kinds: &[0], rounds: 3, faults: false, sym: 2, mid: true, tail: 0, late: false }),
            covers: &["sent", "finalized ok", "finalized failed", "replaced", "chain moved during a run"],
            bounds: "one native withdrawal; three timer runs; amount, fees of each run, effective gas price and starting nonce symbolic; mined version, status, gas used chosen; the chain may also move on during the second run; no RPC faults",
            functions: FUNCS,
            workers: 8,
        },
        Harness {
            name: "pipe_erc20",
            props: &["P03", "P06", "P07", "P08", "P23", "P13"],
            tier: "quick",
            run: || pipeline(Cfg { kinds: &[1], rounds: 3, faults: false, sym: 2, mid: false, tail: 0, late: false }),
            covers: &["sent", "finalized ok", "finalized failed", "replaced"],
            bounds: "one ERC-20 withdrawal; three timer runs; otherwise as pipe_native",
            functions: FUNCS,
            workers: 8,
        },
        Harness {
            name: "pipe_two",
            props: &["P03", "P06", "P07", "P08", "P23", "P13"],
            tier: "quick",
            run: || pipeline(Cfg { kinds: &[0, 1], rounds: 2, faults: false, sym: 1, mid: false, tail: 0, late: false }),
            covers: &["sent", "finalized ok", "finalized failed", "two nonces"],
            bounds: "a native and an ERC-20 withdrawal; two timer runs, one symbolic fee estimate; amounts symbolic",
            functions: FUNCS,
            workers: 8,
        },
        Harness {
            name: "pipe_faults",
            props: &["P03", "P08", "P16", "P13"],
            tier: "quick",
            run: || pipeline(Cfg { kinds: &[1], rounds: 3, faults: true, sym: 0, mid: false, tail: 0, late: false }),
            covers: &["sent", "finalized ok", "fault", "answer lost", "callback trapped", "replaced"],
            bounds: "one ERC-20 withdrawal; three timer runs; at most two of the RPC and signing calls fail (every position and failure kind, also a sent transaction reported as failed; one of them possibly by a trap in the callback); fees concrete",
            functions: FUNCS,
            workers: 8,
        },
        Harness {
            name: "recover",
            props: &["P30"],
            tier: "quick",
            run: || pipeline(Cfg { kinds: &[0, 1], rounds: 2, faults: true, sym: 0, mid: false, tail: 2, late: false }),
            covers: &["sent", "fault", "answer lost", "callback trapped", "replaced", "recovered"],
            bounds: "a native and an ERC-20 withdrawal (amounts symbolic, enough for the fees); two timer runs in which at most two of the RPC and signing calls fail (every position and failure kind, also a sent transaction reported as failed; one of them possibly by a trap in the callback), then two runs without failures",
            functions: FUNCS,
            workers: 8,
        },
        Harness {
            name: "pipe_late",
            props: &["P03", "P07", "P08", "P13"],
            tier: "quick",
            run: || pipeline(Cfg { kinds: &[0, 1], rounds: 2, faults: false, sym: 0, mid: false, tail: 0, late: true }),
            covers: &["sent", "finalized ok", "finalized failed", "late withdrawal", "late deposit", "reverse order"],
            bounds: "a native and an ERC-20 withdrawal, two timer runs; at any await point of the runs a third withdrawal is accepted and a deposit and a token are registered; the replies to simultaneous calls come in order or in reverse order; amounts symbolic (enough for the fees), fees concrete",
            functions: FUNCS,
            workers: 8,
        },
        Harness {
            name: "pipe_three",
            props: &["P03", "P07", "P08", "P23"],
            tier: "thorough",
            run: || pipeline(Cfg { kinds: &[0, 1, 0], rounds: 3, faults: false, sym: 0, mid: false, tail: 0, late: false }),
            covers: &["sent", "finalized ok", "two nonces"],
            bounds: "three withdrawals, three timer runs, amounts symbolic, fees concrete",
            functions: FUNCS,
            workers: 8,
        },
        Harness {
            name: "reimburse",
            props: &["P06", "P16", "P13", "P23", "P32"],
            tier: "quick",
            run: reimburse,
            covers: &["paid", "retried", "quarantined", "fee refund paid"],
            bounds: "a failed native and a failed ERC-20 withdrawal and a failed ERC-20 burn (fee refund) waiting; two runs of the reimbursement task; every ledger answer (minted, error, rejected, unusable block index, trapping callback) for each request; symbolic amounts",
            functions: "process_reimbursement, WithdrawalTransactions::{record_finalized_transaction,record_reimbursement_request,record_finalized_reimbursement,record_quarantined_reimbursement}, MintMemo encoding, scopeguard cleanup on trap",
            workers: 8,
        },
    ]
}

struct Cfg {
    kinds: &'static [u8],
    rounds: usize,
    faults: bool,
    /// the chain may also move on during a run, between the two queries of the transaction count
    mid: bool,
    /// fault-free runs at the end, after which every withdrawal must be finalized (P30)
    tail: usize,
    /// another withdrawal, a deposit and a new token may arrive at any await point; replies may come in reverse order
    late: bool,
    /// number of rounds with fresh symbolic fees (later rounds keep the last ones); 0: concrete, rising
    sym: u8,
}

/// How a call fails; lost: it was carried out but reported as failed.
#[derive(Clone, Copy, PartialEq)]
enum Fault {
    None,
    Rejected,
    Failed,
    Lost,
    Trap,
}

/// What the model chain has seen and decided.
#[derive(Default)]
struct Chain {
    /// per nonce (offset from the starting nonce): distinct versions received, in order
    versions: BTreeMap<u64, Vec<RawTx>>,
    signed_hashes: Vec<[u8; 32]>,
    /// mined: nonce offset -> (version, success, gas used, price)
    mined: BTreeMap<u64, (usize, bool, u64, BigUint)>,
    finalized: u64,
    nonce0: Option<BigUint>,
    faults: u32,
    trapped: bool,
    trapped_now: bool,
    moved: bool,
    round: usize,
    bad: Option<(&'static str, String)>,
}
impl Chain {
    fn offset(&self, nonce: &BigUint) -> Option<u64> {
        let n0 = self.nonce0.clone().unwrap();
        (0..8u64).find(|k| *nonce == &n0 + n(*k))
    }
}

fn receive(c: &mut Chain, hexs: &str, chain_id: u64) {
    let Some(tx) = decode_raw(hexs) else {
        c.bad = Some(("P22", "the bytes sent to the network are not a canonical EIP-1559 transaction".into()));
        return;
    };
    if tx.chain_id != n(chain_id) || tx.access != 0 {
        c.bad = Some(("P22", "signed transaction for another chain or with an access list".into()));
        return;
    }
    if tx.y > n(1) {
        c.bad = Some(("P22", "the parity of the signature is not 0 or 1".into()));
        return;
    }
    if !c.signed_hashes.contains(&tx.unsigned_hash) {
        c.bad = Some(("P22", "the signature of a sent transaction was made over another hash".into()));
        return;
    }
    if tx.r != BigUint::from_bytes_be(&(1u8..=32).collect::<Vec<_>>()) || tx.s != BigUint::from_bytes_be(&(33u8..=64).collect::<Vec<_>>()) {
        c.bad = Some(("P22", "the signature sent is not the one obtained".into()));
        return;
    }
    let Some(k) = c.offset(&tx.nonce) else {
        c.bad = Some(("P03", "transaction sent with a nonce that was not assigned".into()));
        return;
    };
    let v = c.versions.entry(k).or_default();
    if !v.iter().any(|t| t.hash == tx.hash) {
        v.push(tx);
    }
}

fn pipeline(cfg: Cfg) {
    let net = EvmNetwork::Sepolia;
    let mut arg = init_arg(net);
    let nonce0 = if cfg.sym > 0 { nat("nonce0", 64) } else { n(3) };
    arg.next_transaction_nonce = nonce0.clone().into();
    install(arg);
    add_token(1);
    // deposits that back the withdrawals
    let reserve: Wei = amt("reserve", 200);
    let reserve20: Erc20Value = amt("reserve_erc20", 200);
    deposit_native(reserve, 1);
    deposit_erc20(reserve20, 2, 1);
    let mut total = n(0);
    let mut total20 = n(0);
    let mut requests: BTreeMap<LedgerBurnIndex, WithdrawalRequest> = BTreeMap::new();
    for (i, k) in cfg.kinds.iter().enumerate() {
        let id = 10 + i as u64;
        if *k == 0 {
            let a: Wei = amt(&format!("amount{i}"), 128);
            if cfg.tail > 0 || cfg.late {
                assume_le(&n(10_000_000_000_000), &big(a));
            }
            total += big(a);
            let r = native_request(a, id);
            event(EventType::AcceptedNativeWithdrawalRequest(r.clone()));
            requests.insert(burn(id), r.into());
        } else {
            let f: Wei = amt(&format!("fee{i}"), 128);
            if cfg.tail > 0 || cfg.late {
                assume_le(&n(10_000_000_000_000), &big(f));
            }
            let a: Erc20Value = amt(&format!("amount{i}"), 128);
            total += big(f);
            total20 += big(a);
            let r = erc20_request(f, a, id, 1);
            event(EventType::AcceptedErc20WithdrawalRequest(r.clone()));
            requests.insert(burn(id), r.into());
        }
    }
    let late_amount: Option<Wei> = cfg.late.then(|| amt("late_amount", 128));
    if let Some(a) = late_amount {
        assume_le(&n(10_000_000_000_000), &big(a));
    }
    let late_deposit: Option<Wei> = cfg.late.then(|| amt("late_deposit", 128));
    let mut late = cfg.late;
    let mut reserve = reserve;
    total += late_amount.map_or(n(0), big);
    assume_le(&total, &big(reserve));
    assume_le(&total20, &big(reserve20));

    let chain = shared(Chain { nonce0: Some(nonce0.clone()), ..Default::default() });
    let ch = chain.clone();
    let faults = cfg.faults;
    let rounds = cfg.rounds;
    let mid = cfg.mid;
    let n00 = nonce0.clone();
    handle(move |c| {
        if mid && c.method == "eth_getTransactionCount" {
            let (_, _, a): (rpc::RpcServices, Option<rpc::RpcConfig>, rpc::GetTransactionCountArgs) = args(c);
            if a.block != rpc::BlockTag::Latest && !ch.borrow().moved && ch.borrow().round == 1 && flag("moves_during_run") {
                ch.borrow_mut().moved = true;
                let r = ch.borrow().round;
                mine(&ch, 10 + r, false);
                let fin = ch.borrow().finalized;
                env(|e| e.finalized_count = &n00 + n(fin));
                cover("chain moved during a run");
            }
        }
        if faults && ch.borrow().round < rounds && ch.borrow().faults < 2 && c.method != "ecdsa_public_key" {
            let mut kinds = vec![Fault::None, Fault::Rejected];
            if c.callee != candid::Principal::management_canister() {
                kinds.push(Fault::Failed);
            }
            if c.method == "eth_sendRawTransaction" {
                kinds.push(Fault::Lost);
            }
            // at most one callback traps
            if !ch.borrow().trapped {
                kinds.push(Fault::Trap);
            }
            let kind = kinds[choose(&format!("fault_{}", c.method), kinds.len())];
            if kind != Fault::None {
                ch.borrow_mut().faults += 1;
                cover("fault");
            }
            match kind {
                Fault::None => {}
                Fault::Trap => {
                    let mut ch = ch.borrow_mut();
                    ch.trapped = true;
                    ch.trapped_now = true;
                    cover("callback trapped");
                    return Some(sim::callback_traps());
                }
                Fault::Rejected => return Some(rejected()),
                Fault::Failed | Fault::Lost => {
                    if kind == Fault::Lost {
                        let (_, _, raw): (rpc::RpcServices, Option<rpc::RpcConfig>, String) = args(c);
                        receive(&mut ch.borrow_mut(), &raw, 11155111);
                        cover("answer lost");
                    }
                    return Some(match c.method.as_str() {
                        "eth_feeHistory" => rpc_error::<Option<rpc::FeeHistory>>(http_err(false)),
                        "eth_getTransactionCount" => rpc_error::<rpc::Nat256>(http_err(false)),
                        "eth_sendRawTransaction" => rpc_error::<rpc::SendRawTransactionStatus>(http_err(false)),
                        "eth_getTransactionReceipt" => rpc_error::<Option<rpc::TransactionReceipt>>(http_err(false)),
                        _ => rejected(),
                    });
                }
            }
        }
        match c.method.as_str() {
            "sign_with_ecdsa" => {
                let (a,): (ic_cdk::api::management_canister::ecdsa::SignWithEcdsaArgument,) = args(c);
                ch.borrow_mut().signed_hashes.push(a.message_hash.try_into().unwrap());
                None
            }
            "eth_sendRawTransaction" => {
                let (_, _, raw): (rpc::RpcServices, Option<rpc::RpcConfig>, String) = args(c);
                receive(&mut ch.borrow_mut(), &raw, 11155111);
                cover("sent");
                None
            }
            "eth_getTransactionReceipt" => {
                let (_, _, h): (rpc::RpcServices, Option<rpc::RpcConfig>, String) = args(c);
                let h = hex::decode(h.trim_start_matches("0x")).unwrap();
                let ch = ch.borrow();
                for (k, vs) in &ch.versions {
                    for (i, v) in vs.iter().enumerate() {
                        if v.hash[..] == h[..] {
                            if let Some((w, ok, gas, price)) = ch.mined.get(k) {
                                if *w == i {
                                    return Some(consistent(Some(receipt(v.hash, *ok, *gas, price))));
                                }
                            }
                        }
                    }
                }
                Some(consistent(None::<rpc::TransactionReceipt>))
            }
            _ => None,
        }
    });

    for round in 0..cfg.rounds + cfg.tail {
        sim::set_time(sim::time() + 60_000_000_000);
        if round < cfg.sym as usize {
            env(|e| {
                e.base_fee = nat(&format!("base{round}"), 64);
                e.priority = nat(&format!("prio{round}"), 64);
            });
        } else if cfg.sym == 0 {
            env(|e| {
                e.base_fee = n(10_000_000 * (1 + round.min(cfg.rounds - 1) as u64));
                e.priority = n(2_000_000 * (1 + round.min(cfg.rounds - 1) as u64));
            });
        }
        chain.borrow_mut().round = round;
        let mined = chain.borrow().mined.len() as u64;
        let fin = chain.borrow().finalized;
        env(|e| {
            e.latest_count = &nonce0 + n(mined);
            e.finalized_count = &nonce0 + n(fin);
        });
        let r = if cfg.late {
            let id = sim::spawn(process_retrieve_tokens_requests());
            let reverse = flag("reverse_order");
            if reverse {
                cover("reverse order");
            }
            while sim::ended(id).is_none() {
                if late && flag("arrival") {
                    late = false;
                    let r = native_request(late_amount.unwrap(), 20);
                    verify!("P03", try_event(EventType::AcceptedNativeWithdrawalRequest(r.clone())), "a withdrawal cannot be recorded during a run");
                    requests.insert(burn(20), r.into());
                    deposit_native(late_deposit.unwrap(), 7);
                    reserve = to_amt(&(big(reserve) + big(late_deposit.unwrap())));
                    add_token(2);
                    cover("late withdrawal");
                    cover("late deposit");
                }
                sim::step(if reverse { sim::pending().len() - 1 } else { 0 });
            }
            match sim::ended(id) {
                Some(sim::TaskEnd::Trapped) => None,
                _ => Some(()),
            }
        } else {
            sim::block_on(process_retrieve_tokens_requests())
        };
        while !sim::pending().is_empty() {
            sim::step(0);
        }
        let excused = std::mem::take(&mut chain.borrow_mut().trapped_now);
        verify!("P03", r.is_some() || excused, "the withdrawal task trapped");
        if let Some((tag, m)) = chain.borrow_mut().bad.take() {
            verify!(tag, false, &m);
        }
        verify!("P16", read_state(|s| s.active_tasks.is_empty()), "a task guard is still held after the task ended");
        check(&cfg, &requests, &chain.borrow(), &nonce0, reserve, reserve20);
        replay_check();
        if round + 1 == cfg.rounds + cfg.tail {
            break;
        }
        // the chain moves on
        if cfg.tail == 0 || round < cfg.rounds {
            mine(&chain, round, cfg.tail > 0);
        } else {
            mine_all(&chain);
        }
    }
    if cfg.tail > 0 {
        let s = state();
        for id in requests.keys() {
            verify!("P30", s.withdrawal_transactions.get_finalized_transaction(id).is_some(), "a withdrawal is stuck after failures that have ended");
        }
        cover("recovered");
    }
    done();
}

/// Decide what is mined and finalized before the next run.
fn mine(chain: &Rc<RefCell<Chain>>, round: usize, plain: bool) {
    let mut c = chain.borrow_mut();
    let next = c.mined.len() as u64;
    let mut avail = 0;
    while c.versions.contains_key(&(next + avail)) {
        avail += 1;
    }
    let m = choose(&format!("mined_in_round{round}"), avail as usize + 1) as u64;
    for k in next..next + m {
        let vs = c.versions[&k].clone();
        let w = choose(&format!("version_of_{k}"), vs.len());
        let ok = plain || !flag(&format!("failed_{k}"));
        let gas = if vs[w].data.is_empty() {
            21_000
        } else if !plain && flag(&format!("all_gas_{k}")) {
            65_000
        } else {
            40_000
        };
        let price = nat(&format!("price_{k}"), 128);
        assume_le(&price, &vs[w].cap);
        c.mined.insert(k, (w, ok, gas, price));
    }
    let total = c.mined.len() as u64;
    let f = if plain { total - c.finalized } else { choose(&format!("finalized_in_round{round}"), (total - c.finalized) as usize + 1) as u64 };
    c.finalized += f;
}

/// Everything the network has received is mined (the latest version) and final.
fn mine_all(chain: &Rc<RefCell<Chain>>) {
    let mut c = chain.borrow_mut();
    loop {
        let k = c.mined.len() as u64;
        let Some(vs) = c.versions.get(&k) else { break };
        let price = vs.last().unwrap().cap.clone();
        let gas = if vs.last().unwrap().data.is_empty() { 21_000 } else { 40_000 };
        let v = vs.len() - 1;
        c.mined.insert(k, (v, true, gas, price));
    }
    c.finalized = c.mined.len() as u64;
}

fn receipt(hash: [u8; 32], ok: bool, gas: u64, price: &BigUint) -> rpc::TransactionReceipt {
    rpc::TransactionReceipt {
        block_hash: rpc::Hex32::from([5u8; 32]),
        block_number: rpc::Nat256::from(4000u64),
        effective_gas_price: nat256(price),
        gas_used: rpc::Nat256::from(gas),
        status: Some(rpc::Nat256::from(ok as u8)),
        transaction_hash: rpc::Hex32::from(hash),
        contract_address: None,
        from: rpc::Hex20::from([1u8; 20]),
        logs: vec![],
        logs_bloom: rpc::Hex256::from([0u8; 256]),
        to: None,
        transaction_index: rpc::Nat256::from(0u8),
        tx_type: rpc::HexByte::from(2u8),
    }
}

pub fn deposit_native(v: Wei, i: u8) {
    event(EventType::AcceptedDeposit(ReceivedNativeEvent {
        transaction_hash: Hash([i; 32]),
        block_number: BlockNumber::from(900u64),
        log_index: LogIndex::from(i),
        from_address: addr(0x77),
        value: v,
        principal: user(1),
        subaccount: None,
    }));
}
pub fn deposit_erc20(v: Erc20Value, i: u8, k: u8) {
    event(EventType::AcceptedErc20Deposit(ReceivedErc20Event {
        transaction_hash: Hash([i; 32]),
        block_number: BlockNumber::from(900u64),
        log_index: LogIndex::from(i),
        from_address: addr(0x77),
        value: v,
        principal: user(1),
        erc20_contract_address: token_addr(k),
        subaccount: None,
    }));
}

/// The state rebuilt from the event log equals the live state (P13).
pub fn replay_check() {
    if !symx::active("P13") {
        return;
    }
    let live = state();
    let rebuilt = match sim::message(evm_minter::state::audit::replay_events) {
        Ok(s) => s,
        Err(()) => {
            verify!("P13", false, "replaying the event log traps");
            return;
        }
    };
    same_state(&live, &rebuilt, false);
}
/// `sync`: the scraping position is part of the log (after pre_upgrade).
pub fn same_state(live: &State, rebuilt: &State, sync: bool) {
    let t = "P13";
    verify!(t, live.native_ledger_id == rebuilt.native_ledger_id && live.native_index_id == rebuilt.native_index_id
        && live.native_symbol == rebuilt.native_symbol && live.evm_network == rebuilt.evm_network
        && live.ecdsa_key_name == rebuilt.ecdsa_key_name && live.helper_contract_address == rebuilt.helper_contract_address
        && live.evm_canister_id == rebuilt.evm_canister_id && live.ledger_suite_manager_id == rebuilt.ledger_suite_manager_id
        && live.block_height == rebuilt.block_height, "configuration lost by replay");
    verify!(t, live.native_ledger_transfer_fee == rebuilt.native_ledger_transfer_fee
        && live.native_minimum_withdrawal_amount == rebuilt.native_minimum_withdrawal_amount
        && live.deposit_native_fee == rebuilt.deposit_native_fee && live.withdrawal_native_fee == rebuilt.withdrawal_native_fee
        && live.min_max_priority_fee_per_gas == rebuilt.min_max_priority_fee_per_gas, "amounts of the configuration lost by replay");
    verify!(t, live.events_to_mint == rebuilt.events_to_mint, "deposits waiting for a mint differ after replay");
    verify!(t, live.minted_events == rebuilt.minted_events, "minted deposits differ after replay");
    verify!(t, live.invalid_events == rebuilt.invalid_events, "invalid deposits differ after replay");
    verify!(t, live.skipped_blocks == rebuilt.skipped_blocks, "skipped blocks differ after replay");
    verify!(t, live.native_balance == rebuilt.native_balance, "native balance differs after replay");
    verify!(t, live.erc20_balances == rebuilt.erc20_balances, "ERC-20 balances differ after replay");
    verify!(t, live.erc20_tokens == rebuilt.erc20_tokens, "registered tokens differ after replay");
    if sync {
        verify!(t, live.last_scraped_block_number == rebuilt.last_scraped_block_number, "scraping position lost by an upgrade");
        verify!(t, live.first_scraped_block_number == rebuilt.first_scraped_block_number, "first scraped block lost by an upgrade");
    }
    let (a, b) = (&live.withdrawal_transactions, &rebuilt.withdrawal_transactions);
    let mut pa: Vec<_> = a.withdrawal_requests_iter().cloned().collect();
    let mut pb: Vec<_> = b.withdrawal_requests_iter().cloned().collect();
    pa.sort_by_key(|r| r.native_ledger_burn_index());
    pb.sort_by_key(|r| r.native_ledger_burn_index());
    verify!(t, pa == pb, "pending withdrawals differ after replay");
    verify!(t, a.next_transaction_nonce() == b.next_transaction_nonce(), "next nonce differs after replay");
    verify!(t, a.transactions_to_sign_iter().eq(b.transactions_to_sign_iter()), "created transactions differ after replay");
    verify!(t, a.sent_transactions_iter().eq(b.sent_transactions_iter()), "sent transactions differ after replay");
    verify!(t, a.finalized_transactions_iter().eq(b.finalized_transactions_iter()), "finalized transactions differ after replay");
    verify!(t, a.reimbursement_requests_iter().eq(b.reimbursement_requests_iter()), "reimbursement requests differ after replay");
    verify!(t, a.reimbursed_transactions_iter().eq(b.reimbursed_transactions_iter()), "reimbursements differ after replay");
}

fn check(cfg: &Cfg, requests: &BTreeMap<LedgerBurnIndex, WithdrawalRequest>, chain: &Chain, nonce0: &BigUint, reserve: Wei, reserve20: Erc20Value) {
    let s = state();
    let w = &s.withdrawal_transactions;
    let pending: Vec<_> = w.withdrawal_requests_iter().map(|r| r.native_ledger_burn_index()).collect();
    let created: BTreeMap<_, _> = w.transactions_to_sign_iter().map(|(n, i, t)| (*i, (*n, t.clone()))).collect();
    let sent: BTreeMap<_, _> = w.sent_transactions_iter().map(|(n, i, t)| (*i, (*n, t.into_iter().cloned().collect::<Vec<_>>()))).collect();
    let fin: BTreeMap<_, _> = w.finalized_transactions_iter().map(|(n, i, t)| (*i, (*n, t.clone()))).collect();
    let mut assigned: BTreeMap<LedgerBurnIndex, TransactionNonce> = BTreeMap::new();
    let mut balance = big(reserve);
    let mut balance20 = big(reserve20);
    let (mut eff, mut unspent) = (n(0), n(0));
    verify!("P03", w.transactions_to_sign_iter().count() == created.len() && w.sent_transactions_iter().count() == sent.len()
        && w.finalized_transactions_iter().count() == fin.len(), "one withdrawal has two nonces in the same stage");
    for (id, req) in requests {
        let p = pending.iter().filter(|x| *x == id).count();
        let inflight = (created.contains_key(id) || sent.contains_key(id)) as usize;
        let f = fin.contains_key(id) as usize;
        verify!("P03", p + inflight + f == 1, "a withdrawal is lost or is in two stages at once");
        let mut nonces = vec![];
        nonces.extend(created.get(id).map(|x| x.0));
        nonces.extend(sent.get(id).map(|x| x.0));
        nonces.extend(fin.get(id).map(|x| x.0));
        if let Some(first) = nonces.first() {
            verify!("P03", nonces.iter().all(|x| x == first), "one withdrawal is bound to two nonces");
            assigned.insert(*id, *first);
        }
        // everything ever sent for this nonce pays this withdrawal, within what was burned
        if let Some(nonce) = assigned.get(id) {
            let k = chain.offset(&big(*nonce));
            verify!("P03", k.is_some(), "nonce outside the assigned range");
            for tx in chain.versions.get(&k.unwrap()).into_iter().flatten() {
                match req {
                    WithdrawalRequest::Native(r) => {
                        verify!("P03", tx.to == r.destination.as_ref() as &[u8] && tx.data.is_empty(), "a sent transaction pays someone else");
                        verify!("P03", &tx.amount + &tx.cap * &tx.gas == big(r.withdrawal_amount), "a sent transaction may spend more or less than was burned");
                    }
                    WithdrawalRequest::Erc20(r) => {
                        verify!("P03", tx.to == r.erc20_contract_address.as_ref() as &[u8] && same_transfer_data(&tx.data, [0x22; 20], r.withdrawal_amount),
                            "a sent transaction pays someone else or another amount");
                        verify!("P03", tx.amount == n(0) && &tx.cap * &tx.gas <= big(r.max_transaction_fee), "a sent ERC-20 transaction may cost more than was burned");
                    }
                }
            }
            if chain.versions.get(&k.unwrap()).map_or(0, |v| v.len()) > 1 {
                cover("replaced");
            }
            // finalization
            let m = chain.mined.get(&k.unwrap()).filter(|_| k.unwrap() < chain.finalized);
            match (fin.get(id), m) {
                (Some((_, ftx)), Some((v, ok, gas, price))) => {
                    let raw = &chain.versions[&k.unwrap()][*v];
                    let fee = price * n(*gas);
                    verify!("P08", ftx.transaction_hash().0 == raw.hash, "finalized with another transaction than the mined one");
                    verify!("P08", (*ftx.transaction_status() == TransactionStatus::Success) == *ok, "finalized with another outcome than the mined one");
                    verify!("P08", big(ftx.effective_transaction_fee()) == fee, "recorded fee is not gas used times gas price");
                    eff += &fee;
                    let charged = match req {
                        WithdrawalRequest::Native(r) => big(r.withdrawal_amount) - &raw.amount,
                        WithdrawalRequest::Erc20(r) => big(r.max_transaction_fee),
                    };
                    unspent += charged - &fee;
                    balance -= &fee;
                    if *ok {
                        cover("finalized ok");
                        balance -= &raw.amount;
                        if let WithdrawalRequest::Erc20(r) = req {
                            balance20 -= big(r.withdrawal_amount);
                        }
                    } else {
                        cover("finalized failed");
                    }
                }
                (Some(_), None) => verify!("P08", false, "a withdrawal was finalized although the chain has not finalized its transaction"),
                (None, Some(_)) => verify!("P08", cfg.faults, "a finalized transaction was not noticed"),
                (None, None) => {}
            }
        }
    }
    // what is owed back: exactly the withdrawals whose mined transaction failed
    let mut owed = 0;
    for (id, req) in requests {
        let open: Vec<_> = w
            .reimbursement_requests_iter()
            .filter(|(i, _)| match i {
                ReimbursementIndex::Native { ledger_burn_index } => ledger_burn_index == id,
                ReimbursementIndex::Erc20 { native_ledger_burn_index, .. } => native_ledger_burn_index == id,
            })
            .collect();
        let failed = fin.get(id).and_then(|(nonce, _)| {
            let k = chain.offset(&big(*nonce))?;
            let (v, ok, _, _) = chain.mined.get(&k)?;
            (!*ok).then(|| chain.versions[&k][*v].clone())
        });
        verify!("P06", open.len() == failed.is_some() as usize, "a reimbursement is owed for a withdrawal that did not fail, or missing for one that did");
        if let (Some((i, r)), Some(raw)) = (open.first(), failed) {
            owed += 1;
            let amount = match req {
                WithdrawalRequest::Native(_) => raw.amount.clone(),
                WithdrawalRequest::Erc20(q) => big(q.withdrawal_amount),
            };
            verify!("P06", big(r.reimbursed_amount) == amount, "the reimbursement is not what the failed transaction held");
            let (sub, ledger_ok) = match (req, i) {
                (WithdrawalRequest::Native(q), ReimbursementIndex::Native { .. }) => (q.from_subaccount.clone(), true),
                (WithdrawalRequest::Erc20(q), ReimbursementIndex::Erc20 { ledger_id, .. }) => (q.from_subaccount.clone(), *ledger_id == q.erc20_ledger_id),
                _ => (None, false),
            };
            verify!("P06", ledger_ok && r.to == req.from() && r.to_subaccount == sub && r.transaction_hash.map(|h| h.0) == Some(raw.hash), "the reimbursement is owed to someone else, on another ledger or for another transaction");
        }
    }
    verify!("P06", w.reimbursement_requests_iter().count() == owed, "a reimbursement nobody is owed");
    verify!("P03", pending.len() + assigned.len() == requests.len(), "unknown withdrawals appeared");
    // nonces: exactly the next ones, each for one withdrawal
    let mut offs: Vec<u64> = assigned.values().filter_map(|x| chain.offset(&big(*x))).collect();
    offs.sort();
    verify!("P03", offs == (0..assigned.len() as u64).collect::<Vec<_>>(), "nonces are not assigned consecutively, one per withdrawal");
    verify!("P03", big(w.next_transaction_nonce()) == nonce0 + n(assigned.len() as u64), "next nonce does not follow the assigned ones");
    if offs.len() > 1 {
        cover("two nonces");
    }
    verify!("P07", big(s.native_balance.native_balance()) == balance, "native balance is not deposits minus what left the minter's address");
    verify!("P07", big(s.native_balance.total_effective_tx_fees()) == eff, "total of effective fees is wrong");
    verify!("P07", big(s.native_balance.total_unspent_tx_fees()) == unspent, "total of unspent fees is wrong");
    verify!("P07", big(s.erc20_balances.balance_of(&token_addr(1))) == balance20, "ERC-20 balance is not deposits minus successful withdrawals");
    // user-visible status
    for (id, req) in requests {
        let st = w.transaction_status(id);
        let exp_hash = |h: [u8; 32]| format!("0x{}", hex::encode(h));
        let ok = match &st {
            RetrieveWithdrawalStatus::NotFound => false,
            RetrieveWithdrawalStatus::Pending => pending.contains(id),
            RetrieveWithdrawalStatus::TxCreated => created.contains_key(id),
            RetrieveWithdrawalStatus::TxSent(t) => {
                !created.contains_key(id) && sent.get(id).and_then(|x| x.1.last()).is_some_and(|x| exp_hash(x.hash().0) == t.transaction_hash)
            }
            RetrieveWithdrawalStatus::TxFinalized(f) => match (f, fin.get(id)) {
                (TxFinalizedStatus::Success { transaction_hash, effective_transaction_fee }, Some((_, t))) => {
                    *t.transaction_status() == TransactionStatus::Success
                        && *transaction_hash == exp_hash(t.transaction_hash().0)
                        && effective_transaction_fee.as_ref().is_some_and(|f| f.0 == big(t.effective_transaction_fee()))
                }
                (TxFinalizedStatus::PendingReimbursement(t1), Some((_, t))) => {
                    *t.transaction_status() == TransactionStatus::Failure && t1.transaction_hash == exp_hash(t.transaction_hash().0)
                }
                _ => false,
            },
        };
        verify!("P23", ok, "the reported status is not the stage the withdrawal is in");
        let by_id = w.withdrawal_status(&WithdrawalSearchParameter::ByWithdrawalId(*id));
        verify!("P23", by_id.len() == 1 && by_id[0].0 == req, "searching by withdrawal id does not return exactly that withdrawal");
    }
    for who in [user(1), user(2), user(3)] {
        let got = w.withdrawal_status(&WithdrawalSearchParameter::BySenderAccount(icrc_ledger_types::icrc1::account::Account {
            owner: who,
            subaccount: if who == user(1) { Some([9; 32]) } else { None },
        }));
        let want = requests.values().filter(|r| r.from() == who).count();
        verify!("P23", got.len() == want, "searching by sender does not return exactly the sender's withdrawals");
    }
    if symx::active("P23") {
        let txs: BTreeMap<LedgerBurnIndex, Wei> = created.iter().map(|(i, (_, t))| (*i, t.amount))
            .chain(sent.iter().filter(|(i, _)| !created.contains_key(i)).map(|(i, (_, v))| (*i, v.last().unwrap().transaction().amount)))
            .chain(fin.iter().map(|(i, (_, t))| (*i, *t.transaction_amount())))
            .collect();
        details(requests, &txs);
    }
}
/// The status endpoints tell the truth about every withdrawal (P23). `txs`: amount of the transaction that is reported.
fn details(requests: &BTreeMap<LedgerBurnIndex, WithdrawalRequest>, txs: &BTreeMap<LedgerBurnIndex, Wei>) {
    use crate::minter_main::verif_main_probe as ep;
    use evm_minter::endpoints::WithdrawalSearchParameter as Q;
    use evm_minter::endpoints::WithdrawalStatus as S;
    let ask = |q: Q| {
        let r = sim::block_on(async move { ep::call_withdrawal_status(q).await });
        verify!("P23", r.is_some(), "the status query trapped");
        r.unwrap_or_default()
    };
    let status = |i: u64| {
        let r = sim::block_on(async move { ep::call_retrieve_witdrawal_status(i).await });
        verify!("P23", r.is_some(), "the status request trapped");
        r.unwrap_or(RetrieveWithdrawalStatus::NotFound)
    };
    verify!("P23", ask(Q::ByWithdrawalId(9_999)).is_empty() && status(9_999) == RetrieveWithdrawalStatus::NotFound, "a withdrawal nobody made is reported");
    verify!("P23", ask(Q::ByRecipient(addr(0x33).to_string())).is_empty(), "a withdrawal to an address nobody named is reported");
    let w = state();
    for (id, req) in requests {
        let got = ask(Q::ByWithdrawalId(id.get()));
        verify!("P23", got.len() == 1, "not exactly one withdrawal is reported for its id");
        let Some(d) = got.first() else { continue };
        let (to, symbol, amount, fee, sub): (_, _, _, Option<BigUint>, Option<[u8; 32]>) = match req {
            WithdrawalRequest::Native(r) => (r.destination, "icNATIVE".to_string(), big(r.withdrawal_amount), txs.get(id).map(|t| big(r.withdrawal_amount) - big(*t)), r.from_subaccount.as_ref().map(|s| s.0)),
            WithdrawalRequest::Erc20(r) => (r.destination, "icTOK1".to_string(), big(r.withdrawal_amount), Some(big(r.max_transaction_fee)), r.from_subaccount.as_ref().map(|s| s.0)),
        };
        verify!("P23", d.withdrawal_id == id.get() && d.recipient_address == to.to_string() && d.token_symbol == symbol && d.from == req.from() && d.from_subaccount == sub, "a withdrawal is reported with another recipient, token or sender");
        verify!("P23", d.withdrawal_amount.0 == amount, "a withdrawal is reported with another amount");
        let same = match (&d.max_transaction_fee, &fee) {
            (None, None) => true,
            (Some(a), Some(b)) => a.0 == *b,
            _ => false,
        };
        verify!("P23", same, "a withdrawal is reported with another transaction fee");
        let st = status(id.get());
        let same = match (&d.status, &st) {
            (S::Pending, RetrieveWithdrawalStatus::Pending) | (S::TxCreated, RetrieveWithdrawalStatus::TxCreated) => true,
            (S::TxSent(a), RetrieveWithdrawalStatus::TxSent(b)) => a == b,
            (S::TxFinalized(a), RetrieveWithdrawalStatus::TxFinalized(b)) => same_final(a, b),
            _ => false,
        };
        let same2 = match (&st, &w.withdrawal_transactions.transaction_status(id)) {
            (RetrieveWithdrawalStatus::TxFinalized(a), RetrieveWithdrawalStatus::TxFinalized(b)) => same_final(a, b),
            (a, b) => a == b,
        };
        verify!("P23", same && same2, "the two status endpoints disagree");
        let by_to = ask(Q::ByRecipient(to.to_string().to_lowercase()));
        let want = requests.values().filter(|r| r.payee() == to).count();
        verify!("P23", by_to.len() == want && by_to.iter().any(|x| x.withdrawal_id == id.get()), "searching by recipient does not return exactly the withdrawals to it");
        let by_from = ask(Q::BySenderAccount(icrc_ledger_types::icrc1::account::Account { owner: req.from(), subaccount: sub }));
        verify!("P23", by_from.iter().any(|x| x.withdrawal_id == id.get()) && by_from.iter().all(|x| x.from == req.from() && x.from_subaccount == sub), "searching by sender does not return the sender's withdrawal");
        // another subaccount is another account
        let other = ask(Q::BySenderAccount(icrc_ledger_types::icrc1::account::Account { owner: req.from(), subaccount: Some([7; 32]) }));
        verify!("P23", other.is_empty(), "withdrawals of another subaccount are reported");
    }
}
fn same_final(a: &TxFinalizedStatus, b: &TxFinalizedStatus) -> bool {
    match (a, b) {
        (TxFinalizedStatus::Success { transaction_hash: h, effective_transaction_fee: f }, TxFinalizedStatus::Success { transaction_hash: h2, effective_transaction_fee: f2 }) => {
            h == h2
                && match (f, f2) {
                    (Some(x), Some(y)) => x.0 == y.0,
                    (None, None) => true,
                    _ => false,
                }
        }
        (TxFinalizedStatus::PendingReimbursement(x), TxFinalizedStatus::PendingReimbursement(y)) => x == y,
        (
            TxFinalizedStatus::Reimbursed { transaction_hash: h, reimbursed_amount: x, reimbursed_in_block: i },
            TxFinalizedStatus::Reimbursed { transaction_hash: h2, reimbursed_amount: y, reimbursed_in_block: j },
        ) => h == h2 && x.0 == y.0 && i == j,
        _ => false,
    }
}

// ------------------------------------------------------------------------------------------------ reimbursement

fn reimburse() {
    use icrc_ledger_types::icrc1::transfer::{TransferArg, TransferError};
    install(init_arg(EvmNetwork::Sepolia));
    add_token(1);
    let amount: Wei = amt("amount", 128);
    let fee: Wei = amt("fee", 128);
    let amount20: Erc20Value = amt("erc20_amount", 256);
    let refund: Erc20TokenAmount = amt("refund", 128);
    let price: WeiPerGas = amt("price", 64);
    let reserve: Wei = amt("reserve", 200);
    assume_le(&(big(amount) + big(fee)), &big(reserve));
    deposit_native(reserve, 1);
    deposit_erc20(amount20, 2, 1);
    let rn = native_request(amount, 10);
    let re = erc20_request(fee, amount20, 11, 1);
    event(EventType::AcceptedNativeWithdrawalRequest(rn.clone()));
    event(EventType::AcceptedErc20WithdrawalRequest(re.clone()));
    let est = evm_minter::tx::GasFeeEstimate { base_fee_per_gas: 10_000u64.into(), max_priority_fee_per_gas: 5_000u64.into() };
    let mut hashes = BTreeMap::new();
    let mut tx_amounts = BTreeMap::new();
    for (i, r) in [WithdrawalRequest::Native(rn.clone()), WithdrawalRequest::Erc20(re.clone())].into_iter().enumerate() {
        let id = r.native_ledger_burn_index();
        let gas = evm_minter::withdraw::estimate_gas_limit(&r);
        let Ok(tx) = create_transaction(&r, TransactionNonce::from(i as u64), est.clone(), gas, EvmNetwork::Sepolia) else {
            assume(false);
            return;
        };
        assume_le(&big(price), &big(tx.max_fee_per_gas));
        tx_amounts.insert(id, tx.amount);
        event(EventType::CreatedTransaction { withdrawal_id: id, transaction: tx.clone() });
        let st = sign(tx, i as u8);
        hashes.insert(id, st.hash());
        event(EventType::SignedTransaction { withdrawal_id: id, transaction: st.clone() });
        event(EventType::FinalizedTransaction {
            withdrawal_id: id,
            transaction_receipt: evm_minter::rpc_declrations::TransactionReceipt {
                block_hash: Hash([5; 32]),
                block_number: BlockNumber::from(4000u64),
                effective_gas_price: price,
                gas_used: gas,
                status: TransactionStatus::Failure,
                transaction_hash: st.hash(),
            },
        });
    }
    // a burn on the ERC-20 ledger failed after the fee had been burned
    event(EventType::FailedErc20WithdrawalRequest(ReimbursementRequest {
        ledger_burn_index: burn(12),
        reimbursed_amount: refund,
        to: user(3),
        to_subaccount: Some(Subaccount([8; 32])),
        transaction_hash: None,
    }));
    // expected: (ledger, owner, subaccount, amount) by key
    let want: Vec<(u64, candid::Principal, candid::Principal, Option<[u8; 32]>, BigUint, u64)> = vec![
        (10, native_ledger(), rn.from, Some([9; 32]), big(tx_amounts[&burn(10)]), 10),
        (11, erc20_ledger(1), re.from, None, big(amount20), 1011),
        (12, native_ledger(), user(3), Some([8; 32]), big(refund), 12),
    ];
    let w0 = read_state(|s| s.withdrawal_transactions.reimbursement_requests_iter().count());
    verify!("P06", w0 == 3, "a failed withdrawal was not scheduled for reimbursement");
    // ledger model: which request a transfer pays is determined by its recipient
    #[derive(Default)]
    struct L {
        minted: BTreeMap<u64, u32>,
        attempted: BTreeMap<u64, u32>,
        unusable: BTreeSet<u64>,
        bad: Option<String>,
    }
    let l = shared(L::default());
    let (l2, want2) = (l.clone(), want.clone());
    let memo_of: BTreeMap<u64, (u64, Vec<MemoField>)> = want
        .iter()
        .map(|w| {
            let id = MemoField::Num(n(w.5));
            (w.0, match hashes.get(&burn(w.0)) {
                Some(h) => (1, vec![id, MemoField::Bytes(h.0.to_vec())]),
                None => (2, vec![id]),
            })
        })
        .collect();
    let round = shared(0u32);
    let r2 = round.clone();
    handle(move |c| {
        if c.method != "icrc1_transfer" {
            return None;
        }
        let (a,): (TransferArg,) = args(c);
        let mut l = l2.borrow_mut();
        let Some((key, ledger, _, _, amt, _)) = want2.iter().find(|x| x.2 == a.to.owner && x.3 == a.to.subaccount) else {
            l.bad = Some("a reimbursement goes to someone who is not owed one".into());
            return Some(rejected());
        };
        *l.attempted.entry(*key).or_default() += 1;
        if c.callee != *ledger {
            l.bad = Some("a reimbursement is paid on the wrong ledger".into());
        } else if a.amount.0 != *amt {
            l.bad = Some("a reimbursement has the wrong amount".into());
        } else if a.from_subaccount.is_some() {
            l.bad = Some("a reimbursement is not minted from the minting account".into());
        }
        if symx::active("P32") {
            let m = a.memo.as_ref().and_then(|m| read_memo(&m.0));
            verify!("P32", m.as_ref() == memo_of.get(key), "the memo of a reimbursement does not name the withdrawal and its failed transaction");
        }
        let out = choose(&format!("ledger_{key}_{}", r2.borrow()), 5);
        Some(match out {
            4 => {
                *l.minted.entry(*key).or_default() += 1;
                l.unusable.insert(*key);
                sim::callback_traps()
            }
            0 => {
                *l.minted.entry(*key).or_default() += 1;
                reply((Ok::<candid::Nat, TransferError>((700 + *key).into()),))
            }
            1 => reply((Err::<candid::Nat, TransferError>(TransferError::TemporarilyUnavailable),)),
            2 => rejected(),
            _ => {
                // minted, but the answer makes the callback trap
                *l.minted.entry(*key).or_default() += 1;
                l.unusable.insert(*key);
                reply((Ok::<candid::Nat, TransferError>(candid::Nat(BigUint::from(1u8) << 70u32)),))
            }
        })
    });
    for r in 0..2u32 {
        *round.borrow_mut() = r;
        let before: BTreeSet<ReimbursementIndex> = read_state(|s| s.withdrawal_transactions.reimbursement_requests_iter().map(|(i, _)| i.clone()).collect());
        // a second run of the task may start while the first waits for an answer
        let overlap = flag(&format!("overlap_{r}"));
        let id = sim::spawn(process_reimbursement());
        let mut first = overlap;
        while sim::ended(id).is_none() {
            if std::mem::take(&mut first) {
                let calls = sim::pending().len();
                let other = sim::spawn(process_reimbursement());
                verify!("P16", sim::pending().len() == calls && matches!(sim::ended(other), Some(sim::TaskEnd::Done)), "two reimbursement runs work at the same time");
            }
            sim::step(0);
        }
        while !sim::pending().is_empty() {
            sim::step(0);
        }
        let trapped = matches!(sim::ended(id), Some(sim::TaskEnd::Trapped));
        verify!("P16", read_state(|s| s.active_tasks.is_empty()), "a task guard is still held after the task ended");
        let l = l.borrow();
        if let Some(b) = &l.bad {
            verify!("P06", false, b);
        }
        verify!("P06", !trapped || !l.unusable.is_empty(), "the reimbursement task trapped");
        let s = state();
        let w = &s.withdrawal_transactions;
        for (key, ledger, owner, sub, amt, burn_block) in &want {
            let idx = |i: &ReimbursementIndex| match i {
                ReimbursementIndex::Native { ledger_burn_index } => ledger_burn_index.get() == *key,
                ReimbursementIndex::Erc20 { native_ledger_burn_index, .. } => native_ledger_burn_index.get() == *key,
            };
            let open = w.reimbursement_requests_iter().filter(|(i, _)| idx(i)).count();
            let closed: Vec<_> = w.reimbursed_transactions_iter().filter(|(i, _)| idx(i)).collect();
            let minted = l.minted.get(key).copied().unwrap_or(0);
            verify!("P06", minted <= 1, "reimbursed twice");
            verify!("P06", open + closed.len() == 1, "a reimbursement is lost, or is both open and closed");
            verify!("P06", (open == 1) == (minted == 0), "an unpaid reimbursement was closed, or a paid one is still open");
            if let Some((_, c)) = closed.first() {
                if l.unusable.contains(key) {
                    cover("quarantined");
                    verify!("P06", matches!(c, Err(ReimbursedError::Quarantined)), "an unclear reimbursement was not quarantined");
                } else {
                    cover("paid");
                    if *key == 12 {
                        cover("fee refund paid");
                    }
                    let Ok(d) = c else {
                        verify!("P06", false, "a paid reimbursement is not recorded as paid");
                        return;
                    };
                    verify!("P06", d.reimbursed_in_block.get() == 700 + *key && big(d.reimbursed_amount) == *amt && d.burn_in_block.get() == *burn_block
                        && d.transaction_hash == hashes.get(&burn(*key)).copied(), "the record of a reimbursement is wrong");
                }
            } else if l.attempted.get(key).copied().unwrap_or(0) > 0 {
                cover("retried");
            }
            // no request blocks the others: everything open was tried, unless the run trapped
            if !trapped {
                let was_open = before.iter().any(|i| idx(i));
                verify!("P06", !was_open || open == 0 || l.attempted.get(key).copied().unwrap_or(0) >= 1, "an open reimbursement was skipped");
            }
        }
        if symx::active("P23") {
            for (key, _, _, _, amt, _) in &want {
                let st = w.transaction_status(&burn(*key));
                let hash = hashes.get(&burn(*key)).map(|h| h.to_string());
                let paid = l.minted.get(key).copied().unwrap_or(0) == 1 && !l.unusable.contains(key);
                let ok = match &st {
                    RetrieveWithdrawalStatus::TxFinalized(TxFinalizedStatus::Reimbursed { transaction_hash, reimbursed_amount, reimbursed_in_block }) => {
                        paid && Some(transaction_hash) == hash.as_ref() && reimbursed_amount.0 == *amt && reimbursed_in_block.0 == n(700 + *key)
                    }
                    RetrieveWithdrawalStatus::TxFinalized(TxFinalizedStatus::PendingReimbursement(t)) => !paid && Some(&t.transaction_hash) == hash.as_ref(),
                    RetrieveWithdrawalStatus::NotFound => hash.is_none(),
                    _ => false,
                };
                verify!("P23", ok, "the reported status of a failed withdrawal is not the stage its reimbursement is in");
            }
            let requests: BTreeMap<_, _> = [(burn(10), WithdrawalRequest::Native(rn.clone())), (burn(11), WithdrawalRequest::Erc20(re.clone()))].into_iter().collect();
            details(&requests, &tx_amounts);
        }
        drop(l);
        if r == 1 {
            replay_check();
        }
    }
    done();
}
