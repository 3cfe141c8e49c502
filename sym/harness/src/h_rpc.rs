//! What the minter asks the EVM RPC canister, how it pays, and what it believes of the answers; fee estimates.
use crate::common::*;
use crate::h_tx::NETS;
use crate::minter_main::verif_main_probe as ep;
use crate::world::*;
use candid::{CandidType, Nat, Principal};
use evm_minter::endpoints::Eip1559TransactionPriceArg;
use evm_minter::eth_types::Address;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::numeric::*;
use evm_minter::rpc_client::*;
use evm_minter::rpc_declrations as decl;
use evm_minter::rpc_declrations::{BlockSpec, BlockTag, FeeHistoryParams, FixedSizeData, GetLogsParam, Hash, SendRawTransactionResult, Topic, TransactionStatus};
use evm_minter::tx::*;
use evm_rpc_types as rpc;
use evm_rpc_types::{Hex, Hex20, Hex256, Hex32, MultiRpcResult, Nat256, RpcError};
use ic_cdk::api::call::RejectionCode;
use num_bigint::BigUint;
use std::cell::RefCell;
use std::rc::Rc;

const R_FUNCS: &str = "RpcClient::*, ReducedResult::{from_multi_result,map_reduce,reduce_with_equality,reduce_with_min_by_key,reduce_with_strict_majority_by_key,reduce_with_only_one_key}, MultiCallError::{at_least_one_ok,at_least_two_ok,has_http_outcall_error_matching}, is_response_too_large, EvmRpcClient::call_internal";
const R_BOUNDS: &str = "one request; an agreed answer, an agreed error of any kind, or zero to three diverging answers of one provider each (a value or an error of any kind); numbers symbolic over 256 bits, hashes and bytes from two values each";

pub fn harnesses() -> Vec<Harness> {
    let h = |name, run, covers| Harness { name, props: &["P14"], tier: "quick", run, covers, bounds: R_BOUNDS, functions: R_FUNCS, workers: 2 };
    vec![
        h("rpc_block", rpc_block, &["accepted", "majority of one refused", "disagreement", "agreed error", "rejected", "diverging accepted"] as &'static [&'static str]),
        h("rpc_receipt", rpc_receipt, &["accepted", "absent", "invalid status", "disagreement", "diverging accepted"]),
        h("rpc_logs", rpc_logs, &["accepted", "disagreement", "too large", "diverging accepted"]),
        h("rpc_counts", rpc_counts, &["accepted", "disagreement", "smallest"]),
        h("rpc_fees", rpc_fees, &["accepted", "majority", "tie", "conflict", "too few"]),
        h("rpc_send", rpc_send, &["accepted", "refused"]),
        Harness {
            name: "rpc_requests",
            props: &["P14"],
            tier: "quick",
            run: rpc_requests,
            covers: &["block", "receipt", "logs", "count", "fees", "send"],
            bounds: "every kind of request, all ten networks, the three provider selections, symbolic block numbers, one or two addresses and topics",
            functions: "RpcClient::*, get_providers, get_one_provider_ankr, get_one_provider_public_node, into_evm_block_tag, into_evm_topic, EvmNetwork::chain_id",
            workers: 2,
        },
        Harness {
            name: "fee_estimate",
            props: &["P21"],
            tier: "quick",
            run: fee_estimate,
            covers: &["estimated", "no base fee", "no reward", "overflow", "floor", "median"],
            bounds: "fee history with up to three base fees and up to four rewards in up to two blocks, all values and the configured floor symbolic over 256 bits",
            functions: "estimate_transaction_fee, median, GasFeeEstimate::checked_estimate_max_fee_per_gas, CheckedAmountOf arithmetic and order",
            workers: 4,
        },
        Harness {
            name: "fee_cache",
            props: &["P21"],
            tier: "quick",
            run: fee_cache,
            covers: &["fresh", "stale", "failed refresh", "refreshed", "shared", "never estimated"],
            bounds: "three consecutive requests for an estimate at distances 0, 1 ns, 30 s minus 1 ns, 30 s, 30 s plus 1 ns or a day, each refresh answered by symbolic fees or by any failure; a second request while one is being answered",
            functions: "lazy_refresh_gas_fee_estimate, TimerGuard, RpcClient::fee_history, estimate_transaction_fee",
            workers: 4,
        },
        Harness {
            name: "fee_price",
            props: &["P21"],
            tier: "quick",
            run: fee_price,
            covers: &["native", "erc20", "unknown ledger", "no estimate", "capped"],
            bounds: "the price query for no ledger, the native ledger, a supported and an unsupported token ledger; both fees symbolic over 256 bits; with and without an estimate",
            functions: "eip_1559_transaction_price, GasFeeEstimate::{to_price,estimate_max_fee_per_gas}, TransactionPrice::max_transaction_fee, get_minter_info",
            workers: 1,
        },
        Harness {
            name: "rpc_cycles",
            props: &["P17"],
            tier: "quick",
            run: rpc_cycles,
            covers: &["first time", "retried", "gave up", "raised to the demand", "doubled", "other failure"],
            bounds: "one request; up to twelve answers, each a value, an error of any other kind, a rejection or a demand for more cycles (agreed, or from one of up to two providers); demands below, at and above twice what was paid, and the largest 128-bit number",
            functions: "EvmRpcClient::call_internal, max_expected_too_few_cycles_error, multi_rpc_result_iter, RpcClient::from_state_*",
            workers: 2,
        },
    ]
}

// ------------------------------------------------------------------------------------------------- P14

fn err(kind: usize) -> RpcError {
    match kind {
        0 => http_err(true),
        1 => http_err(false),
        2 => RpcError::JsonRpcError(rpc::JsonRpcError { code: -32000, message: "size limit".into() }),
        3 => RpcError::ProviderError(rpc::ProviderError::NoPermission),
        4 => RpcError::ValidationError(rpc::ValidationError::Custom("size limit".into())),
        _ => RpcError::HttpOutcallError(rpc::HttpOutcallError::InvalidHttpJsonRpcResponse { status: 500, body: "size limit".into(), parsing_error: None }),
    }
}
/// The answer to one request.
struct Answer<T> {
    agreed: bool,
    rejected: bool,
    each: Vec<Result<T, usize>>,
}
impl<T> Answer<T> {
    fn oks(&self) -> Vec<&T> {
        self.each.iter().filter_map(|r| r.as_ref().ok()).collect()
    }
    fn too_large(&self) -> bool {
        self.each.iter().any(|r| matches!(r, Err(0)))
    }
}
/// Choose an answer and have the EVM RPC canister give it. Every value is made by `value(provider)`.
fn answer<T: CandidType + Clone + 'static>(value: impl Fn(usize) -> T) -> Rc<Answer<T>> {
    let shape = choose("answer", 6);
    let a = match shape {
        0 => Answer { agreed: true, rejected: false, each: vec![Ok(value(0))] },
        1 => Answer { agreed: true, rejected: false, each: vec![Err(choose("error", 6))] },
        2 => Answer { agreed: true, rejected: true, each: vec![Err(if flag("rejected for its size") { 0 } else { 1 })] },
        k => {
            let each = (0..k - 2).map(|i| if flag(&format!("ok{i}")) { Ok(value(i)) } else { Err([0, 2, 3][choose(&format!("error{i}"), 3)]) }).collect();
            Answer { agreed: false, rejected: false, each }
        }
    };
    let a = Rc::new(a);
    let b = a.clone();
    handle(move |c| {
        if !c.method.starts_with("eth_") {
            return None;
        }
        let map = |r: &Result<T, usize>| r.clone().map_err(err);
        Some(if b.rejected {
            Err(if b.each[0].as_ref().err() == Some(&0) {
                (RejectionCode::SysFatal, "Http body exceeds size limit of 2000000 bytes.".to_string())
            } else {
                (RejectionCode::SysTransient, "busy".to_string())
            })
        } else if b.agreed {
            reply((MultiRpcResult::Consistent(map(&b.each[0])),))
        } else {
            reply((MultiRpcResult::Inconsistent(b.each.iter().enumerate().map(|(i, r)| (service(i), map(r))).collect::<Vec<_>>()),))
        })
    });
    a
}
fn all_client() -> RpcClient {
    read_state(RpcClient::from_state_all_providers)
}
fn covers<T>(a: &Answer<T>, accepted: bool) {
    if a.rejected {
        cover("rejected");
    } else if a.agreed && a.each[0].is_err() {
        cover("agreed error");
    } else if accepted {
        cover("accepted");
        if !a.agreed {
            cover("diverging accepted");
        }
    } else if a.oks().len() == 1 {
        cover("majority of one refused");
    } else if a.oks().len() > 1 {
        cover("disagreement");
    }
}
/// An answer that must be the same for everybody: agreed, or given by at least two providers and contradicted by none.
fn expected<'a, T>(a: &'a Answer<T>, same: impl Fn(&T, &T) -> bool) -> Option<&'a T> {
    let oks = a.oks();
    if a.agreed {
        return oks.first().copied();
    }
    if oks.len() >= 2 && oks[1..].iter().all(|x| same(oks[0], x)) {
        Some(oks[0])
    } else {
        None
    }
}
fn size_errors<T: Clone, U>(a: &Answer<U>, e: &MultiCallError<T>) {
    verify!(
        "P14",
        e.has_http_outcall_error_matching(is_response_too_large) == a.too_large(),
        "an answer refused for its size is not recognised, or another one is taken for it"
    );
}
fn h32(x: u8) -> Hex32 {
    Hex32::from([x; 32])
}

fn rpc_block() {
    let v = |i: usize| {
        let mut b = block(&nat(&format!("number{i}"), 256));
        b.base_fee_per_gas = Some(nat256(&nat(&format!("base fee{i}"), 256)));
        if i > 0 && flag(&format!("fork{i}")) {
            b.hash = h32(9);
        }
        b
    };
    let a = answer(v);
    install(init_arg(EvmNetwork::Ethereum));
    let got = sim::block_on(async move { all_client().get_block_by_number(BlockSpec::Tag(BlockTag::Latest)).await }).unwrap();
    let want = expected(&a, |x: &rpc::Block, y| x.hash == y.hash && x.number == y.number && x.base_fee_per_gas == y.base_fee_per_gas);
    covers(&a, got.is_ok());
    verify!("P14", got.is_ok() == want.is_some(), "a block is accepted although the providers contradict each other or fewer than two answered, or is refused although they agree");
    match (got, want) {
        (Ok(g), Some(w)) => {
            verify!("P14", big(g.number) == *b256(&w.number), "the block has another number than the providers reported");
            verify!("P14", big(g.base_fee_per_gas) == *b256(w.base_fee_per_gas.as_ref().unwrap()), "the block has another base fee than the providers reported");
        }
        _ => {}
    }
    done();
}
fn b256(x: &Nat256) -> &BigUint {
    &x.as_ref().0
}

fn rpc_receipt() {
    const STATUS: [Option<u64>; 6] = [Some(0), Some(1), Some(2), Some(256), Some(257), None];
    let v = |i: usize| {
        if i == 0 && flag("unknown0") || i > 0 && flag(&format!("unknown{i}")) {
            return None;
        }
        // the diverging answers take their status from the two ordinary values
        let status = STATUS[if i == 0 { choose("status0", 6) } else { choose(&format!("status{i}"), 2) }];
        Some(rpc::TransactionReceipt {
            block_hash: h32(3),
            block_number: nat256(&nat(&format!("block{i}"), 256)),
            effective_gas_price: nat256(&nat(&format!("price{i}"), 256)),
            gas_used: nat256(&nat(&format!("gas{i}"), 256)),
            status: status.map(Nat256::from),
            transaction_hash: h32(if i > 0 && flag(&format!("other hash{i}")) { 5 } else { 4 }),
            contract_address: None,
            from: Hex20::from([1; 20]),
            logs: vec![],
            logs_bloom: Hex256::from([0; 256]),
            to: None,
            transaction_index: Nat256::from(0u8),
            tx_type: rpc::HexByte::from(2),
        })
    };
    let a = answer(v);
    install(init_arg(EvmNetwork::Ethereum));
    let got = sim::block_on(async move { all_client().get_transaction_receipt(Hash([4; 32])).await }).unwrap();
    let want = expected(&a, |x: &Option<rpc::TransactionReceipt>, y| match (x, y) {
        (None, None) => true,
        (Some(x), Some(y)) => {
            x.transaction_hash == y.transaction_hash && x.status == y.status && x.block_number == y.block_number && x.effective_gas_price == y.effective_gas_price && x.gas_used == y.gas_used
        }
        _ => false,
    });
    let valid = match want {
        Some(Some(r)) => matches!(r.status.as_ref().map(|s| b256(s).clone()), Some(s) if s == n(0) || s == n(1)),
        Some(None) => true,
        None => false,
    };
    covers(&a, got.is_ok());
    if want.is_some() && !valid {
        cover("invalid status");
    }
    verify!("P14", got.is_ok() == valid, "a receipt is accepted although the providers contradict each other, fewer than two answered or its status is neither success nor failure; or a good one is refused");
    match (got, want) {
        (Ok(g), Some(w)) => {
            if w.is_none() {
                cover("absent");
            }
            verify!("P14", g.is_some() == w.is_some(), "a receipt appears or disappears");
            if let (Some(g), Some(w)) = (g, w) {
                verify!("P14", big(g.block_number) == *b256(&w.block_number), "the receipt has another block number");
                verify!("P14", big(g.effective_gas_price) == *b256(&w.effective_gas_price), "the receipt has another gas price");
                verify!("P14", big(g.gas_used) == *b256(&w.gas_used), "the receipt has another amount of gas");
                verify!("P14", Hex32::from(g.transaction_hash.0) == w.transaction_hash && g.block_hash.0 == [3; 32], "the receipt has another hash");
                verify!("P14", (g.status == TransactionStatus::Success) == (*b256(w.status.as_ref().unwrap()) == n(1)), "the receipt's status is inverted");
            }
        }
        _ => {}
    }
    done();
}

fn rpc_logs() {
    let v = |i: usize| {
        let k = if i == 0 { choose("logs", 3) } else { [0, 1, 2][choose(&format!("logs{i}"), 3)] };
        (0..k)
            .map(|j| rpc::LogEntry {
                address: Hex20::from([0xbb; 20]),
                topics: vec![h32(7), h32(8)],
                data: Hex::from(vec![1u8, if i > 0 && j == 0 && flag(&format!("other data{i}")) { 3 } else { 2 }]),
                block_number: if i == 0 && j == 1 { None } else { Some(nat256(&nat(&format!("block{i}.{j}"), 256))) },
                transaction_hash: Some(h32(4)),
                transaction_index: Some(Nat256::from(3u8)),
                block_hash: Some(h32(6)),
                log_index: Some(nat256(&nat(&format!("index{i}.{j}"), 256))),
                removed: i > 0 && j == 0 && flag(&format!("removed{i}")),
            })
            .collect::<Vec<_>>()
    };
    let a = answer(v);
    install(init_arg(EvmNetwork::Ethereum));
    let p = GetLogsParam { from_block: BlockSpec::Number(1u64.into()), to_block: BlockSpec::Number(2u64.into()), address: vec![helper()], topics: vec![] };
    let got = sim::block_on(async move { all_client().get_logs(p).await }).unwrap();
    let same = |x: &rpc::LogEntry, y: &rpc::LogEntry| x.data == y.data && x.removed == y.removed && x.block_number == y.block_number && x.log_index == y.log_index;
    let want = expected(&a, |x: &Vec<rpc::LogEntry>, y| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)));
    covers(&a, got.is_ok());
    if a.too_large() {
        cover("too large");
    }
    verify!("P14", got.is_ok() == want.is_some(), "logs are accepted although the providers contradict each other or fewer than two answered, or are refused although they agree");
    match (got, want) {
        (Ok(g), Some(w)) => {
            verify!("P14", g.len() == w.len(), "logs appear or disappear");
            for (g, w) in g.iter().zip(w) {
                let o = |x: &Option<Nat256>| x.as_ref().map(|x| b256(x).clone());
                verify!("P14", g.block_number.map(big) == o(&w.block_number) && g.log_index.map(big) == o(&w.log_index), "a log is moved to another block or index");
                verify!("P14", g.transaction_hash.map(|h| h.0) == Some([4; 32]), "a log is moved to another transaction");
                verify!("P14", g.address == helper() && g.topics == vec![FixedSizeData([7; 32]), FixedSizeData([8; 32])], "a log has another emitter or other topics");
                verify!("P14", Hex::from(g.data.0.clone()) == w.data && g.removed == w.removed, "a log has other data, or its removal is ignored");
            }
        }
        (Err(e), _) => size_errors(&a, &e),
        _ => {}
    }
    done();
}

fn rpc_counts() {
    let a = answer(|i| nat256(&nat(&format!("count{i}"), 256)));
    install(init_arg(EvmNetwork::Ethereum));
    let latest = flag("latest");
    let got = sim::block_on(async move {
        let c = all_client();
        if latest {
            c.get_latest_transaction_count(addr(1)).await
        } else {
            c.get_finalized_transaction_count(addr(1)).await
        }
    })
    .unwrap();
    let values: Vec<BigUint> = a.oks().into_iter().map(|x| b256(x).clone()).collect();
    covers(&a, got.is_ok());
    if latest {
        let enough = if a.agreed { values.len() == 1 } else { values.len() >= 2 };
        verify!("P14", got.is_ok() == enough, "a count is accepted from fewer than two providers, or refused although enough answered");
        if let (Ok(g), true) = (&got, enough) {
            let least = values.into_iter().reduce(min_of).unwrap();
            if !a.agreed {
                cover("smallest");
            }
            verify!("P14", big(*g) == least, "the count of sent transactions is not the smallest one reported");
        }
    } else {
        let want = expected(&a, |x: &Nat256, y| x == y);
        verify!("P14", got.is_ok() == want.is_some(), "a count of finalized transactions is accepted although the providers contradict each other or fewer than two answered, or is refused although they agree");
        if let (Ok(g), Some(w)) = (&got, want) {
            verify!("P14", big(*g) == *b256(w), "the count of finalized transactions is not the one reported");
        }
    }
    done();
}

fn rpc_fees() {
    let v = |i: usize| {
        if flag(&format!("none{i}")) {
            return None;
        }
        Some(rpc::FeeHistory {
            oldest_block: nat256(&nat(&format!("oldest{i}"), 256)),
            base_fee_per_gas: vec![nat256(&nat(&format!("base{i}"), 256)), Nat256::from(3u8)],
            gas_used_ratio: vec![0.5],
            reward: vec![vec![nat256(&nat(&format!("reward{i}"), 256))]],
        })
    };
    let a = answer(v);
    install(init_arg(EvmNetwork::Ethereum));
    let p = FeeHistoryParams { block_count: 5u8.into(), highest_block: BlockSpec::Tag(BlockTag::Latest), reward_percentiles: vec![20] };
    let got = sim::block_on(async move { all_client().fee_history(p).await }).unwrap();
    let some: Vec<&rpc::FeeHistory> = a.oks().into_iter().filter_map(|x| x.as_ref()).collect();
    let same = |x: &rpc::FeeHistory, y: &rpc::FeeHistory| x.oldest_block == y.oldest_block && x.base_fee_per_gas == y.base_fee_per_gas && x.reward == y.reward;
    let want: Option<&rpc::FeeHistory> = if a.agreed {
        some.first().copied()
    } else if some.len() < 2 {
        cover("too few");
        None
    } else {
        let mut conflict = false;
        let mut votes = vec![0usize; some.len()];
        for i in 0..some.len() {
            for j in 0..some.len() {
                if some[i].oldest_block == some[j].oldest_block {
                    votes[i] += 1;
                    conflict |= !same(some[i], some[j]);
                }
            }
        }
        let best = (0..some.len()).max_by_key(|i| votes[*i]).unwrap();
        let rival = (0..some.len()).any(|i| votes[i] == votes[best] && some[i].oldest_block != some[best].oldest_block);
        if conflict {
            cover("conflict");
            None
        } else if rival {
            cover("tie");
            None
        } else {
            cover("majority");
            Some(some[best])
        }
    };
    covers(&a, got.is_ok());
    verify!("P14", got.is_ok() == want.is_some(), "a fee history is accepted without a majority, or in spite of a contradiction about the same blocks, or refused although there is a majority");
    match (got, want) {
        (Ok(g), Some(w)) => {
            verify!("P14", big(g.oldest_block) == *b256(&w.oldest_block), "the fee history is not the majority's");
            verify!("P14", g.base_fee_per_gas.iter().map(|x| big(*x)).collect::<Vec<_>>() == w.base_fee_per_gas.iter().map(|x| b256(x).clone()).collect::<Vec<_>>(), "the base fees are not the majority's");
            verify!("P14", g.reward.iter().flatten().map(|x| big(*x)).collect::<Vec<_>>() == w.reward.iter().flatten().map(|x| b256(x).clone()).collect::<Vec<_>>(), "the rewards are not the majority's");
        }
        _ => {}
    }
    done();
}

fn rpc_send() {
    use rpc::SendRawTransactionStatus as S;
    let all = || [S::Ok(None), S::Ok(Some(h32(1))), S::InsufficientFunds, S::NonceTooLow, S::NonceTooHigh];
    let a = answer(move |i| all()[choose(&format!("status{i}"), 5)].clone());
    install(init_arg(EvmNetwork::Ethereum));
    let got = sim::block_on(async move { all_client().send_raw_transaction("0x02".into()).await }).unwrap();
    verify!("P14", got.is_ok() == !a.oks().is_empty(), "a transaction counts as answered although no provider answered, or as unanswered although one did");
    cover(if got.is_ok() { "accepted" } else { "refused" });
    match got {
        Ok(g) => {
            let m = |s: &S| match s {
                S::Ok(_) => SendRawTransactionResult::Ok,
                S::InsufficientFunds => SendRawTransactionResult::InsufficientFunds,
                S::NonceTooLow => SendRawTransactionResult::NonceTooLow,
                S::NonceTooHigh => SendRawTransactionResult::NonceTooHigh,
            };
            verify!("P14", a.oks().into_iter().any(|s| m(s) == g), "no provider gave this answer to the transaction");
        }
        Err(_) => {}
    }
    done();
}

/// What distinguishes the endpoints of one network from those of another.
const MARKS: [&[&str]; 10] = [
    &["/eth", "eth.", "ethereum-rpc"],
    &["sepolia"],
    &["arbitrum"],
    &["/bsc", "bsc-rpc", "binance", "bsc.", "bnb"],
    &["testnet", "chapel"],
    &["polygon"],
    &["optimism"],
    &["base"],
    &["avalanche", "avax"],
    &["fantom", "ftm"],
];
fn rpc_requests() {
    handle(|_| None);
    let k = choose("network", NETS.len());
    let (net, chain) = NETS[k];
    install(init_arg(net));
    let sel = choose("selection", 3);
    let client = move || match sel {
        0 => read_state(RpcClient::from_state_all_providers),
        1 => read_state(RpcClient::from_state_one_provider_public_node),
        _ => read_state(RpcClient::from_state_one_provider_ankr),
    };
    let spec = |name: &str| match choose(name, 4) {
        0 => (BlockSpec::Tag(BlockTag::Latest), None),
        1 => (BlockSpec::Tag(BlockTag::Safe), None),
        2 => (BlockSpec::Tag(BlockTag::Finalized), None),
        _ => {
            let x = amt::<BlockNumberTag>(name, 256);
            (BlockSpec::Number(x), Some(big(x)))
        }
    };
    let same_tag = |t: &rpc::BlockTag, s: &BlockSpec, x: &Option<BigUint>| match (t, s) {
        (rpc::BlockTag::Latest, BlockSpec::Tag(BlockTag::Latest)) => true,
        (rpc::BlockTag::Safe, BlockSpec::Tag(BlockTag::Safe)) => true,
        (rpc::BlockTag::Finalized, BlockSpec::Tag(BlockTag::Finalized)) => true,
        (rpc::BlockTag::Number(m), BlockSpec::Number(_)) => Some(b256(m)) == x.as_ref(),
        _ => false,
    };
    type A<T> = (rpc::RpcServices, Option<rpc::RpcConfig>, T);
    let call = |method: &str| {
        let s = seen();
        verify!("P14", s.len() == 1 && s[0].method == method, "not exactly one request of the expected kind is made");
        s[0].clone()
    };
    let services;
    let callee;
    match choose("request", 7) {
        0 => {
            let (s, x) = spec("block");
            let ask = s.clone();
            let _ = sim::block_on(async move { client().get_block_by_number(ask).await });
            let c = call("eth_getBlockByNumber");
            let (p, _, t): A<rpc::BlockTag> = args(&c);
            verify!("P14", same_tag(&t, &s, &x), "another block is asked for");
            cover("block");
            (services, callee) = (p, c.callee);
        }
        1 => {
            let _ = sim::block_on(async move { client().get_transaction_receipt(Hash([0xab; 32])).await });
            let c = call("eth_getTransactionReceipt");
            let (p, _, h): A<String> = args(&c);
            verify!("P14", h == format!("0x{}", "ab".repeat(32)), "the receipt of another transaction is asked for");
            cover("receipt");
            (services, callee) = (p, c.callee);
        }
        2 => {
            let (f, x) = spec("from");
            let (t, y) = spec("to");
            let two = flag("two addresses");
            let address = if two { vec![addr(1), addr(2)] } else { vec![addr(1)] };
            let d = |x: u8| FixedSizeData([x; 32]);
            let topics = match choose("topics", 3) {
                0 => vec![],
                1 => vec![Topic::Single(d(1)), Topic::Single(d(2))],
                _ => vec![Topic::Multiple(vec![d(1), d(2)]), Topic::Single(d(3))],
            };
            let want: Vec<Vec<Hex32>> = match topics.len() {
                0 => vec![],
                _ => topics
                    .iter()
                    .map(|t| match t {
                        Topic::Single(s) => vec![Hex32::from(s.0)],
                        Topic::Multiple(m) => m.iter().map(|s| Hex32::from(s.0)).collect(),
                    })
                    .collect(),
            };
            let p = GetLogsParam { from_block: f.clone(), to_block: t.clone(), address: address.clone(), topics };
            let _ = sim::block_on(async move { client().get_logs(p).await });
            let c = call("eth_getLogs");
            let (p, _, g): A<rpc::GetLogsArgs> = args(&c);
            verify!("P14", same_tag(g.from_block.as_ref().unwrap(), &f, &x) && same_tag(g.to_block.as_ref().unwrap(), &t, &y), "the logs of other blocks are asked for");
            verify!("P14", g.addresses == address.iter().map(|a| Hex20::from(a.into_bytes())).collect::<Vec<_>>(), "the logs of other contracts are asked for");
            verify!("P14", g.topics.clone().unwrap_or_default() == want, "other topics are asked for");
            cover("logs");
            (services, callee) = (p, c.callee);
        }
        r @ (3 | 4) => {
            let _ = sim::block_on(async move {
                let c = client();
                if r == 3 {
                    c.get_latest_transaction_count(addr(0x44)).await
                } else {
                    c.get_finalized_transaction_count(addr(0x44)).await
                }
            });
            let c = call("eth_getTransactionCount");
            let (p, _, g): A<rpc::GetTransactionCountArgs> = args(&c);
            verify!("P14", g.address == Hex20::from([0x44; 20]), "the transactions of another account are counted");
            verify!("P14", g.block == if r == 3 { rpc::BlockTag::Latest } else { rpc::BlockTag::Finalized }, "transactions are counted at another block");
            cover("count");
            (services, callee) = (p, c.callee);
        }
        5 => {
            let (s, x) = spec("newest");
            let p = FeeHistoryParams { block_count: 5u8.into(), highest_block: s.clone(), reward_percentiles: vec![20, 30] };
            let _ = sim::block_on(async move { client().fee_history(p).await });
            let c = call("eth_feeHistory");
            let (p, _, g): A<rpc::FeeHistoryArgs> = args(&c);
            verify!("P14", g.block_count == Nat256::from(5u8) && same_tag(&g.newest_block, &s, &x), "the fees of other blocks are asked for");
            verify!("P14", g.reward_percentiles == Some(vec![20, 30]), "other percentiles are asked for");
            cover("fees");
            (services, callee) = (p, c.callee);
        }
        _ => {
            let _ = sim::block_on(async move { client().send_raw_transaction("0x02abcd".into()).await });
            let c = call("eth_sendRawTransaction");
            let (p, _, h): A<String> = args(&c);
            verify!("P14", h == "0x02abcd", "another transaction is sent");
            cover("send");
            (services, callee) = (p, c.callee);
        }
    }
    verify!("P14", callee == read_state(|s| s.evm_canister_id), "the request goes to another canister");
    match services {
        rpc::RpcServices::Custom { chain_id, services } => {
            verify!("P14", chain_id == chain, "the request is made for another network");
            let mut hosts: Vec<String> = services.iter().map(|s| s.url.split('/').nth(2).unwrap_or("").to_string()).collect();
            hosts.sort();
            hosts.dedup();
            verify!("P14", hosts.len() == services.len(), "one provider is asked twice");
            verify!("P14", if sel == 0 { hosts.len() >= 2 } else { hosts.len() == 1 }, "the request goes to fewer than two independent providers");
            for s in &services {
                // the longest mark decides, so that e.g. "ethereum-sepolia" is Sepolia
                let found: Vec<usize> = (0..10).filter(|i| MARKS[*i].iter().any(|m| s.url.contains(m))).collect();
                let found = match &found[..] {
                    [0, 1] => vec![1],
                    [3, 4] => vec![4],
                    f => f.to_vec(),
                };
                verify!("P14", found == vec![k], "a provider's endpoint belongs to another network");
                verify!("P14", s.url.starts_with("https://"), "a provider is asked over an insecure connection");
            }
        }
        _ => verify!("P14", false, "the request is made for another network"),
    }
    done();
}

// ------------------------------------------------------------------------------------------------- P17

fn rpc_cycles() {
    const START: u128 = 30_000_000_000;
    // what each answer is: 0 a value, 1 another error, 2 a rejection, 3 an agreed demand, 4 a demand of one of two providers,
    // 5 demands of both
    let script: Rc<RefCell<Vec<(usize, u128)>>> = shared(vec![]);
    let then = choose("then", 3); // from the third answer on: a value, a demand below the payment, a demand of one of two
    let s2 = script.clone();
    handle(move |c| {
        if c.method != "eth_getTransactionCount" {
            return None;
        }
        let mut s = s2.borrow_mut();
        let i = s.len();
        let kind = if i < 2 { choose(&format!("answer{i}"), 6) } else { [0, 3, 4][then] };
        let demand = if i < 2 && kind >= 3 {
            match choose(&format!("demand{i}"), 5) {
                0 => c.cycles,
                1 => c.cycles.saturating_mul(2),
                2 => c.cycles.saturating_mul(2).saturating_add(1),
                3 => u128::MAX,
                _ => 1,
            }
        } else {
            c.cycles
        };
        s.push((kind, demand));
        let few = |expected: u128| RpcError::ProviderError(rpc::ProviderError::TooFewCycles { expected, received: 0 });
        let v = || Ok::<Nat256, RpcError>(Nat256::from(7u8));
        Some(match kind {
            0 => reply((MultiRpcResult::Consistent(v()),)),
            1 => reply((MultiRpcResult::<Nat256>::Consistent(Err(err(choose(&format!("error{i}"), 6)))),)),
            2 => rejected(),
            3 => reply((MultiRpcResult::<Nat256>::Consistent(Err(few(demand))),)),
            4 => {
                let (a, b) = (Err(few(demand)), v());
                let l = if (i >= 2 || flag(&format!("first{i}"))) { vec![(service(0), a), (service(1), b)] } else { vec![(service(0), b), (service(1), a)] };
                reply((MultiRpcResult::Inconsistent(l),))
            }
            _ => {
                let (a, b) = (Err(few(demand)), Err(few(demand / 2)));
                let l = if (i >= 2 || flag(&format!("first{i}"))) { vec![(service(0), a), (service(1), b)] } else { vec![(service(0), b), (service(1), a)] };
                reply((MultiRpcResult::<Nat256>::Inconsistent(l),))
            }
        })
    });
    install(init_arg(EvmNetwork::Ethereum));
    let sel = choose("selection", 3);
    let got = sim::block_on(async move {
        let c = match sel {
            0 => read_state(RpcClient::from_state_all_providers),
            1 => read_state(RpcClient::from_state_one_provider_public_node),
            _ => read_state(RpcClient::from_state_one_provider_ankr),
        };
        c.get_latest_transaction_count(addr(1)).await
    })
    .unwrap();
    let calls = seen();
    let script = script.borrow();
    verify!("P17", calls.iter().all(|c| c.method == "eth_getTransactionCount" && c.args == calls[0].args && c.callee == calls[0].callee), "a retry is another request");
    verify!("P17", !calls.is_empty() && calls[0].cycles == START, "the first attempt is paid with another amount");
    let mut pay = START;
    for (i, (kind, demand)) in script.iter().enumerate() {
        verify!("P17", calls[i].cycles == pay, "an attempt is not paid with the double of the previous one, or with what was demanded when that is more");
        let last = i + 1 == script.len();
        let again = *kind >= 3 && i < 10;
        verify!("P17", last != again, "a request is repeated although nobody asked for more cycles or ten retries were made, or not repeated although somebody did");
        if again {
            cover("retried");
            cover(if *demand > pay.saturating_mul(2) { "raised to the demand" } else { "doubled" });
        }
        pay = pay.saturating_mul(2).max(*demand);
    }
    verify!("P17", calls.len() == script.len() && calls.len() <= 11, "more than ten retries");
    let (kind, _) = *script.last().unwrap();
    verify!("P17", got.is_ok() == (kind == 0), "the last answer is not the one that is returned");
    match kind {
        0 if calls.len() == 1 => cover("first time"),
        1 | 2 => cover("other failure"),
        3 | 4 if calls.len() == 11 => cover("gave up"),
        _ => {}
    }
    done();
}

// ------------------------------------------------------------------------------------------------- P21

fn floor_arg(net: EvmNetwork, floor: &BigUint) -> evm_minter::lifecycle::InitArg {
    let mut a = init_arg(net);
    a.min_max_priority_fee_per_gas = Nat::from(floor.clone());
    a
}
/// Median as the code defines it: the element at position len/2 of the sorted rewards.
fn is_median(v: &[BigUint], m: &BigUint) -> bool {
    let below = v.iter().filter(|x| *x < m).count();
    let at_most = v.iter().filter(|x| *x <= m).count();
    let k = v.len() / 2;
    below <= k && k < at_most
}
fn fee_estimate() {
    handle(|_| None);
    let floor = nat("floor", 256);
    install(floor_arg(EvmNetwork::Base, &floor));
    let bases: Vec<BigUint> = (0..[0, 1, 3][choose("bases", 3)]).map(|i| nat(&format!("base{i}"), 256)).collect();
    let rewards: Vec<BigUint> = (0..choose("rewards", 5)).map(|i| nat(&format!("reward{i}"), 256)).collect();
    let split = if flag("split") { rewards.len() / 2 } else { rewards.len() };
    let h = decl::FeeHistory {
        oldest_block: 5u64.into(),
        base_fee_per_gas: bases.iter().map(to_amt).collect(),
        reward: vec![rewards[..split].iter().map(to_amt).collect(), rewards[split..].iter().map(to_amt).collect()],
    };
    let got = estimate_transaction_fee(&h);
    if bases.is_empty() || rewards.is_empty() {
        cover(if bases.is_empty() { "no base fee" } else { "no reward" });
        verify!("P21", got.is_err(), "an estimate is made from an empty fee history");
        return done();
    }
    let base = bases.last().unwrap();
    match got {
        Ok(e) => {
            cover("estimated");
            let tip = big(e.max_priority_fee_per_gas);
            verify!("P21", big(e.base_fee_per_gas) == *base, "the base fee is not that of the next block");
            verify!("P21", tip >= floor, "the tip is below the configured floor");
            if tip == floor {
                cover("floor");
                // the median is at most the floor: more than half of the rewards (from the middle down) are
                verify!("P21", rewards.iter().filter(|x| **x <= floor).count() > rewards.len() / 2, "the tip is the floor although the usual tip is higher");
            } else {
                cover("median");
                verify!("P21", is_median(&rewards, &tip), "the tip is not the median of the recent tips");
            }
            verify!("P21", n(2) * base + &tip <= max256(), "an estimate is made although the fee cap does not fit 256 bits");
        }
        Err(_) => {
            cover("overflow");
            // some admissible tip overflows: at least the median or the floor does
            let bad = |t: &BigUint| n(2) * base + t > max256();
            verify!("P21", bad(&floor) || rewards.iter().filter(|x| bad(x)).count() >= rewards.len() - rewards.len() / 2, "a good fee history is refused");
        }
    }
    done();
}

const STEPS: [u64; 6] = [0, 1, 29_999_999_999, 30_000_000_000, 30_000_000_001, 86_400_000_000_000];
fn fee_cache() {
    const T0: u64 = 1_700_000_000_000_000_000;
    let asked: Rc<RefCell<Vec<(BigUint, BigUint, usize)>>> = shared(vec![]);
    let a2 = asked.clone();
    handle(move |c| {
        if c.method != "eth_feeHistory" {
            return None;
        }
        let (_, _, g): (rpc::RpcServices, Option<rpc::RpcConfig>, rpc::FeeHistoryArgs) = args(c);
        verify!("P21", g.newest_block == rpc::BlockTag::Latest && g.block_count == Nat256::from(5u8) && g.reward_percentiles == Some(vec![20]), "the estimate is not made from the five latest blocks");
        let i = a2.borrow().len();
        let outcome = if i == 0 { [0, 3][choose("outcome0", 2)] } else { choose(&format!("outcome{i}"), 6) };
        let (b, p) = (nat(&format!("base{i}"), 200), nat(&format!("tip{i}"), 200));
        a2.borrow_mut().push((b.clone(), p.clone(), outcome));
        Some(match outcome {
            0 => consistent(Some(fee_history(&b, &p))),
            1 => consistent(None::<rpc::FeeHistory>),
            2 => rpc_error::<Option<rpc::FeeHistory>>(http_err(false)),
            3 => rejected(),
            4 => {
                let mut h = fee_history(&b, &p);
                h.reward = vec![vec![]; 5];
                consistent(Some(h))
            }
            _ => {
                let mut h = fee_history(&b, &p);
                h.base_fee_per_gas = vec![];
                consistent(Some(h))
            }
        })
    });
    let floor = n(1_500);
    install(floor_arg(EvmNetwork::Base, &floor));
    let mut now = T0;
    // the estimate the minter holds: when it was obtained, base fee, tip
    let mut held: Option<(u64, BigUint, BigUint)> = None;
    for round in 0..3 {
        if round > 0 {
            now += STEPS[choose(&format!("later{round}"), STEPS.len())];
        }
        sim::set_time(now);
        let fresh = matches!(&held, Some((t, _, _)) if now - t < 30_000_000_000);
        let n0 = asked.borrow().len();
        let out: Rc<RefCell<Vec<Option<GasFeeEstimate>>>> = shared(vec![]);
        let two = round == 1 && flag("two at once");
        let spawn = || {
            let o = out.clone();
            sim::spawn(async move {
                let r = lazy_refresh_gas_fee_estimate().await;
                o.borrow_mut().push(r);
            })
        };
        spawn();
        if two {
            spawn();
        }
        // the second request came while the first one is being answered
        let waiting = sim::pending().len();
        verify!("P21", waiting == if fresh { 0 } else { 1 }, "a fresh estimate is fetched again, an old one is used, or two refreshes run at once");
        while !sim::pending().is_empty() {
            sim::step(0);
        }
        let n1 = asked.borrow().len();
        verify!("P21", n1 - n0 == if fresh { 0 } else { 1 }, "a fresh estimate is fetched again, or an old one is not");
        let got = out.borrow().clone();
        if fresh {
            cover("fresh");
        } else {
            let (b, p, outcome) = asked.borrow()[n0].clone();
            if held.is_some() {
                cover("stale");
            } else {
                cover("never estimated");
            }
            if outcome == 0 {
                cover("refreshed");
                held = Some((now, b, max_of(p, floor.clone())));
            } else {
                cover("failed refresh");
            }
            if two {
                cover("shared");
                verify!("P21", got.len() == 2 && got[0].is_none(), "a request made during a refresh is served an old estimate");
            }
            let last = got.last().unwrap();
            verify!("P21", last.is_some() == (outcome == 0), "a failed refresh yields an estimate, or a good one does not");
        }
        for g in got.iter().flatten() {
            let h = held.as_ref().unwrap();
            verify!("P21", now - h.0 < 30_000_000_000, "an estimate older than thirty seconds is used");
            verify!("P21", big(g.base_fee_per_gas) == h.1 && big(g.max_priority_fee_per_gas) == h.2, "the estimate differs from what the network reported");
        }
        if fresh {
            verify!("P21", got.iter().all(|g| g.is_some()), "a fresh estimate is not used");
        }
        let stored = read_state(|s| s.last_transaction_price_estimate.clone());
        verify!("P21", stored.is_some() == held.is_some(), "a failed refresh loses the estimate, or invents one");
        if let (Some((t, e)), Some(h)) = (stored, &held) {
            verify!("P21", t == h.0 && big(e.base_fee_per_gas) == h.1 && big(e.max_priority_fee_per_gas) == h.2, "the stored estimate or its age is wrong");
        }
        verify!("P21", read_state(|s| s.active_tasks.is_empty()), "a refresh leaves its lock behind");
    }
    done();
}

fn fee_price() {
    handle(|_| None);
    install(init_arg(EvmNetwork::Polygon));
    add_token(1);
    let (base, tip) = (nat("base", 256), nat("tip", 256));
    let known = flag("estimated");
    if known {
        mutate_state(|s| s.last_transaction_price_estimate = Some((77, GasFeeEstimate { base_fee_per_gas: to_amt(&base), max_priority_fee_per_gas: to_amt(&tip) })));
    }
    let which = choose("ledger", 4);
    let arg = match which {
        0 => None,
        1 => Some(native_ledger()),
        2 => Some(erc20_ledger(1)),
        _ => Some(erc20_ledger(2)),
    }
    .map(|erc20_ledger_id| Eip1559TransactionPriceArg { erc20_ledger_id });
    let got = sim::block_on(ep::call_eip_1559_transaction_price(arg));
    if !known || which == 3 {
        cover(if known { "unknown ledger" } else { "no estimate" });
        verify!("P21", got.is_none(), "a price is quoted for an unknown ledger or without an estimate");
        return done();
    }
    let gas = if which == 2 { n(65_000) } else { n(21_000) };
    cover(if which == 2 { "erc20" } else { "native" });
    verify!("P21", got.is_some(), "no price is quoted");
    let g = got.unwrap();
    let cap = min_of(n(2) * &base + &tip, max256());
    let cost = min_of(&cap * &gas, max256());
    if cost == max256() {
        cover("capped");
    }
    verify!("P21", g.gas_limit.0 == gas, "the quoted gas limit is not the one transactions of this kind carry");
    verify!("P21", g.max_fee_per_gas.0 == cap && g.max_priority_fee_per_gas.0 == tip, "the quoted fees are not the estimated ones");
    verify!("P21", g.max_transaction_fee.0 == cost, "the quoted transaction fee is not the fee cap times the gas limit");
    verify!("P21", g.timestamp == Some(77), "the age of the quote is wrong");
    let info = sim::block_on(ep::call_get_minter_info()).unwrap();
    let e = info.last_gas_fee_estimate.unwrap();
    verify!("P21", e.max_fee_per_gas.0 == cap && e.max_priority_fee_per_gas.0 == tip && e.timestamp == 77, "the published estimate is not the one held");
    done();
}
