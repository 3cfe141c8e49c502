//! P17 over solver terms: the RPC client compiled with cycle amounts that may be symbolic (see DESIGN.md, "cycles").
use crate::common::*;
use cy_evm_rpc_types as rpc;
use cy_ic_cdk::api::call::{RejectionCode, HOOK};
use cy_int::u128 as Cycles;
use evm_rpc_client_cy::{CallerService, EvmRpcClient};
use num_bigint::BigUint;
use std::any::Any;
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use std::task::{Context, Poll};
use symx::{choose, cover, flag};

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "cycles_free",
            props: &["P17"],
            tier: "quick",
            run: cycles_free,
            covers: &["first time", "retried", "gave up", "raised to the demand", "doubled", "capped", "other failure"],
            bounds: "one request (each of the six methods); first payment and every demand symbolic over all 128-bit numbers; up to three retries allowed (none, one, two or three), every answer a value, another error, a rejection, or a demand for more cycles by the agreed answer, by one of two providers or by both (with three retries: a value or an agreed demand)",
            functions: "EvmRpcClient::{call_internal,eth_*}, EvmRpcClientBuilder, max_expected_too_few_cycles_error, multi_rpc_result_iter, CallerService::call",
            workers: 4,
        },
        Harness {
            name: "cycles_ten",
            props: &["P17"],
            tier: "quick",
            run: cycles_ten,
            covers: &["retried", "gave up", "raised to the demand", "doubled"],
            bounds: "one request with the default limit of ten retries; first payment and one demand symbolic over 128 bits, made at the first, fourth, tenth or last attempt, the other demands 1 cycle; a value at the fifth or last attempt or never",
            functions: "EvmRpcClient::call_internal, EvmRpcClientBuilder::new",
            workers: 4,
        },
    ]
}
fn cyc(name: &str) -> (Cycles, BigUint) {
    let b = nat(name, 128);
    let a: evm_minter::checked_amount::CheckedAmountOf<()> = to_amt(&b);
    (Cycles::from_word(word(&a)), b)
}
fn word(a: &evm_minter::checked_amount::CheckedAmountOf<()>) -> ethnum::U256 {
    ethnum::U256::from_be_bytes(a.to_be_bytes())
}
fn back(c: Cycles) -> BigUint {
    big(evm_minter::checked_amount::CheckedAmountOf::<()>::from_be_bytes(c.word().to_be_bytes()))
}
fn max128() -> BigUint {
    BigUint::from(u128::MAX)
}
/// Twice the payment, at most the largest 128-bit number.
fn twice(a: &BigUint) -> BigUint {
    min_of(a + a, max128())
}
/// One answer of the RPC canister: what is demanded of whom, and whether the request succeeds.
#[derive(Clone)]
struct Step {
    kind: usize,
    demand: Option<BigUint>,
    id: u64,
}
fn few(c: Cycles) -> rpc::RpcError {
    rpc::RpcError::ProviderError(rpc::ProviderError::TooFewCycles { expected: c, received: Cycles::lit(0) })
}
type R<T> = rpc::MultiRpcResult<T>;
fn svc(k: u64) -> rpc::RpcService {
    rpc::RpcService::Provider(k)
}
/// kinds: 0 a value, 1 another error, 2 a rejection, 3 an agreed demand, 4 one of two providers demands, 5 both demand
fn make<T: 'static>(i: usize, kind: usize, v: T, demand: impl Fn(&str) -> (Cycles, BigUint)) -> (Step, Result<Box<dyn Any>, (RejectionCode, String)>) {
    let boxed = |r: R<T>| Ok(Box::new((r,)) as Box<dyn Any>);
    let id = i as u64;
    let other = |k: usize| match k {
        0 => rpc::RpcError::ProviderError(rpc::ProviderError::NoPermission),
        1 => rpc::RpcError::JsonRpcError(rpc::JsonRpcError { code: -32000, message: format!("{i}") }),
        _ => rpc::RpcError::HttpOutcallError(rpc::HttpOutcallError::IcError { code: RejectionCode::SysFatal, message: format!("{i}") }),
    };
    let (d, r) = match kind {
        0 => (None, boxed(R::Consistent(Ok(v)))),
        1 => match if i == 0 { choose("error", 4) } else { 1 } {
            3 => (None, boxed(R::Inconsistent(vec![(svc(0), Err(other(0))), (svc(1), Ok(v))]))),
            k => (None, boxed(R::Consistent(Err(other(k))))),
        },
        2 => (None, Err((RejectionCode::CanisterError, format!("{i}")))),
        3 => {
            let (c, b) = demand("");
            (Some(b), boxed(R::Consistent(Err(few(c)))))
        }
        4 => {
            let (c, b) = demand("");
            let rest = if i == 0 || flag(&format!("value{i}")) { Ok(v) } else { Err(other(1)) };
            let l = if i > 0 || flag("first") { vec![(svc(0), Err(few(c))), (svc(1), rest)] } else { vec![(svc(0), rest), (svc(1), Err(few(c)))] };
            (Some(b), boxed(R::Inconsistent(l)))
        }
        _ => {
            let (c, b) = demand("");
            let (c2, b2) = demand("other");
            (Some(max_of(b, b2)), boxed(R::Inconsistent(vec![(svc(0), Err(few(c))), (svc(1), Err(few(c2)))])))
        }
    };
    (Step { kind, demand: d, id }, r)
}
struct Seen {
    calls: Vec<(candid::Principal, String, Cycles)>,
    steps: Vec<Step>,
}
fn now<F: Future>(f: F) -> F::Output {
    let w = futures::task::noop_waker();
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(x) => x,
        Poll::Pending => symx::fatal("the client waits for something that is not a call"),
    }
}
fn judge(seen: &Seen, first: &BigUint, retries: usize, method: &str, ok: bool, demanded: bool) {
    let (calls, steps) = (&seen.calls, &seen.steps);
    verify!("P17", !calls.is_empty() && calls.iter().all(|c| c.1 == method && c.0 == canister(9)), "a retry is another request");
    let mut pay = first.clone();
    for (i, s) in steps.iter().enumerate() {
        verify!("P17", back(calls[i].2) == pay, "an attempt is not paid with the double of the previous one, or with what was demanded when that is more");
        let again = s.demand.is_some() && i < retries;
        verify!("P17", (i + 1 == steps.len()) != again, "a request is repeated although nobody asked for more cycles or the retries are used up, or not repeated although somebody did");
        if let Some(d) = &s.demand {
            let t = twice(&pay);
            if again {
                cover("retried");
                if &t < d {
                    cover("raised to the demand");
                } else {
                    cover(if t == max128() { "capped" } else { "doubled" });
                }
            }
            pay = max_of(t, d.clone());
        }
    }
    let last = steps.last().unwrap();
    verify!("P17", ok == (last.kind == 0) && demanded == last.demand.is_some(), "the last answer is not the one that is returned");
    match last.kind {
        0 if steps.len() == 1 => cover("first time"),
        1 | 2 => cover("other failure"),
        k if k >= 3 && retries > 0 => cover("gave up"),
        _ => {}
    }
}
fn run<T: Clone + 'static + PartialEq + std::fmt::Debug, F: Future<Output = R<T>>>(
    method: &str,
    value: T,
    first: (Cycles, BigUint),
    limit: Option<u32>,
    mut kind: impl FnMut(usize) -> usize + 'static,
    demand: impl Fn(usize, &BigUint, &str) -> (Cycles, BigUint) + 'static,
    call: impl FnOnce(EvmRpcClient<Log>) -> F,
) {
    let seen = Rc::new(RefCell::new(Seen { calls: vec![], steps: vec![] }));
    let s2 = seen.clone();
    let v = value.clone();
    HOOK.with(|h| {
        *h.borrow_mut() = Some(Box::new(move |id, m: &str, _args, cycles| {
            let mut s = s2.borrow_mut();
            let i = s.calls.len();
            if i > 12 {
                symx::violation("P17", "a request is repeated without end");
            }
            s.calls.push((id, m.to_string(), cycles));
            let paid = back(cycles);
            let (step, r) = make(i, kind(i), v.clone(), |n| demand(i, &paid, n));
            s.steps.push(step);
            r
        }))
    });
    let mut b = EvmRpcClient::builder(CallerService {}, Log).with_evm_canister_id(canister(9)).with_min_attached_cycles(first.0);
    if let Some(l) = limit {
        b = b.with_max_num_retries(l);
    }
    let got = now(call(b.build()));
    HOOK.with(|h| *h.borrow_mut() = None);
    let s = seen.borrow();
    let all: Vec<&rpc::RpcResult<T>> = match &got {
        R::Consistent(r) => vec![r],
        R::Inconsistent(v) => v.iter().map(|x| &x.1).collect(),
    };
    let demanded = all.iter().any(|r| matches!(r, Err(rpc::RpcError::ProviderError(rpc::ProviderError::TooFewCycles { .. }))));
    let ok = matches!(&got, R::Consistent(Ok(v)) if *v == value);
    judge(&s, &first.1, limit.unwrap_or(10) as usize, method, ok, demanded);
    if s.steps.last().unwrap().kind == 2 {
        let text = format!("{}", s.steps.last().unwrap().id);
        let same = matches!(&got, R::Consistent(Err(rpc::RpcError::HttpOutcallError(rpc::HttpOutcallError::IcError { code: RejectionCode::CanisterError, message }))) if *message == text);
        verify!("P17", same, "a rejection is reported as something else");
    }
    done();
}
/// A log sink that drops everything.
#[derive(Clone, Debug)]
pub struct Log;
impl ic_canister_log::Sink for Log {
    fn append(&self, _: ic_canister_log::LogEntry) {}
}
fn cycles_free() {
    let first = cyc("first");
    let limit = choose("retries", 4) as u32;
    // with three retries: a value or an agreed demand
    let kind = move |i: usize| if limit == 3 { [0, 3][choose(&format!("answer{i}"), 2)] } else { choose(&format!("answer{i}"), 6) };
    let demand = |i: usize, _: &BigUint, n: &str| cyc(&format!("demand{i}{n}"));
    let m = if limit == 1 { choose("method", 6) } else { 4 };
    match m {
        0 => run("eth_getBlockByNumber", rpc::Block(7), first, Some(limit), kind, demand, |c| async move { c.eth_get_block_by_number(rpc::BlockTag(1)).await }),
        1 => run("eth_getLogs", vec![rpc::LogEntry(7)], first, Some(limit), kind, demand, |c| async move { c.eth_get_logs(rpc::GetLogsArgs(1)).await }),
        2 => run("eth_feeHistory", Some(rpc::FeeHistory(7)), first, Some(limit), kind, demand, |c| async move { c.eth_fee_history(rpc::FeeHistoryArgs(1)).await }),
        3 => run("eth_getTransactionReceipt", Some(rpc::TransactionReceipt(7)), first, Some(limit), kind, demand, |c| async move { c.eth_get_transaction_receipt("0x1".into()).await }),
        4 => run("eth_getTransactionCount", rpc::Nat256(7), first, Some(limit), kind, demand, |c| async move { c.eth_get_transaction_count(rpc::GetTransactionCountArgs(1)).await }),
        _ => run("eth_sendRawTransaction", rpc::SendRawTransactionStatus::NonceTooLow, first, Some(limit), kind, demand, |c| async move { c.eth_send_raw_transaction("0x1".into()).await }),
    }
}
fn cycles_ten() {
    let first = cyc("first");
    let end = [4, 10, 11][choose("value at", 3)];
    let at = [0, 3, 9, 10][choose("demand at", 4)];
    let kind = move |i: usize| if i == end { 0 } else { 3 };
    let demand = move |i: usize, _: &BigUint, n: &str| if i == at { cyc(&format!("demand{i}{n}")) } else { (Cycles::lit(1), crate::common::n(1)) };
    run("eth_getTransactionCount", rpc::Nat256(7), first, None, kind, demand, |c| async move { c.eth_get_transaction_count(rpc::GetTransactionCountArgs(1)).await })
}
