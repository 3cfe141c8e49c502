//! Models of the other canisters: ICRC ledgers, the EVM RPC canister, the management canister.
use crate::common::*;
use candid::utils::{ArgumentDecoder, ArgumentEncoder};
use candid::{CandidType, Principal};
use evm_rpc_types::*;
use ic_cdk::api::call::{CallResult, RejectionCode};
pub use ic_cdk::sim::Call;
use num_bigint::BigUint;
use std::cell::RefCell;
use std::rc::Rc;

pub type Reply = CallResult<Vec<u8>>;

pub fn args<T: for<'a> ArgumentDecoder<'a>>(c: &Call) -> T {
    symx::raw(|| candid::decode_args::<T>(&c.args)).unwrap_or_else(|e| panic!("cannot decode the arguments of {}: {e}", c.method))
}
pub fn reply<T: ArgumentEncoder>(t: T) -> Reply {
    Ok(symx::raw(|| candid::encode_args(t)).unwrap())
}
pub fn rejected() -> Reply {
    Err((RejectionCode::CanisterError, "rejected by the model".to_string()))
}
pub fn nat256(b: &BigUint) -> Nat256 {
    let mut o = [0u8; 32];
    let v = b.to_bytes_be();
    o[32 - v.len()..].copy_from_slice(&v);
    Nat256::from_be_bytes(o)
}
pub fn service(k: usize) -> RpcService {
    RpcService::Custom(RpcApi { url: format!("https://p{k}"), headers: None })
}
pub fn http_err(size: bool) -> RpcError {
    RpcError::HttpOutcallError(HttpOutcallError::IcError {
        code: if size { RejectionCode::SysFatal } else { RejectionCode::SysTransient },
        message: if size { "Http body exceeds size limit of 2000000 bytes.".to_string() } else { "timeout".to_string() },
    })
}
pub fn consistent<T: CandidType>(t: T) -> Reply {
    reply((MultiRpcResult::Consistent(Ok(t)),))
}
pub fn rpc_error<T: CandidType>(e: RpcError) -> Reply {
    reply((MultiRpcResult::<T>::Consistent(Err(e)),))
}

#[derive(Default, Clone)]
pub struct Seen {
    pub calls: Vec<Call>,
}
thread_local! {
    static SEEN: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
}
/// Every call answered so far, in the order in which it was answered.
pub fn seen() -> Vec<Call> {
    SEEN.with(|s| s.borrow().clone())
}
pub fn seen_of(method: &str) -> Vec<Call> {
    seen().into_iter().filter(|c| c.method == method).collect()
}
/// Install a handler: the first one that answers wins, then the defaults.
pub fn handle(f: impl Fn(&Call) -> Option<Reply> + 'static) {
    sim::set_handler(move |c| {
        SEEN.with(|s| s.borrow_mut().push(c.clone()));
        match f(c) {
            Some(r) => r,
            None => default_reply(c),
        }
    })
}

/// A well-behaved environment.
#[derive(Clone)]
pub struct Env {
    pub base_fee: BigUint,
    pub priority: BigUint,
    pub latest_count: BigUint,
    pub finalized_count: BigUint,
    pub latest_block: BigUint,
    pub next_ledger_block: u64,
    pub signature: Vec<u8>,
}
thread_local! {
    static ENV: RefCell<Env> = RefCell::new(Env {
        base_fee: n(1_000), priority: n(100), latest_count: n(0), finalized_count: n(0), latest_block: n(1_000),
        next_ledger_block: 500, signature: (1u8..=64).collect(),
    });
}
pub fn env<R>(f: impl FnOnce(&mut Env) -> R) -> R {
    ENV.with(|e| f(&mut e.borrow_mut()))
}
pub fn fee_history(base: &BigUint, prio: &BigUint) -> FeeHistory {
    FeeHistory {
        oldest_block: Nat256::from(100u64),
        base_fee_per_gas: (0..6).map(|_| nat256(base)).collect(),
        gas_used_ratio: vec![0.5; 5],
        reward: (0..5).map(|_| vec![nat256(prio)]).collect(),
    }
}
pub fn block(number: &BigUint) -> Block {
    let z = || Hex32::from([0u8; 32]);
    Block {
        base_fee_per_gas: Some(Nat256::from(7u8)),
        number: nat256(number),
        difficulty: None,
        extra_data: Hex::from(vec![]),
        gas_limit: Nat256::from(1u8),
        gas_used: Nat256::from(1u8),
        hash: z(),
        logs_bloom: Hex256::from([0u8; 256]),
        miner: Hex20::from([0u8; 20]),
        mix_hash: z(),
        nonce: Nat256::from(0u8),
        parent_hash: z(),
        receipts_root: z(),
        sha3_uncles: z(),
        size: Nat256::from(1u8),
        state_root: z(),
        timestamp: Nat256::from(1u8),
        total_difficulty: None,
        transactions: vec![],
        transactions_root: None,
        uncles: vec![],
    }
}
pub fn next_block() -> u64 {
    env(|e| {
        e.next_ledger_block += 1;
        e.next_ledger_block - 1
    })
}
pub fn default_reply(c: &Call) -> Reply {
    match c.method.as_str() {
        "ecdsa_public_key" => {
            use ic_cdk::api::management_canister::ecdsa::EcdsaPublicKeyResponse;
            let mut pk = vec![2u8; 33];
            pk[1] = 0x79;
            reply((EcdsaPublicKeyResponse { public_key: public_key(), chain_code: vec![0; 32] },))
        }
        "sign_with_ecdsa" => {
            use ic_cdk::api::management_canister::ecdsa::SignWithEcdsaResponse;
            reply((SignWithEcdsaResponse { signature: env(|e| e.signature.clone()) },))
        }
        "eth_feeHistory" => {
            let (b, p) = env(|e| (e.base_fee.clone(), e.priority.clone()));
            consistent(Some(fee_history(&b, &p)))
        }
        "eth_getTransactionCount" => {
            let (_, _, a): (RpcServices, Option<RpcConfig>, GetTransactionCountArgs) = args(c);
            let v = env(|e| if a.block == BlockTag::Latest { e.latest_count.clone() } else { e.finalized_count.clone() });
            consistent(nat256(&v))
        }
        "eth_getBlockByNumber" => consistent(block(&env(|e| e.latest_block.clone()))),
        "eth_getLogs" => consistent(Vec::<LogEntry>::new()),
        "eth_sendRawTransaction" => consistent(SendRawTransactionStatus::Ok(None)),
        "eth_getTransactionReceipt" => consistent(None::<TransactionReceipt>),
        "icrc1_transfer" => reply((Ok::<candid::Nat, icrc_ledger_types::icrc1::transfer::TransferError>(next_block().into()),)),
        "icrc2_transfer_from" => {
            reply((Ok::<candid::Nat, icrc_ledger_types::icrc2::transfer_from::TransferFromError>(next_block().into()),))
        }
        m => panic!("the model does not know the method {m}"),
    }
}
/// Compressed SEC1 encoding of the secp256k1 generator.
pub fn public_key() -> Vec<u8> {
    hex::decode("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798").unwrap()
}
pub fn shared<T>(t: T) -> Rc<RefCell<T>> {
    Rc::new(RefCell::new(t))
}
pub fn self_account() -> Principal {
    sim::self_id()
}
