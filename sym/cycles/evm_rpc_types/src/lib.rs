//! The interface types that evm_rpc_client names, reduced to what its control flow looks at. Results, errors and their
//! nesting are as in evm_rpc_types 1.2.0; cycle amounts may be solver terms.
use candid::CandidType;
use cy_int::u128;
use ic_cdk::api::call::RejectionCode;
use serde::{Deserialize, Serialize};
macro_rules! opaque {
    ($($t:ident),*) => { $(
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, CandidType, Serialize, Deserialize, Default)]
        pub struct $t(pub u64);
    )* };
}
opaque!(Block, BlockTag, ConsensusStrategy, EthMainnetService, FeeHistory, FeeHistoryArgs, GetLogsArgs, GetTransactionCountArgs, Hex, Hex20, Hex256, Hex32, HexByte, LogEntry, Nat256, RpcApi, RpcConfig, TransactionReceipt);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, CandidType, Deserialize)]
pub enum RpcService {
    Provider(u64),
}
#[derive(Clone, Debug, PartialEq, Eq, CandidType, Deserialize)]
pub enum RpcServices {
    Custom { chain_id: u64, services: Vec<RpcApi> },
    EthMainnet(Option<Vec<EthMainnetService>>),
}
#[derive(Clone, Debug, PartialEq, Eq, CandidType, Deserialize)]
pub enum SendRawTransactionStatus {
    Ok(Option<Hex32>),
    InsufficientFunds,
    NonceTooLow,
    NonceTooHigh,
}
pub type RpcResult<T> = Result<T, RpcError>;
#[derive(Clone, Debug, Eq, PartialEq, CandidType, Deserialize)]
pub enum MultiRpcResult<T> {
    Consistent(RpcResult<T>),
    Inconsistent(Vec<(RpcService, RpcResult<T>)>),
}
impl<T> MultiRpcResult<T> {
    pub fn map<R>(self, mut f: impl FnMut(T) -> R) -> MultiRpcResult<R> {
        match self {
            MultiRpcResult::Consistent(r) => MultiRpcResult::Consistent(r.map(f)),
            MultiRpcResult::Inconsistent(v) => MultiRpcResult::Inconsistent(v.into_iter().map(|(s, r)| (s, r.map(&mut f))).collect()),
        }
    }
    pub fn consistent(self) -> Option<RpcResult<T>> {
        match self {
            MultiRpcResult::Consistent(r) => Some(r),
            MultiRpcResult::Inconsistent(_) => None,
        }
    }
    pub fn inconsistent(self) -> Option<Vec<(RpcService, RpcResult<T>)>> {
        match self {
            MultiRpcResult::Consistent(_) => None,
            MultiRpcResult::Inconsistent(v) => Some(v),
        }
    }
}
impl<T> From<RpcResult<T>> for MultiRpcResult<T> {
    fn from(r: RpcResult<T>) -> Self {
        MultiRpcResult::Consistent(r)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, CandidType, Deserialize)]
pub enum RpcError {
    ProviderError(ProviderError),
    HttpOutcallError(HttpOutcallError),
    JsonRpcError(JsonRpcError),
    ValidationError(ValidationError),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, CandidType, Deserialize)]
pub enum ProviderError {
    NoPermission,
    TooFewCycles { expected: u128, received: u128 },
    ProviderNotFound,
    MissingRequiredProvider,
    InvalidRpcConfig(String),
}
#[derive(Clone, Debug, Eq, PartialEq, PartialOrd, Ord, CandidType, Deserialize)]
pub enum HttpOutcallError {
    IcError { code: RejectionCode, message: String },
    InvalidHttpJsonRpcResponse { status: u16, body: String, parsing_error: Option<String> },
}
#[derive(Clone, Debug, Eq, PartialEq, PartialOrd, Ord, CandidType, Deserialize)]
pub struct JsonRpcError {
    pub code: i64,
    pub message: String,
}
#[derive(Clone, Debug, Eq, PartialEq, PartialOrd, Ord, CandidType, Deserialize)]
pub enum ValidationError {
    Custom(String),
    InvalidHex(String),
}
macro_rules! into { ($($t:ident),*) => { $( impl From<$t> for RpcError { fn from(e: $t) -> Self { RpcError::$t(e) } } )* } }
into!(ProviderError, HttpOutcallError, JsonRpcError, ValidationError);
