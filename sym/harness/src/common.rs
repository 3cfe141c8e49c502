//! Shared pieces of the harnesses: symbolic values, canister set-up, rollback hooks.
use candid::{Nat, Principal};
pub use evm_minter::checked_amount::CheckedAmountOf;
use evm_minter::endpoints::CandidBlockTag;
use evm_minter::erc20::{ERC20Token, ERC20TokenSymbol};
use evm_minter::eth_types::Address;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::lifecycle::{InitArg, MinterArg};
use evm_minter::numeric::*;
use evm_minter::state::audit::{process_event, EventType};
pub use evm_minter::state::{mutate_state, read_state, State, STATE};
pub use ic_cdk::sim;
use num_bigint::BigUint;
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
pub use symx::{assume, choose, cover, flag, note};


/// Property assertion; its condition is only evaluated when the property is the one being checked.
#[macro_export]
macro_rules! verify {
    ($tag:expr, $cond:expr, $msg:expr $(,)?) => {
        if symx::active($tag) {
            let holds: bool = $cond;
            symx::verify($tag, holds, $msg)
        }
    };
}
pub use crate::verify;

pub struct Harness {
    pub name: &'static str,
    /// properties whose assertions the harness contains
    pub props: &'static [&'static str],
    /// "quick": both tiers, "thorough": only the thorough one
    pub tier: &'static str,
    pub run: fn(),
    /// reachability witnesses that must have been hit when the exploration is complete
    pub covers: &'static [&'static str],
    /// what is symbolic, what is bounded (goes into the evidence)
    pub bounds: &'static str,
    pub functions: &'static str,
    /// how many processes share the exploration
    pub workers: usize,
}

// ------------------------------------------------------------------------------------------ symbolic values

/// A symbolic natural number below 2^bits.
pub fn nat(name: &str, bits: usize) -> BigUint {
    BigUint::from_bytes_be(&symx::fresh(name, bits))
}
/// A symbolic 256-bit (or smaller) amount.
pub fn amt<U>(name: &str, bits: usize) -> CheckedAmountOf<U> {
    let v = symx::fresh(name, bits);
    let b: [u8; 32] = v[v.len() - 32..].try_into().unwrap();
    CheckedAmountOf::from_be_bytes(b)
}
/// Mathematical value of an amount, for oracles: unbounded, never wraps.
pub fn big<U>(a: CheckedAmountOf<U>) -> BigUint {
    BigUint::from_bytes_be(&a.to_be_bytes())
}
pub fn n(x: u64) -> BigUint {
    BigUint::from(x)
}
pub fn to_amt<U>(b: &BigUint) -> CheckedAmountOf<U> {
    let v = b.to_bytes_be();
    assert!(v.len() <= 32);
    let mut o = [0u8; 32];
    o[32 - v.len()..].copy_from_slice(&v);
    CheckedAmountOf::from_be_bytes(o)
}
pub fn max256() -> BigUint {
    (BigUint::from(1u8) << 256u32) - BigUint::from(1u8)
}
fn term(b: &BigUint) -> symx::Tid {
    let v = b.to_bytes_be();
    assert!(v.len() <= 32);
    let mut o = [0u8; 32];
    o[32 - v.len()..].copy_from_slice(&v);
    symx::term_words(u128::from_be_bytes(o[..16].try_into().unwrap()), u128::from_be_bytes(o[16..].try_into().unwrap()))
}
/// Restrict the path to values with a <= b (no fork).
pub fn assume_le(a: &BigUint, b: &BigUint) {
    if symx::is_concrete() {
        assume(a <= b)
    } else {
        symx::assume_cond(symx::Cond::Le(term(a), term(b)))
    }
}
pub fn min_of(a: BigUint, b: BigUint) -> BigUint {
    if a <= b {
        a
    } else {
        b
    }
}
pub fn max_of(a: BigUint, b: BigUint) -> BigUint {
    if a >= b {
        a
    } else {
        b
    }
}

pub fn addr(x: u8) -> Address {
    Address::new([x; 20])
}
pub fn user(x: u8) -> Principal {
    Principal::from_slice(&[x, 7, 7, 7, 7, 7, 7, 7, 7, 2])
}
pub fn canister(x: u8) -> Principal {
    Principal::from_slice(&[0, 0, 0, 0, 0, 0, 0, x, 1, 1])
}
pub fn native_ledger() -> Principal {
    canister(10)
}
pub fn erc20_ledger(k: u8) -> Principal {
    canister(20 + k)
}
pub fn lsm() -> Principal {
    canister(30)
}
pub fn helper() -> Address {
    addr(0xbb)
}
pub fn token_addr(k: u8) -> Address {
    addr(0xe0 + k)
}
pub fn token(k: u8, net: EvmNetwork) -> ERC20Token {
    ERC20Token {
        chain_id: net,
        erc20_contract_address: token_addr(k),
        erc20_token_symbol: ERC20TokenSymbol::new(format!("icTOK{k}")),
        erc20_ledger_id: erc20_ledger(k),
    }
}

// ------------------------------------------------------------------------------------------ canister life cycle

struct Snap {
    state: Option<State>,
    timers: u64,
    log: u64,
}
fn snapshot() -> Box<dyn Any> {
    let state = STATE.with(|s| unsafe { (*s.as_ptr()).clone() });
    Box::new(Snap { state, timers: ic_cdk_timers::sim_mark(), log: evm_minter_log::mark() })
}
fn restore(a: &dyn Any) {
    let s = a.downcast_ref::<Snap>().unwrap();
    // The cell may be mutably borrowed by the code that is panicking: write through the pointer.
    STATE.with(|c| unsafe {
        let old = std::ptr::replace(c.as_ptr(), s.state.clone());
        std::mem::forget(old);
    });
    ic_cdk_timers::sim_rollback(s.timers);
    evm_minter_log::rollback(s.log);
}
mod evm_minter_log {
    pub use ic_stable_structures::log::{sim_mark as mark, sim_rollback as rollback};
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<symx::PathKill>() {
            return;
        }
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "trap".into());
        let msg = format!("{msg} at {}", info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
        if std::env::var("SYMX_PANICS").is_ok() {
            eprintln!("panic: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        note(format!("panic: {msg}"));
        sim::on_panic(&msg);
    }));
}
pub fn init_arg(net: EvmNetwork) -> InitArg {
    InitArg {
        evm_network: net,
        ecdsa_key_name: "key_1".to_string(),
        helper_contract_address: Some(helper().to_string()),
        native_ledger_id: native_ledger(),
        native_index_id: canister(11),
        native_symbol: "icNATIVE".to_string(),
        block_height: CandidBlockTag::Latest,
        native_minimum_withdrawal_amount: Nat::from(1_000_000u64),
        native_ledger_transfer_fee: Nat::from(100u64),
        next_transaction_nonce: Nat::from(0u8),
        last_scraped_block_number: Nat::from(1_000u64),
        min_max_priority_fee_per_gas: Nat::from(1_500u64),
        ledger_suite_manager_id: lsm(),
        deposit_native_fee: Nat::from(0u8),
        withdrawal_native_fee: Nat::from(0u8),
    }
}
/// Install the canister (the real `init` endpoint), with rollback of trapped messages in place.
/// Timers set by `init` are recorded but only fire when the harness fires them.
pub fn install(arg: InitArg) {
    install_opt(arg).expect("init trapped");
}
pub fn install_opt(arg: InitArg) -> Option<()> {
    sim::set_hooks(snapshot, restore);
    symx::set_cleanup(sim::forget_all);
    sim::block_on(crate::minter_main::verif_main_probe::call_init(MinterArg::InitArg(arg)))
}
pub fn add_token(k: u8) {
    let net = read_state(|s| s.evm_network);
    event(EventType::AddedErc20Token(token(k, net)));
}
/// Record an event as the canister does.
pub fn event(e: EventType) {
    mutate_state(|s| process_event(s, e));
}
/// Same, as a message: false if it trapped (and was rolled back).
pub fn try_event(e: EventType) -> bool {
    sim::message(|| mutate_state(|s| process_event(s, e))).is_ok()
}
pub fn state() -> State {
    read_state(|s| s.clone())
}
/// Drop suspended tasks without running destructors (end of path).
pub fn done() {
    sim::forget_all();
}
pub fn map_of<K: Ord, V>(v: impl IntoIterator<Item = (K, V)>) -> BTreeMap<K, V> {
    v.into_iter().collect()
}
pub fn burn(i: u64) -> LedgerBurnIndex {
    LedgerBurnIndex::new(i)
}

/// Ledger memo read without the minter's own types: [kind, [field, ...]].
#[derive(Debug, PartialEq, Clone)]
pub enum MemoField {
    Bytes(Vec<u8>),
    Text(String),
    Num(BigUint),
}
pub fn read_memo(b: &[u8]) -> Option<(u64, Vec<MemoField>)> {
    use minicbor::data::{Tag, Type};
    let mut d = minicbor::Decoder::new(b);
    if d.array().ok()? != Some(2) {
        return None;
    }
    let kind = d.u64().ok()?;
    let len = d.array().ok()??;
    let mut f = vec![];
    for _ in 0..len {
        f.push(match d.datatype().ok()? {
            Type::Bytes => MemoField::Bytes(d.bytes().ok()?.to_vec()),
            Type::String => MemoField::Text(d.str().ok()?.to_string()),
            Type::Tag => {
                if d.tag().ok()? != Tag::PosBignum {
                    return None;
                }
                let x = d.bytes().ok()?;
                let mut o = [0u8; 32];
                o[32usize.checked_sub(x.len())?..].copy_from_slice(x);
                MemoField::Num(big(evm_minter::numeric::Wei::from_be_bytes(o)))
            }
            _ => MemoField::Num(big(evm_minter::numeric::Wei::from(d.u64().ok()?))),
        });
    }
    (d.position() == b.len()).then_some((kind, f))
}
