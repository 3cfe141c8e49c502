//! The whole minter between the ledgers and the chain: what is in circulation and owed never exceeds what it holds.
use crate::common::*;
use crate::h_tx::*;
use crate::minter_main::verif_main_probe as ep;
use crate::world::*;
use candid::Nat;
use evm_minter::deposit::register_deposit_events;
use evm_minter::deposit_logs::*;
use evm_minter::endpoints::*;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::numeric::*;
use evm_minter::rpc_declrations::Hash;
use evm_minter::state::transactions::*;
use evm_minter::withdraw::{process_reimbursement, process_retrieve_tokens_requests};
use evm_rpc_types as rpc;
use icrc_ledger_types::icrc1::account::Account;
use icrc_ledger_types::icrc1::transfer::{TransferArg, TransferError};
use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};
use num_bigint::BigUint;
use std::cell::RefCell;
use std::rc::Rc;

const FUNCS: &str = "register_deposit_events, mint, withdraw_native_token, withdraw_erc20, LedgerClient::*, process_retrieve_tokens_requests, WithdrawalTransactions::*, process_reimbursement, RpcClient and its reductions, process_event, apply_state_transition";

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "backing_native",
            props: &["P34"],
            tier: "quick",
            run: || backing(false, 1),
            covers: &["minted", "withdrawal accepted", "withdrawal refused", "paid out", "transaction failed", "reimbursed", "replaced", "ledger failed", "network failed", "callback trapped"],
            bounds: "three tokens registered; a native deposit and one of the second token, then a native withdrawal by the same user; amounts symbolic (128 bit), deposit and withdrawal fee zero or symbolic (64 bit), fees of the chain rising or not, price paid symbolic; two runs of the withdrawal task, one of the reimbursement task with a retry, one later mint run; at most one ledger, RPC or signing call fails (error, rejection or trap of the callback), at any position",
            functions: FUNCS,
            workers: 8,
        },
        Harness {
            name: "backing_erc20",
            props: &["P34"],
            tier: "quick",
            run: || backing(true, 1),
            covers: &["minted", "withdrawal accepted", "withdrawal refused", "paid out", "transaction failed", "reimbursed", "ledger failed", "network failed", "callback trapped", "gas fee owed", "upgraded"],
            bounds: "as backing_native, with a token withdrawal, no deposit fee, constant chain fees, an upgrade after the request, and failures from the withdrawal on",
            functions: FUNCS,
            workers: 8,
        },
        Harness {
            name: "backing_native_deep",
            props: &["P34"],
            tier: "thorough",
            run: || backing(false, 2),
            covers: &["minted", "withdrawal accepted", "withdrawal refused", "paid out", "transaction failed", "reimbursed", "replaced", "ledger failed", "network failed", "callback trapped", "upgraded"],
            bounds: "as backing_native, with an upgrade after the request or none, and at most two failing calls",
            functions: FUNCS,
            workers: 8,
        },
        Harness {
            name: "backing_erc20_deep",
            props: &["P34"],
            tier: "thorough",
            run: || backing(true, 2),
            covers: &["minted", "withdrawal accepted", "withdrawal refused", "paid out", "transaction failed", "reimbursed", "ledger failed", "network failed", "callback trapped", "gas fee owed", "upgraded"],
            bounds: "as backing_native, with a token withdrawal, an upgrade after the request or none, and at most two failing calls, deposits included",
            functions: FUNCS,
            workers: 8,
        },
    ]
}

const TF: u64 = 100;
/// One ledger: what circulates, and what the user and the fee account have of it.
#[derive(Default, Clone)]
struct Book {
    supply: BigUint,
    user: BigUint,
    fees: BigUint,
}
#[derive(Default)]
struct World {
    ledgers: [Book; 2],
    /// what the minter's address holds
    coins: BigUint,
    tokens: BigUint,
    versions: Vec<RawTx>,
    mined: Option<(usize, bool, u64, BigUint)>,
    faults: u32,
    /// no call fails yet
    quiet: bool,
    bad: Option<String>,
}
fn user_account() -> Account {
    Account { owner: user(1), subaccount: None }
}
fn minter_account() -> Account {
    Account { owner: self_account(), subaccount: None }
}
fn fee_account() -> Account {
    Account { owner: self_account(), subaccount: Some(evm_minter::FEES_SUBACCOUNT) }
}
/// What an account has; None: an account nobody in this world uses.
fn slot<'a>(b: &'a mut Book, a: &Account) -> Option<&'a mut BigUint> {
    if *a == user_account() {
        Some(&mut b.user)
    } else if *a == fee_account() {
        Some(&mut b.fees)
    } else {
        None
    }
}
enum Refusal {
    Funds,
    BadBurn,
}
/// Transfer, mint (from the minter) or burn (to the minter), as a ledger does it.
fn transfer(b: &mut Book, from: &Account, to: &Account, amount: &BigUint, bad: &mut Option<String>) -> Result<(), Refusal> {
    if *from == minter_account() {
        match slot(b, to) {
            Some(x) => *x += amount,
            None => *bad = Some("tokens are minted for an account that is owed nothing".into()),
        }
        b.supply += amount;
        return Ok(());
    }
    let burn = *to == minter_account();
    if burn && *amount < n(TF) {
        return Err(Refusal::BadBurn);
    }
    let cost = if burn { amount.clone() } else { amount + n(TF) };
    let Some(x) = slot(b, from) else {
        *bad = Some("tokens are taken from an account that has no part in this".into());
        return Err(Refusal::Funds);
    };
    if *x < cost {
        return Err(Refusal::Funds);
    }
    *x -= &cost;
    if burn {
        b.supply -= amount;
    } else {
        b.supply -= n(TF);
        match slot(b, to) {
            Some(x) => *x += amount,
            None => *bad = Some("tokens are moved to an account that is owed nothing".into()),
        }
    }
    Ok(())
}

fn ledger(w: &mut World, c: &Call) -> Option<Reply> {
    let k = if c.callee == native_ledger() {
        0
    } else if c.callee == erc20_ledger(2) {
        1
    } else {
        w.bad = Some("another ledger than those of the two assets is called".into());
        return Some(rejected());
    };
    let index: Nat = next_block().into();
    if c.method == "icrc1_transfer" {
        let (a,): (TransferArg,) = args(c);
        let from = Account { owner: self_account(), subaccount: a.from_subaccount };
        let r = transfer(&mut w.ledgers[k], &from, &a.to, &a.amount.0, &mut w.bad);
        Some(reply((match r {
            Ok(()) => Ok(index),
            Err(Refusal::Funds) => Err(TransferError::InsufficientFunds { balance: Nat::from(0u8) }),
            Err(Refusal::BadBurn) => Err(TransferError::BadBurn { min_burn_amount: Nat::from(TF) }),
        },)))
    } else {
        let (a,): (TransferFromArgs,) = args(c);
        // an account spends its own tokens without an allowance, and the minter has none from itself
        if a.from.owner == sim::self_id() && a.from.subaccount != a.spender_subaccount {
            return Some(reply((Err::<Nat, _>(TransferFromError::InsufficientAllowance { allowance: Nat::from(0u8) }),)));
        }
        let r = transfer(&mut w.ledgers[k], &a.from, &a.to, &a.amount.0, &mut w.bad);
        Some(reply((match r {
            Ok(()) => Ok(index),
            Err(Refusal::Funds) => Err(TransferFromError::InsufficientFunds { balance: Nat::from(0u8) }),
            Err(Refusal::BadBurn) => Err(TransferFromError::BadBurn { min_burn_amount: Nat::from(TF) }),
        },)))
    }
}

/// The invariant, for the native coin and the token.
fn solvent(w: &Rc<RefCell<World>>, when: &str) {
    let s = state();
    let w = w.borrow();
    let mut owed = [w.ledgers[0].supply.clone(), w.ledgers[1].supply.clone()];
    for d in s.events_to_mint() {
        match &d {
            ReceivedDepositEvent::Native(e) => owed[0] += big(e.value),
            ReceivedDepositEvent::Erc20(e) => owed[1] += big(e.value),
        }
    }
    let t = &s.withdrawal_transactions;
    for (i, r) in t.reimbursement_requests_iter() {
        let k = matches!(i, ReimbursementIndex::Erc20 { .. }) as usize;
        owed[k] += big(r.reimbursed_amount);
    }
    // what has not left yet: a request waits or is in flight, and its transaction is not mined
    if w.mined.is_none() {
        let mut open: Vec<WithdrawalRequest> = t.withdrawal_requests_iter().cloned().collect();
        for id in t.transactions_to_sign_iter().map(|x| *x.1).chain(t.sent_transactions_iter().map(|x| *x.1)) {
            if !open.iter().any(|r| r.native_ledger_burn_index() == id) {
                open.extend(t.get_processed_withdrawal_request(&id).cloned());
            }
        }
        for r in open {
            match r {
                WithdrawalRequest::Native(r) => owed[0] += big(r.withdrawal_amount),
                WithdrawalRequest::Erc20(r) => {
                    owed[0] += big(r.max_transaction_fee);
                    owed[1] += big(r.withdrawal_amount);
                }
            }
        }
    }
    if let Some(m) = &w.bad {
        verify!("P34", false, m);
    }
    verify!("P34", owed[0] <= w.coins, &format!("more of the native token circulates or is owed than the minter holds ({when})"));
    verify!("P34", owed[1] <= w.tokens, &format!("more of a token circulates or is owed than the minter holds ({when})"));
}

/// Run what is due, and once more what that has armed. While a mint is being recorded the deposit counts as waiting
/// although it has been minted, so the invariant is checked when the task has ended.
fn settle(w: &Rc<RefCell<World>>, base: &mut usize, when: &str) {
    for _ in 0..2 {
        let end = ic_cdk_timers::sim_timers().len();
        for k in std::mem::replace(base, end)..end {
            ic_cdk_timers::sim_fire(k);
            while !sim::pending().is_empty() {
                sim::step(0);
            }
            solvent(w, when);
        }
    }
}

fn backing(erc20: bool, max_faults: u32) {
    let mut arg = init_arg(EvmNetwork::Sepolia);
    // the short form leaves out what backing_native covers
    let short = erc20 && max_faults == 1;
    if !short && flag("deposit_fee") {
        arg.deposit_native_fee = nat("deposit_fee", 64).into();
    }
    if flag("withdrawal_fee") {
        let f = nat("withdrawal_fee", 64);
        assume_le(&n(TF), &f);
        arg.withdrawal_native_fee = f.into();
    }
    install(arg);
    // three tokens; the one that is moved is neither the first nor the last
    for k in 1..=3 {
        add_token(k);
    }
    let mut base = ic_cdk_timers::sim_timers().len();
    let (d0, d1) = (nat("deposited", 128), nat("deposited_tokens", 128));
    let w = shared(World { coins: d0.clone(), tokens: d1.clone(), quiet: short, ..Default::default() });
    let w2 = w.clone();
    handle(move |c| {
        let ours = c.method.starts_with("icrc");
        let mut out = 0;
        if c.method != "ecdsa_public_key" && !w2.borrow().quiet && w2.borrow().faults < max_faults {
            // the ledger's own error, a rejection, an answer whose callback traps
            let kinds = if ours || c.callee != candid::Principal::management_canister() { 4 } else { 3 };
            out = [0, 2, 3, 1][choose(&format!("fault_{}", c.method), kinds)];
        }
        if out > 0 {
            w2.borrow_mut().faults += 1;
            cover(if ours { "ledger failed" } else { "network failed" });
        }
        let answer = match (out, c.method.as_str()) {
            (1, "icrc1_transfer") => Some(reply((Err::<Nat, _>(TransferError::TemporarilyUnavailable),))),
            (1, "icrc2_transfer_from") => Some(reply((Err::<Nat, _>(TransferFromError::TemporarilyUnavailable),))),
            (1, "eth_feeHistory") => Some(rpc_error::<Option<rpc::FeeHistory>>(http_err(false))),
            (1, "eth_getTransactionCount") => Some(rpc_error::<rpc::Nat256>(http_err(false))),
            (1, "eth_sendRawTransaction") => Some(rpc_error::<rpc::SendRawTransactionStatus>(http_err(false))),
            (1, "eth_getTransactionReceipt") => Some(rpc_error::<Option<rpc::TransactionReceipt>>(http_err(false))),
            (1 | 2, _) => Some(rejected()),
            (_, "icrc1_transfer" | "icrc2_transfer_from") => ledger(&mut w2.borrow_mut(), c),
            (_, "eth_sendRawTransaction") => {
                let (_, _, raw): (rpc::RpcServices, Option<rpc::RpcConfig>, String) = args(c);
                let Some(tx) = decode_raw(&raw) else {
                    w2.borrow_mut().bad = Some("the bytes sent are not a transaction".into());
                    return None;
                };
                let mut w = w2.borrow_mut();
                if !w.versions.iter().any(|v| v.hash == tx.hash) {
                    w.versions.push(tx);
                }
                if w.versions.len() > 1 {
                    cover("replaced");
                }
                None
            }
            (_, "eth_getTransactionReceipt") => {
                let (_, _, h): (rpc::RpcServices, Option<rpc::RpcConfig>, String) = args(c);
                let h = hex::decode(h.trim_start_matches("0x")).unwrap();
                let w = w2.borrow();
                let hit = w.mined.as_ref().filter(|m| w.versions[m.0].hash[..] == h[..]);
                Some(consistent(hit.map(|(v, ok, gas, price)| receipt(w.versions[*v].hash, *ok, *gas, price))))
            }
            _ => None,
        };
        if out == 3 {
            cover("callback trapped");
            return Some(sim::callback_traps());
        }
        answer
    });
    // deposits
    register_deposit_events(
        vec![
            ReceivedNativeEvent {
                transaction_hash: Hash([1; 32]),
                block_number: BlockNumber::from(1001u64),
                log_index: LogIndex::from(1u8),
                from_address: addr(0x77),
                value: to_amt(&d0),
                principal: user(1),
                subaccount: None,
            }
            .into(),
            ReceivedErc20Event {
                transaction_hash: Hash([2; 32]),
                block_number: BlockNumber::from(1001u64),
                log_index: LogIndex::from(2u8),
                from_address: addr(0x77),
                value: to_amt(&d1),
                principal: user(1),
                erc20_contract_address: token_addr(2),
                subaccount: None,
            }
            .into(),
        ],
        vec![],
    );
    solvent(&w, "deposit");
    settle(&w, &mut base, "mint");
    if read_state(|s| s.events_to_mint().is_empty() && s.minted_events.len() == 2) {
        cover("minted");
    }
    w.borrow_mut().quiet = false;
    // a withdrawal
    sim::set_time(sim::time() + 60_000_000_000);
    sim::set_caller(user(1));
    let fees = |k: u64| {
        env(|e| {
            e.base_fee = n(10_000_000 * k);
            e.priority = n(2_000_000 * k);
        })
    };
    fees(1);
    let a = nat("amount", 128);
    let to = "0x1111111111111111111111111111111111111111".to_string();
    // the burn's memo holds the amount in as few bytes as it needs: nobody reads it here
    symx::allow_primitive(true);
    let id = if erc20 {
        sim::spawn(async move {
            let r = ep::call_withdraw_erc20(WithdrawErc20Arg { amount: Nat(a), erc20_ledger_id: erc20_ledger(2), recipient: to }).await;
            cover(if r.is_ok() { "withdrawal accepted" } else { "withdrawal refused" });
        })
    } else {
        sim::spawn(async move {
            let r = ep::call_withdraw_native_token(WithdrawalArg { amount: Nat(a), recipient: to }).await;
            cover(if r.is_ok() { "withdrawal accepted" } else { "withdrawal refused" });
        })
    };
    while sim::ended(id).is_none() {
        sim::step(0);
        // between a burn and its record the tokens are the minter's: nothing more may circulate or be owed
        solvent(&w, "request");
    }
    symx::allow_primitive(false);
    sim::set_caller(sim::self_id());
    if if max_faults > 1 { flag("upgraded") } else { erc20 } {
        cover("upgraded");
        let r = sim::message(ep::call_pre_upgrade).is_ok() && sim::message(|| ep::call_post_upgrade(None)).is_ok();
        verify!("P34", r, "the upgrade traps");
        solvent(&w, "upgrade");
    }
    if read_state(|s| s.withdrawal_transactions.reimbursement_requests_iter().count()) > 0 {
        cover("gas fee owed");
    }
    // the network
    let waiting = read_state(|s| s.withdrawal_transactions.withdrawal_requests_iter().count()) > 0;
    for round in 0..if waiting { 3u64 } else { 0 } {
        sim::set_time(sim::time() + 60_000_000_000);
        if round == 1 && !short && w.borrow().mined.is_none() && flag("fees_rise") {
            fees(3);
        }
        let count = w.borrow().mined.is_some() as u64;
        env(|e| {
            e.latest_count = n(count);
            e.finalized_count = n(count);
        });
        let id = sim::spawn(process_retrieve_tokens_requests());
        while sim::ended(id).is_none() {
            sim::step(0);
            solvent(&w, "withdrawal");
        }
        while !sim::pending().is_empty() {
            sim::step(0);
        }
        solvent(&w, "withdrawal");
        if round < 2 && w.borrow().mined.is_none() && (round == 1 || flag("mined_early")) {
            mine(&w);
        }
        solvent(&w, "network");
    }
    // refunds
    for _ in 0..2 {
        let id = sim::spawn(process_reimbursement());
        while sim::ended(id).is_none() {
            sim::step(0);
            solvent(&w, "refund");
        }
    }
    if read_state(|s| s.withdrawal_transactions.reimbursed_transactions_iter().any(|(_, r)| r.is_ok())) {
        cover("reimbursed");
    }
    // another deposit round mints what is still waiting
    base = ic_cdk_timers::sim_timers().len();
    register_deposit_events(vec![], vec![]);
    settle(&w, &mut base, "second mint");
    solvent(&w, "end");
    done();
}

fn mine(w: &Rc<RefCell<World>>) {
    let mut w = w.borrow_mut();
    if w.versions.is_empty() {
        return;
    }
    let v = choose("version", w.versions.len());
    let ok = !flag("tx_failed");
    let tx = w.versions[v].clone();
    let gas = if tx.data.is_empty() { 21_000 } else if ok { 40_000 } else { 65_000 };
    let price = nat("price", 128);
    assume_le(&price, &tx.cap);
    let fee = &price * n(gas);
    let spent = if ok { &fee + &tx.amount } else { fee };
    if w.coins < spent {
        w.bad = Some("a transaction costs more than the minter holds".into());
        return;
    }
    w.coins -= &spent;
    cover(if ok { "paid out" } else { "transaction failed" });
    if ok && !tx.data.is_empty() {
        // transfer(address,uint256)
        if tx.data.len() != 68 || tx.to != token_addr(2).as_ref() as &[u8] {
            w.bad = Some("a transaction calls something else than the token's transfer function".into());
            return;
        }
        let x: Wei = Wei::from_be_bytes(tx.data[36..68].try_into().unwrap());
        let x = big(x);
        if w.tokens < x {
            w.bad = Some("more tokens are sent than the minter holds".into());
            return;
        }
        w.tokens -= &x;
    }
    w.mined = Some((v, ok, gas, price));
}

fn receipt(hash: [u8; 32], ok: bool, gas: u64, price: &BigUint) -> rpc::TransactionReceipt {
    rpc::TransactionReceipt {
        block_hash: rpc::Hex32::from([5u8; 32]),
        block_number: rpc::Nat256::from(4000u64),
        effective_gas_price: nat256(price),
        gas_used: rpc::Nat256::from(gas),
        status: Some(rpc::Nat256::from(ok as u8)),
        transaction_hash: rpc::Hex32::from(hash),
        contract_address: None,
        from: rpc::Hex20::from([1u8; 20]),
        logs: vec![],
        logs_bloom: rpc::Hex256::from([0u8; 256]),
        to: None,
        transaction_index: rpc::Nat256::from(0u8),
        tx_type: rpc::HexByte::from(2u8),
    }
}
