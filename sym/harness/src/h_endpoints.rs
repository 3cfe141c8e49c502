//! The public endpoints: withdrawals, token registry, prices, configuration, upgrades.
use crate::common::*;
use crate::minter_main::verif_main_probe as ep;
use crate::world::*;
use candid::{Nat, Principal};
use evm_minter::endpoints::*;
use evm_minter::eth_types::Address;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::memo::BurnMemo;
use evm_minter::numeric::*;
use evm_minter::state::transactions::*;
use evm_rpc_types as rpc;
use icrc_ledger_types::icrc1::account::Account;
use icrc_ledger_types::icrc1::transfer::{TransferArg, TransferError};
use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};
use num_bigint::BigUint;
use std::cell::RefCell;
use std::rc::Rc;

const W_FUNCS: &str = "withdraw_native_token, withdraw_erc20, retrieve_withdraw_guard, validate_address_as_destination, LedgerClient::{burn_from,trasnfer_withdrawal_fee,refund_withdrawal_fee}, error conversions, BurnMemo encoding, lazy_refresh_gas_fee_estimate, process_event";

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "withdraw_native",
            props: &["P18", "P16"],
            tier: "quick",
            run: withdraw_native,
            covers: &["accepted", "too low", "bad destination", "burn failed", "fee failed", "refunded", "anonymous"],
            bounds: "one request; requested amount (256 bit), minimum, withdrawal fee, ledger fee symbolic (128 bit); every ledger answer to the fee transfer, the burn and the refund; a second request of the same user at any await point",
            functions: W_FUNCS,
            workers: 4,
        },
        Harness {
            name: "withdraw_erc20",
            props: &["P19", "P16"],
            tier: "quick",
            run: withdraw_erc20,
            covers: &["accepted", "unsupported", "bad destination", "native burn failed", "erc20 burn failed", "fee failed", "refunded", "no estimate", "gas fee reimbursed", "anonymous"],
            bounds: "one request for one of three tokens (one unsupported), or an anonymous one; amount (256 bit), gas fees (64 bit), withdrawal fee and ledger fee (128 bit) symbolic; every answer to the fee transfer, both burns, the refund and the fee history; a second request of the same user at any await point",
            functions: W_FUNCS,
            workers: 8,
        },
        Harness {
            name: "guard_limits",
            props: &["P16"],
            tier: "quick",
            run: guard_limits,
            covers: &["admitted", "full"],
            bounds: "0, 1, 99, 100 or 101 requests pending in the queue or withdrawals in progress",
            functions: "retrieve_withdraw_guard, Guard::{new,drop}, withdraw_native_token",
            workers: 1,
        },
    ]
}

#[derive(Default)]
struct Book {
    /// what the user paid and got back on the native ledger (ledger fees included), and on the ERC-20 ledger
    out: BigUint,
    back: BigUint,
    out20: BigUint,
    fee_account: BigUint,
    burned: Vec<(Principal, BigUint, u64, Option<BurnMemo>)>,
    fee_taken: bool,
    fee_failed: bool,
    refund_ok: Option<bool>,
    burn_error: Option<&'static str>,
    burn20_error: Option<&'static str>,
    bad: Option<String>,
    calls: u32,
}
const WHO: u8 = 5;
fn fees_account() -> Account {
    Account { owner: self_account(), subaccount: Some(evm_minter::FEES_SUBACCOUNT) }
}
fn default_account() -> Account {
    Account { owner: self_account(), subaccount: None }
}
/// An ICRC-1/ICRC-2 ledger: transfers cost `tf`, transfers to the minter's default account burn, burns below the
/// ledger fee are refused, a spender needs an allowance unless it spends from its own account.
fn ledger(b: &mut Book, c: &Call, tf: &BigUint) -> Option<Reply> {
    let native = c.callee == native_ledger();
    let who = Account { owner: user(WHO), subaccount: None };
    if c.method == "icrc2_transfer_from" {
        b.calls += 1;
        let (a,): (TransferFromArgs,) = args(c);
        type R = Result<Nat, TransferFromError>;
        let err = |e: TransferFromError| reply((R::Err(e),));
        if a.created_at_time.is_some() || a.fee.is_some() {
            b.bad = Some("a transfer sets a fee or a time, which the ledger may refuse".into());
        }
        let spender = Account { owner: self_account(), subaccount: a.spender_subaccount };
        if a.from.owner == self_account() {
            if a.from != spender {
                b.refund_ok = Some(false);
                return Some(err(TransferFromError::InsufficientAllowance { allowance: Nat::from(0u8) }));
            }
            return Some(match refund(b, &a.from, &a.to, &a.amount.0, tf) {
                0 => reply((R::Ok(next_block().into()),)),
                1 => err(TransferFromError::TemporarilyUnavailable),
                _ => rejected(),
            });
        }
        if a.from != who {
            b.bad = Some("tokens are taken from someone else than the caller".into());
            return Some(rejected());
        }
        let fee = a.to == fees_account();
        if !fee && a.to != default_account() {
            b.bad = Some("the user's tokens go to a foreign account".into());
            return Some(rejected());
        }
        if fee && !native {
            b.bad = Some("the withdrawal fee is taken on the wrong ledger".into());
        }
        let kind = if fee { "fee_transfer" } else if native { "native_burn" } else { "erc20_burn" };
        let too_low = !fee && native && a.amount.0 < *tf;
        let mut out = if too_low { 3 } else { choose(kind, if kind == "erc20_burn" { 6 } else { 5 }) };
        if out >= 3 && !too_low && kind != "erc20_burn" {
            out += 1; // the native ledger's minimum is its fee, and a transfer has none
        }
        if out == 0 {
            let idx = next_block();
            if fee {
                b.fee_taken = true;
                b.out += &a.amount.0 + tf;
                b.fee_account += &a.amount.0;
            } else {
                if native {
                    b.out += &a.amount.0;
                } else {
                    b.out20 += &a.amount.0;
                }
                let memo = a.memo.as_ref().and_then(|m| minicbor::decode::<BurnMemo>(&m.0).ok());
                b.burned.push((c.callee, a.amount.0.clone(), idx, memo));
            }
            return Some(reply((R::Ok(idx.into()),)));
        }
        let name = ["", "funds", "allowance", "low", "unavailable", "unavailable"][out];
        if fee {
            b.fee_failed = true;
        } else if native {
            b.burn_error = Some(name);
        } else {
            b.burn20_error = Some(name);
        }
        return Some(match out {
            1 => err(TransferFromError::InsufficientFunds { balance: Nat::from(17u8) }),
            2 => err(TransferFromError::InsufficientAllowance { allowance: Nat::from(18u8) }),
            3 => err(TransferFromError::BadBurn { min_burn_amount: Nat(tf.clone()) }),
            4 => err(TransferFromError::TemporarilyUnavailable),
            _ => rejected(),
        });
    }
    if c.method == "icrc1_transfer" {
        b.calls += 1;
        let (a,): (TransferArg,) = args(c);
        type R = Result<Nat, TransferError>;
        let from = Account { owner: self_account(), subaccount: a.from_subaccount };
        return Some(match refund(b, &from, &a.to, &a.amount.0, tf) {
            0 => reply((R::Ok(next_block().into()),)),
            1 => reply((R::Err(TransferError::TemporarilyUnavailable),)),
            _ => rejected(),
        });
    }
    None
}
fn refund(b: &mut Book, from: &Account, to: &Account, amount: &BigUint, tf: &BigUint) -> usize {
    if *from != fees_account() {
        b.bad = Some("a refund is not paid from the fee account".into());
    } else if *to != (Account { owner: user(WHO), subaccount: None }) {
        b.bad = Some("a refund goes to someone else".into());
    } else if amount + tf > b.fee_account {
        // the ledger would take it from other users' fees
        if *amount > n(0) {
            b.bad = Some("a refund is larger than what was taken".into());
        }
    }
    let out = choose("refund", 3);
    b.refund_ok = Some(out == 0);
    if out == 0 {
        cover("refunded");
        b.back += amount;
    }
    out
}
const RECIPIENTS: [(&str, bool); 5] = [
    ("0x1111111111111111111111111111111111111111", true),
    ("0x0000000000000000000000000000000000000000", false),
    ("0x11111111111111111111111111111111111111", false),
    ("1111111111111111111111111111111111111111", false),
    ("0x111111111111111111111111111111111111111g", false),
];

/// Run one endpoint call to its end; before the k-th ledger answer the same user calls again, which must be refused
/// without any effect. None: trapped.
fn with_intruder<R: 'static>(fut: impl std::future::Future<Output = R> + 'static, again: impl Fn() -> bool) -> Option<R> {
    let at = choose("second_request_before_answer", 4);
    let out = Rc::new(RefCell::new(None));
    let o2 = out.clone();
    let id = sim::spawn(async move {
        let r = fut.await;
        *o2.borrow_mut() = Some(r);
    });
    let mut k = 0;
    while sim::ended(id).is_none() {
        k += 1;
        if k == at {
            let before = (sim::pending().len(), state());
            let admitted = again();
            verify!("P16", !admitted && sim::pending().len() == before.0 && read_state(|s| s.pending_withdrawal_principals == before.1.pending_withdrawal_principals),
                "a second withdrawal of the same user was not refused while the first is in progress");
        }
        sim::step(0);
    }
    let r = out.borrow_mut().take();
    r
}

fn withdraw_native() {
    let mut arg = init_arg(EvmNetwork::Sepolia);
    let tf = nat("ledger_fee", 128);
    let min = nat("minimum", 128);
    let fee = if flag("withdrawal_fee") { nat("fee", 128) } else { n(0) };
    assume_le(&n(1), &min);
    assume_le(&tf, &min);
    arg.native_ledger_transfer_fee = tf.clone().into();
    arg.native_minimum_withdrawal_amount = min.clone().into();
    arg.withdrawal_native_fee = fee.clone().into();
    install(arg);
    let amount = nat("amount", 256);
    let (recipient, valid) = RECIPIENTS[choose("recipient", 5)];
    let anonymous = flag("anonymous");
    let b = shared(Book::default());
    let (b2, tf2) = (b.clone(), tf.clone());
    handle(move |c| ledger(&mut b2.borrow_mut(), c, &tf2));
    sim::set_time(77_000_000_000);
    let before = state();
    let call = |a: BigUint| ep::call_withdraw_native_token(WithdrawalArg { amount: Nat(a), recipient: recipient.to_string() });
    sim::set_caller(if anonymous { Principal::anonymous() } else { user(WHO) });
    let r = with_intruder(call(amount.clone()), || {
        sim::set_caller(user(WHO));
        let id = sim::spawn(async move {
            let _ = ep::call_withdraw_native_token(WithdrawalArg { amount: Nat::from(1u64 << 60), recipient: RECIPIENTS[0].0.to_string() }).await;
        });
        !matches!(sim::ended(id), Some(sim::TaskEnd::Trapped))
    });
    let b = b.borrow();
    if let Some(m) = &b.bad {
        verify!("P18", false, m);
    }
    verify!("P16", read_state(|s| s.pending_withdrawal_principals.is_empty()), "the user is still locked after the withdrawal request ended");
    let s = state();
    let reqs: Vec<NativeWithdrawalRequest> = s
        .withdrawal_transactions
        .withdrawal_requests_iter()
        .map(|r| match r {
            WithdrawalRequest::Native(x) => x.clone(),
            _ => panic!("another kind of withdrawal"),
        })
        .collect();
    if anonymous {
        cover("anonymous");
        verify!("P18", r.is_none() && b.calls == 0 && reqs.is_empty(), "an anonymous withdrawal was not refused at once");
        return done();
    }
    let accepted = matches!(r, Some(Ok(_)));
    verify!("P18", accepted == (reqs.len() == 1) && reqs.len() <= 1, "acceptance reported without a withdrawal, or the other way round");
    if !accepted {
        verify!("P18", b.burned.is_empty(), "tokens were burned for a withdrawal that was not accepted");
        let lost = &b.out - min_of(b.out.clone(), b.back.clone());
        if !b.fee_taken {
            verify!("P18", b.out == n(0), "a refused withdrawal cost the user something");
        } else {
            verify!("P18", b.refund_ok.is_some(), "the withdrawal fee was kept although the withdrawal was refused");
            if b.refund_ok == Some(true) {
                verify!("P18", lost <= &tf * n(2) || (fee < &tf * n(2) && lost <= fee), "the refund of the withdrawal fee is too small");
            } else {
                // best effort: refused only by the ledger's own failure
                verify!("P18", seen().iter().any(|c| refund_was_answered(c)), "the refund cannot succeed: the ledger refuses the minter as a spender");
            }
        }
    }
    match r {
        Some(Ok(ok)) => {
            cover("accepted");
            verify!("P18", valid, "a withdrawal to an invalid address was accepted");
            verify!("P18", amount >= min, "a withdrawal below the minimum was accepted");
            let q = &reqs[0];
            verify!("P18", b.burned.len() == 1 && b.burned[0].0 == native_ledger(), "not exactly one burn on the native ledger");
            let (_, burned, idx, memo) = &b.burned[0];
            verify!("P18", big(q.withdrawal_amount) == *burned, "the recorded amount is not the burned one");
            verify!("P18", b.out == amount, "the user was not charged exactly the requested amount");
            verify!("P18", burned + &fee == amount, "the burned amount is not the requested one less the withdrawal fee");
            verify!("P18", b.fee_taken == (fee > n(0)), "the withdrawal fee was not taken");
            verify!("P18", q.ledger_burn_index.get() == *idx && ok.block_index == Nat::from(*idx), "the withdrawal is recorded under another burn");
            verify!("P18", q.destination == addr(0x11) && q.from == user(WHO) && q.from_subaccount.is_none() && q.created_at == Some(77_000_000_000), "the recorded withdrawal names another destination, owner or time");
            verify!("P18", *memo == Some(BurnMemo::Convert { to_address: addr(0x11) }), "the memo of the burn does not name the destination");
        }
        Some(Err(e)) => match e {
            WithdrawalError::AmountTooLow { min_withdrawal_amount } => {
                cover("too low");
                verify!("P18", valid && b.calls == 0, "refused late");
                verify!("P18", amount < min || amount < &fee + &tf, "a sufficient amount was refused");
                verify!("P18", min_withdrawal_amount.0 >= min && min_withdrawal_amount.0 > amount, "the reported minimum is not the minimum");
            }
            WithdrawalError::InvalidDestination(_) => {
                cover("bad destination");
                verify!("P18", !valid && b.calls == 0, "a valid address was refused");
            }
            WithdrawalError::InsufficientFunds { balance } => verify!("P18", balance == Nat::from(17u8), "another error than the ledger's is reported"),
            WithdrawalError::InsufficientAllowance { allowance } => verify!("P18", allowance == Nat::from(18u8), "another error than the ledger's is reported"),
            WithdrawalError::TemporarilyUnavailable(_) => {
                verify!("P18", b.fee_failed || b.burn_error == Some("unavailable"), "unavailability reported although the ledger answered")
            }
        },
        None => {
            // allowed: a fee that cannot even pay the ledger fee (misconfiguration), before anything is taken
            verify!("P18", (fee > n(0) && fee < tf && b.calls == 0), "the withdrawal endpoint trapped");
        }
    }
    if b.burn_error.is_some() {
        cover("burn failed");
    }
    if b.fee_failed {
        cover("fee failed");
    }
    let _ = before;
    done();
}
fn refund_was_answered(c: &Call) -> bool {
    match c.method.as_str() {
        "icrc1_transfer" => true,
        "icrc2_transfer_from" => {
            let (a,): (TransferFromArgs,) = args(c);
            a.from.owner == self_account() && a.from.subaccount == a.spender_subaccount
        }
        _ => false,
    }
}

fn withdraw_erc20() {
    let mut arg = init_arg(EvmNetwork::Sepolia);
    let tf = nat("ledger_fee", 128);
    let fee = if flag("withdrawal_fee") { nat("fee", 128) } else { n(0) };
    arg.native_ledger_transfer_fee = tf.clone().into();
    arg.native_minimum_withdrawal_amount = Nat(BigUint::from(1u8) << 128u32);
    arg.withdrawal_native_fee = fee.clone().into();
    install(arg);
    add_token(1);
    add_token(2);
    // the memo encoding turns small amounts into primitive integers, which are only moved
    symx::allow_primitive(true);
    let amount = nat("amount", 256);
    let (recipient, valid) = RECIPIENTS[choose("recipient", 3)];
    let which = choose("token", 4) as u8;
    let anonymous = which == 0;
    let which = which.max(1);
    env(|e| {
        e.base_fee = nat("base", 64);
        e.priority = nat("prio", 64);
    });
    let gas = {
        let (base, prio) = env(|e| (e.base_fee.clone(), e.priority.clone()));
        // the configured minimum of the tip is 1500
        (base * n(2) + max_of(prio, n(1_500))) * n(65_000)
    };
    let b = shared(Book::default());
    let (b2, tf2) = (b.clone(), tf.clone());
    let est_fails = flag("no_estimate");
    handle(move |c| {
        if c.method == "eth_feeHistory" {
            if est_fails {
                return Some(rejected());
            }
            // the fees move on while the ledgers answer
            let r = default_reply(c);
            env(|e| e.base_fee = nat("base_later", 64));
            return Some(r);
        }
        sim::set_time(sim::time() + 60_000_000_000);
        ledger(&mut b2.borrow_mut(), c, &tf2)
    });
    sim::set_time(77_000_000_000);
    sim::set_caller(if anonymous { Principal::anonymous() } else { user(WHO) });
    let r = with_intruder(
        ep::call_withdraw_erc20(WithdrawErc20Arg { amount: Nat(amount.clone()), erc20_ledger_id: erc20_ledger(which), recipient: recipient.to_string() }),
        || {
            sim::set_caller(user(WHO));
            let id = sim::spawn(async move {
                let _ = ep::call_withdraw_erc20(WithdrawErc20Arg { amount: Nat::from(5u8), erc20_ledger_id: erc20_ledger(1), recipient: RECIPIENTS[0].0.to_string() }).await;
            });
            !matches!(sim::ended(id), Some(sim::TaskEnd::Trapped))
        },
    );
    let b = b.borrow();
    if let Some(m) = &b.bad {
        verify!("P19", false, m);
    }
    verify!("P16", read_state(|s| s.pending_withdrawal_principals.is_empty() && s.active_tasks.is_empty()), "the user or the fee estimate is still locked after the withdrawal request ended");
    let s = state();
    let w = &s.withdrawal_transactions;
    let reqs: Vec<Erc20WithdrawalRequest> = w
        .withdrawal_requests_iter()
        .map(|r| match r {
            WithdrawalRequest::Erc20(x) => x.clone(),
            _ => panic!("another kind of withdrawal"),
        })
        .collect();
    let owed: Vec<ReimbursementRequest> = w.reimbursement_requests_iter().map(|(_, r)| r.clone()).collect();
    if anonymous {
        cover("anonymous");
        verify!("P19", r.is_none() && b.calls == 0 && reqs.is_empty() && owed.is_empty(), "an anonymous withdrawal was not refused at once");
        return done();
    }
    let accepted = matches!(r, Some(Ok(_)));
    verify!("P19", accepted == (reqs.len() == 1) && reqs.len() <= 1, "acceptance reported without a withdrawal, or the other way round");
    verify!("P19", r.is_some() || (fee > n(0) && fee < tf && b.calls == 0), "the withdrawal endpoint trapped");
    let burned = |l: Principal| b.burned.iter().filter(|x| x.0 == l).cloned().collect::<Vec<_>>();
    let (bn, be) = (burned(native_ledger()), burned(erc20_ledger(which)));
    verify!("P19", bn.len() + be.len() == b.burned.len() && bn.len() <= 1 && be.len() <= 1, "unexpected burns");
    if let Some(x) = bn.first() {
        verify!("P19", x.1 == gas, "the gas fee burned is not the estimated maximal transaction fee");
        verify!("P19", x.3 == Some(BurnMemo::Erc20GasFee { erc20_token_symbol: token(which, EvmNetwork::Sepolia).erc20_token_symbol, erc20_withdrawal_amount: to_amt(&amount), to_address: addr(0x11) }),
            "the memo of the fee burn does not describe the withdrawal");
    }
    if accepted {
        cover("accepted");
        verify!("P19", valid && which <= 2, "a withdrawal of an unsupported token or to an invalid address was accepted");
        verify!("P19", bn.len() == 1 && be.len() == 1, "not exactly one burn on each ledger");
        let q = &reqs[0];
        verify!("P19", big(q.withdrawal_amount) == amount && be[0].1 == amount, "the recorded or burned token amount is not the requested one");
        verify!("P19", big(q.max_transaction_fee) == bn[0].1, "the recorded fee is not the burned one");
        verify!("P19", b.out20 == amount && b.out == &gas + &fee, "the user was not charged exactly the amount and the fees");
        verify!("P19", b.fee_taken == (fee > n(0)) && owed.is_empty(), "the withdrawal fee was not taken, or something is reimbursed");
        verify!("P19", q.destination == addr(0x11) && q.from == user(WHO) && q.from_subaccount.is_none() && (77_000_000_000..=sim::time()).contains(&q.created_at), "the recorded withdrawal names another destination, owner or time");
        verify!("P19", q.erc20_contract_address == token_addr(which) && q.erc20_ledger_id == erc20_ledger(which), "the recorded withdrawal names another token");
        verify!("P19", q.native_ledger_burn_index.get() == bn[0].2 && q.erc20_ledger_burn_index.get() == be[0].2, "the recorded withdrawal names other burns");
        if let Some(Ok(ok)) = &r {
            verify!("P19", ok.native_block_index == Nat::from(bn[0].2) && ok.erc20_block_index == Nat::from(be[0].2), "other burns are reported to the user");
        }
        verify!("P19", be[0].3 == Some(BurnMemo::Erc20Convert { erc20_withdrawal_id: bn[0].2, to_address: addr(0x11) }), "the memo of the token burn does not name the withdrawal");
        return done();
    }
    verify!("P19", be.is_empty() && b.out20 == n(0), "tokens were burned for a withdrawal that was not accepted");
    // a burned gas fee is reimbursed
    if let Some(x) = bn.first() {
        cover("erc20 burn failed");
        let want = if b.burn20_error == Some("unavailable") { gas.clone() } else if gas > tf { &gas - &tf } else { n(0) };
        if want > n(0) {
            cover("gas fee reimbursed");
            verify!("P19", owed.len() == 1 && big(owed[0].reimbursed_amount) == want, "the burned gas fee is not reimbursed in full (less one ledger fee if the user caused the failure)");
            verify!("P19", owed[0].to == user(WHO) && owed[0].to_subaccount.is_none() && owed[0].ledger_burn_index.get() == x.2 && owed[0].transaction_hash.is_none(),
                "the reimbursement of the gas fee names someone else or another burn");
        } else {
            verify!("P19", owed.is_empty(), "nothing is left to reimburse");
        }
    } else {
        verify!("P19", owed.is_empty(), "a reimbursement is recorded although nothing was burned");
    }
    // the withdrawal fee is given back
    let paid = &b.out - bn.first().map_or(n(0), |x| x.1.clone());
    if b.fee_taken {
        verify!("P19", b.refund_ok.is_some(), "the withdrawal fee was kept although the withdrawal was refused");
        let lost = &paid - min_of(paid.clone(), b.back.clone());
        if b.refund_ok == Some(true) {
            verify!("P19", lost <= &tf * n(2) || (fee < &tf * n(2) && lost <= fee), "the refund of the withdrawal fee is too small");
        } else {
            verify!("P19", seen().iter().any(|c| refund_was_answered(c)), "the refund cannot succeed: the ledger refuses the minter as a spender");
        }
    } else {
        verify!("P19", paid == n(0), "a refused withdrawal cost the user something");
    }
    match r {
        Some(Err(e)) => match e {
            WithdrawErc20Error::TokenNotSupported { supported_tokens } => {
                cover("unsupported");
                verify!("P19", which == 3 && b.calls == 0, "a supported token was refused");
                let l: Vec<Principal> = supported_tokens.iter().map(|t| t.ledger_canister_id).collect();
                verify!("P19", l.len() == 2 && l.contains(&erc20_ledger(1)) && l.contains(&erc20_ledger(2)), "the list of supported tokens is wrong");
            }
            WithdrawErc20Error::InvalidDestination(_) => {
                cover("bad destination");
                verify!("P19", !valid && b.calls == 0, "a valid address was refused");
            }
            WithdrawErc20Error::TemporarilyUnavailable(_) => {
                cover("no estimate");
                verify!("P19", est_fails && b.calls == 0, "refused although a fee estimate was available");
            }
            WithdrawErc20Error::NativeFeeTransferError { .. } => {
                cover("fee failed");
                verify!("P19", b.fee_failed, "a failure of the fee transfer is reported although it succeeded");
            }
            WithdrawErc20Error::NativeLedgerError { error } => {
                cover("native burn failed");
                verify!("P19", b.burn_error.is_some_and(|x| named(&error) == x), "another error than the ledger's is reported");
            }
            WithdrawErc20Error::Erc20LedgerError { native_block_index, error } => {
                verify!("P19", b.burn20_error.is_some_and(|x| named(&error) == x) && native_block_index == Nat::from(bn[0].2), "another error than the ledger's is reported");
            }
        },
        _ => {}
    }
    done();
}
fn named(e: &LedgerError) -> &'static str {
    match e {
        LedgerError::InsufficientFunds { .. } => "funds",
        LedgerError::AmountTooLow { .. } => "low",
        LedgerError::InsufficientAllowance { .. } => "allowance",
        LedgerError::TemporarilyUnavailable(_) => "unavailable",
    }
}

fn guard_limits() {
    use evm_minter::guard::retrieve_withdraw_guard;
    install(init_arg(EvmNetwork::Sepolia));
    let k = [0usize, 1, 99, 100][choose("count", 4)];
    let queue = flag("queued");
    let mut held = vec![];
    if queue {
        for i in 0..k as u64 {
            event(evm_minter::state::audit::EventType::AcceptedNativeWithdrawalRequest(NativeWithdrawalRequest {
                withdrawal_amount: 5u64.into(),
                destination: addr(3),
                ledger_burn_index: burn(i),
                from: user(9),
                from_subaccount: None,
                created_at: None,
            }));
        }
    } else {
        for i in 0..k {
            held.push(retrieve_withdraw_guard(Principal::from_slice(&[i as u8, 1, 2])).unwrap());
        }
    }
    let g = retrieve_withdraw_guard(user(WHO));
    verify!("P16", g.is_ok() == (k < 100), "the number of withdrawals in progress or waiting is not limited to a hundred");
    cover(if g.is_ok() { "admitted" } else { "full" });
    if g.is_ok() {
        verify!("P16", retrieve_withdraw_guard(user(WHO)).is_err(), "a user holds two guards");
        verify!("P16", read_state(|s| s.pending_withdrawal_principals.contains(&user(WHO))), "a refused second guard released the first");
    }
    let n0 = read_state(|s| s.pending_withdrawal_principals.len());
    drop(g);
    drop(held);
    verify!("P16", read_state(|s| s.pending_withdrawal_principals.is_empty()), "a guard was not released");
    let again = retrieve_withdraw_guard(user(WHO)).is_ok();
    verify!("P16", again == !(queue && k >= 100), "a user is locked out after the guard was released");
    let _ = n0;
    done();
}
