//! Configuration, upgrades, token registry, background work, self-description.
use crate::common::*;
use crate::h_tx::{erc20_request, native_request, NETS};
use crate::h_withdraw::{deposit_erc20, deposit_native, same_state};
use crate::minter_main::verif_main_probe as ep;
use crate::world::*;
use candid::{Nat, Principal};
use evm_minter::endpoints::{AddErc20Token, CandidBlockTag};
use evm_minter::eth_types::Address;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::lifecycle::{InitArg, MinterArg, UpgradeArg};
use evm_minter::numeric::*;
use evm_minter::rpc_client::providers::Provider;
use evm_minter::state::audit::EventType;
use evm_minter::state::transactions::*;
use evm_minter::state::{read_state, State};
use evm_minter::storage;
use num_bigint::BigUint;
use std::collections::BTreeSet;
use std::time::Duration;

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "add_token",
            props: &["P20"],
            tier: "quick",
            run: add_token_harness,
            covers: &["added", "not the manager", "another network", "chain id too large", "unknown chain", "bad address", "bad symbol", "duplicate"],
            bounds: "one registration on each of the ten networks with zero to two tokens registered; chain id: each supported one, a supported one plus 2^32, 2^64 or 2^128, 0, any other number (symbolic, 300 bits); caller: the manager, a user, the anonymous principal, the minter itself; ten forms of address, seven symbols, new and used ledger",
            functions: "add_erc20_token, ERC20Token::try_from, ERC20TokenSymbol::from_str, Address::from_str, EvmNetwork::try_from, State::record_add_erc20_token, DedupMultiKeyMap::try_insert, process_event",
            workers: 2,
        },
        Harness {
            name: "privileged",
            props: &["P20"],
            tier: "quick",
            run: privileged,
            covers: &["not activated"],
            bounds: "the early deposit check by any of four callers, on a minter for which no swap canister was configured",
            functions: "check_new_deposits",
            workers: 1,
        },
        Harness {
            name: "init_config",
            props: &["P25"],
            tier: "quick",
            run: init_config,
            covers: &["installed", "refused", "number too large", "free of fees", "with fees", "below the ledger fee", "zero minimum"],
            bounds: "all seven numbers of the installation argument symbolic over 260 bits; ten variants of the other fields, each of the ten networks; one upgrade without argument afterwards",
            functions: "init, State::try_from(InitArg), State::validate_config, pre_upgrade, post_upgrade, replay_events, get_minter_info",
            workers: 4,
        },
        Harness {
            name: "upgrade_config",
            props: &["P25"],
            tier: "quick",
            run: upgrade_config,
            covers: &["upgraded", "refused", "all fields", "no argument", "free of fees", "with fees", "number too large"],
            bounds: "an upgrade with no argument, an empty one, each single field, the minimum together with the ledger fee, or all fields; old configuration (128 bits) and new numbers (260 bits) symbolic; four helper addresses; a second upgrade without argument",
            functions: "pre_upgrade, post_upgrade, State::upgrade, State::validate_config, WithdrawalTransactions::update_next_transaction_nonce, replay_events",
            workers: 4,
        },
        Harness {
            name: "wrong_arg",
            props: &["P25"],
            tier: "quick",
            run: wrong_arg,
            covers: &["installation", "upgrade"],
            bounds: "an installation with an upgrade argument and an upgrade with an installation argument",
            functions: "init, post_upgrade",
            workers: 1,
        },
        Harness {
            name: "upgrade_keeps",
            props: &["P13"],
            tier: "quick",
            run: upgrade_keeps,
            covers: &["upgraded", "pending mint", "minted", "invalid", "quarantined", "skipped", "withdrawal", "refund"],
            bounds: "a history of two events out of eleven kinds of each canister activity (deposits, mints, invalid and quarantined deposits, skipped blocks, tokens, withdrawals, failed withdrawals) with symbolic amounts, two upgrades",
            functions: "pre_upgrade, post_upgrade, replay_events, apply_state_transition, event encoding",
            workers: 4,
        },
        Harness {
            name: "timers",
            props: &["P24"],
            tier: "quick",
            run: timers,
            covers: &["after installation", "after an upgrade", "key fetched", "fees fetched", "scraped", "withdrawals", "refunds", "registered with the manager"],
            bounds: "a minter with a withdrawal and a refund waiting (amounts symbolic), right after its installation or after an upgrade; every timer fired once",
            functions: "setup_timers, init, post_upgrade, scrape_logs, process_retrieve_tokens_requests, process_reimbursement, lazy_call_ecdsa_public_key, lazy_refresh_gas_fee_estimate, lazy_add_native_ls_to_lsm_canister",
            workers: 1,
        },
        Harness {
            name: "lsm_registration",
            props: &["P24"],
            tier: "quick",
            run: || lsm_registration(false),
            covers: &["registered", "refused", "unreachable"],
            bounds: "each network; accepted, refused and rejected by the manager; the module files, which the repository does not contain, are stand-ins holding their own names",
            functions: "lazy_add_native_ls_to_lsm_canister, LSMClient::{new_native_ls,call_lsm_to_add_twin_native}, WasmHash",
            workers: 1,
        },
        Harness {
            name: "lsm_modules",
            props: &["P24"],
            tier: "quick",
            run: || lsm_registration(true),
            covers: &["registered"],
            bounds: "one registration; apart from lsm_registration because of the known finding it shows: which of the two modules is the ledger's",
            functions: "LSMClient::new_native_ls, WasmHash",
            workers: 1,
        },
        Harness {
            name: "info",
            props: &["P28"],
            tier: "quick",
            run: info,
            covers: &["fees", "no fees", "no tokens", "two tokens", "estimate", "no estimate", "address", "no address"],
            bounds: "zero to two tokens; symbolic minimum, fees, deposits of both kinds (128 bits), scraping position, observed block and gas fees; with and without a known key",
            functions: "get_minter_info, minter_address, smart_contract_address, State::{supported_erc20_tokens,minter_address}, Erc20Balances::balance_of, NativeBalance::native_balance, GasFeeEstimate::estimate_max_fee_per_gas",
            workers: 2,
        },
    ]
}

// ------------------------------------------------------------------------------------------------- P20

fn callers() -> [Principal; 4] {
    [lsm(), user(3), Principal::anonymous(), sim::self_id()]
}
fn log_len() -> u64 {
    storage::total_event_count()
}
fn tokens(s: &State) -> Vec<(Principal, Address, String)> {
    s.supported_erc20_tokens().map(|t| (t.erc20_ledger_id, t.erc20_contract_address, t.erc20_token_symbol.to_string())).collect()
}
fn add_token_harness() {
    handle(|_| None);
    let existing = choose("existing", 3);
    let (net, cid) = NETS[if existing == 1 { choose("network", 10) } else { 0 }];
    install(init_arg(net));
    for k in 0..existing {
        add_token(k as u8);
    }
    let who = choose("caller", 4);
    // one aspect deviates from a good registration, or two
    let dev = choose("deviation", 6);
    let chain = if dev != 1 {
        n(cid)
    } else {
        match choose("chain kind", 15) {
            k @ 0..=9 => n(NETS[k].1),
            10 => n(cid) + (n(1) << 32u32),
            11 => n(cid) + (n(1) << 64u32),
            12 => n(cid) + (n(1) << 128u32),
            13 => n(0),
            _ => {
                // any other number
                symx::allow_primitive(true);
                let c = nat("chain", 300);
                for (_, k) in NETS {
                    symx::assume(c != n(k));
                }
                c
            }
        }
    };
    let (address, parsed): (String, Option<Address>) = match if dev == 2 || dev == 5 { choose("address", 10) } else { 0 } {
        0 => ("0xabcdefabcdefabcdefabcdefabcdefabcdefabcd".into(), Some(Address::new([0xab, 0xcd, 0xef, 0xab, 0xcd, 0xef, 0xab, 0xcd, 0xef, 0xab, 0xcd, 0xef, 0xab, 0xcd, 0xef, 0xab, 0xcd, 0xef, 0xab, 0xcd]))),
        1 => ("0xABCDEFABCDEFABCDEFABCDEFABCDEFABCDEFABCD".into(), Some(Address::new([0xab, 0xcd, 0xef, 0xab, 0xcd, 0xef, 0xab, 0xcd, 0xef, 0xab, 0xcd, 0xef, 0xab, 0xcd, 0xef, 0xab, 0xcd, 0xef, 0xab, 0xcd]))),
        2 => (token_addr(0).to_string(), Some(token_addr(0))),
        3 => (token_addr(1).to_string().to_lowercase(), Some(token_addr(1))),
        4 => ("abcdefabcdefabcdefabcdefabcdefabcdefabcd".into(), None),
        5 => ("0xabcdefabcdefabcdefabcdefabcdefabcdefabc".into(), None),
        6 => ("0xabcdefabcdefabcdefabcdefabcdefabcdefabcd00".into(), None),
        7 => ("0xgbcdefabcdefabcdefabcdefabcdefabcdefabcd".into(), None),
        8 => ("".into(), None),
        _ => ("0x".into(), None),
    };
    let (symbol, good): (String, bool) = match if dev == 3 || dev == 5 { choose("symbol", 7) } else { 0 } {
        0 => ("icNEW".into(), true),
        1 => ("".into(), true),
        2 => ("ABCDEFGHIJKLMNOPQRST".into(), true),
        3 => ("ABCDEFGHIJKLMNOPQRSTU".into(), false),
        4 => ("ic\u{e9}".into(), false),
        5 => ("icTOK0".into(), true),
        _ => ("icTOK1".into(), true),
    };
    let ledger = if dev == 4 || dev == 5 { erc20_ledger([0, 1, 7][choose("ledger", 3)]) } else { erc20_ledger(7) };
    let before = state();
    let old = tokens(&before);
    let len = log_len();
    sim::set_caller(callers()[who]);
    let arg = AddErc20Token { chain_id: Nat::from(chain.clone()), address, erc20_token_symbol: symbol.clone(), erc20_ledger_id: ledger };
    let r = sim::block_on(ep::call_add_erc20_token(arg));
    let clash = old.iter().any(|(l, a, s)| *l == ledger || Some(*a) == parsed || *s == symbol);
    let same_chain = chain == n(cid);
    let ok = who == 0 && parsed.is_some() && good && !clash && same_chain;
    verify!("P20", r.is_some() == ok, &format!("a registration is {} although it {}", if ok { "refused" } else { "accepted" }, if ok { "is right" } else { "is wrong or not by the manager" }));
    let after = state();
    if r.is_some() {
        cover("added");
        let mut want = old;
        want.push((ledger, parsed.unwrap(), symbol));
        let mut got = tokens(&after);
        got.sort();
        want.sort();
        verify!("P20", got == want, "the registered tokens are not the old ones and the new one");
        verify!("P20", after.find_erc20_token_by_ledger_id(&ledger).is_some_and(|t| Some(t.erc20_contract_address) == parsed && t.chain_id == net && t.erc20_ledger_id == ledger), "the new token is not found under its ledger");
        verify!("P20", log_len() == len + 1, "the registration is not in the log exactly once");
        let last = storage::with_event_iter(|it| it.last().unwrap());
        verify!("P20", matches!(last.payload, EventType::AddedErc20Token(t) if t.erc20_ledger_id == ledger && Some(t.erc20_contract_address) == parsed && t.chain_id == net), "another token is in the log");
    } else {
        verify!("P20", tokens(&after) == old && log_len() == len, "a refused registration left something behind");
        if who != 0 {
            cover("not the manager");
        } else if parsed.is_none() {
            cover("bad address");
        } else if !good {
            cover("bad symbol");
        } else if clash {
            cover("duplicate");
        } else if chain > n(u64::MAX) {
            cover("chain id too large");
        } else {
            cover(if NETS.iter().any(|(_, c)| chain == n(*c)) { "another network" } else { "unknown chain" });
        }
    }
    done();
}
fn privileged() {
    handle(|_| None);
    install(init_arg(EvmNetwork::Base));
    let who = choose("caller", 4);
    sim::set_caller(callers()[who]);
    let r = sim::block_on(ep::call_check_new_deposits());
    verify!("P20", r.is_none(), "the early deposit check is open although no swap canister is configured");
    verify!("P20", seen().is_empty() && sim::pending().is_empty(), "a refused request made calls");
    cover("not activated");
    done();
}

// ------------------------------------------------------------------------------------------------- P25

#[derive(Clone, PartialEq)]
struct Conf {
    net: EvmNetwork,
    key: String,
    helper: Option<Address>,
    ledger: Principal,
    index: Principal,
    symbol: String,
    height: CandidBlockTag,
    min: BigUint,
    transfer_fee: BigUint,
    nonce: BigUint,
    last: BigUint,
    tip: BigUint,
    lsm: Option<Principal>,
    deposit_fee: BigUint,
    withdrawal_fee: BigUint,
    rpc: Principal,
}
fn fits(b: &BigUint) -> bool {
    *b <= max256()
}
/// What is wrong with a configuration.
fn invalid(c: &Conf) -> Option<&'static str> {
    if c.key.trim().is_empty() || c.ledger == Principal::anonymous() || c.helper == Some(Address::ZERO) {
        Some("odd")
    } else if !(fits(&c.min) && fits(&c.transfer_fee) && fits(&c.nonce) && fits(&c.last) && fits(&c.tip) && fits(&c.deposit_fee) && fits(&c.withdrawal_fee)) {
        Some("number too large")
    } else if c.min == n(0) {
        Some("zero minimum")
    } else if c.min < c.transfer_fee {
        Some("below the ledger fee")
    } else {
        None
    }
}
fn fee_is(f: Option<Wei>, want: &BigUint) -> bool {
    match f {
        None => *want == n(0),
        Some(f) => *want != n(0) && big(f) == *want,
    }
}
fn conf_check(s: &State, c: &Conf, when: &str) {
    verify!("P25", s.evm_network == c.net && s.ecdsa_key_name == c.key && s.helper_contract_address == c.helper && s.native_ledger_id == c.ledger
        && s.native_index_id == c.index && s.native_symbol.to_string() == c.symbol && s.ledger_suite_manager_id == c.lsm && s.evm_canister_id == c.rpc
        && s.swap_canister_id.is_none(), &format!("{when}: a configured name, address or canister is not in force"));
    verify!("P25", CandidBlockTag::from(s.block_height) == c.height, &format!("{when}: another block height is in force"));
    verify!("P25", big(s.native_minimum_withdrawal_amount) == c.min, &format!("{when}: another minimum is in force"));
    verify!("P25", big(s.native_ledger_transfer_fee) == c.transfer_fee, &format!("{when}: another ledger fee is in force"));
    verify!("P25", big(s.withdrawal_transactions.next_transaction_nonce()) == c.nonce, &format!("{when}: another nonce comes next"));
    verify!("P25", big(s.last_scraped_block_number) == c.last, &format!("{when}: scraping goes on from another block"));
    verify!("P25", big(s.min_max_priority_fee_per_gas) == c.tip, &format!("{when}: another smallest tip is in force"));
    verify!("P25", fee_is(s.deposit_native_fee, &c.deposit_fee), &format!("{when}: another deposit fee is in force"));
    verify!("P25", fee_is(s.withdrawal_native_fee, &c.withdrawal_fee), &format!("{when}: another withdrawal fee is in force"));
}
fn rpc_canister() -> Principal {
    Principal::from_text("sosge-5iaaa-aaaag-alcla-cai").unwrap()
}
fn upgrade(a: Option<MinterArg>) -> bool {
    sim::message(ep::call_pre_upgrade).is_ok() && sim::message(move || ep::call_post_upgrade(a)).is_ok()
}
fn keys() -> (Option<String>, Option<String>) {
    (storage::get_rpc_api_key(Provider::Ankr), storage::get_rpc_api_key(Provider::LlamaNodes))
}
fn init_config() {
    handle(|_| None);
    let odd = choose("variant", 11);
    let (net, _) = NETS[if odd == 0 { choose("network", 10) } else { 0 }];
    let mut a = init_arg(net);
    let mut c = Conf {
        net, key: a.ecdsa_key_name.clone(), helper: Some(helper()), ledger: native_ledger(), index: canister(11), symbol: a.native_symbol.clone(),
        height: CandidBlockTag::Latest, min: nat("minimum", 260), transfer_fee: nat("transfer fee", 260), nonce: nat("nonce", 260), last: nat("last block", 260),
        tip: nat("tip", 260), lsm: Some(lsm()), deposit_fee: nat("deposit fee", 260), withdrawal_fee: nat("withdrawal fee", 260), rpc: rpc_canister(),
    };
    let mut malformed = false;
    match odd {
        1 => c.key = "".into(),
        2 => c.key = " \t".into(),
        3 => c.ledger = Principal::anonymous(),
        4 => (a.helper_contract_address, c.helper) = (None, None),
        5 => (a.helper_contract_address, c.helper) = (Some("0x0000000000000000000000000000000000000000".into()), Some(Address::ZERO)),
        6 => (a.helper_contract_address, malformed) = (Some("0xbbbb".into()), true),
        7 => (a.helper_contract_address, malformed) = (Some("b".repeat(40)), true),
        8 => c.height = CandidBlockTag::Finalized,
        9 => (c.height, c.lsm, c.index, c.symbol) = (CandidBlockTag::Safe, Some(canister(77)), canister(78), "\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}".into()),
        10 => c.key = " key ".into(),
        _ => {}
    }
    a.ecdsa_key_name = c.key.clone();
    a.native_ledger_id = c.ledger;
    a.native_index_id = c.index;
    a.native_symbol = c.symbol.clone();
    a.block_height = c.height.clone();
    a.ledger_suite_manager_id = c.lsm.unwrap();
    for (x, y) in [
        (&mut a.native_minimum_withdrawal_amount, &c.min), (&mut a.native_ledger_transfer_fee, &c.transfer_fee), (&mut a.next_transaction_nonce, &c.nonce),
        (&mut a.last_scraped_block_number, &c.last), (&mut a.min_max_priority_fee_per_gas, &c.tip), (&mut a.deposit_native_fee, &c.deposit_fee), (&mut a.withdrawal_native_fee, &c.withdrawal_fee),
    ] {
        *x = Nat::from(y.clone());
    }
    let ok = install_opt(a.clone()).is_some();
    let why = if malformed { Some("odd") } else { invalid(&c).or_else(|| (c.last == max256()).then_some("odd")) };
    verify!("P25", ok == why.is_none(), &format!("the installation is {} ({})", if ok { "accepted" } else { "refused" }, why.unwrap_or("nothing wrong")));
    if let Some(w) = why {
        cover("refused");
        cover(w);
        verify!("P25", log_len() == 0, "a refused installation left something in the log");
        return done();
    }
    cover("installed");
    cover(if c.deposit_fee == n(0) && c.withdrawal_fee == n(0) { "free of fees" } else { "with fees" });
    let s = state();
    conf_check(&s, &c, "after the installation");
    verify!("P25", big(s.first_scraped_block_number) == &c.last + n(1), "scraping does not begin after the configured block");
    verify!("P25", s.events_to_mint.is_empty() && s.minted_events.is_empty() && s.supported_erc20_tokens().count() == 0 && s.active_tasks.is_empty() && s.pending_withdrawal_principals.is_empty()
        && s.native_balance.native_balance() == Wei::ZERO, "a new minter is not empty");
    verify!("P25", log_len() == 1 && storage::with_event_iter(|mut it| matches!(it.next().unwrap().payload, EventType::Init(b) if b == a)), "the installation is not in the log");
    verify!("P25", keys() == (Some("x".into()), Some("y".into())), "the provider keys are not stored");
    let up = upgrade(None);
    verify!("P25", up, "an upgrade without argument fails");
    conf_check(&state(), &c, "after an upgrade");
    verify!("P25", keys() == (Some("x".into()), Some("y".into())), "the provider keys are lost by an upgrade");
    done();
}
fn upgrade_config() {
    handle(|_| None);
    let mut a = init_arg(EvmNetwork::Base);
    let mut c = Conf {
        net: a.evm_network, key: a.ecdsa_key_name.clone(), helper: Some(helper()), ledger: native_ledger(), index: canister(11), symbol: a.native_symbol.clone(),
        height: CandidBlockTag::Safe, min: nat("minimum", 128), transfer_fee: nat("transfer fee", 128), nonce: nat("nonce", 64), last: nat("last block", 64),
        tip: nat("tip", 128), lsm: Some(lsm()), deposit_fee: n(5), withdrawal_fee: n(7), rpc: rpc_canister(),
    };
    symx::assume(c.min > n(0) && c.min >= c.transfer_fee);
    a.block_height = c.height.clone();
    a.native_minimum_withdrawal_amount = Nat::from(c.min.clone());
    a.native_ledger_transfer_fee = Nat::from(c.transfer_fee.clone());
    a.next_transaction_nonce = Nat::from(c.nonce.clone());
    a.last_scraped_block_number = Nat::from(c.last.clone());
    a.min_max_priority_fee_per_gas = Nat::from(c.tip.clone());
    a.deposit_native_fee = Nat::from(5u8);
    a.withdrawal_native_fee = Nat::from(7u8);
    install(a);
    let which = choose("fields", 14);
    let all = which == 13;
    let mut u = UpgradeArg::default();
    let num = |name: &str| {
        let b = nat(name, 260);
        (Some(Nat::from(b.clone())), b)
    };
    let mut malformed = false;
    let old = c.clone();
    if which == 2 || all {
        (u.next_transaction_nonce, c.nonce) = num("new nonce");
    }
    if which == 3 || which == 12 || all {
        (u.native_minimum_withdrawal_amount, c.min) = num("new minimum");
    }
    if which == 4 || which == 12 || all {
        (u.native_ledger_transfer_fee, c.transfer_fee) = num("new transfer fee");
    }
    if which == 5 || all {
        (u.min_max_priority_fee_per_gas, c.tip) = num("new tip");
    }
    if which == 6 || all {
        (u.last_scraped_block_number, c.last) = num("new last block");
    }
    if which == 7 || all {
        (u.deposit_native_fee, c.deposit_fee) = num("new deposit fee");
    }
    if which == 8 || all {
        (u.withdrawal_native_fee, c.withdrawal_fee) = num("new withdrawal fee");
    }
    if which == 9 || all {
        let k = if all { 0 } else { choose("helper", 4) };
        u.helper_contract_address = Some(match k {
            0 => addr(0x99).to_string(),
            1 => "0x0000000000000000000000000000000000000000".into(),
            2 => "9".repeat(40),
            _ => "0x99".into(),
        });
        c.helper = Some(if k == 1 { Address::ZERO } else { addr(0x99) });
        malformed = k > 1;
    }
    if which == 10 || all {
        u.block_height = Some(CandidBlockTag::Finalized);
        c.height = CandidBlockTag::Finalized;
    }
    if which == 11 || all {
        u.evm_rpc_id = Some(canister(99));
        c.rpc = canister(99);
    }
    let len = log_len();
    let up = upgrade(if which == 0 { None } else { Some(MinterArg::UpgradeArg(u.clone())) });
    let why = if malformed { Some("odd") } else { invalid(&c) };
    verify!("P25", up == why.is_none(), &format!("an upgrade is {} ({})", if up { "accepted" } else { "refused" }, why.unwrap_or("nothing wrong")));
    if let Some(w) = why {
        cover("refused");
        if w == "number too large" {
            cover(w);
        }
        // the canister keeps running with the old code and state
        conf_check(&state(), &old, "after a refused upgrade");
        verify!("P25", storage::with_event_iter(|it| it.skip(len as usize).all(|e| !matches!(e.payload, EventType::Upgrade(_)))), "a refused upgrade is in the log");
        return done();
    }
    cover("upgraded");
    if which == 0 {
        cover("no argument");
    }
    if all {
        cover("all fields");
        cover(if c.deposit_fee == n(0) { "free of fees" } else { "with fees" });
    }
    conf_check(&state(), &c, "after the upgrade");
    verify!("P25", state().first_scraped_block_number == BlockNumber::from_be_bytes(to_amt::<()>(&(&old.last + n(1))).to_be_bytes()), "an upgrade changes where scraping began");
    let ups = storage::with_event_iter(|it| it.skip(len as usize).filter(|e| matches!(&e.payload, EventType::Upgrade(b) if *b == u)).count());
    verify!("P25", ups == (which != 0) as usize, "the upgrade is not in the log exactly once");
    let again = upgrade(None);
    verify!("P25", again, "the next upgrade fails");
    conf_check(&state(), &c, "after the next upgrade");
    done();
}
fn wrong_arg() {
    handle(|_| None);
    if flag("upgrade") {
        install(init_arg(EvmNetwork::Base));
        let old = state();
        let mut a = init_arg(EvmNetwork::Base);
        a.native_minimum_withdrawal_amount = Nat::from(nat("minimum", 128));
        let r = sim::message(move || ep::call_post_upgrade(Some(MinterArg::InitArg(a))));
        verify!("P25", r.is_err() && log_len() == 1 && state().native_minimum_withdrawal_amount == old.native_minimum_withdrawal_amount, "an upgrade with an installation argument is not refused");
        cover("upgrade");
    } else {
        sim::set_hooks(|| Box::new(()), |_| ());
        let mut u = UpgradeArg::default();
        u.native_minimum_withdrawal_amount = Some(Nat::from(nat("minimum", 128)));
        let r = sim::block_on(ep::call_init(MinterArg::UpgradeArg(u)));
        verify!("P25", r.is_none(), "an installation with an upgrade argument is not refused");
        cover("installation");
    }
    done();
}

// ------------------------------------------------------------------------------------------------- P13

fn upgrade_keeps() {
    use evm_minter::deposit_logs::EventSource;
    handle(|_| None);
    let mut a = init_arg(EvmNetwork::Base);
    let last = nat("last block", 64);
    a.last_scraped_block_number = Nat::from(last.clone());
    a.deposit_native_fee = Nat::from(nat("deposit fee", 64));
    install(a);
    add_token(0);
    deposit_native(amt("balance", 128), 1);
    deposit_erc20(amt("balance20", 128), 2, 0);
    let src = |i: u8| EventSource { transaction_hash: evm_minter::rpc_declrations::Hash([i; 32]), log_index: LogIndex::from(i) };
    for step in 0..2 {
        match choose(&format!("step{step}"), 11) {
            0 => {
                cover("pending mint");
                deposit_native(amt(&format!("v{step}"), 128), 10 + step);
            }
            1 => {
                cover("pending mint");
                deposit_erc20(amt(&format!("v{step}"), 128), 10 + step, 0);
            }
            2 => {
                cover("minted");
                try_event(EventType::MintedNative { event_source: src(1), mint_block_index: LedgerMintIndex::new(40 + step as u64) });
            }
            3 => {
                try_event(EventType::MintedErc20 { event_source: src(2), mint_block_index: LedgerMintIndex::new(40), erc20_token_symbol: "icTOK0".into(), erc20_contract_address: token_addr(0) });
            }
            4 => {
                cover("invalid");
                try_event(EventType::InvalidDeposit { event_source: src(20 + step), reason: "r".into() });
            }
            5 => {
                cover("quarantined");
                try_event(EventType::QuarantinedDeposit { event_source: src(1) });
            }
            6 => {
                cover("skipped");
                try_event(EventType::SkippedBlock { block_number: amt("skipped", 64) });
            }
            7 => add_token(1 + step),
            8 => {
                cover("withdrawal");
                event(EventType::AcceptedNativeWithdrawalRequest(native_request(amt(&format!("w{step}"), 128), 50 + step as u64)));
            }
            9 => {
                cover("withdrawal");
                event(EventType::AcceptedErc20WithdrawalRequest(erc20_request(amt(&format!("w{step}"), 128), amt(&format!("f{step}"), 128), 60 + step as u64, 0)));
            }
            _ => {
                cover("refund");
                event(EventType::FailedErc20WithdrawalRequest(ReimbursementRequest {
                    ledger_burn_index: burn(70 + step as u64),
                    reimbursed_amount: amt(&format!("r{step}"), 128),
                    to: user(2),
                    to_subaccount: None,
                    transaction_hash: None,
                }));
            }
        }
    }
    // scraping has gone on
    let now = nat("scraped", 64);
    assume_le(&last, &now);
    evm_minter::state::mutate_state(|s| s.last_scraped_block_number = BlockNumber::from_be_bytes(to_amt::<()>(&now).to_be_bytes()));
    let live = state();
    for _ in 0..2 {
        let up = upgrade(None);
        verify!("P13", up, "an upgrade fails");
        if !up {
            return done();
        }
        cover("upgraded");
        let s = state();
        same_state(&live, &s, true);
        verify!("P13", s.active_tasks.is_empty() && s.pending_withdrawal_principals.is_empty(), "a guard survives an upgrade");
    }
    done();
}

// ------------------------------------------------------------------------------------------------- P24

fn timers() {
    handle(|c| (c.method == "add_native_ls").then(|| reply((Ok::<(), evm_minter::lsm_client::InvalidNativeInstalledCanistersError>(()),))));
    install(init_arg(EvmNetwork::Base));
    let upgraded = flag("upgraded");
    deposit_native(amt("balance", 200), 1);
    let w = amt("amount", 128);
    symx::assume(big(w) >= n(1_000_000_000_000));
    event(EventType::AcceptedNativeWithdrawalRequest(native_request(w, 50)));
    event(EventType::FailedErc20WithdrawalRequest(ReimbursementRequest {
        ledger_burn_index: burn(70),
        reimbursed_amount: amt("refund", 128),
        to: user(2),
        to_subaccount: None,
        transaction_hash: None,
    }));
    if upgraded {
        cover("after an upgrade");
        // timers do not survive an upgrade
        ic_cdk_timers::sim_rollback(0);
        let up = upgrade(None);
        verify!("P24", up, "the upgrade fails");
    } else {
        cover("after installation");
    }
    let all = ic_cdk_timers::sim_timers();
    // fire each timer and see what it does; one-shot timers disappear
    let mut done_by: Vec<(Duration, bool, BTreeSet<String>)> = vec![];
    let mut at = 0;
    for (delay, repeated) in all {
        let before = seen().len();
        ic_cdk_timers::sim_fire(at);
        if repeated {
            at += 1;
        }
        sim::run_until_idle(|_| 0);
        done_by.push((delay, repeated, seen()[before..].iter().map(|c| c.method.clone()).collect()));
    }
    let does = |soon: bool, secs: u64, method: &str| done_by.iter().any(|(d, r, m)| *r != soon && (if soon { d.is_zero() } else { d.as_secs() <= secs && !d.is_zero() }) && m.contains(method));
    let mut must = |soon: bool, secs: u64, method: &str, what: &str, c: &str| {
        let ok = does(soon, secs, method);
        verify!("P24", ok, &format!("{what} ({})", if upgraded { "after an upgrade" } else { "after the installation" }));
        cover(c);
    };
    must(true, 0, "ecdsa_public_key", "the minter's key is not fetched at once", "key fetched");
    must(true, 0, "eth_feeHistory", "gas fees are not fetched at once", "fees fetched");
    must(true, 0, "eth_getBlockByNumber", "deposits are not looked for at once", "scraped");
    must(false, 600, "eth_getBlockByNumber", "deposits are not looked for every ten minutes", "scraped");
    must(false, 60, "sign_with_ecdsa", "withdrawals are not processed every minute", "withdrawals");
    must(false, 60, "icrc1_transfer", "refunds are not made every minute", "refunds");
    if !upgraded {
        must(true, 0, "add_native_ls", "the native ledger is not registered with the manager", "registered with the manager");
        let c = &seen_of("add_native_ls")[0];
        let (ls,): (evm_minter::lsm_client::InstalledNativeLedgerSuite,) = args(c);
        verify!("P24", c.callee == lsm() && ls.ledger == native_ledger() && ls.index == canister(11) && ls.symbol == "icNATIVE" && ls.chain_id.0 == n(8453), "another ledger is registered with the manager");
    }
    done();
}

fn lsm_registration(probe_right: bool) {
    use evm_minter::lsm_client::{InstalledNativeLedgerSuite as Suite, InvalidNativeInstalledCanistersError as Bad, WasmHash};
    let (net, chain) = if probe_right { NETS[3] } else { NETS[choose("network", 10)] };
    let answer = if probe_right { 0 } else { choose("answer", 3) };
    handle(move |c| {
        (c.method == "add_native_ls").then(|| match answer {
            0 => reply((Ok::<(), Bad>(()),)),
            1 => reply((Err::<(), Bad>(Bad::WasmHashError),)),
            _ => rejected(),
        })
    });
    install(init_arg(net));
    // a manager that cannot be reached may end the task
    let ended = sim::block_on(evm_minter::lsm_client::lazy_add_native_ls_to_lsm_canister()).is_some();
    cover(["registered", "refused", "unreachable"][answer]);
    verify!("P24", ended || answer == 2, "registering the native ledger trapped");
    let cs = seen_of("add_native_ls");
    verify!("P24", cs.len() == 1, "the native ledger is not registered exactly once");
    let Some(c) = cs.first() else { return };
    let (ls,): (Suite,) = args(c);
    verify!("P24", c.callee == lsm() && ls.ledger == native_ledger() && ls.index == canister(11) && ls.symbol == "icNATIVE" && ls.chain_id.0 == n(chain) && ls.archives.is_empty(), "another ledger suite is registered with the manager");
    let h = |file: &str| WasmHash::new(file.as_bytes().to_vec()).to_string();
    let (ledger, index) = (h("ledger_canister_u256.wasm.gz"), h("index_ng_canister_u256.wasm.gz"));
    let exchanged = ls.ledger_wasm_hash == index && ls.index_wasm_hash == ledger;
    let right = ls.ledger_wasm_hash == ledger && ls.index_wasm_hash == index;
    verify!("P24", right || exchanged, "the ledger suite is registered with modules that are neither the ledger's nor the index's");
    if probe_right {
        verify!("P24", right, "the modules of ledger and index are exchanged in the registration");
    }
    done();
}

// ------------------------------------------------------------------------------------------------- P28

fn info() {
    handle(|_| None);
    let mut a = init_arg(EvmNetwork::Base);
    let (min, last) = (nat("minimum", 128), nat("last block", 128));
    symx::assume(min >= n(100));
    let (df, wf) = (nat("deposit fee", 128), nat("withdrawal fee", 128));
    a.native_minimum_withdrawal_amount = Nat::from(min.clone());
    a.last_scraped_block_number = Nat::from(last.clone());
    a.deposit_native_fee = Nat::from(df.clone());
    a.withdrawal_native_fee = Nat::from(wf.clone());
    a.block_height = [CandidBlockTag::Latest, CandidBlockTag::Safe, CandidBlockTag::Finalized][choose("height", 3)].clone();
    let has_helper = flag("helper");
    if !has_helper {
        a.helper_contract_address = None;
    }
    let height = a.block_height.clone();
    install(a);
    let k = choose("tokens", 3);
    let (d, e) = (nat("deposit", 128), nat("deposit20", 128));
    deposit_native(to_amt(&d), 1);
    for i in 0..k {
        add_token(i as u8);
    }
    if k > 0 {
        deposit_erc20(to_amt(&e), 2, (k - 1) as u8);
    }
    let (base, tip) = (nat("base", 256), nat("tip", 256));
    let est = flag("estimate");
    let observed = flag("observed");
    let seen_block = nat("observed block", 256);
    evm_minter::state::mutate_state(|s| {
        if est {
            s.last_transaction_price_estimate = Some((77, evm_minter::tx::GasFeeEstimate { base_fee_per_gas: to_amt(&base), max_priority_fee_per_gas: to_amt(&tip) }));
        }
        if observed {
            s.last_observed_block_number = Some(to_amt(&seen_block));
        }
    });
    let key = flag("key");
    if key {
        let a = sim::block_on(ep::call_minter_address());
        verify!("P28", a == Some(minter().to_string()), "the minter reports an address that does not belong to its key");
    }
    let i = sim::block_on(ep::call_get_minter_info());
    verify!("P28", i.is_some(), "the information is not available");
    let i = i.unwrap();
    verify!("P28", i.minter_address == key.then(|| minter().to_string()), "another minter address is reported");
    let h = has_helper.then(|| helper().to_string());
    verify!("P28", i.helper_smart_contract_address == h, "another contract address is reported");
    let sc = sim::block_on(ep::call_smart_contract_address());
    verify!("P28", sc == Some(h.unwrap_or("N/A".into())), "another contract address is reported by its own query");
    let is = |x: &Option<Nat>, b: &BigUint| x.as_ref().is_some_and(|x| x.0 == *b);
    verify!("P28", is(&i.minimum_withdrawal_amount, &min), "another minimum withdrawal amount is reported");
    let fee = |x: &Option<Nat>, b: &BigUint| if *b == n(0) { x.is_none() } else { is(x, b) };
    verify!("P28", fee(&i.deposit_native_fee, &df), "another deposit fee is reported");
    verify!("P28", fee(&i.withdrawal_native_fee, &wf), "another withdrawal fee is reported");
    verify!("P28", i.block_height == Some(height), "another block height is reported");
    verify!("P28", is(&i.native_balance, &d), "another native balance is reported");
    verify!("P28", is(&i.last_scraped_block_number, &last), "another scraping position is reported");
    verify!("P28", if observed { is(&i.last_observed_block_number, &seen_block) } else { i.last_observed_block_number.is_none() }, "another observed block is reported");
    verify!("P28", i.native_twin_token_ledger_id == Some(native_ledger()) && i.ledger_suite_manager_id == Some(lsm()) && i.swap_canister_id.is_none(), "other canisters are reported");
    let t = i.supported_erc20_tokens.unwrap_or_default();
    let want: BTreeSet<_> = (0..k as u8).map(|j| (format!("icTOK{j}"), token_addr(j).to_string(), erc20_ledger(j))).collect();
    verify!("P28", t.len() == k && t.iter().map(|t| (t.erc20_token_symbol.clone(), t.erc20_contract_address.clone(), t.ledger_canister_id)).collect::<BTreeSet<_>>() == want, "other tokens are reported");
    let b = i.erc20_balances.unwrap_or_default();
    verify!("P28", b.len() == k && (0..k as u8).all(|j| {
        let want = if j as usize == k - 1 { e.clone() } else { n(0) };
        b.iter().filter(|x| x.erc20_contract_address == token_addr(j).to_string()).count() == 1 && b.iter().any(|x| x.erc20_contract_address == token_addr(j).to_string() && x.balance.0 == want)
    }), "other token balances are reported");
    match i.last_gas_fee_estimate {
        None => verify!("P28", !est, "the gas fee estimate is not reported"),
        Some(g) => {
            let cap = min_of(min_of(n(2) * &base, max256()) + &tip, max256());
            verify!("P28", est && g.timestamp == 77 && g.max_priority_fee_per_gas.0 == tip && g.max_fee_per_gas.0 == cap, "another gas fee estimate is reported");
        }
    }
    cover(if est { "estimate" } else { "no estimate" });
    cover(if key { "address" } else { "no address" });
    cover(if df == n(0) { "no fees" } else { "fees" });
    cover(["no tokens", "one token", "two tokens"][k]);
    done();
}
/// The address of the model's public key.
fn minter() -> Address {
    let pk = ic_crypto_secp256k1::PublicKey::deserialize_sec1(&public_key()).unwrap().serialize_sec1(false);
    let h = ic_sha3::Keccak256::hash(&pk[1..]);
    let mut a = [0; 20];
    a.copy_from_slice(&h[12..]);
    Address::new(a)
}
