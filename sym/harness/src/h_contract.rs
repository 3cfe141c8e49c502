//! The deposit contract, executed from its Solidity source, together with the minter's decoder of its logs.
use crate::common::*;
use crate::sol::{self, Adr, Answer, Chain, Effect, Program};
use evm_minter::deposit_logs::*;
use evm_minter::eth_types::Address;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::numeric::*;
use evm_minter::rpc_declrations::{Data, FixedSizeData, Hash, LogEntry, Topic};
use num_bigint::BigUint;

pub fn harnesses() -> Vec<Harness> {
    vec![Harness {
        name: "contract",
        props: &["P33"],
        tier: "quick",
        run: contract,
        covers: &["native", "token", "unknown token", "refused"],
        bounds: "one call of each state-changing function; coins sent and amount symbolic (256 bits); token: none, a registered one, an unregistered one, an account without code; token answers true, false, nothing or reverts; the minter's address takes coins or not; two principals, three subaccounts",
        functions: "Deposit.sol (all functions, executed from source), ReceivedDepositLogScraping::next_scrape, ReceivedDepositLogParser::parse_log",
        workers: 1,
    }]
}

fn word(b: &BigUint) -> FixedSizeData {
    let a: Wei = to_amt(b);
    FixedSizeData(a.to_be_bytes())
}
fn matches(filter: &[Topic], topics: &[FixedSizeData]) -> bool {
    filter.iter().enumerate().all(|(k, f)| match (f, topics.get(k)) {
        (_, None) => false,
        (Topic::Single(x), Some(t)) => x == t,
        (Topic::Multiple(xs), Some(t)) => xs.contains(t),
    })
}
/// The logs of a call that the minter's filter lets through.
pub fn seen(e: &Effect) -> Vec<LogEntry> {
    let filter = read_state(|s| ReceivedDepositLogScraping::next_scrape(s)).expect("no scraping").topics;
    let mut out = vec![];
    for (k, l) in e.logs.iter().enumerate() {
        let mut topics = vec![];
        if let Some(s) = &l.signature {
            topics.push(FixedSizeData(ic_sha3::Keccak256::hash(s.as_bytes())));
        }
        topics.extend(l.topics.iter().map(word));
        if !matches(&filter, &topics) {
            continue;
        }
        out.push(LogEntry {
            address: helper(),
            topics,
            data: Data(l.data.iter().flat_map(|w| word(w).0).collect()),
            block_number: Some(900u64.into()),
            transaction_hash: Some(Hash([0x51; 32])),
            transaction_index: Some(1u8.into()),
            block_hash: Some(Hash([0x52; 32])),
            log_index: Some(LogIndex::from(k as u64)),
            removed: false,
        });
    }
    out
}

fn contract() {
    install(init_arg(EvmNetwork::Sepolia));
    add_token(1);
    let (minter, sender): (Adr, Adr) = ([0x4d; 20], [0x70; 20]);
    let program = Program::new(&sol::source());
    let published = ("deposit".to_string(), ["address", "uint256", "bytes32", "bytes32"].map(String::from).to_vec());
    let all = program.functions();
    verify!("P33", all.contains(&published), "the published deposit function does not exist");
    let f = &all[choose("function", all.len())];
    let registered: Adr = token_addr(1).into_bytes();
    let other: Adr = token_addr(2).into_bytes();
    let tokens = [[0u8; 20], registered, other, [0x99; 20]];
    let answer = [Answer::True, Answer::Nothing, Answer::False, Answer::Reverts][choose("token_answer", 4)];
    let chain = Chain { contract: helper().into_bytes(), tokens: [(registered, answer), (other, answer)].into(), accepts: flag("minter_takes_coins") };
    let value = nat("value", 256);
    let amount = nat("amount", 256);
    let mut pw = [0u8; 32];
    let who: &[u8] = [&[0u8, 0, 0, 0, 0, 0, 0, 9, 1, 1][..], &[0x31u8; 29][..]][choose("principal", 2)];
    pw[0] = who.len() as u8;
    pw[1..1 + who.len()].copy_from_slice(who);
    let sub = [[0u8; 32], [7u8; 32], { let mut s = [0u8; 32]; s[31] = 1; s }][choose("subaccount", 3)];
    let deposit = *f == published;
    let token = tokens[choose("token", 4)];
    let mut args = vec![];
    if deposit {
        args = vec![sol::of_adr(&token), amount.clone(), BigUint::from_bytes_be(&pw), BigUint::from_bytes_be(&sub)];
    } else {
        for (k, t) in f.1.iter().enumerate() {
            args.push(match t.as_str() {
                "address" if k == 0 => sol::of_adr(&token),
                "address" => sol::of_adr(&sender),
                "bool" => n(choose("boolean", 2) as u64),
                t if t.starts_with("uint") => nat(&format!("argument{k}"), 128),
                "bytes32" => BigUint::from_bytes_be(&pw),
                t => symx::undecided(&format!("Solidity: an argument of type {t}")),
            });
        }
    }
    let Some(e) = program.call(&chain, minter, sender, &value, f, args) else {
        cover("refused");
        if deposit {
            let coins = value > n(0);
            let native = coins && token == [0; 20] && chain.accepts;
            let erc20 = !coins && amount > n(0) && chain.tokens.contains_key(&token) && matches!(answer, Answer::True | Answer::Nothing);
            verify!("P33", !native && !erc20, "a deposit that the minter could take is refused");
        }
        return;
    };
    verify!("P33", e.held == n(0), "coins stay in the contract");
    for m in &e.moved {
        verify!("P33", m.to == minter, "something is sent to another account than the minter");
        verify!("P33", m.token.is_none() || m.from == sender, "tokens are taken from another account than the caller");
    }
    if deposit {
        let coins = value > n(0);
        verify!("P33", e.moved.len() == 1, "a deposit does not move exactly one asset");
        let m = &e.moved[0];
        verify!("P33", if coins { m.token.is_none() && m.amount == value } else { m.token == Some(token) && m.amount == amount }, "a deposit moves something else than what was given");
    }
    let logs = seen(&e);
    let known: Vec<_> = e.moved.iter().filter(|m| m.token.is_none() || m.token == Some(registered)).collect();
    if known.len() < e.moved.len() {
        cover("unknown token");
    }
    verify!("P33", logs.len() == known.len(), "the minter sees another number of deposits than were made");
    for (l, m) in logs.into_iter().zip(known) {
        let Ok(ev) = ReceivedDepositLogParser::parse_log(l) else {
            verify!("P33", false, "the minter cannot read the log of a deposit");
            return;
        };
        match &ev {
            ReceivedDepositEvent::Native(_) => {
                cover("native");
                verify!("P33", m.token.is_none(), "a token deposit is taken for a native one");
            }
            ReceivedDepositEvent::Erc20(x) => {
                cover("token");
                verify!("P33", m.token == Some(x.erc20_contract_address.into_bytes()), "a deposit is taken for one of another token");
            }
        }
        verify!("P33", ev.value().0 == m.amount, "the minter is told another amount than it received");
        verify!("P33", ev.from_address() == Address::new(sender), "the minter is told another sender");
        if deposit {
            verify!("P33", ev.principal().as_slice() == who, "the minter is told another beneficiary");
            verify!("P33", ev.subaccount() == (sub != [0u8; 32]).then_some(sub), "the minter is told another subaccount");
        }
    }
    done();
}
