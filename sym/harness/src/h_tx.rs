//! Transaction creation, fee bumping (pure functions of the transaction state machine).
use crate::common::*;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::numeric::*;
use evm_minter::state::transactions::*;
use evm_minter::tx::*;
use evm_minter::withdraw::estimate_gas_limit;
use num_bigint::BigUint;

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "tx_create",
            props: &["P04"],
            tier: "quick",
            run: tx_create,
            covers: &["native ok", "native refused", "erc20 ok", "erc20 refused"],
            bounds: "one request (native or ERC-20); withdrawal amount, allowed fee, base fee, priority fee and nonce symbolic over the full 256-bit range (amounts below 2^255); all ten networks",
            functions: "create_transaction, GasFeeEstimate::{to_price,min_max_fee_per_gas}, TransactionPrice::max_transaction_fee, estimate_gas_limit, TransactionCallData::encode, CheckedAmountOf arithmetic",
            workers: 2,
        },
        Harness {
            name: "tx_resubmit",
            props: &["P05"],
            tier: "quick",
            run: tx_resubmit,
            covers: &["unchanged", "bumped", "refused"],
            bounds: "one transaction, two consecutive fee bumps with symbolic 128-bit estimates, symbolic 128-bit amounts",
            functions: "Resubmittable::resubmit, TransactionPrice::resubmit_transaction_price, WithdrawalTransactions::{create_resubmit_transactions,record_resubmit_transaction,record_signed_transaction,transactions_to_send_batch}",
            workers: 8,
        },
        Harness {
            name: "tx_sign",
            props: &["P22"],
            tier: "quick",
            run: tx_sign,
            covers: &["out of cycles", "signed", "even", "odd", "refused", "replaced"],
            bounds: "one native or ERC-20 transaction, or the replacement of one; nonce, both fees, gas limit, amount symbolic over 256 bits (opaque 32-byte RLP strings); all ten networks; signatures with and without leading zero bytes, both parities, reduced x; with enough cycles, none, and one too few",
            functions: "Eip1559TransactionRequest::{sign,hash,rlp_inner}, compute_recovery_id, split_in_two, SignedEip1559TransactionRequest::{new,hash,raw_transaction_hex}, sign_with_ecdsa, lazy_call_ecdsa_public_key, State::minter_address",
            workers: 2,
        },
        Harness {
            name: "tx_bytes",
            props: &["P22"],
            tier: "quick",
            run: tx_bytes,
            covers: &["zero", "one byte", "long"],
            bounds: "one field (nonce, tip, cap, gas, amount, r, s, chain id) at each byte-length boundary (0, 1, 0x7f, 0x80, 2^8k-1, 2^8k for all k, maximum), the other fields symbolic",
            functions: "encode_u256, CheckedAmountOf::rlp_append, Eip1559TransactionRequest::rlp_inner, Eip1559Signature::rlp_append, SignedEip1559TransactionRequest::*",
            workers: 2,
        },
    ]
}

pub const NETS: [(EvmNetwork, u64); 10] = [
    (EvmNetwork::Ethereum, 1),
    (EvmNetwork::Sepolia, 11155111),
    (EvmNetwork::ArbitrumOne, 42161),
    (EvmNetwork::BSC, 56),
    (EvmNetwork::BSCTestnet, 97),
    (EvmNetwork::Polygon, 137),
    (EvmNetwork::Optimism, 10),
    (EvmNetwork::Base, 8453),
    (EvmNetwork::Avalanche, 43114),
    (EvmNetwork::Fantom, 250),
];

pub fn native_request(amount: Wei, index: u64) -> NativeWithdrawalRequest {
    NativeWithdrawalRequest {
        withdrawal_amount: amount,
        destination: addr(0x11),
        ledger_burn_index: burn(index),
        from: user(1),
        from_subaccount: Some(Subaccount([9; 32])),
        created_at: Some(1_000 + index),
    }
}
pub fn erc20_request(fee: Wei, amount: Erc20Value, index: u64, k: u8) -> Erc20WithdrawalRequest {
    Erc20WithdrawalRequest {
        max_transaction_fee: fee,
        withdrawal_amount: amount,
        destination: addr(0x22),
        native_ledger_burn_index: burn(index),
        erc20_contract_address: token_addr(k),
        erc20_ledger_id: erc20_ledger(k),
        erc20_ledger_burn_index: burn(1000 + index),
        from: user(2),
        from_subaccount: None,
        created_at: 2_000 + index,
    }
}
pub fn estimate(tag: &str, bits: usize) -> GasFeeEstimate {
    GasFeeEstimate { base_fee_per_gas: amt(&format!("base_fee{tag}"), bits), max_priority_fee_per_gas: amt(&format!("priority_fee{tag}"), bits) }
}
pub fn transfer_data(to: [u8; 20], value: Erc20Value) -> Vec<u8> {
    let mut d = vec![0xa9, 0x05, 0x9c, 0xbb];
    d.extend([0u8; 12]);
    d.extend(to);
    d.extend(value.to_be_bytes());
    d
}
/// Bytes that may contain 32-byte tokens: equal up to the solver's judgement on the words.
pub fn same_transfer_data(a: &[u8], to: [u8; 20], value: Erc20Value) -> bool {
    if a.len() != 68 || a[..36] != transfer_data(to, value)[..36] {
        return false;
    }
    let w: [u8; 32] = a[36..].try_into().unwrap();
    Erc20Value::from_be_bytes(w) == value
}

fn tx_create() {
    let (net, chain) = NETS[choose("network", 10)];
    let est = estimate("", 256);
    let nonce: TransactionNonce = amt("nonce", 256);
    let base = big(est.base_fee_per_gas);
    let prio = big(est.max_priority_fee_per_gas);
    if flag("erc20") {
        let fee: Wei = amt("allowed_fee", 255);
        let amount: Erc20Value = amt("erc20_amount", 256);
        let req = erc20_request(fee, amount, 7, 1);
        let wr = WithdrawalRequest::Erc20(req.clone());
        let gas = estimate_gas_limit(&wr);
        let g = big(gas);
        verify!("P04", g == n(65_000), "gas limit of an ERC-20 transfer");
        let r = create_transaction(&wr, nonce, est.clone(), gas, net);
        match r {
            Ok(tx) => {
                cover("erc20 ok");
                verify!("P04", big(tx.max_fee_per_gas) * &g <= big(fee), "ERC-20 transaction may cost more than the fee the user paid");
                verify!("P04", (big(tx.max_fee_per_gas) + n(1)) * &g > big(fee), "ERC-20 fee cap leaves part of the paid fee unused");
                verify!("P04", &base + &prio <= big(tx.max_fee_per_gas), "ERC-20 transaction cannot be included at the current fees");
                verify!("P04", big(tx.max_priority_fee_per_gas) == prio, "priority fee differs from the estimate");
                verify!("P04", tx.amount == Wei::ZERO, "ERC-20 transaction moves native coins");
                verify!("P04", tx.destination == req.erc20_contract_address, "ERC-20 transaction not addressed to the token contract");
                verify!("P04", same_transfer_data(&tx.data, [0x22; 20], amount), "call data is not transfer(destination, amount)");
                common_fields(&tx, nonce, chain, &g);
            }
            Err(CreateTransactionError::InsufficientTransactionFee { native_ledger_burn_index, allowed_max_transaction_fee, actual_max_transaction_fee }) => {
                cover("erc20 refused");
                verify!("P04", (&base + &prio) * &g > big(fee) || min_of(&base + &prio, max256()) * &g > big(fee), "ERC-20 transaction refused although the paid fee covers it");
                verify!("P04", native_ledger_burn_index == burn(7) && allowed_max_transaction_fee == fee, "refusal names another request");
            }
        }
    } else {
        let amount: Wei = amt("amount", 255);
        let req = native_request(amount, 7);
        let wr = WithdrawalRequest::Native(req.clone());
        let gas = estimate_gas_limit(&wr);
        let g = big(gas);
        verify!("P04", g == n(21_000), "gas limit of a native transfer");
        let cap = min_of(&base * n(2) + &prio, max256());
        match create_transaction(&wr, nonce, est.clone(), gas, net) {
            Ok(tx) => {
                cover("native ok");
                verify!("P04", big(tx.amount) + big(tx.max_fee_per_gas) * &g == big(amount), "value plus maximal fee differs from the burned amount");
                verify!("P04", big(tx.max_fee_per_gas) == cap, "fee cap is not twice the base fee plus the priority fee");
                verify!("P04", big(tx.max_priority_fee_per_gas) == prio, "priority fee differs from the estimate");
                verify!("P04", tx.destination == req.destination, "native transaction not addressed to the user's destination");
                verify!("P04", tx.data.is_empty(), "native transaction carries call data");
                common_fields(&tx, nonce, chain, &g);
            }
            Err(CreateTransactionError::InsufficientTransactionFee { native_ledger_burn_index, allowed_max_transaction_fee, .. }) => {
                cover("native refused");
                verify!("P04", &cap * &g > big(amount), "native transaction refused although the amount covers the fee");
                verify!("P04", native_ledger_burn_index == burn(7) && allowed_max_transaction_fee == amount, "refusal names another request");
            }
        }
    }
}
fn common_fields(tx: &Eip1559TransactionRequest, nonce: TransactionNonce, chain: u64, g: &BigUint) {
    verify!("P04", tx.nonce == nonce, "transaction nonce differs from the assigned one");
    verify!("P04", tx.chain_id == chain, "transaction for another chain");
    verify!("P04", &big(tx.gas_limit) == g, "transaction gas limit differs");
    verify!("P04", tx.access_list == AccessList::default(), "transaction has an access list");
}

pub fn sign(tx: Eip1559TransactionRequest, k: u8) -> SignedEip1559TransactionRequest {
    SignedEip1559TransactionRequest::from((
        tx,
        Eip1559Signature { signature_y_parity: k % 2 == 1, r: ethnum::u256::from(1000u64 + k as u64), s: ethnum::u256::from(77u8) },
    ))
}

fn tx_resubmit() {
    let erc20 = flag("erc20");
    let fee: Wei = amt("allowed_fee", 128);
    let amount: Wei = amt("amount", 128);
    let wr = if erc20 {
        WithdrawalRequest::Erc20(erc20_request(fee, amt("erc20_amount", 256), 7, 1))
    } else {
        WithdrawalRequest::Native(native_request(amount, 7))
    };
    let allowed = if erc20 { big(fee) } else { big(amount) };
    let est0 = estimate("0", 100);
    let gas = estimate_gas_limit(&wr);
    let g = big(gas);
    let nonce = TransactionNonce::from(5u64);
    let Ok(tx0) = create_transaction(&wr, nonce, est0, gas, EvmNetwork::Sepolia) else { return };
    let mut w = WithdrawalTransactions::new(nonce);
    w.record_withdrawal_request(wr.clone());
    if !erc20 {
        assume(tx0.amount < amount);
    }
    w.record_created_transaction(burn(7), tx0.clone());
    w.record_signed_transaction(sign(tx0.clone(), 1));
    let mut last = tx0;
    for round in 1..=2u8 {
        let est = estimate(&round.to_string(), 100);
        let (base, prio) = (big(est.base_fee_per_gas), big(est.max_priority_fee_per_gas));
        let (old_cap, old_prio) = (big(last.max_fee_per_gas), big(last.max_priority_fee_per_gas));
        let rs = w.create_resubmit_transactions(TransactionCount::from(5u64), est);
        let still_good = old_cap >= &base + &prio && old_prio >= prio;
        let sent = w.transactions_to_send_batch(TransactionCount::from(5u64), 5);
        verify!("P05", sent.len() == 1 && *sent[0].transaction() == last, "the transaction offered for sending is not the latest one");
        match rs.as_slice() {
            [] => {
                cover("unchanged");
                verify!("P05", still_good, "a transaction below the current fees was not bumped");
                return;
            }
            [Ok((id, tx))] => {
                cover("bumped");
                let (cap, p) = (big(tx.max_fee_per_gas), big(tx.max_priority_fee_per_gas));
                verify!("P05", !still_good, "fees bumped although the last ones suffice");
                verify!("P05", *id == burn(7), "bump recorded for another withdrawal");
                verify!("P05", &p * n(10) >= &old_prio * n(11), "priority fee raised by less than ten percent");
                verify!("P05", p >= prio, "priority fee below the current estimate");
                verify!("P05", cap >= old_cap, "fee cap lowered");
                verify!("P05", cap >= &base + &p, "fee cap below the current base fee plus tip");
                verify!("P05", &cap * &g <= allowed, "bumped transaction may cost more than allowed");
                // the bump is no larger than needed
                let ceil10 = (&old_prio + n(9)) / n(10);
                verify!("P05", p == max_of(&old_prio + ceil10, prio.clone()), "priority fee raised by more than needed");
                verify!("P05", cap == max_of(old_cap.clone(), &base + &p), "fee cap raised by more than needed");
                if erc20 {
                    verify!("P05", tx.amount == Wei::ZERO, "bumped ERC-20 transaction moves native coins");
                } else {
                    verify!("P05", big(tx.amount) + &cap * &g == allowed, "value plus maximal fee of the bump differs from the burned amount");
                }
                verify!("P05", tx.nonce == last.nonce && tx.destination == last.destination && tx.data == last.data && tx.chain_id == last.chain_id
                    && tx.gas_limit == last.gas_limit && tx.access_list == last.access_list, "bump changed more than fees and amount");
                w.record_resubmit_transaction(tx.clone());
                w.record_signed_transaction(sign(tx.clone(), 1 + round));
                last = tx.clone();
            }
            [Err(evm_minter::state::transactions::ResubmitTransactionError::InsufficientTransactionFee { ledger_burn_index, transaction_nonce, .. })] => {
                cover("refused");
                let ceil10 = (&old_prio + n(9)) / n(10);
                let p = max_of(&old_prio + ceil10, prio.clone());
                let cap = max_of(old_cap.clone(), &base + &p);
                verify!("P05", !still_good, "refused although nothing had to change");
                verify!("P05", cap * &g > allowed, "bump refused although the allowed fee covers it");
                verify!("P05", *ledger_burn_index == burn(7) && *transaction_nonce == nonce, "refusal names another transaction");
                return;
            }
            _ => {
                verify!("P05", false, "one pending transaction produced several bumps");
            }
        }
    }
}
#[derive(Clone, Debug)]
pub struct RawTx {
    pub chain_id: BigUint,
    pub nonce: BigUint,
    pub prio: BigUint,
    pub cap: BigUint,
    pub gas: BigUint,
    pub to: Vec<u8>,
    pub amount: BigUint,
    pub data: Vec<u8>,
    pub access: usize,
    pub y: BigUint,
    pub r: BigUint,
    pub s: BigUint,
    pub hash: [u8; 32],
    pub unsigned_hash: [u8; 32],
}
fn rlp_str(out: &mut Vec<u8>, b: &[u8]) {
    if b.len() == 1 && b[0] < 0x80 {
        out.push(b[0]);
    } else {
        rlp_head(out, 0x80, b.len());
        out.extend(b);
    }
}
fn rlp_head(out: &mut Vec<u8>, off: u8, len: usize) {
    if len <= 55 {
        out.push(off + len as u8);
    } else {
        let l: Vec<u8> = len.to_be_bytes().iter().skip_while(|x| **x == 0).copied().collect();
        out.push(off + 55 + l.len() as u8);
        out.extend(l);
    }
}
/// Decode a type-2 transaction as a node does.
pub fn decode_raw(hexs: &str) -> Option<RawTx> {
    let bytes = hex::decode(hexs.strip_prefix("0x")?).ok()?;
    let (ty, body) = bytes.split_first()?;
    if *ty != 2 {
        return None;
    }
    let r = rlp::Rlp::new(body);
    if !r.is_list() || r.item_count().ok()? != 12 || r.payload_info().ok()?.total() != body.len() {
        return None;
    }
    let raw = |i: usize| -> Option<Vec<u8>> { Some(r.at(i).ok()?.data().ok()?.to_vec()) };
    let int = |i: usize| -> Option<BigUint> {
        let d = raw(i)?;
        if d.first() == Some(&0) {
            return None; // not canonical
        }
        Some(BigUint::from_bytes_be(&d))
    };
    let mut inner = vec![];
    for i in 0..8 {
        rlp_str(&mut inner, &raw(i)?);
    }
    let al = r.at(8).ok()?;
    inner.extend(al.as_raw());
    let mut unsigned = vec![2u8];
    rlp_head(&mut unsigned, 0xc0, inner.len());
    unsigned.extend(&inner);
    Some(RawTx {
        chain_id: int(0)?,
        nonce: int(1)?,
        prio: int(2)?,
        cap: int(3)?,
        gas: int(4)?,
        to: raw(5)?,
        amount: int(6)?,
        data: raw(7)?,
        access: al.item_count().ok()?,
        y: int(9)?,
        r: int(10)?,
        s: int(11)?,
        hash: ic_sha3::Keccak256::hash(&bytes),
        unsigned_hash: ic_sha3::Keccak256::hash(&unsigned),
    })
}

fn sym_tx(erc20: bool, chain_id: u64) -> Eip1559TransactionRequest {
    let amount: Wei = amt("amount", 256);
    Eip1559TransactionRequest {
        chain_id,
        nonce: amt("nonce", 256),
        max_priority_fee_per_gas: amt("tip", 256),
        max_fee_per_gas: amt("cap", 256),
        gas_limit: amt("gas", 256),
        destination: addr(0x31),
        amount,
        data: if erc20 { transfer_data([0x22; 20], amt("erc20_amount", 256)) } else { vec![] },
        access_list: AccessList::default(),
    }
}
/// The raw bytes are a canonical encoding of exactly `tx` with signature (y, r, s).
fn check_raw(st: &SignedEip1559TransactionRequest, tx: &Eip1559TransactionRequest, y: bool, r: &BigUint, s: &BigUint) -> Option<RawTx> {
    let raw = decode_raw(&st.raw_transaction_hex());
    verify!("P22", raw.is_some(), "the bytes of a signed transaction are not a canonical EIP-1559 transaction");
    let raw = raw?;
    verify!("P22", raw.chain_id == n(tx.chain_id), "signed for another chain");
    verify!("P22", raw.nonce == big(tx.nonce), "signed with another nonce");
    verify!("P22", raw.prio == big(tx.max_priority_fee_per_gas), "signed with another tip");
    verify!("P22", raw.cap == big(tx.max_fee_per_gas), "signed with another fee cap");
    verify!("P22", raw.gas == big(tx.gas_limit), "signed with another gas limit");
    verify!("P22", raw.to == tx.destination.as_ref() as &[u8], "signed for another destination");
    verify!("P22", raw.amount == big(tx.amount), "signed with another amount");
    verify!("P22", raw.data == tx.data, "signed with other call data");
    verify!("P22", raw.access == 0, "signed with an access list");
    verify!("P22", raw.y == n(y as u64), "wrong parity of the signature");
    verify!("P22", raw.r == *r && raw.s == *s, "the signature sent is not the one obtained");
    verify!("P22", st.hash().0 == raw.hash, "the hash used to look up the transaction is not its hash");
    verify!("P22", *st.transaction() == *tx, "signing changed the recorded transaction");
    Some(raw)
}

fn tx_sign() {
    use crate::world::*;
    use ic_cdk::api::management_canister::ecdsa::*;
    let (net, chain) = NETS[choose("network", 10)];
    let mut arg = init_arg(net);
    arg.ecdsa_key_name = "key_x".to_string();
    install(arg);
    let erc20 = flag("erc20");
    let mut tx = sym_tx(erc20, chain);
    if flag("replacement") {
        // sign the replacement of a transaction as the resubmission produces it
        let fee: Wei = amt("allowed_fee", 128);
        let wr = if erc20 {
            WithdrawalRequest::Erc20(erc20_request(fee, amt("erc20_amount", 256), 7, 1))
        } else {
            WithdrawalRequest::Native(native_request(fee, 7))
        };
        let est = GasFeeEstimate { base_fee_per_gas: 10u64.into(), max_priority_fee_per_gas: 3u64.into() };
        let Ok(tx0) = create_transaction(&wr, 5u64.into(), est, estimate_gas_limit(&wr), net) else { return };
        let resubmission = if erc20 { ResubmissionStrategy::GuaranteeEthAmount { allowed_max_transaction_fee: fee } } else { ResubmissionStrategy::ReduceEthAmount { withdrawal_amount: fee } };
        let r = SignedTransactionRequest { transaction: sign(tx0, 1), resubmission };
        let Ok(Some(t)) = r.resubmit(estimate("1", 64)) else { return };
        cover("replaced");
        tx = t;
    }
    handle(|_| None);
    sim::set_balance(1 << 100);
    // what one signature with the production key costs (https://internetcomputer.org/docs: t-ECDSA)
    const COST: u128 = 26_153_846_153;
    let poor = flag("out_of_cycles");
    if poor {
        sim::set_balance([0, COST - 1][choose("balance", 2)]);
    }
    let mut sig = env(|e| e.signature.clone());
    match if poor { 0 } else { choose("signature", 4) } {
        0 => {}
        1 => sig[0] = 0,
        2 => sig[..3].fill(0),
        _ => sig[32..36].fill(0),
    }
    sig[63] = if !poor && flag("odd") { 65 } else { 64 };
    let reduced = !poor && flag("x_reduced");
    if reduced {
        sig[62] = 0xee; // the model's recovery id then says that x is reduced
    }
    env(|e| e.signature = sig.clone());
    let out = sim::block_on({
        let tx = tx.clone();
        async move { tx.sign().await }
    });
    verify!("P22", out.is_some(), "signing trapped");
    let out = out.unwrap();
    let paid = seen_of("sign_with_ecdsa").iter().all(|c| c.cycles >= COST);
    verify!("P22", paid, "a signature is requested for less than it costs");
    if poor {
        cover("out of cycles");
        verify!("P22", out.is_err() && seen_of("sign_with_ecdsa").is_empty(), "a signature is requested that the minter cannot pay");
        return;
    }
    if reduced {
        cover("refused");
        verify!("P22", out.is_err(), "an unusable signature was accepted");
        return;
    }
    verify!("P22", out.is_ok(), "a good signature was refused");
    let Ok(st) = out else { return };
    cover("signed");
    let odd = sig[63] & 1 == 1;
    cover(if odd { "odd" } else { "even" });
    let (r, s) = (BigUint::from_bytes_be(&sig[..32]), BigUint::from_bytes_be(&sig[32..]));
    let Some(raw) = check_raw(&st, &tx, odd, &r, &s) else { return };
    let calls = seen_of("sign_with_ecdsa");
    verify!("P22", calls.len() == 1, "not exactly one signature was requested");
    let (a,): (SignWithEcdsaArgument,) = args(&calls[0]);
    verify!("P22", a.message_hash[..] == raw.unsigned_hash[..], "the signature was made over another hash");
    let keys = seen_of("ecdsa_public_key");
    verify!("P22", keys.len() == 1, "the public key was not fetched once");
    let (k,): (EcdsaPublicKeyArgument,) = args(&keys[0]);
    verify!("P22", a.key_id.name == "key_x" && k.key_id.name == "key_x" && a.derivation_path == k.derivation_path, "signed with another key than the minter's own");
    let who = read_state(|s| s.minter_address());
    let pk = evm_minter_pk();
    verify!("P22", who.is_some_and(|w| w.as_ref()[..] == ic_sha3::Keccak256::hash(&pk[1..])[12..]), "the minter's address does not belong to its key");
    done();
}
/// Uncompressed form of the model's public key.
fn evm_minter_pk() -> Vec<u8> {
    ic_crypto_secp256k1::PublicKey::deserialize_sec1(&crate::world::public_key()).unwrap().serialize_sec1(false)
}

fn tx_bytes() {
    let field = choose("field", 8);
    let bits = choose("boundary", 33);
    let up = flag("upper");
    let v: BigUint = match (bits, up) {
        (0, false) => n(0),
        (0, true) => n(0x7f),
        (32, true) => max256(),
        (32, false) => n(0x80),
        (k, false) => BigUint::from(1u8) << (8 * k as u32),
        (k, true) => (BigUint::from(1u8) << (8 * k as u32)) - n(1),
    };
    if field == 7 && v > n(u64::MAX) {
        return;
    }
    cover(if v == n(0) { "zero" } else if v < n(256) { "one byte" } else { "long" });
    let mut tx = sym_tx(false, 1);
    let (mut r, mut s) = (n(0x1234_5678), n(1) << 255u32);
    match field {
        0 => tx.nonce = to_amt(&v),
        1 => tx.max_priority_fee_per_gas = to_amt(&v),
        2 => tx.max_fee_per_gas = to_amt(&v),
        3 => tx.gas_limit = to_amt(&v),
        4 => tx.amount = to_amt(&v),
        5 => r = v,
        6 => s = v,
        _ => tx.chain_id = u64::try_from(&v).unwrap(),
    }
    let y = flag("odd");
    let u = |b: &BigUint| ethnum::u256::from_be_bytes(to_amt::<()>(b).to_be_bytes());
    let st = SignedEip1559TransactionRequest::from((tx.clone(), Eip1559Signature { signature_y_parity: y, r: u(&r), s: u(&s) }));
    let raw = check_raw(&st, &tx, y, &r, &s);
    verify!("P22", raw.is_some_and(|x| x.unsigned_hash == tx.hash().0), "the hash to be signed is not the hash of the unsigned transaction");
}
