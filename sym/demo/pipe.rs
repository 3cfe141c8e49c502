//! A small concrete chain for demonstrations of the withdrawal pipeline.
use crate::common::*;
use crate::world::*;
use evm_minter::deposit_logs::*;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::numeric::*;
use evm_minter::rpc_declrations::Hash;
use evm_minter::state::audit::EventType;
use evm_minter::state::transactions::*;
use evm_rpc_types as rpc;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Default)]
pub struct Chain {
    pub signing_fails: bool,
    /// the mined transactions: hash, success
    pub mined: Vec<([u8; 32], bool)>,
    pub gas_used: u64,
    pub sent: Vec<Vec<u8>>,
}
pub fn setup(nonce: u64) -> Rc<RefCell<Chain>> {
    let mut arg = init_arg(EvmNetwork::Sepolia);
    arg.next_transaction_nonce = nonce.into();
    install(arg);
    add_token(1);
    event(EventType::AcceptedDeposit(ReceivedNativeEvent {
        transaction_hash: Hash([1; 32]),
        block_number: BlockNumber::from(900u64),
        log_index: LogIndex::from(1u8),
        from_address: addr(0x77),
        value: Wei::from(1u64 << 62),
        principal: user(1),
        subaccount: None,
    }));
    event(EventType::AcceptedErc20Deposit(ReceivedErc20Event {
        transaction_hash: Hash([2; 32]),
        block_number: BlockNumber::from(900u64),
        log_index: LogIndex::from(2u8),
        from_address: addr(0x77),
        value: Erc20Value::from(1u64 << 62),
        principal: user(1),
        erc20_contract_address: token_addr(1),
        subaccount: None,
    }));
    let chain = shared(Chain::default());
    let ch = chain.clone();
    handle(move |c| match c.method.as_str() {
        "sign_with_ecdsa" if ch.borrow().signing_fails => Some(rejected()),
        "eth_sendRawTransaction" => {
            let (_, _, raw): (rpc::RpcServices, Option<rpc::RpcConfig>, String) = args(c);
            ch.borrow_mut().sent.push(hex::decode(raw.trim_start_matches("0x")).unwrap());
            None
        }
        "eth_getTransactionReceipt" => {
            let (_, _, h): (rpc::RpcServices, Option<rpc::RpcConfig>, String) = args(c);
            let h = hex::decode(h.trim_start_matches("0x")).unwrap();
            let ch = ch.borrow();
            Some(consistent(ch.mined.iter().find(|m| m.0[..] == h[..]).map(|m| rpc::TransactionReceipt {
                block_hash: rpc::Hex32::from([5u8; 32]),
                block_number: rpc::Nat256::from(4000u64),
                effective_gas_price: rpc::Nat256::from(2_000u64),
                gas_used: rpc::Nat256::from(21_000u64),
                status: Some(rpc::Nat256::from(m.1 as u8)),
                transaction_hash: rpc::Hex32::from(m.0),
                contract_address: None,
                from: rpc::Hex20::from([1u8; 20]),
                logs: vec![],
                logs_bloom: rpc::Hex256::from([0u8; 256]),
                to: None,
                transaction_index: rpc::Nat256::from(0u8),
                tx_type: rpc::HexByte::from(2u8),
            })))
        }
        _ => None,
    });
    chain
}
pub fn native(amount: u64, id: u64) {
    event(EventType::AcceptedNativeWithdrawalRequest(NativeWithdrawalRequest {
        withdrawal_amount: Wei::from(amount),
        destination: addr(0x44),
        ledger_burn_index: burn(id),
        from: user(2),
        from_subaccount: None,
        created_at: Some(1),
    }));
}
pub fn erc20(fee: u64, amount: u64, id: u64) {
    event(EventType::AcceptedErc20WithdrawalRequest(Erc20WithdrawalRequest {
        max_transaction_fee: Wei::from(fee),
        withdrawal_amount: Erc20Value::from(amount),
        destination: addr(0x44),
        native_ledger_burn_index: burn(id),
        erc20_contract_address: token_addr(1),
        erc20_ledger_id: erc20_ledger(1),
        erc20_ledger_burn_index: LedgerBurnIndex::new(id + 1000),
        from: user(2),
        from_subaccount: None,
        created_at: 1,
    }));
}
/// One run of the withdrawal task; false if it trapped.
pub fn round(base_fee: u64, latest: u64, finalized: u64) -> bool {
    sim::set_time(sim::time() + 60_000_000_000);
    env(|e| {
        e.base_fee = n(base_fee);
        e.priority = n(2_000);
        e.latest_count = n(latest);
        e.finalized_count = n(finalized);
    });
    sim::block_on(evm_minter::withdraw::process_retrieve_tokens_requests()).is_some()
}
/// Hash and amount of every version sent for a withdrawal.
pub fn versions(id: u64) -> Vec<([u8; 32], Wei)> {
    read_state(|s| {
        s.withdrawal_transactions
            .sent_transactions_iter()
            .filter(|(_, i, _)| i.get() == id)
            .flat_map(|(_, _, t)| t.into_iter().map(|t| (t.hash().0, t.transaction().amount)).collect::<Vec<_>>())
            .collect()
    })
}
