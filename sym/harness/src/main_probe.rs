//! Child module of main.rs (as a module of this crate): lets the harnesses call the private endpoints.
use super::*;
pub async fn call_init(a: MinterArg) {
    init(a).await
}
pub fn call_pre_upgrade() {
    pre_upgrade()
}
pub fn call_post_upgrade(a: Option<MinterArg>) {
    post_upgrade(a)
}
pub async fn call_withdraw_native_token(a: WithdrawalArg) -> Result<RetrieveNativeRequest, WithdrawalError> {
    withdraw_native_token(a).await
}
pub async fn call_withdraw_erc20(a: WithdrawErc20Arg) -> Result<RetrieveErc20Request, WithdrawErc20Error> {
    withdraw_erc20(a).await
}
pub async fn call_request_scraping_logs(n: Nat) -> Result<(), RequestScrapingError> {
    request_scraping_logs(n).await
}
pub async fn call_check_new_deposits() {
    check_new_deposits().await
}
pub async fn call_add_erc20_token(t: AddErc20Token) {
    add_erc20_token(t).await
}
pub async fn call_eip_1559_transaction_price(t: Option<Eip1559TransactionPriceArg>) -> Eip1559TransactionPrice {
    eip_1559_transaction_price(t).await
}
pub async fn call_get_minter_info() -> MinterInfo {
    get_minter_info().await
}
pub async fn call_withdrawal_status(p: WithdrawalSearchParameter) -> Vec<WithdrawalDetail> {
    withdrawal_status(p).await
}
pub async fn call_retrieve_witdrawal_status(i: u64) -> RetrieveWithdrawalStatus {
    retrieve_witdrawal_status(i).await
}
pub fn call_get_events(a: GetEventsArg) -> GetEventsResult {
    get_events(a)
}
pub async fn call_minter_address() -> String {
    minter_address().await
}
pub async fn call_smart_contract_address() -> String {
    smart_contract_address().await
}
