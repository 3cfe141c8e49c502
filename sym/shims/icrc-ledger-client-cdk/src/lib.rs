//! Stand-in for dfinity/ic's icrc-ledger-client-cdk (+ icrc-ledger-client): same call protocol.
use candid::utils::ArgumentEncoder;
use candid::{Nat, Principal};
use icrc_ledger_types::icrc1::account::Account;
use icrc_ledger_types::icrc1::transfer::{TransferArg, TransferError};
use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};

#[derive(Copy, Clone, Debug)]
pub struct CdkRuntime;

impl CdkRuntime {
    async fn call<In, Out>(&self, id: Principal, method: &str, args: In) -> Result<Out, (i32, String)>
    where
        In: ArgumentEncoder + Send,
        Out: for<'a> candid::utils::ArgumentDecoder<'a>,
    {
        ic_cdk::api::call::call(id, method, args)
            .await
            .map_err(|(code, msg)| (code as i32, msg))
    }
}

pub struct ICRC1Client<R> {
    pub runtime: R,
    pub ledger_canister_id: Principal,
}

impl ICRC1Client<CdkRuntime> {
    pub async fn balance_of(&self, account: Account) -> Result<Nat, (i32, String)> {
        self.runtime
            .call(self.ledger_canister_id, "icrc1_balance_of", (account,))
            .await
            .map(|(x,)| x)
    }
    pub async fn fee(&self) -> Result<Nat, (i32, String)> {
        self.runtime.call(self.ledger_canister_id, "icrc1_fee", ()).await.map(|(x,)| x)
    }
    pub async fn transfer(&self, args: TransferArg) -> Result<Result<Nat, TransferError>, (i32, String)> {
        self.runtime
            .call(self.ledger_canister_id, "icrc1_transfer", (args,))
            .await
            .map(|(x,)| x)
    }
    pub async fn transfer_from(
        &self,
        args: TransferFromArgs,
    ) -> Result<Result<Nat, TransferFromError>, (i32, String)> {
        self.runtime
            .call(self.ledger_canister_id, "icrc2_transfer_from", (args,))
            .await
            .map(|(x,)| x)
    }
}
