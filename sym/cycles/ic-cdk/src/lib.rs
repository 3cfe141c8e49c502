//! What evm_rpc_client uses of ic-cdk, with cycle amounts that may be solver terms; a call is answered by the harness.
pub mod api {
    pub mod call {
        use candid::utils::{ArgumentDecoder, ArgumentEncoder};
        use candid::{CandidType, Principal};
        use serde::Deserialize;
        use std::any::Any;
        use std::cell::RefCell;
        #[derive(CandidType, Deserialize, Clone, Copy, Hash, Debug, PartialEq, Eq, PartialOrd, Ord)]
        pub enum RejectionCode {
            NoError = 0,
            SysFatal = 1,
            SysTransient = 2,
            DestinationInvalid = 3,
            CanisterReject = 4,
            CanisterError = 5,
            Unknown,
        }
        pub type CallResult<R> = Result<R, (RejectionCode, String)>;
        pub type Hook = Box<dyn FnMut(Principal, &str, Box<dyn Any>, cy_int::u128) -> CallResult<Box<dyn Any>>>;
        thread_local! {
            pub static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
        }
        pub async fn call_with_payment128<T: ArgumentEncoder + 'static, R: for<'a> ArgumentDecoder<'a> + 'static>(id: Principal, method: &str, args: T, cycles: cy_int::u128) -> CallResult<R> {
            let r = HOOK.with(|h| (h.borrow_mut().as_mut().expect("no hook"))(id, method, Box::new(args), cycles));
            r.map(|b| *b.downcast::<R>().expect("another reply type"))
        }
    }
}
