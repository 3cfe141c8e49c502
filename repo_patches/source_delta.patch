From 866694308ffac91352e4132d3c98a75e9feb2f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:54 +0000
Subject: [PATCH 1/4] fix: scrape native deposits also when ERC-20 tokens are
 registered

---
 minter/src/deposit_logs/scraping.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/minter/src/deposit_logs/scraping.rs b/minter/src/deposit_logs/scraping.rs
index 811e1f7..7be78f2 100644
--- a/minter/src/deposit_logs/scraping.rs
+++ b/minter/src/deposit_logs/scraping.rs
@@ -30,7 +30,12 @@ impl LogScraping for ReceivedDepositLogScraping {
         let contract_address = state.helper_contract_address.unwrap();
         let last_scraped_block_number = state.last_scraped_block_number;
 
-        let token_contract_addresses = state.erc20_tokens.alt_keys().cloned().collect::<Vec<_>>();
+        // The zero address stands for the native token: it must always be part of the filter,
+        // otherwise native deposits are no longer matched once an ERC-20 token is registered,
+        // and an empty list would match deposits of any (also unsupported) token.
+        let token_contract_addresses = std::iter::once(Address::ZERO)
+            .chain(state.erc20_tokens.alt_keys().cloned())
+            .collect::<Vec<_>>();
         let mut topics: Vec<_> = vec![Topic::from(FixedSizeData(
             RECEIVED_DEPOSITED_TOKEN_EVENT_TOPIC,
         ))];
-- 
2.43.0


From 4aaaeaff01bf4ebec38e7e086d5dd87de39ec4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:30 +0000
Subject: [PATCH 2/4] fix: a deposit below the deposit fee must not block the
 other deposits

---
 minter/src/deposit.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/minter/src/deposit.rs b/minter/src/deposit.rs
index b99641a..0424414 100644
--- a/minter/src/deposit.rs
+++ b/minter/src/deposit.rs
@@ -78,6 +78,21 @@ async fn mint() {
             ledger_canister_id,
         };
 
+        // A native deposit that does not even cover the deposit fee cannot be minted.
+        // It is quarantined (by dropping the guard), so that it does not prevent
+        // the other deposits from being minted.
+        if is_native_deposit
+            && deposit_native_fee
+                .as_ref()
+                .is_some_and(|fee| &event.value() < fee)
+        {
+            log!(
+                INFO,
+                "Deposit is lower than the deposit fee and cannot be minted: {event:?}"
+            );
+            continue;
+        }
+
         // If deposit type is native_deposit and the fees are not set to zero,
         // The minted amount for user should be as follow
         // event.value() - deposit_native_fee
-- 
2.43.0


From 0ea0e5fde9dd5bfe64666446f59d1106ecace8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:00 +0000
Subject: [PATCH 3/4] fix: refund the withdrawal fee from the fee account
 without needing an allowance

---
 minter/src/ledger_client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minter/src/ledger_client.rs b/minter/src/ledger_client.rs
index ea84c52..1cd1a47 100644
--- a/minter/src/ledger_client.rs
+++ b/minter/src/ledger_client.rs
@@ -297,7 +297,9 @@ impl LedgerClient {
         match self
             .client
             .transfer_from(TransferFromArgs {
-                spender_subaccount: None,
+                // The fees are spent from the minter's own account: the spender must be that very account,
+                // otherwise the ledger would require an allowance and refuse the refund.
+                spender_subaccount: Some(FEES_SUBACCOUNT),
                 from: Account {
                     owner: ic_cdk::id(),
                     subaccount: Some(FEES_SUBACCOUNT),
-- 
2.43.0


From 474e127598de4f7145bcc291a9e8f0a1882c318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:19 +0000
Subject: [PATCH 4/4] fix: refuse native withdrawals that do not cover the
 withdrawal fee before taking it

---
 minter/src/main.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/minter/src/main.rs b/minter/src/main.rs
index c0f86bc..4f6926b 100644
--- a/minter/src/main.rs
+++ b/minter/src/main.rs
@@ -300,7 +300,15 @@ async fn withdraw_native_token(
 
     let mut amount = Wei::try_from(amount).expect("failed to convert Nat to u256");
 
-    let minimum_withdrawal_amount = read_state(|s| s.native_minimum_withdrawal_amount);
+    // The withdrawal fee is deducted from the amount before burning, so the amount must also cover the fee and
+    // leave what the ledger accepts to burn; otherwise the fee would be lost in a withdrawal that cannot succeed.
+    let minimum_withdrawal_amount = match withdrawal_native_fee {
+        Some(withdrawal_fee) => withdrawal_fee
+            .checked_add(native_transfer_fee)
+            .unwrap_or(Wei::MAX)
+            .max(read_state(|s| s.native_minimum_withdrawal_amount)),
+        None => read_state(|s| s.native_minimum_withdrawal_amount),
+    };
     if amount < minimum_withdrawal_amount {
         return Err(WithdrawalError::AmountTooLow {
             min_withdrawal_amount: minimum_withdrawal_amount.into(),
-- 
2.43.0

