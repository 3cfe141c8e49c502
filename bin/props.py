#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (developer helper: python3 bin/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "minter/src/"
T_SYM = "symbolic execution of the compiled real code, every branch and assertion decided by z3 (cvc5 as second opinion), counterexamples replayed on concrete values"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), note))


prop("P01", "A deposit is minted at most once and never lost",
     "Every registered deposit is at any time exactly one of: waiting to be minted, minted, or set aside for manual handling. It is minted on the ledger at most once, whatever the ledger answers, even if handling an answer traps, if mint runs overlap or if the same log is reported again; a mint whose outcome is unclear is set aside and never retried. A deposit that could not be minted is retried until it succeeds, and no deposit keeps others from being minted.",
     ["inputs", "schedules", "fault_sequences", "crash_points"],
     "for all deposit values and fees, all ledger answers (success, error, rejection, unusable answer), all points at which another deposit arrives or the mint callback traps",
     "the mint loop needs a ledger and timers, so no unit test runs it; the pocket-ic tests need binaries and sample two happy histories",
     [M + "deposit.rs", M + "state.rs", M + "guard/mod.rs"],
     [("mint loop with quarantine guard", M + "deposit.rs mint"), ("deposit bookkeeping", M + "state.rs record_event_to_mint, record_successful_mint, record_quarantined_deposit")],
     "three deposits (native, ERC-20, late native), <= 2 failing ledger calls (4 thorough), all interleavings of the late deposit")
prop("P02", "Mints match the deposit: amount, ledger, account, memo, fee",
     "For each deposit the minter credits exactly the deposited value, less the configured deposit fee for native deposits, on the ledger of the deposited token, to the principal and subaccount named in the deposit, with a memo that identifies the deposit. The deposit fee is credited once to the minter's fee account per minted native deposit. The tokens minted for a deposit never exceed what was deposited.",
     ["inputs", "fault_sequences", "configurations"], "for all values, fees, tokens and ledger failures",
     "tests check a few fixed amounts; the statement quantifies over all 256-bit values, all fee settings and all failure points",
     [M + "deposit.rs", M + "memo.rs"], [("amount less fee", M + "deposit.rs calculate_deposit_amount_deducting_fee"), ("mint transfer", M + "deposit.rs mint"), ("memo", M + "memo.rs From<&ReceivedDepositEvent>")],
     "as P01; values 255/256-bit and fee 128-bit symbolic")
prop("P03", "Each withdrawal is paid by exactly one transaction slot",
     "An accepted withdrawal is at every moment in exactly one stage (pending, created, sent, finalized). It is bound to exactly one transaction nonce; nonces are handed out consecutively without gaps or reuse, and every transaction ever sent with that nonce pays exactly this withdrawal's destination and amount, spending at most what the user burned. RPC, signing or fee-estimation failures never lose or duplicate a withdrawal.",
     ["histories", "schedules", "fault_sequences", "inputs"], "for all amounts, fee developments, mining and finalization orders and failing calls over several runs of the withdrawal task",
     "tests drive the state machine by hand with fixed fees; the interplay with RPC answers, signing and resubmission over several rounds is never executed",
     [M + "withdraw.rs", M + "state/transactions/mod.rs", M + "tx.rs"],
     [("pipeline", M + "withdraw.rs process_retrieve_tokens_requests"), ("state machine", M + "state/transactions/mod.rs WithdrawalTransactions")],
     "1-2 withdrawals (3 thorough), 3 rounds, <= 2 faults; 64-bit fees, 128-bit amounts")
prop("P04", "A new transaction never costs more than the user paid",
     "The first transaction for a withdrawal pays exactly the burned amount minus its maximal fee (native), or transfers exactly the requested token amount with a maximal fee that does not exceed the fee burned for it (ERC-20). It goes to the right address on the right chain, with the gas limit of its kind and a fee cap that covers the current fees; it is refused only if the burned amount does not cover the fee.",
     ["inputs", "configurations"], "for all amounts, allowed fees, base and priority fees, nonces (256-bit) and all ten networks",
     "unit tests use a handful of amounts and fees and cannot cover rounding, saturation and overflow",
     [M + "state/transactions/mod.rs", M + "tx.rs", M + "withdraw.rs"], [("create_transaction", M + "state/transactions/mod.rs"), ("price", M + "tx.rs GasFeeEstimate::to_price")],
     "full 256-bit symbolic inputs")
prop("P05", "Fee bumps keep the payment and stay within the allowed fee",
     "A stuck transaction is replaced if and only if its fees no longer meet the current ones. A replacement raises the tip by at least ten percent and to at least the current tip, never lowers the fee cap, covers the current base fee, changes nothing but fees (and, for native withdrawals, the amount so that amount plus maximal fee stays the burned amount), and never costs more than the user allowed; otherwise no replacement is made.",
     ["inputs", "histories"], "for all fee developments over two consecutive bumps and all amounts",
     "tests sample a few fee values; the bounds must hold for every rounding and every sequence of bumps",
     [M + "state/transactions/mod.rs", M + "tx.rs"], [("resubmit", M + "tx.rs Resubmittable, resubmit_transaction_price"), ("create_resubmit_transactions", M + "state/transactions/mod.rs")],
     "two bumps, 100-bit fees, 128-bit amounts")
prop("P06", "Failed withdrawals are reimbursed exactly once",
     "A withdrawal whose transaction failed on the chain, and an ERC-20 withdrawal whose token burn failed, is reimbursed: the right amount, on the right ledger, to the account that withdrew. It is paid at most once, whatever the ledger answers; failed payments stay open and are retried, and a payment whose outcome is unclear is set aside and never retried.",
     ["inputs", "fault_sequences", "crash_points"], "for all amounts and all sequences of ledger answers (success, error, rejection, trap of the callback)",
     "the reimbursement task needs ledgers and traps in callbacks, which no unit test can produce",
     [M + "withdraw.rs", M + "state/transactions/mod.rs"], [("process_reimbursement", M + "withdraw.rs"), ("records", M + "state/transactions/mod.rs record_finalized_reimbursement, record_quarantined_reimbursement")],
     "three open reimbursements, two runs, every ledger answer")
prop("P07", "Recorded balances equal deposits minus what left the minter",
     "The minter's recorded native balance is always the sum of native deposits minus the value and the actual fee of every finalized transaction, and each token balance is the sum of its deposits minus the successful withdrawals of that token. The totals of actual and unspent fees add up to what users were charged.",
     ["histories", "inputs"], "for all deposits, withdrawals, actual gas prices, gas used and outcomes",
     "tests check single updates with fixed numbers",
     [M + "state.rs", M + "state/transactions/mod.rs"], [("balance updates", M + "state.rs update_balance_upon_deposit, update_balance_upon_withdrawal")],
     "1-2 withdrawals, 3 rounds, symbolic amounts and prices")
prop("P08", "Withdrawals are finalized only by their own mined transaction",
     "A withdrawal counts as finalized if and only if the chain has finalized one of the transactions the minter sent for it, and then the recorded transaction, outcome and fee are those of the one that was mined, also if several replacements had been sent.",
     ["histories", "fault_sequences"], "for all mining orders, chosen replacement versions, outcomes and failing receipt calls",
     "tests finalize with hand-made receipts of the last version only",
     [M + "withdraw.rs", M + "state/transactions/mod.rs"], [("finalize_transactions_batch", M + "withdraw.rs"), ("record_finalized_transaction", M + "state/transactions/mod.rs")],
     "1-2 withdrawals, 3 rounds, <= 2 faults")
prop("P09", "Deposit logs are decoded exactly or rejected",
     "A log of the helper contract is accepted as a deposit if and only if it is mined, not removed, and has the exact event signature, topic count, data length, address padding and a valid, non-anonymous principal encoding; the beneficiary, subaccount, token, amount, sender and source taken from it are exactly the encoded ones. Malformed logs are rejected under their own source without a trap and without affecting other logs; pending logs are ignored.",
     ["inputs"], "for all amounts, block numbers, log indices and all single deviations of the log from the expected form",
     "tests decode three fixed logs",
     [M + "deposit_logs/parser.rs", M + "deposit_logs/mod.rs", M + "eth_types/mod.rs"], [("parse_log", M + "deposit_logs/parser.rs"), ("parse_principal_from_slice", M + "deposit_logs/mod.rs")],
     "one log, single deviations, symbolic 256-bit words")
prop("P10", "Log scraping never skips a deposit",
     "When the scraping position has passed a block, every deposit of a supported token (native or any registered token) in it has been registered, unless the block is recorded as skipped because a single block's logs are too large; malformed deposits are recorded as invalid. The position never moves backwards or beyond the final blocks, failures leave it at the last block whose logs were fetched, and a run without failures reaches the newest final block. Logs of unsupported tokens never stop scraping.",
     ["inputs", "fault_sequences", "histories"], "for all positions, block heights, deposit blocks, registered tokens and patterns of failing or oversized answers",
     "range splitting is tested on fixed ranges; the loop over chunks, halves and failures is never executed by unit tests",
     [M + "deposit.rs", M + "deposit_logs/scraping.rs", M + "numeric/range.rs"], [("scrape loop", M + "deposit.rs scrape_until_block, scrape_block_range"), ("filter", M + "deposit_logs/scraping.rs next_scrape"), ("ranges", M + "numeric/range.rs")],
     "<= 2500 new blocks with <= 2 oversized answers, <= 3 blocks with any pattern, two runs with failures")
prop("P11", "Amounts never wrap or change value silently",
     "Sums, differences, products, quotients and increments of token amounts, fees, gas and block numbers are the exact mathematical results whenever those fit 256 bits, and are reported as unavailable otherwise; nothing wraps around. Conversions between amounts, naturals and bytes preserve the value or are refused. Splitting a block range into chunks or halves, or at a block, yields consecutive ranges that together are exactly the original one, in order and within the chunk size.",
     ["inputs"], "for all 256-bit operands and block ranges, including the largest values and empty ranges",
     "unit tests sample a few values and a few ranges; wrap-around and rounding faults appear at single values",
     [M + "checked_amount/mod.rs", M + "numeric/mod.rs", M + "numeric/range.rs"],
     [("checked arithmetic", M + "checked_amount/mod.rs CheckedAmountOf"), ("unit conversions", M + "numeric/mod.rs"), ("range splitting", M + "numeric/range.rs BlockRangeInclusive")],
     "operands symbolic over 256 bits (second factor of products 64 bits, divisors from a list); at most four chunks per range")
prop("P12", "Stored events are read back exactly, also from older releases",
     "Every event written to stable memory is read back as the same event with the same time. Events stored by the current release stay readable, with the same content, by any later version of the code, so that an upgrade can always rebuild its state.",
     ["inputs", "configurations"], "for all kinds of events, all field values at every size of their encoding, all networks",
     "the tests encode and decode random events with the same code and so cannot see a change of the stored format; sizes at encoding boundaries are rarely drawn",
     [M + "state/event.rs", M + "storage.rs", M + "cbor/u256.rs", M + "cbor/nat.rs", M + "cbor/principal.rs", M + "cbor/id.rs"],
     [("event codec", M + "storage.rs Storable for Event"), ("event types", M + "state/event.rs EventType"), ("number codecs", M + "cbor")],
     "21 kinds of events, 3 shapes, one symbolic field at a time; stored samples of the pinned release with symbolic numbers")
prop("P13", "Rebuilding the state from the event log restores it",
     "After any history, replaying the recorded events succeeds and yields the same deposits, mints, withdrawals, transactions, nonces, reimbursements, balances, tokens and configuration as the live state.",
     ["histories", "crash_points"], "at every point between task runs of every explored history",
     "tests replay a few hand-written event lists, not the histories the tasks produce",
     [M + "state/audit.rs", M + "storage.rs", M + "lifecycle.rs"], [("replay_events", M + "state/audit.rs"), ("event encoding", M + "state/event.rs")],
     "histories of the withdrawal pipeline (1-2 withdrawals, 3 rounds, <= 2 faults)")
prop("P14", "Chain facts are accepted only from agreeing providers of the right network",
     "Blocks, logs, receipts and finalized transaction counts are accepted only if the providers' answers agree, or if at least two providers answered and no answer contradicts another; otherwise the query counts as failed. The number of sent transactions is the smallest of at least two answers, and a fee history needs a strict majority without contradiction about the same blocks. What is accepted is exactly what was reported, every query asks what the caller asked for on the configured network, and security-relevant queries go to at least two independent providers.",
     ["inputs", "fault_sequences", "configurations"], "for all values, all splits of up to three providers into answers and errors of every kind, all ten networks",
     "unit tests reduce a few fixed answers; agreement must be judged for all combinations of values, errors and providers",
     [M + "rpc_client/mod.rs", M + "rpc_client/providers.rs", "evm_rpc_client/src/lib.rs"],
     [("reductions", M + "rpc_client/mod.rs ReducedResult"), ("provider selection", M + "rpc_client/providers.rs"), ("requests", "evm_rpc_client/src/lib.rs EvmRpcClient")],
     "one query, at most three providers, symbolic 256-bit numbers, two values per hash")
prop("P15", "Two-key tables keep both keys unique and in step",
     "In the tables that find a transaction by withdrawal and by nonce, each primary and each alternative key occurs at most once and both always lead to the same entry; a conflicting insertion is refused and changes nothing. Removing or draining entries removes exactly those under both keys, and iteration follows the order of the primary keys. In the deduplicating table the first entry for a key stays.",
     ["histories", "inputs"], "for all sequences of three operations (four in depth) and all keys, in every relative order",
     "unit tests use a few literal keys and short fixed sequences",
     [M + "map.rs"], [("MultiKeyMap, DedupMultiKeyMap", M + "map.rs")],
     "three operations (four thorough), symbolic 256-bit keys")
prop("P16", "Guards are released however a task ends",
     "At most one instance of each background task works at a time, and the guard that ensures this is released when the task ends, whether it completes, fails or traps, so that no task is ever locked out forever. The same holds for withdrawal requests: one at a time per user, a bounded number in progress and waiting, and the user can withdraw again once the request has ended.",
     ["schedules", "crash_points", "fault_sequences"], "for all call failures and traps of the withdrawal, reimbursement and mint tasks and of withdrawal requests",
     "tests construct and drop guards synchronously; traps between await points cannot be produced",
     [M + "guard/mod.rs", M + "withdraw.rs", M + "deposit.rs"], [("TimerGuard", M + "guard/mod.rs")],
     "one task run at a time plus overlapping mint timers; one withdrawal request with an overlapping one; limits at and around 100")
prop("P17", "Underpaid RPC calls are retried with enough cycles, at most ten times",
     "If the RPC service, or any one provider, asks for more cycles, the same request is repeated with twice the previous payment or with the largest demand if that is more, at most ten times; the last answer is returned. Nothing else is repeated: values, other errors and rejected calls are returned at once.",
     ["inputs", "fault_sequences"], "for all sequences of answers and demands up to the retry limit",
     "the unit tests of the client check the selection of the largest demand on one sample and never run the loop",
     ["evm_rpc_client/src/lib.rs", M + "rpc_client/mod.rs"], [("retry loop", "evm_rpc_client/src/lib.rs call_internal"), ("largest demand", "evm_rpc_client/src/lib.rs max_expected_too_few_cycles_error")],
     "one request; first payment and demands symbolic over 128 bits; up to three retries with every kind of answer, the default ten retries with one symbolic demand")
prop("P18", "Native withdrawals charge exactly what is requested, or nothing",
     "A native withdrawal request is accepted only for a valid, non-zero destination and an amount not below the minimum, and then the user is charged exactly the requested amount: the withdrawal fee goes to the fee account and the rest is burned, and exactly the burned amount is recorded for payout under that burn, with the caller as owner. A refused request records nothing and burns nothing, reports the true reason, and any withdrawal fee already taken is refunded to the caller (less ledger fees). Anonymous callers are refused.",
     ["inputs", "configurations", "fault_sequences"], "for all amounts, minima and fees, all destinations' validity and all ledger answers at every step",
     "the endpoint needs a ledger; the integration tests sample one accepted and few refused requests",
     [M + "main.rs", M + "ledger_client.rs", M + "address.rs"], [("withdraw_native_token", M + "main.rs"), ("fee, burn and refund transfers", M + "ledger_client.rs"), ("destination check", M + "address.rs validate_address_as_destination")],
     "one request plus an overlapping second one; 256-bit amount, 128-bit fees")
prop("P19", "ERC-20 withdrawals never take tokens without a payout or reimbursement",
     "An ERC-20 withdrawal request is accepted only for a supported token and a valid destination; then the current maximal gas fee was burned on the native ledger and exactly the requested amount on the token's ledger, and exactly these amounts and burns are recorded for payout. If the token burn fails after the gas fee was burned, the gas fee (less a penalty of the ledger fee when the caller is at fault) is scheduled for reimbursement to the caller; and if either burn fails the withdrawal fee is refunded. Every other refusal costs the user nothing and records nothing.",
     ["inputs", "configurations", "fault_sequences"], "for all amounts, gas fees and ledger fees, supported and unsupported tokens and all ledger and RPC answers at every step",
     "the endpoint needs two ledgers and fee data; integration tests sample a few answers",
     [M + "main.rs", M + "ledger_client.rs", M + "state/transactions/mod.rs"], [("withdraw_erc20", M + "main.rs"), ("failed token burn", M + "state/transactions/mod.rs record_reimbursement_request")],
     "one request plus an overlapping second one; 256-bit amount, 64-bit gas fees, 128-bit ledger fees")
prop("P20", "Only the ledger manager adds tokens, and tokens stay unambiguous",
     "A token is registered only at the request of the configured ledger suite manager, only for the network the minter serves, with a well-formed contract address and a symbol of at most 20 ASCII characters, and only if no registered token has the same ledger, contract or symbol. A refused request changes nothing; an accepted one adds exactly that token. The early deposit check stays closed to everybody as long as no swap canister is configured.",
     ["inputs", "configurations"], "for all callers, chain ids, addresses, symbols and ledgers, with zero to two tokens registered",
     "tests register a few fixed tokens directly in the state; caller, network and encoding checks of the endpoint are not run",
     [M + "main.rs", M + "erc20.rs", M + "state.rs", M + "evm_config.rs"], [("add_erc20_token", M + "main.rs"), ("record_add_erc20_token", M + "state.rs"), ("token parsing", M + "erc20.rs")],
     "one registration; chain id symbolic, representatives of every form of address and symbol")
prop("P21", "Fee estimates follow the chain and are never used past their age",
     "A fee estimate consists of the next block's base fee and the median of the recent tips, but at least the configured minimum tip; it is refused if the fee history is incomplete or the fee cap does not fit 256 bits. An estimate is used for less than thirty seconds, then it is fetched anew from the five latest blocks, one refresh at a time; a failed refresh yields no estimate and keeps the old one unchanged. Quoted prices are the held estimate with the gas limit of the kind of transfer, and are refused for unknown tokens.",
     ["inputs", "fault_sequences", "schedules"], "for all fee histories up to four tips, all refresh outcomes, overlapping requests and ages at and around the limit",
     "tests estimate from a few fixed histories; caching, failures and overlapping refreshes need a running canister",
     [M + "tx.rs", M + "main.rs"], [("estimate", M + "tx.rs estimate_transaction_fee"), ("cache", M + "tx.rs lazy_refresh_gas_fee_estimate"), ("price query", M + "main.rs eip_1559_transaction_price")],
     "up to four tips in two blocks, symbolic 256-bit fees; three requests at ages around thirty seconds")
prop("P22", "Sent transactions are canonical EIP-1559 and correctly signed",
     "Every byte string handed to the network is a canonical type-2 transaction with exactly the fields the minter recorded, whose signature was obtained over exactly its unsigned hash, and whose hash is the one the minter looks up receipts by. A signature is requested with at least the cycles it costs, and not at all if the minter does not have them.",
     ["inputs", "histories"], "for all nonces, fees, amounts and both kinds of withdrawals, including replacements",
     "tests compare one fixed transaction with a library",
     [M + "tx.rs"], [("rlp_inner, rlp_append, hash, sign", M + "tx.rs")],
     "1 withdrawal, 3 rounds; symbolic integers are opaque 32-byte RLP strings")
prop("P23", "Reported withdrawal status matches the real stage",
     "The status reported for a withdrawal is the stage it is in, with the hash of the latest sent or the finalized transaction and its outcome, and the refund once it is paid. Searching by withdrawal id, sender account or recipient returns exactly the matching withdrawals, with their recipient, token, amount and transaction fee.",
     ["histories"], "at every point between task runs of every explored history",
     "tests check statuses of hand-made states",
     [M + "state/transactions/mod.rs", M + "main.rs"], [("transaction_status, withdrawal_status", M + "state/transactions/mod.rs")],
     "1-2 withdrawals, 3 rounds")
prop("P24", "Background work runs from installation on and after every upgrade",
     "After installation and after every upgrade the minter fetches its key and gas fees at once, looks for deposits at once and then every ten minutes, and processes waiting withdrawals and refunds every minute. After installation the native ledger and its index are also registered with the ledger suite manager, under their true identifiers and module hashes.",
     ["histories"], "for a minter with work waiting, right after installation and after an upgrade",
     "timers cannot be observed in unit tests, and the endpoints that set them are never run by them",
     [M + "main.rs", M + "lib.rs", M + "lsm_client.rs"], [("setup_timers", M + "main.rs"), ("lazy_add_native_ls_to_lsm_canister", M + "lsm_client.rs")],
     "each timer fired once; amounts symbolic")
prop("P25", "Only a valid configuration is ever in force, and exactly the given one",
     "An installation or upgrade is refused unless every number fits 256 bits, the key name is not blank, the ledger is not anonymous, the contract address is well formed and not zero, and the minimum withdrawal is positive and covers the ledger fee; a refused upgrade leaves the old configuration in force. An accepted one puts exactly the given values in force (a zero fee means none) and leaves everything else unchanged, also after later upgrades. An installation argument cannot be used for an upgrade or the other way round.",
     ["inputs", "histories"], "for all numbers and every variant of the other fields; for every single field, none, and all of them in an upgrade",
     "unit tests try a few invalid values and one upgrade; validity depends on combinations of symbolic old and new values",
     [M + "lifecycle.rs", M + "state.rs", M + "main.rs"], [("State::try_from(InitArg)", M + "lifecycle.rs"), ("State::upgrade, validate_config", M + "state.rs"), ("init, post_upgrade", M + "main.rs")],
     "numbers symbolic over 260 bits; an installation and up to two upgrades")
prop("P26", "Only final blocks are scraped, and at most once a minute on request",
     "The newest block considered is the one reported for the configured height minus the network's safety distance (20 blocks on BSC, 12 on Arbitrum, Base, Optimism, Avalanche and Fantom, none elsewhere); a failed query keeps the previous observation. A user can trigger scraping only for a block above the last observed one and only when at least a minute has passed since the last scraping. A scraping run that cannot learn the newest block ends after a bounded number of queries, scrapes nothing unsafe and leaves later runs able to work.",
     ["inputs", "configurations", "fault_sequences"], "for all networks, block numbers and previous observations; request times at and around the boundary",
     "no test covers the network offsets or the boundary of the throttle",
     [M + "deposit.rs", M + "main.rs"], [("update_last_observed_block_number, validate_log_scraping_request", M + "deposit.rs")],
     "64-bit block numbers; boundary times")
prop("P27", "The public event history shows exactly what was recorded",
     "The event history lists every recorded event exactly once, in the order of recording, with its time and its true content: kind, amounts, addresses, accounts, identifiers and hashes. Pages of any start and length together give the whole history, a page never exceeds the limit, and the reported total is the number of recorded events.",
     ["histories", "inputs"], "for all kinds of events and field values, and all page starts and lengths around the limits",
     "no test compares the published form with the recorded events for all kinds and values",
     [M + "main.rs", M + "endpoints.rs", M + "storage.rs"], [("get_events", M + "main.rs"), ("event iteration", M + "storage.rs with_event_iter")],
     "one event of each kind with one symbolic field at a time; logs of up to 205 events")
prop("P28", "What the minter reports about itself is true",
     "The information query reports the minter's and the contract's address, the minimum withdrawal and the fees, the block height and positions, the registered tokens, the balances of the native token and of each token, and the current gas fee estimate exactly as they are. The address it reports is the one of its key.",
     ["inputs", "histories"], "for all amounts, fees and positions, with and without key, estimate and contract, zero to two tokens",
     "no test calls the information query",
     [M + "main.rs", M + "state.rs", M + "address.rs"], [("get_minter_info", M + "main.rs"), ("minter_address", M + "state.rs")],
     "one query; symbolic amounts (128-256 bits), up to two tokens")
prop("P29", "Waiting withdrawals are served in turn and cannot block each other",
     "Waiting withdrawals get their transactions in the order of the requests, at most five per run and never with more than a thousand nonces in flight; one whose burned amount does not cover the current fee goes to the end of the queue, stays there, and never holds up the others. Created transactions are signed and unfinished ones (re)sent lowest nonce first, five at a time and only the latest version; a run that leaves anything unfinished is followed by another one within a minute.",
     ["inputs", "histories", "configurations"], "for all amounts and fee developments over several runs, any number mined in between, and queues and in-flight counts around the limits",
     "tests call the batch functions with fixed requests; queue order over several runs of the task under changing fees is not run",
     [M + "withdraw.rs", M + "state/transactions/mod.rs"], [("queue", M + "state/transactions/mod.rs withdrawal_requests_batch, reschedule_withdrawal_request"), ("batches", M + "withdraw.rs")],
     "seven withdrawals, two with symbolic amounts (three thorough), two runs with symbolic fees; 0 to 1000 nonces in flight")
prop("P30", "Temporary failures never leave a withdrawal stuck",
     "Whatever RPC queries, signatures or deliveries fail, and even if the handling of an answer traps or a delivered transaction is reported as failed, every accepted withdrawal whose burned amount covers the fees is sent, mined and recorded as finalized within two runs once the failures have ended and the network mines what it received; nothing has to be repaired by hand.",
     ["fault_sequences", "schedules", "crash_points"], "for all positions and kinds of at most two failures in the first two runs, and all choices of what is mined in between",
     "no test runs the withdrawal task; recovery after a failure at an arbitrary await point needs a simulated network",
     [M + "withdraw.rs", M + "state/transactions/mod.rs", M + "guard/mod.rs"], [("pipeline", M + "withdraw.rs process_retrieve_tokens_requests"), ("stages", M + "state/transactions/mod.rs WithdrawalTransactions"), ("task guard", M + "guard/mod.rs TimerGuard")],
     "a native and an ERC-20 withdrawal, two runs with <= 2 failures, two without")
prop("P31", "Temporary failures never hold back a deposit",
     "Whatever block queries, log queries or mints fail, and even if the handling of an answer traps, every deposit in a final block is minted after the first run in which everything works and new blocks appear, and none is minted twice. The only deposits set aside are those whose mint succeeded on the ledger but could not be recorded; no block is passed over and no task stays locked.",
     ["fault_sequences", "schedules", "crash_points"], "for all positions and kinds of at most two failures in two runs (four in three runs in depth), all blocks of the deposits and all growth of the chain",
     "no test runs scraping and minting together; recovery after a failure at an arbitrary await point needs simulated providers and ledgers",
     [M + "deposit.rs", M + "state.rs", M + "guard/mod.rs"], [("scraping run", M + "deposit.rs scrape_logs, scrape_block_range"), ("mint task", M + "deposit.rs mint"), ("task guard", M + "guard/mod.rs TimerGuard")],
     "a native and a token deposit, two runs with <= 2 failures, one without")
prop("P32", "Ledger memos keep their published form and always fit",
     "Every memo the minter attaches to a mint, refund or burn has the published stable form and names exactly the deposit (sender, transaction, log index), the withdrawal and its failed transaction, or the destination, token and amount. No memo exceeds the 80 bytes a ledger accepts, whatever the values; otherwise the transfer it belongs to could never be made.",
     ["inputs"], "for all amounts and log indices, all kinds of memos, and burn indices and symbols at every length boundary",
     "unit tests compare three fixed memos and sample lengths at random; the longest memo is a corner case",
     [M + "memo.rs", M + "withdraw.rs", M + "cbor/u256.rs"], [("memo encoding", M + "memo.rs"), ("memo of a refund", M + "withdraw.rs process_reimbursement"), ("amount encoding", M + "cbor/u256.rs")],
     "one memo of each kind; 256-bit amounts, 64-bit log indices; refunds of all kinds in two runs of the task")
prop("P33", "The deposit contract reports exactly what reached the minter",
     "A call of the deposit contract either is undone or passes exactly the sent coins or exactly the given amount of the token, taken from the caller, on to the minter's address; nothing stays in the contract, and a deposit that the minter can take is not refused. For every such deposit, and for nothing else, the minter sees one log, from which it reads exactly the caller, asset, amount, beneficiary and subaccount of the deposit.",
     ["inputs", "fault_sequences"], "for all amounts of coins and tokens, all token arguments and all ways a token contract or the minter's address can answer",
     "the contract's tests call it with one token and fixed amounts and never meet the minter's decoder; the minter's tests decode recorded logs",
     ["evm_helper_contract/src/Deposit.sol", M + "deposit_logs/parser.rs", M + "deposit_logs/scraping.rs"], [("deposit function", "evm_helper_contract/src/Deposit.sol deposit"), ("log filter", M + "deposit_logs/scraping.rs next_scrape"), ("log decoder", M + "deposit_logs/parser.rs parse_log")],
     "one call; 256-bit amounts; four token accounts, four token answers. The contract is executed from its Solidity source by an interpreter of our own (sol.rs); tokens are assumed to move exactly the amount they report as moved")
prop("P34", "Everything in circulation is backed",
     "At every moment, for the native coin and for every token: what circulates on its ledger (users' balances and collected fees), plus what is still owed (deposits waiting to be minted, withdrawals whose transaction has not been mined, refunds not yet paid), never exceeds what the minter's address holds on the chain. This holds whichever calls to ledgers, providers or signing service fail or trap.",
     ["histories", "fault_sequences", "crash_points"], "for all deposited and withdrawn amounts, fees and gas prices, whether each transaction succeeds, fails or is replaced, and all positions and kinds of a failing call",
     "no test follows coins from deposit to withdrawal and refund; losses appear only when the books of ledgers, minter and chain are compared under failures",
     [M + "deposit.rs", M + "main.rs", M + "withdraw.rs", M + "state/transactions/mod.rs", M + "ledger_client.rs"], [("minting", M + "deposit.rs mint"), ("withdrawal endpoints", M + "main.rs withdraw_native_token, withdraw_erc20"), ("pipeline and refunds", M + "withdraw.rs"), ("amounts of transactions and refunds", M + "state/transactions/mod.rs")],
     "a native and a token deposit and one withdrawal by one user, at most one failing call (two thorough); amounts and price 128 bit, fees 64 bit; gas used is 21 000, 40 000 or 65 000")

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    m = {
        "version": 1, "setup_cmd": "python3 bin/setup.py",
        "checks": [{"property": p["id"], "quick_cmd": "python3 bin/check.py %s quick" % p["id"], "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
                    "technique": T_SYM, "level": "model_checking", "level_note": "Bounded: " + note + ". Trusts the simulated system API and ledger/RPC models, the stand-ins for the dfinity/ic crates, and z3/cvc5."} for p, note in P],
        "not_applicable": [{"property": a, "reason": b} for a, b in NA],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design()


def design():
    """Tables of DESIGN.md, from the harness binary (if built) and seeded/."""
    import glob, re, subprocess
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()

    def put(mark, lines):
        nonlocal s
        s = re.sub("<!--%s-->.*<!--/%s-->" % (mark, mark), lambda _: "<!--%s-->\n%s\n<!--/%s-->" % (mark, "\n".join(lines), mark), s, flags=re.S)
    b = os.path.join(HERE, "build/sym/target/debug/harness")
    if os.path.exists(b):
        hs = json.loads(subprocess.run([b, "list"], stdout=subprocess.PIPE, text=True, env=dict(os.environ, Ankr_Api_Key="x", Llama_Api_Key="y")).stdout)
        put("harnesses", ["| harness | properties | tier | bounds |", "|---|---|---|---|"] + ["| %s | %s | %s | %s |" % (h["name"], " ".join(h["props"]), h["tier"], h["bounds"]) for h in hs])
    rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
        m = json.load(open(f))
        rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m.get("caught_by", "?")))
    put("seeds", rows)
    open(path, "w").write(s)


main()
