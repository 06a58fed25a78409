#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Constant-product quotes never let a trader extract value from the pool",
  "For a market priced by its reserves, every quote (how much comes out for an amount in, or must go in for an amount out, and the spot price) stays within the pricing precision (one hundred-millionth of the reserve, plus a few units) of the exact constant-product result, always leaves the pool a strictly positive reserve on the side that pays out, and beyond that rounding never leaves the product of the reserves smaller than before. A larger amount never gets a smaller counter-amount, and zero or too-large amounts and zero reserves are refused with an error rather than quoted.",
  ["inputs"], "every pair of reserves and every amount up to the money supply of an asset, in both directions, with and without fees",
  "balanced_reserves_test.go samples a dozen hand-written reserves/amounts; the guarantee quantifies over a 3-dimensional 50-bit input space where rounding and truncation decide.",
  ["pkg/marketmaking/formula/balanced_reserves.go", "pkg/marketmaking/strategy.go", "pkg/mathutil/math.go"],
  [("BalancedReserves.OutGivenIn / InGivenOut / SpotPrice", "pkg/marketmaking/formula/balanced_reserves.go"), ("big-decimal arithmetic", "pkg/mathutil/math.go")],
  ["return values of the formula API"])

p("C02", "Operator-priced markets quote exactly price times amount",
  "For a market whose price is set by the operator, a quote is the amount multiplied by the price for the given direction and asset, within one unit, using the last base and quote prices set; it never exceeds the balance of the asset paid out. Quotes for zero amounts, or amounts the balance cannot cover, are refused with an error.",
  ["inputs"], "every operator price pair, balance, direction, asset and amount",
  "The existing tests evaluate two or three price/amount pairs.",
  ["internal/core/domain/pluggable_strategy.go", "internal/core/domain/market_service.go"],
  [("pluggable strategy formula", "internal/core/domain/pluggable_strategy.go"), ("Market.Preview", "internal/core/domain/market_service.go")],
  ["market preview result"])

p("C03", "Every quote charges the market's fees exactly once, never against the market",
  "A market quote equals the fee-less quote of its pricing strategy, made worse for the trader by exactly the market's percentage fee and the fixed fee of the asset being quoted, each applied once (added to what the trader sends, subtracted from what the trader receives). With the same balances a quote with fees is never better for the trader than one without, and a quote whose fixed fee cannot be covered is refused instead of wrapping around or becoming zero.",
  ["inputs", "configurations"], "every strategy, percentage fee, fixed fees, balances, direction, asset and amount",
  "Fee handling is tested for one fee value and two amounts; the direction x asset x strategy x fee matrix over all amounts is not covered.",
  ["internal/core/domain/market_service.go", "pkg/mathutil/math.go", "pkg/marketmaking/formula/balanced_reserves.go"],
  [("Market.Preview", "internal/core/domain/market_service.go"), ("LessFee/PlusFee", "pkg/mathutil/math.go")],
  ["market preview result (asset, amount, price, available balance)"])

p("C04", "A market opens only when funded and priced, and is immutable while open",
  "In every history of operator actions a market can only be opened when it holds its two assets and, if operator-priced, has been priced; fee, fixed fee and strategy changes are accepted only while it is closed and only within their legal ranges, and a refused action leaves the market unchanged. Funding accepts exactly one pair made of the base asset and one quote asset, and switching to operator pricing discards previously set prices.",
  ["histories"], "every sequence of fund, open, close, fee change, fixed-fee change, strategy change, price change",
  "market_service_test.go exercises single transitions from hand-built states, not arbitrary histories.",
  ["internal/core/domain/market_service.go", "internal/core/domain/market_model.go", "internal/core/domain/errors.go"],
  [("Market state checks", "internal/core/domain/market_service.go"), ("NewMarket validation", "internal/core/domain/market_model.go")],
  ["market entity after each action"])

p("C05", "A trade only moves forward through its lifecycle and keeps its evidence",
  "In every history of propose, accept, complete, settle, fail and expire requests, a trade only takes legal transitions (proposal, accepted, completed, settled, with failure recorded at the stage it happened and expiry only after the deadline of an accepted trade), repeating a past step changes nothing, and a refused or illegal step leaves no trace other than marking failure. The identifiers and messages of request, accept, complete and fail stay those of the step that produced them, each reply referring to the message it answers, and settling clears the deadline and records the block time.",
  ["histories", "inputs"], "every sequence of lifecycle calls, valid or invalid messages, deadlines past or future",
  "Existing tests drive each method once from a prepared state with mocked messages.",
  ["internal/core/domain/trade_service.go", "internal/core/domain/trade_model.go", "pkg/swap"],
  [("Trade methods", "internal/core/domain/trade_service.go"), ("swap parser", "internal/core/domain/trade_model.go")],
  ["trade entity after each step"])

p("C06", "A proposal is accepted only at the market's own terms",
  "The daemon accepts a trade proposal only if the market exists and is open, the two assets proposed are exactly that market's pair in the direction of the trade, and the amounts match the market's current quote within the configured slippage; any other proposal is refused or answered with a failure, and then no funds are reserved and no signature is given.",
  ["inputs", "histories", "configurations"], "every proposal (assets, amounts, direction, transaction) against every market configuration, balance and slippage",
  "Tests accept four well-formed proposals with a mocked transaction builder; none proposes a wrong asset, price or direction.",
  ["internal/core/application/trade_service.go", "internal/core/domain/market_service.go", "internal/interfaces/grpc/handler/trade.go"],
  [("TradePropose price and pair validation", "internal/core/application/trade_service.go"), ("trade repository", "internal/core/domain/trade_repository.go")],
  ["swap accept / swap fail reply", "stored trade", "unspent locks"])

p("C07", "An accepted swap transaction pays the market exactly what was agreed",
  "Whenever a proposal is accepted, the returned transaction keeps all of the trader's inputs and outputs, adds only inputs owned by the market and fee accounts, pays the market exactly the proposed amount on a market-owned address, returns every remaining unit of the added inputs to market and fee addresses except the agreed amount and the network fee, and carries valid signatures for the daemon's inputs only.",
  ["inputs"], "every market and fee utxo set, trader transaction, direction, amounts and wallet history",
  "The proposal filler is mocked in the application tests; only pkg-level pieces are exercised, with fixed fixtures.",
  ["internal/core/application/trade_service.go", "pkg/wallet/transaction.go", "pkg/wallet/blind.go", "pkg/wallet/sign.go"],
  [("fillProposal", "internal/core/application/trade_service.go"), ("Wallet.UpdateSwapTx/BlindSwapTransaction/SignTransaction", "pkg/wallet")],
  ["transaction in the swap accept"])

p("C08", "No two pending trades share a wallet input, and dead trades release theirs",
  "At any time every wallet output spent by the transaction of an accepted, not yet failed, expired or settled trade is reserved, is never selected for another trade or withdrawal, and reservations are held for exactly those trades. When a trade fails or expires its reservations are released and the outputs are spendable again; a refused or failed attempt never releases another trade's reservations, and what a completed trade spends never becomes available again.",
  ["histories", "schedules"], "every interleaving of proposals, completions, failures and withdrawals on shared accounts",
  "Concurrent proposals are never tested with real selection; tests use a fixed pre-assigned selection per trade.",
  ["internal/core/application/trade_service.go", "internal/core/application/wallet_service.go", "internal/infrastructure/storage/db/badger/unspent_repository_impl.go", "internal/core/domain/unspent_service.go"],
  [("LockUnspents / UnlockUnspents", "internal/infrastructure/storage/db/badger/unspent_repository_impl.go"), ("unlockUnspentsForTrade", "internal/core/application/trade_service.go")],
  ["inputs of accepted transactions", "lock state in the unspent repository"])

p("C09", "Completing a trade broadcasts only the transaction that was agreed",
  "A completion is honoured only for a known, accepted and unexpired trade, and only if the transaction handed in is fully signed and spends and creates what the accepted one does; only then is it broadcast and the trade stored as completed with the transaction id of the broadcast, and completing again changes nothing. Any other completion is refused, nothing is broadcast, and the trade does not become completed.",
  ["inputs", "histories", "fault_sequences"], "every mutation of the accepted transaction (dropped, swapped or altered inputs, outputs, signatures), every accept id, repeated completions, broadcast failures",
  "The tests complete with the unchanged transaction through mocked parsers.",
  ["internal/core/application/trade_service.go", "internal/core/domain/trade_service.go", "pkg/swap/complete.go"],
  [("TradeComplete", "internal/core/application/trade_service.go"), ("swap.Complete", "pkg/swap/complete.go")],
  ["explorer broadcast calls", "stored trade"])

p("C10", "Swap messages round-trip and are refused unless the transaction backs them",
  "Swap request, accept and complete messages carry unaltered the assets, amounts, transaction and keys they were built from, each message refers to the one it answers, and a message is built or accepted only if the transaction's inputs cover the amount sent and its outputs contain the amount received in the right assets. A swap failure carries its code, text and the id of the message it answers.",
  ["inputs"], "every swap transaction shape (confidential or not), asset and amount, and every malformed message",
  "Fixtures with one shape are used; wrong amounts or assets in outputs are barely covered.",
  ["pkg/swap/request.go", "pkg/swap/accept.go", "pkg/swap/complete.go", "pkg/swap/swap.go", "pkg/swap/fail.go"],
  [("checkTxAndBlindKeys / compareMessages", "pkg/swap/swap.go")],
  ["serialized messages", "returned errors"])

p("C11", "Wallet addresses are sequential, never reused and recoverable from the seed",
  "Every new address of an account is different from every address ever handed out by any account, comes from the next unused index of its chain, belongs to the account it was derived for, and is reproduced identically by any wallet created from the same mnemonic. The list of derived addresses of an account is exactly the addresses handed out, with their right blinding keys, scripts and paths.",
  ["histories", "inputs"], "every mnemonic, account number, interleaving of internal and external derivations over accounts, lock/unlock",
  "Tests derive a handful of addresses of two accounts.",
  ["internal/core/domain/vault_service.go", "internal/core/domain/vault_model.go", "pkg/wallet/keys.go"],
  [("Vault derive methods", "internal/core/domain/vault_service.go"), ("DeriveConfidentialAddress", "pkg/wallet/keys.go")],
  ["addresses returned", "AllDerivedAddresses"])

p("C12", "A locked wallet does nothing and only the right passphrase opens it",
  "In every history of init, unlock, lock and passphrase change, the seed is available exactly while the wallet is unlocked: operations needing it fail while locked, unlock and passphrase change succeed only with the current passphrase, a refused attempt changes nothing, and after a change only the new passphrase works. The stored vault never contains the mnemonic or passphrase in clear.",
  ["histories", "inputs"], "every sequence of wallet security operations and passphrases",
  "Existing tests mock the encrypter and check single transitions.",
  ["internal/core/domain/vault_service.go", "internal/core/application/wallet_service.go", "pkg/wallet/cypher.go"],
  [("Vault Lock/Unlock/ChangePassphrase", "internal/core/domain/vault_service.go")],
  ["errors and results of wallet operations", "stored vault bytes"])

p("C13", "Seed encryption round-trips, and tampering or a wrong passphrase never decrypts",
  "Encrypting any non-empty text with any non-empty passphrase and decrypting with the same passphrase gives the text back; a different passphrase or any altered, truncated or malformed cipher text is refused with an error. Two encryptions of the same text differ and never contain it.",
  ["inputs"], "every plain text, passphrase, and bit-level corruption of the cipher text",
  "One text and passphrase are tested.",
  ["pkg/wallet/cypher.go"], [("Encrypt/Decrypt", "pkg/wallet/cypher.go")], ["return values"])

p("C14", "Derived keys, blinding and signatures are mutually consistent",
  "For every mnemonic and path: path text round-trips, the address, script, public key and blinding key derived belong together, blinding a transaction hides every requested output such that its owner (and no other key) recovers the exact asset and amount and the amounts still balance, and a signature made for an input verifies against that input and final transaction. Fee estimates are never below what the real size of the signed transaction requires.",
  ["inputs"], "every mnemonic, derivation path, amount, asset, number of inputs and outputs",
  "Fixture tests use one mnemonic and one transaction each.",
  ["pkg/wallet/keys.go", "pkg/wallet/blind.go", "pkg/wallet/sign.go", "pkg/wallet/estimation.go", "pkg/wallet/derivation_path.go", "pkg/transactionutil/transactionutil.go", "pkg/bufferutil"],
  [("wallet key derivation, blinding, signing", "pkg/wallet"), ("UnblindOutput", "pkg/transactionutil/transactionutil.go")],
  ["return values and transactions"])

p("C15", "Withdrawals and sends conserve value and touch only the funds they may",
  "A withdrawal, send or market/fee withdrawal spends only unlocked outputs of the account it is for (plus the fee account for the network fee), pays each recipient exactly the requested amount and asset, returns all the remainder to addresses of the same accounts, and pays a network fee no lower than the requested rate and no unreasonable excess. Requests beyond the available balance are refused and then nothing is broadcast or reserved.",
  ["inputs", "histories"], "every utxo set, list of recipients, amounts and fee rate",
  "The application-level flow has no tests; the wallet library is tested with three fixtures.",
  ["internal/core/application/wallet_service.go", "internal/core/application/operator_service.go", "pkg/wallet/transaction.go"],
  [("SendToMany / withdraw flows", "internal/core/application"), ("Wallet.UpdateTx", "pkg/wallet/transaction.go")],
  ["broadcast transaction", "unspent and vault repositories"])

p("C16", "Coin selection covers the target with distinct coins of the asked asset",
  "Selecting coins returns distinct coins from the given list, all of the asked asset, whose total reaches the target, with change equal to the total minus the target; it fails exactly when all coins of that asset together are not enough. The result depends only on the arguments, also when many selections run at the same time.",
  ["inputs", "schedules"], "every list of utxos, target and asset, sequentially and concurrently",
  "coinselection_test.go has a handful of fixed lists and no concurrency.",
  ["pkg/explorer/coinselection.go"], [("SelectUnspents", "pkg/explorer/coinselection.go")], ["return values"])

p("C17", "The unspent store reflects exactly the operations applied to it",
  "In every history of adding, confirming, spending, locking and unlocking outputs, the stored set equals that of a simple reference: re-adding is harmless, spent outputs never return to spendable, locking and unlocking affect only the named outputs, and every query (all, available, unlocked, by address, by key, balances, locked and unlocked balances) returns precisely the matching outputs with unaltered contents.",
  ["histories", "inputs"], "every sequence of store operations over many outputs, addresses, assets, also inside transactions",
  "Tests call each operation once on a fixed fixture of a few outputs.",
  ["internal/infrastructure/storage/db/badger/unspent_repository_impl.go", "internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go", "internal/core/domain/unspent_service.go"],
  [("unspent repository", "internal/infrastructure/storage/db")], ["repository query results"])

p("C18", "The market store keeps every market, its prices and its state as last written",
  "In every history of creating, updating, pricing, opening, closing and deleting markets, lookups by account, by quote asset, of tradable or of all markets return exactly the markets last written with their latest prices, at most one market exists per quote asset and per account, and new markets never reuse the account of another one. A refused update leaves the stored market as it was.",
  ["histories", "inputs"], "every sequence of market store operations, failing update functions included",
  "Tests run each operation once on fixed markets.",
  ["internal/infrastructure/storage/db/badger/market_repository_impl.go", "internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go"],
  [("market repository", "internal/infrastructure/storage/db")], ["repository query results"])

p("C19", "Trade and vault stores return what was last written, found by every key",
  "In every history of creating and updating trades, each trade is found unaltered by its id, its transaction id, its swap-accept id and its market, and the completed and pending listings contain exactly the trades in those states. The vault read back equals the one last written, and finding an account by address or index agrees with it.",
  ["histories", "inputs"], "every sequence of trade and vault store operations",
  "Tests store one or two trades and query each way once.",
  ["internal/infrastructure/storage/db/badger/trade_repository_impl.go", "internal/infrastructure/storage/db/badger/vault_repository_impl.go", "internal/infrastructure/storage/db/inmemory"],
  [("trade and vault repositories", "internal/infrastructure/storage/db")], ["repository query results"])

p("C20", "Database transactions are all-or-nothing and committed data survives restart",
  "Work done in a database transaction becomes visible entirely when it ends without error and not at all when it fails or is discarded, concurrent transactions behave as if run one after the other with no lost update, and everything committed to markets, prices, trades and vault is found again, unaltered, after the daemon is stopped or killed and restarted on the same data directory.",
  ["histories", "schedules", "crash_points", "fault_sequences"], "every sequence of transactions with failures at any step, concurrent writers, restarts",
  "No test fails midway, runs concurrent transactions, or reopens a data directory.",
  ["internal/infrastructure/storage/db/badger/db_manager.go", "internal/infrastructure/storage/db/uow/unit_of_work.go", "internal/infrastructure/storage/db/inmemory/db_manager.go"],
  [("RunTransaction", "internal/infrastructure/storage/db/badger/db_manager.go"), ("UnitOfWork.Run", "internal/infrastructure/storage/db/uow/unit_of_work.go")],
  ["repository contents after commit, failure and reopen"])

p("C21", "Reported balances and listings are exactly the wallet's confirmed outputs",
  "The balance of the wallet, fee account and each market equals, per asset, the sum of the unspent outputs known to belong to that account: confirmed ones for market and fee balances, and not reserved ones where the available amount is reported. Listing outputs partitions those of each account without loss or duplication into spent, unspent and locked. Markets, the addresses handed out for them and the trades are each listed exactly once, with their real terms, status and times.",
  ["histories", "inputs"], "every set of outputs over accounts, assets, confirmation, lock and spent states",
  "Balance reporting is asserted only to be positive.",
  ["internal/core/application/operator_service.go", "internal/core/application/wallet_service.go", "internal/core/application/trade_service.go"],
  [("WalletBalance, FeeAccountBalance, ListMarket, GetMarketBalance, ListUtxos", "internal/core/application")],
  ["service replies"])

p("C22", "Deposits are credited only if confirmed, owned by the account and exact",
  "Claiming a deposit credits the account with exactly the outputs of the given outpoints, with their real asset and amount, and only if all of them exist, are confirmed and pay an address of that account; otherwise it is refused and nothing is credited. A market becomes funded only by deposits of exactly one base and one quote asset, and claiming twice does not count twice.",
  ["inputs", "histories", "fault_sequences"], "every set of outpoints (foreign, unconfirmed, missing, duplicated, negative or out of range index), confidential or not",
  "One successful claim is tested with mocked unblinding.",
  ["internal/core/application/operator_service.go", "internal/core/domain/market_service.go", "pkg/transactionutil/transactionutil.go"],
  [("ClaimMarketDeposit / ClaimFeeDeposit / claimDeposit", "internal/core/application/operator_service.go")],
  ["service reply", "unspent and market repositories"])

p("C23", "The wallet's view converges to the chain for every order of blockchain events",
  "Whatever the order, delay and repetition of confirmation events, reloads and restarts, the outputs the wallet holds are ones the chain assigns to its addresses, never confirmed or spent unless the chain says so. Once the confirmations of the transactions it watches (trades, its own sends, unconfirmed outputs it knows of) are delivered, or its outputs reloaded, they are exactly the chain's, confirmation and spent state included. A trade whose transaction confirms while watched becomes settled, once, with that block's time, restarts included.",
  ["histories", "schedules"], "every sequence of confirmation events (out of order, late, repeated, of foreign transactions), with trades, sends, withdrawals, transactions broadcast by traders on their own, expirations, reloads and restarts in between",
  "The listener has no test of its own.",
  ["internal/core/application/blockchain_listener.go", "internal/core/application/types.go"],
  [("blockchain listener event handling", "internal/core/application/blockchain_listener.go"), ("ExtractUnspents", "internal/core/application/types.go")],
  ["unspent and trade repositories"])

p("C24", "Restoring from the seed finds every used address within the gap and its funds",
  "Initialising a wallet in restore mode on a chain where its seed was used recovers the wallet account, the fee account and every market account up to the first never used: all their addresses up to the last used one (as long as no gap of unused addresses reaches the limit), all the unspent outputs of the fee and market accounts and the balance of the wallet account, exactly, and continues handing out fresh addresses after them. A restore that fails leaves no trace and can be retried, and without restore the wallet starts empty.",
  ["inputs", "histories"], "every pattern of used addresses over accounts and chains, within and around the gap limit",
  "One pattern (two used addresses) is tested and only the number of replies is checked.",
  ["internal/core/application/wallet_service.go", "internal/core/domain/vault_model.go"],
  [("restore flow", "internal/core/application/wallet_service.go")], ["vault and unspent repositories after init"])

p("C25", "The encrypted key-value store keeps what was put, for the right password only",
  "In every history of bucket creation, writes, removals, lock, unlock, password change and reopening, the store returns exactly the values last written under each bucket and key, opens only with the current password, refuses everything while locked, and never writes values in clear when encrypted. A password change keeps all contents whatever the bucket and key names, and is all-or-nothing.",
  ["histories", "inputs", "crash_points"], "every sequence of operations over arbitrary binary bucket names, keys and values, with reopen",
  "Tests use fixed names and one value.",
  ["pkg/securestore/bolt/store.go", "pkg/securestore/store.go"],
  [("secure bolt store", "pkg/securestore/bolt/store.go")], ["values read back", "database file bytes"])

p("C26", "A macaroon grants exactly the permissions it was baked with",
  "A request is authorised if and only if its macaroon was minted by this service, is unaltered, carries every permission the called method needs, and all its caveats (expiry, address) hold; adding a caveat never widens access. Macaroons stay valid across lock, unlock, restart and password change, while the key store refuses to work when locked or given a wrong password.",
  ["inputs", "histories"], "every permission set, required operations, caveats, tampering of serialized bytes, and sequences of lock/unlock/password change",
  "Tests bake one macaroon and check one allowed and one denied method.",
  ["pkg/macaroons/service.go", "pkg/macaroons/store.go", "pkg/macaroons/constraints.go"],
  [("Service.ValidateMacaroon / NewMacaroon", "pkg/macaroons/service.go"), ("root key store", "pkg/macaroons/store.go")],
  ["validation result"])

p("C27", "Every remote call is authorised by exactly the macaroons meant for it",
  "With authentication on, every operator and wallet call needs a valid macaroon of this daemon: the admin one opens every call, the read-only one exactly those that only report, the market one those on markets, their fee account and prices, and the price, wallet and webhook ones only those of their own area; only the trading calls and the wallet bootstrap (seed, init, unlock, change password) are open. This holds over gRPC and gRPC-web, before initialisation, after restart (nothing until unlocked) and after a password change, and a daemon that cannot use its key store does not serve protected calls.",
  ["inputs", "configurations"], "every exposed method x every predefined macaroon, none, malformed and altered ones, unary and streaming",
  "Nothing tests the permission tables or the interceptors.",
  ["internal/interfaces/grpc/permissions/permissions.go", "internal/interfaces/grpc/interceptor/auth.go", "internal/interfaces/grpc/service.go", "internal/interfaces/grpc/macaroon_utils.go"],
  [("permission tables", "internal/interfaces/grpc/permissions/permissions.go"), ("auth interceptors", "internal/interfaces/grpc/interceptor/auth.go")],
  ["gRPC status of the call"])

p("C28", "Every event reaches every webhook registered for it, exactly once, signed",
  "In every history of adding and removing webhooks, publishing an event delivers its message exactly once for each webhook registered for that event or for all events and for no other, with a bearer token verifiable with the webhook's secret when it has one, whatever other endpoints do. Listing returns exactly the registered webhooks, removal is final, a registration refused leaves nothing, and registrations survive unlock, password change and restart; the settlement of a trade and a withdrawal are events published once each, with their transaction, market and amounts.",
  ["histories", "schedules"], "every sequence (also concurrent) of subscribe, unsubscribe, publish, lock, unlock and reopen",
  "One hook per action is tested with one publish.",
  ["internal/infrastructure/pubsub/webhook/service.go", "internal/infrastructure/pubsub/webhook/types.go", "internal/infrastructure/pubsub/webhook/store.go"],
  [("webhook service", "internal/infrastructure/pubsub/webhook/service.go")], ["HTTP requests received by endpoints"])

p("C29", "Explorer clients report chain data exactly and surface every failure",
  "For any chain state served by an Esplora or Elements backend, the outputs reported for an address have exactly the on-chain transaction id, index, amount, asset and confirmation state (unblinded with the right key when confidential), transaction and status lookups agree with the backend, and a backend failure or malformed reply becomes an error, never a crash or an invented result.",
  ["inputs", "fault_sequences"], "every set of outputs and amounts up to the money supply, confidential or not, and faulty backend replies",
  "The existing tests need a live node and are skipped or failing offline.",
  ["pkg/explorer/esplora", "pkg/explorer/elements"],
  [("esplora client", "pkg/explorer/esplora"), ("elements client", "pkg/explorer/elements")], ["values returned by the explorer service"])

p("C30", "The crawler reports every observed address and transaction until told to stop",
  "Every observed address or transaction keeps being checked and each of its chain states is reported with the data of that very observable; adding the same one twice does not duplicate its reports, after removal no new report of it is produced, and stopping ends everything without deadlock. Failures of the backend are reported as errors and never stop the observation.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of adding, removing, backend states and failures, stop",
  "Tests add three observables with a mocked explorer and check that something arrives.",
  ["pkg/crawler/service.go", "pkg/crawler/observable.go"],
  [("crawler service", "pkg/crawler/service.go")], ["event channel"])

p("C31", "The trader library builds swaps for exactly the previewed amounts",
  "For every market reply and order, the trading library proposes assets and amounts that match direction and preview, the transaction it builds spends only the trader's coins, includes the exact amount received and returns the exact change, and completing it signs only the trader's inputs without altering the accepted transaction. Orders that cannot be funded are refused.",
  ["inputs"], "every order (type, asset, amount), preview reply and trader utxo set",
  "Only option validation and network-dependent flows are tested.",
  ["pkg/trade/preview.go", "pkg/trade/buy.go", "pkg/trade/sell.go", "pkg/trade/wallet.go"],
  [("Trade buy/sell", "pkg/trade")], ["requests received by a fake daemon"])

p("C32", "The fee report adds up exactly the fees of completed trades",
  "The collected-fee report of a market lists one entry per completed trade of that market, in the fee asset of that trade's direction, each with the percentage fee of the trade's own terms and equal to that percentage of the amount the trader paid in, and the totals per asset are exactly the sums of the entries. Trades of other markets, or not completed, never count.",
  ["histories", "inputs"], "every set of trades over markets, statuses, fees, directions and amounts",
  "No test covers the report.",
  ["internal/core/application/operator_service.go"], [("GetCollectedMarketFee", "internal/core/application/operator_service.go")], ["service reply"])

p("C33", "Fragmenting a deposit splits it without losing or creating funds",
  "Splitting an operator deposit with the CLI (fragmentmarket, fragmentfee) broadcasts at most one transaction, valid and confidential, that pays only addresses given by the daemon and whose outputs add up, per asset, to exactly the deposit minus the network fee. Every fragment is positive, their number and sizes follow the documented scheme (11 by percentage, or 5000 each up to 150, rest and fee on the largest), and a deposit too small is refused or split otherwise, one above the documented minimum never. What is claimed is what was sent, to the market funded; a failed, interrupted or resumed run neither crashes nor changes the deposit address, whose key is kept as long as it holds coins.",
  ["inputs", "fault_sequences", "crash_points"], "every deposit amount, coins, asset pair, number of addresses and fee; failures of explorer and daemon; interruptions",
  "Two fixed deposits are tested.",
  ["cmd/tdex/fragmentmarket.go", "cmd/tdex/fragmentfee.go"], [("fragment functions", "cmd/tdex")], ["fragments and outputs produced"])

p("C34", "No remote request crashes or hangs the daemon, nor acts when refused",
  "Every request to the Operator, Wallet and Trade interfaces, however malformed (missing or nil fields, wrong assets, numbers out of range, garbage transactions, addresses or keys), in every state of the wallet and also if the client leaves, gets a reply that can be encoded or an error: it never crashes the daemon, nor waits forever. One refused for what it asks (rather than because explorer or storage fail) leaves keys, coins and their reservations, markets, trades, webhooks and what is broadcast unchanged, except that a refused proposal or completion may record the failure of its trade and release its coins; the methods that read change nothing either way.",
  ["inputs", "histories"], "every operator, wallet and trade request message with arbitrary field contents, in every wallet state",
  "Handlers have no tests.",
  ["internal/interfaces/grpc/handler/operator.go", "internal/interfaces/grpc/handler/wallet.go", "internal/interfaces/grpc/handler/trade.go", "internal/interfaces/grpc/interceptor/interceptor.go", "internal/core/application/validators.go"],
  [("request validation", "internal/interfaces/grpc/handler"), ("application services", "internal/core/application")], ["gRPC replies", "repositories", "interceptors"])


with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
