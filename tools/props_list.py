prop("C01", "Only the exchange's authority can change or empty the component stores",
     "Every method that changes state or moves assets in the account, pool, config, oracle, fee, referral and permission "
     "components is callable only by the protocol authority, the component owner, or the role named for it, and nobody can "
     "reassign the protocol authority's role. Methods open to everyone never change state or move assets. "
     "Trading accounts can only be created by the protocol authority and belong to it for ever.",
     ["programs", "inputs"], "every transaction any caller can build against any component, with any proofs",
     "tests only call through the exchange with the right badges; no test tries a method of a peripheral component without "
     "them, so a widened rule is invisible",
     [MA, MP, CF, OR, "fee_distributor/src/fee_distributor.rs", "fee_delegator/src/fee_delegator.rs",
      "permission_registry/src/permission_registry.rs", "referral_generator/src/referral_generator.rs",
      "token_wrapper/src/token_wrapper.rs", "env_registry/src/env_registry.rs", "faucet/src/lib.rs"],
     [("enable_method_auth!", "every blueprint module"), ("enable_function_auth!", MA), ("roles!/globalize", "new() of every blueprint")])

prop("C02", "Each exchange method is open only to the role assigned to it",
     "Administrative, treasury, referral, user and keeper operations of the exchange are each callable only by the role "
     "published for them; owner operations only by the owner. Admin and keeper roles can be reassigned only by the owner, user "
     "roles only by the owner or user admin; admin roles start with the owner and user and keeper roles start open. "
     "Query methods have no effect.",
     ["programs", "inputs"], "every caller and every combination of presented badges",
     "tests run with an owner badge and default roles; none checks that a method refuses other callers",
     [X], [("enable_method_auth!", X), ("roles! in new", X)])

prop("C03", "Account operations need the account owner's rule of the right level",
     "Every operation that submits, cancels or changes anything on a user's trading account succeeds only if the caller "
     "satisfies that same account's current access rule: level 1 for changing access, level 2 for withdrawals, level 3 for "
     "deposits and trading. Access rules change only through the access operations, on that account and level, and become "
     "exactly the given rule (or the old rule extended by the given one).",
     ["inputs", "programs"], "every account, caller, argument and path to success of the ten account operations",
     "tests create accounts with a permissive rule, so a missing or weaker check never fails one",
     [X, VA], [("verify_level_N_auth", VA), ("_set_level_N_auth", X)])

prop("C04", "The authority badge is used only on trusted components and never leaks",
     "While the exchange shows its authority badge it calls only the protocol's own components, trading accounts verified to be "
     "of the account blueprint, and genuine Radix accounts as payout targets. The proof it shows is of the smallest amount, and "
     "badges leave its vault only through the owner's withdrawal.",
     ["programs", "inputs"], "every entry point and every component address a caller can supply",
     "a confused-deputy call needs a hostile component that no test deploys",
     [X, VA, VC, VP, VO], [("authorize!", X), ("Global::<MarginAccount>::try_from", VA)])

prop("C05", "A request is executed at most once, only when due, valid and active",
     "A keeper can process a request only if it exists, was not invalidated by a liquidation, its submission time has passed "
     "and, until it expires, it is active. Processing always ends the request: expired if past its expiry, otherwise executed, "
     "and it leaves the active set. An executed order additionally activates exactly its dormant linked requests and cancels "
     "exactly its still open ones, an expired one changes nothing else.",
     ["inputs", "histories"], "every request, its status and times, every pair of linked-request lists up to two entries, any account",
     "tests process a handful of fresh requests in order; status, expiry and linked-list combinations are not sampled",
     [X, VA], [("process_request", X), ("process_request/set_request_status", VA)])

prop("C06", "Submitted requests record exactly what was asked and stay within limits",
     "Submitting a withdrawal or an order appends one request holding exactly the caller's parameters, submission and expiry "
     "times counted from now, and linked requests named absolutely or relative to the new one, and nothing else changes. "
     "Orders below the pair's minimum size, lists of more than two linked requests or ten claims, and submissions beyond the "
     "active-request limit are refused.",
     ["inputs"], "all argument values, clock values and account states of the submission operations, with or without a fee oath",
     "tests submit a few well-formed requests; times and limits are not explored over their range",
     [X, VA], [("margin_order_request", X), ("remove_collateral_request", X), ("push_request", VA)])

prop("C07", "Cancelling touches only open requests; linked exits mirror their order",
     "The owner's cancellation marks exactly the named requests cancelled, only if active or dormant, and moves nothing else. "
     "An order with take-profit and stop-loss submits dormant reduce-only opposite orders of the same size, triggered on the "
     "correct side, which the main order activates and which cancel each other. No other operation edits request records.",
     ["inputs", "programs"], "every combination of legs, side, status and index lists up to two entries; every mutating entry point",
     "tests check one or two linked-order shapes",
     [X, VA], [("margin_order_tp_sl_request", X), ("cancel_requests", X), ("cancel_request", VA)])

prop("C08", "The trading-account store applies exactly the requested change",
     "Updating an account changes exactly the named positions, collateral balances, requests and counters, appends new requests "
     "in order, and keeps the active-request set in step. Deposits credit the token's own vault by exactly the amount deposited, "
     "withdrawals return exactly the rounded amounts of the tokens asked. Reads return exactly what is stored.",
     ["inputs", "histories"], "every store state and argument; collections of zero to two entries with equal and distinct keys",
     "tests only look at the account through the exchange after a few operations",
     [MA, "common/src/list.rs", "common/src/vaults.rs"], [("update", MA), ("deposit_collateral_batch", MA), ("withdraw_collateral_batch", MA)])

prop("C09", "The pool store applies exactly the requested change",
     "A new pool is empty; updating it sets exactly the given totals and the named pair positions. Deposits and withdrawals move exactly the "
     "bucket or rounded amount between caller and the base-token vault. Reads return what is stored, and an unknown pair reads as an empty position.",
     ["inputs", "histories"], "every pool state and argument; update maps of zero to two entries",
     "tests only look at the pool through the exchange after a few operations",
     [MP], [("update", MP), ("deposit", MP), ("withdraw", MP)])

prop("C20", "Oracle prices come only from signed data and never go back in time",
     "Prices enter the oracle only from data signed under a registered key, and a pair's price is replaced only by one with a "
     "newer timestamp. Queries answer exactly the asked pairs with the stored price and time and fail if one is missing. "
     "A registered key is never overwritten and administrative removals remove exactly the named entry.",
     ["inputs", "histories"], "any pushed data, signature, key and oracle state; up to two pushed and two asked pairs, equal or distinct",
     "tests push correctly signed increasing timestamps",
     [OR], [("push_and_get_prices", OR), ("update_prices", OR), ("get_prices", OR)])

prop("C35", "The fee distributor accounts exactly for what it is given",
     "A distribution adds exactly the given amounts to the protocol and treasury balances. Both start at zero; setting a balance "
     "accepts exactly the values that are not negative and sets only that balance; reads return what is stored. No other method changes a balance.",
     ["inputs", "histories"], "every state and argument of the fee distributor",
     "tests distribute fees indirectly and look at one total",
     ["fee_distributor/src/fee_distributor.rs"], [("distribute", "fee_distributor/src/fee_distributor.rs")])

prop("C36", "Shared lists, keyed lists and vault collections behave as specified",
     "Appending, replacing, removing and ranging over the shared stored list, keyed list and vault collections behave as a "
     "sequence, an insertion-ordered map and a token-to-balance map. Removing from a keyed list moves only the last entry. "
     "Out-of-range reads return nothing and never another element.",
     ["inputs", "histories"], "every operation on every list state, with symbolic length and keys; up to two elements in bulk operations",
     "the collections have no tests of their own",
     ["common/src/list.rs", "common/src/hash_list.rs", "common/src/vaults.rs"],
     [("List", "common/src/list.rs"), ("HashList", "common/src/hash_list.rs"), ("Vaults", "common/src/vaults.rs")])

prop("C12", "An executed order moves position and pool aggregates together exactly",
     "Executing an order first closes against an opposite position, never past zero, then opens the remainder unless it is "
     "reduce-only. The pair's open interest and cost change by exactly what the account's position changes, a closed part "
     "takes its proportional cost, and the pool's skew and profit snapshots match the new state at the current price. No other "
     "pair, position or account entry changes.",
     ["inputs"], "every amount, price, position, pool state, configuration and clock with no time elapsed since the pair's last "
     "update; thirteen order shapes (open, add, reduce, flip, exact close, reduce-only) times every branch of the formulas",
     "tests check a few orders at round numbers",
     [X, VA, VP], [("_margin_order", X), ("_open_position", X), ("_close_position", X), ("_update_pair_snaps", X)])

prop("C13", "An executed order settles profit, trading fee and fee shares exactly",
     "The fee of a trade is the linear plus skew-dependent part less the referral rebate, never negative and never above the "
     "maximum share of the traded value; opening adds it to the position's cost, closing deducts it from the paid profit. "
     "The profit moves from pool to account one to one; protocol, treasury and the account's referral receive exactly their "
     "configured shares of the fee and the pool keeps the rest.",
     ["inputs"], "every amount, price, position, pool state, fee setting and referral; thirteen order shapes with and without a "
     "referral times every branch of the fee formula",
     "tests check a few orders at round numbers, mostly where the fee is neither capped nor negative",
     [X, VA, VP], [("_calculate_fee", X), ("_settle_fees_referral", X), ("_close_position", X), ("reward_referral", VA)])

RG = "referral_generator/src/referral_generator.rs"

prop("C14", "An order that opens leaves the account above the initial margin",
     "An executed order that opens or adds to a position succeeds only if afterwards the account value, with every position "
     "valued at the current price less its closing fee and collateral at its discounted price, covers the initial margin of "
     "all its positions. The margins are each position's own pair's.",
     ["inputs"], "every amount, price, fee setting and state, for the six opening order shapes, alone or with another position "
     "(long or short) and with up to two collateral tokens, configured or not, with and without a referral",
     "tests open one or two positions far from the margin",
     [X, VA], [("_assert_account_integrity", X), ("_value_positions", X), ("_value_collateral", X)])

prop("C15", "Liquidation happens only below maintenance margin and settles everything",
     "An account can be liquidated only when its value is below its maintenance margin. All its positions are then closed at "
     "the current price, all configured collateral passes to the liquidator for exactly its discounted value, which the "
     "payment must cover, the rest of the payment is returned, and the account is left with the resulting balance and no "
     "valid earlier request. A remaining loss is borne by the pool exactly.",
     ["inputs"], "every price, amount, fee setting and state, for accounts with up to two positions and two collateral tokens, "
     "configured or not, with and without a referral, times every branch of the valuation formulas; no time elapsed since the "
     "pairs' last update",
     "tests liquidate one account with one position", [X, VA, VP],
     [("liquidate", X), ("_liquidate_positions", X), ("_liquidate_collateral", X)])

prop("C16", "Auto-deleveraging closes only over-profitable positions of a stressed pool",
     "A position can be auto-deleveraged only if the pool's skew ratio is above the configured threshold and the position's "
     "relative profit is at or above the bound derived from that ratio. It is then closed in full at the current price with "
     "the same settlement as an order, and the account's other entries stay as they are.",
     ["inputs"], "every price, amount, fee setting and state with a long, a short, or two positions, with and without a "
     "referral; no time elapsed since the pair's last update",
     "tests deleverage one long position", [X, VA, VP], [("auto_deleverage", X), ("_auto_deleverage", X)])

prop("C17", "No order pushes the pool's skew over the cap",
     "After an executed order the ratio of the pool's skew to its value is below the configured cap, or the order did not "
     "increase the absolute skew. Skew and value include the order's own effect and every pair's snapshot.",
     ["inputs"], "every amount, price and state for thirteen order shapes, with and without a referral",
     "tests trade far from the cap", [X, VP], [("_assert_pool_integrity", X), ("_skew_ratio", X)])

prop("C18", "Open interest and position counts stay within their limits",
     "An order that opens succeeds only if the pair's open interest on that side stays within the pair's maximum and the "
     "account then holds no more than the configured number of positions. The counts are of the state after the order.",
     ["inputs"], "every amount, limit and state for the six opening shapes, alone or with another position",
     "tests never reach the limits", [X, VA], [("_open_position", X), ("_assert_position_limit", X)])

prop("C19", "Price limits, slippage limits and reduce-only bind every execution",
     "An order is executed only when the current price satisfies its price limit and the fee paid satisfies its slippage "
     "limit, whichever of the kinds the trader chose, measured on the whole executed amount. A reduce-only order never "
     "enlarges, opens or flips a position.",
     ["inputs"], "every limit kind, amount, price and state for thirteen order shapes, with and without a referral",
     "tests use loose limits or one that fails clearly", [X], [("_margin_order", X), ("PriceLimit", "exchange/src/exchange/requests.rs"), ("SlippageLimit", "exchange/src/exchange/requests.rs")])

prop("C22", "Liquidity providers pay and receive exactly their share",
     "Adding liquidity issues pool tokens worth the payment less the fee at the pool's current value, counting unrealised "
     "profit and virtual balance; removing burns them and pays their share less the fee, rounded down. The fee is "
     "distributed in the configured shares. A removal leaves the skew cap respected and never pays more tokens than the pool holds.",
     ["inputs", "histories"], "every payment, pool state, fee setting and share; no bound on the number of pairs the snapshots summarise",
     "tests add and remove at a fresh pool whose price is one", [X, VP], [("add_liquidity", X), ("remove_liquidity", X), ("_pool_value", X)])

prop("C23", "Withdrawn collateral is debited in full and leaves enough margin",
     "Executing a withdrawal debits the account's base balance or collateral by exactly the amounts requested, never more "
     "than the tokens the pool or account has, and pays exactly those tokens, rounded down, to the account named in the request. "
     "Afterwards the account still covers its initial margin and nothing else has moved.",
     ["inputs"], "every amount, price and state; zero to three claims, base or collateral, equal or distinct, held or not, "
     "configured or not; no position, a long or a short, with and without a referral",
     "tests withdraw one token from an account without debt", [X, VA, VP], [("_remove_collateral", X), ("_assert_account_integrity", X)])

prop("C24", "Deposited collateral is credited in full and only known tokens are taken",
     "Every base token deposited goes to the pool and is credited one to one, every other token must be a configured "
     "collateral and goes to the account's own vault, within the limit on the number of tokens. If a fee oath is used, it "
     "must be genuine, is burned, its amount is charged to the account, and the account then still covers its initial margin.",
     ["inputs"], "every amount, price and state; zero to three deposited buckets, base or not, known or not; no position, a "
     "long or a short; with and without a fee oath and a referral",
     "tests deposit one or two tokens", [X, VA, VP], [("_add_collateral", X), ("_settle_fee_oath", X)])

prop("C26", "A debt swap exchanges debt for collateral at the discounted price",
     "A debt swap is possible only for an account in debt and a configured collateral token. It pays no more than the "
     "account's debt or the collateral's discounted value, hands over collateral worth exactly what was paid, credits that "
     "to the account and the pool one to one, and returns the rest of the payment.",
     ["inputs"], "every payment, debt, price and state; one or two collateral tokens, held or not, with the same or different price feeds",
     "tests swap one token below its value", [X, VA, VP], [("swap_debt", X), ("_swap_debt", X)])

prop("C27", "Accrued protocol, treasury and delegated fees are paid once and in full",
     "Collecting the protocol, treasury or delegated fees pays exactly the accrued balance, resets it and charges it to the "
     "pool's virtual balance, and never more than the tokens the pool holds. The protocol fee is paid only against burning "
     "the configured number of protocol tokens, and the rest of that payment is returned.",
     ["inputs", "histories"], "every accrued balance, payment and pool state",
     "tests collect once after a small fee", [X, VP], [("swap_protocol_fee", X), ("collect_treasury", X), ("collect_fee_delegator", X)])

prop("C29", "Referral codes and allocations pay exactly once and are always funded",
     "A stored referral code or allocation always has its claims set aside in full: creating one takes claims times uses, "
     "rounded up, from the tokens handed in and returns the rest. A claim pays exactly the code's claims, at most its number "
     "of uses; an allocation yields at most its number of codes; an existing code is never replaced.",
     ["inputs", "histories"], "every stored state, amount and count; zero to two tokens, claims, and codes, equal or distinct",
     "tests claim one code once", [RG], [("add_allocation", RG), ("create_referral_codes", RG), ("claim_referral_code", RG)])

prop("C30", "Referral records change only as authorised and rewards are collected once",
     "A referral is minted and updated with exactly the given settings, its fee shares stay between zero and a tenth, and "
     "its number of referrals counts every code or allocation use and never exceeds its maximum. Only the holder of the "
     "referral's badge can create its codes or collect its rewards; collecting pays exactly the recorded balance and resets it.",
     ["inputs", "histories"], "every argument, referral state and badge; every subset of updated fields; up to two codes",
     "tests mint and collect once", [X], [("mint_referral", X), ("update_referral", X), ("collect_referral_rewards", X)])

prop("C11", "Funding and skew accounting follow the published formula on every update",
     "A due pair update moves the funding rate, funding indexes, pool funding and recorded price and time by exactly the "
     "configured formula for the elapsed time, price and open interest, and an update that is not due changes nothing. Every "
     "order, liquidation and deleveraging first brings its pairs up to date and then settles the position's accrued funding "
     "against the account and the pool.",
     ["inputs", "histories"], "every price, time, open interest, rate and setting; zero to two pairs, distinct or repeated; thirteen "
     "order shapes, liquidation and deleveraging of longs and shorts, with and without elapsed time",
     "tests update one pair once, right after opening", [X, VP], [("_update_pair", X), ("_settle_funding", X)])

prop("C25", "A fee oath is burned and its amount charged to the acting account",
     "In each operation that accepts a fee oath, the oath must be the genuine token, is burned whole, and its amount is charged "
     "to the very account the operation acts on, which must then still cover its initial margin. Without an oath nothing is "
     "burned and the account's balance stays.",
     ["inputs", "programs"], "every amount and state; all eleven operations; no position, a long or a short, with and without a referral",
     "tests never pay a fee with an oath", [X, VA], [("_settle_fee_oath", X), ("_assert_account_integrity", X)])

prop("C28", "Only valid settings are stored, and they are read back unchanged",
     "Exchange, pair and collateral settings are accepted exactly when every value lies within its published limits, replace exactly "
     "the named entries, and are read back with every value as given. Each pair is listed once, in the order of first "
     "configuration; removing a collateral removes only that one.",
     ["inputs", "histories"], "every value of every setting; zero to two entries, distinct or repeated, known or new",
     "tests set one configuration with ordinary values", [CF, "config/src/config/structs.rs", X], [("update_exchange_config", CF), ("update_pair_configs", CF), ("validate", "config/src/config/structs.rs")])

prop("C33", "New accounts get the given access rules and the permission index follows them",
     "A new account starts empty, with the given access rule at its levels, funded exactly with the tokens handed in. The "
     "permission index lists an account under a rule and level exactly when that rule, or one of its direct alternatives, "
     "grants that level, after creation and after every access change, and the change touches no other entry.",
     ["inputs", "histories"], "every argument and state; rules of every kind with up to two alternatives; zero to two deposited tokens",
     "tests look up one rule once", [X, "permission_registry/src/permission_registry.rs", MA], [("create_account", X), ("_set_level_N_auth", X), ("set_permissions", "permission_registry/src/permission_registry.rs")])

prop("C34", "Keepers are rewarded once for useful work and for nothing else",
     "Processing a request, liquidating and deleveraging pay the keeper exactly the configured reward, once per success. A "
     "pair update pays one reward token for each distinct pair that was due, and reports which were. No other operation issues "
     "keeper rewards.",
     ["inputs", "histories"], "every state, price and time; zero to three pair names, repeated or not",
     "tests never call the keeper operations twice", [X], [("update_pairs", X), ("process_request", X), ("liquidate", X), ("auto_deleverage", X)])

prop("C21", "Only positive and sufficiently fresh prices are acted upon",
     "Every price an operation uses comes from the oracle for exactly the pairs and collaterals involved, is positive, and is "
     "no older than the strictest limit configured for it: a collateral's limit always, and the pair's own limit whenever a "
     "keeper acts on positions. Price updates handed in by the keeper reach the oracle unchanged.",
     ["inputs", "schedules"], "every price, time and limit; thirteen price-using operations; zero to two positions and collaterals, "
     "with own or shared price feeds, in every order of their limits",
     "tests always push a fresh positive price", [X, VO, VC], [("VirtualOracle::new", VO), ("_pair_feeds", X), ("collateral_feeds", VC)])

prop("C31", "Wrapped base tokens stay backed and flash loans are repaid",
     "Wrapping issues exactly the amount of an accepted token that is put aside, and unwrapping burns base tokens and pays out "
     "no more than was burned. A flash loan comes with a debt token over the same amount that can never be deposited and that "
     "only its repayment destroys, against burning at least the same amount of base tokens; the rest is returned.",
     ["inputs", "histories", "programs"], "every amount, token and stored state; zero to two listed tokens for the listing",
     "the wrapper has no tests", ["token_wrapper/src/token_wrapper.rs"], [("wrap", "token_wrapper/src/token_wrapper.rs"), ("unwrap", "token_wrapper/src/token_wrapper.rs"), ("repay_flash_loan", "token_wrapper/src/token_wrapper.rs")])

prop("C32", "Fees paid on a user's behalf are owed in full and bounded",
     "Locking a transaction fee on a user's behalf locks exactly the asked amount, hands out a fee token worth it at the "
     "configured price, and raises the amount owed to the delegator by the same value, while the outstanding fee tokens never "
     "exceed the limit. Only the delegator can issue fee tokens, only the protocol can burn them, and they cannot be deposited.",
     ["inputs", "histories", "programs"], "every amount, setting and stored state of every method",
     "the delegator's own tests do not exist", ["fee_delegator/src/fee_delegator.rs"], [("lock_fee", "fee_delegator/src/fee_delegator.rs"), ("new", "fee_delegator/src/fee_delegator.rs")])

prop("C40", "The variable registry stores and returns exactly what was set",
     "Setting variables replaces exactly the named ones with the given values, the last one winning; removing removes exactly "
     "the named ones. Reading answers exactly the asked names, with the stored value or an empty text, and changes nothing.",
     ["inputs", "histories"], "every name, value and stored state; zero to two names, distinct or repeated",
     "the registry has no tests", ["env_registry/src/env_registry.rs"], [("set_variables", "env_registry/src/env_registry.rs"), ("get_variables", "env_registry/src/env_registry.rs")])

prop("C42", "The test-token faucet issues exactly the configured amounts",
     "Claiming free tokens issues every token with a positive configured amount once and in that amount, and nothing else. Changing an "
     "amount changes that token's only, an administrator's issue is exactly the asked amount, and the test tokens start without supply and "
     "can be minted by the faucet alone.",
     ["inputs", "histories"], "every amount and stored state; zero to two configured tokens",
     "the faucet has no tests", ["faucet/src/lib.rs"], [("free_tokens", "faucet/src/lib.rs"), ("update_mint_amount", "faucet/src/lib.rs")])

prop("C41", "Operations that meet their stated conditions are never refused",
     "An order, withdrawal, deposit, liquidation, auto-deleverage, debt swap, liquidity operation, payout, request, cancellation or referral "
     "operation whose stated limits are met, including exactly at the limit, is carried out: the exchange asks for nothing else than those limits, "
     "fresh positive prices, genuine tokens, the caller's authority and amounts that fit their number types.",
     ["inputs", "histories"], "every amount, price, configuration and state, including equality with a limit; up to two positions, two collaterals and two linked requests; "
     "native token refusals and arithmetic overflow aside",
     "a test of a limit samples one value on either side of it, and no test looks for a refusal nobody asked for",
     [X, VA, VP, VO], [("_assert_account_integrity", X), ("_assert_pool_integrity", X), ("_assert_active_requests_limit", X)])

prop("C10", "No operation creates or destroys value",
     "In every operation, the changes of the account's balance, the pool's balance, the protocol, treasury and referral shares, "
     "the fee oaths burned and the fee pot together sum to zero apart from tokens that really move in or out, "
     "whatever the prices, fees and positions. Operations without a balance effect move no balance at all.",
     ["inputs", "histories"], "every operation, every amount, price, configuration and state with up to two positions and two collaterals",
     "the tests never compare total value before and after an operation",
     [X, VA, VP], [("settle", VA), ("add_virtual_balance", VP), ("_settle_fees_*", X)])

prop("C37", "Published events report exactly what happened",
     "Every operation publishes its event once, with the account, prices, amounts, profit, funding and fees (as negative amounts) that "
     "were actually applied. Every changed request and every changed pool position is published with its new content, and "
     "nothing that did not happen is published.",
     ["inputs"], "every event-publishing operation, with up to two pairs, two collaterals and two linked orders; amounts, prices and configuration unbounded",
     "no test reads an event, while keepers and front-ends depend on them entirely",
     [X, VA, VP], [("Runtime::emit_event", X), ("realize", VA), ("realize", VP)])

prop("C39", "Reported details equal the stored state",
     "Every read-only operation of the exchange reports the stored values: an account's balances, positions with the funding they owe and "
     "their margins, collateral, open and past requests in order; the pool's totals, skew and token price; each pair's and each "
     "setting's stored values; each referral's record and allocations. None of them changes or publishes anything.",
     ["inputs", "histories"], "every read-only operation and stored state; up to two positions, collaterals, requests and pairs",
     "the tests read back at most one field of one account", [X, VA, VP], [("get_account_details", X), ("get_pool_details", X), ("get_pair_details", X), ("get_referral_details", X)])
