WHY_UT = ("The unit tests exercise single functions on hand-picked numbers and never run an instruction; the BPF "
          "integration tests follow one fixed story each and do not run in this environment. ")
TX = "explicit-state model checking of the real instruction handlers (bounded exhaustive DFS over transaction sequences in an in-process SVM)"
EN = "bounded exhaustive enumeration of the real code against a reference model"
TRUST = "Trusts the in-process SVM (account model, CPI, spl-token processor) and the shims for absent crates; values outside the stated alphabet are not covered."

prop("C01", "Token books balance: vault, deposits, borrows and fees always reconcile",
     "After every transaction, for each token and each of its banks, the sum over all accounts of deposit and borrow positions equals the bank's recorded totals, "
     "and the tokens held in the bank's vault equal deposits minus borrows plus unwithdrawn fees up to rounding dust in the protocol's favour. "
     "No sequence of user, liquidator, keeper or admin actions creates or destroys claims on tokens.",
     ["histories", "inputs"], "every sequence of transactions up to the depth bound over the scenario alphabets (amounts include 0, rounding boundaries, maxima)",
     WHY_UT + "They check particular balances after particular steps, never that all positions add up after every step of every sequence.",
     ["state/bank.rs", "instructions/token_deposit.rs", "instructions/token_withdraw.rs", "instructions/token_liq_with_token.rs", "instructions/token_liq_bankruptcy.rs", "instructions/token_update_index_and_rate.rs"],
     [("Bank::deposit/withdraw internals", M + "state/bank.rs"), ("vault transfers", M + "instructions/token_deposit.rs")],
     TX, "Exhaustive up to depth 5 (quick) / 6 (thorough) per scenario; sums are recomputed exactly from raw account bytes. " + TRUST)

prop("C02", "No user action leaves an account worse than undercollateralised rules allow",
     "After any successful action taken by an account's owner or delegate that can lower health, the account's initial health is non-negative, "
     "or (if it was already negative) did not decrease; an account in liquidation cannot take such actions at all.",
     ["histories", "inputs"], "every action sequence up to the depth bound, including oracle price moves between actions",
     WHY_UT + "They check a few accept/reject points; the rule must hold at every reachable state and price.",
     ["state/mango_account.rs", "health/cache.rs", "instructions/token_withdraw.rs"],
     [("health pre/post checks", M + "state/mango_account.rs"), ("incremental health cache", M + "health/cache.rs")],
     TX, "Health is recomputed from scratch by an independent reference after every accepted transaction. " + TRUST)

HIST = "every transaction sequence up to the depth bound over the scenario's alphabet; amounts sit on and next to every limit the code distinguishes"
DEPTH = "Exhaustive to the stated depth over the stated alphabet; each step is judged by an independent two-sided specification (acceptance and full effect, plus nothing else changed). "

prop("C03", "Deposits and withdrawals move and book exactly the stated amount",
     "A deposit or withdrawal is accepted exactly when the documented conditions hold (positive amount, funds in wallet or vault, borrowing only if explicitly allowed, health and bank limits respected). "
     "When accepted, wallet, vault and the account's balance change by exactly the requested amount (capped at the borrow for reduce-only deposits, at the whole balance for withdraw-all), plus the loan origination fee on the newly borrowed part only. "
     "No other balance, account or token is touched.",
     ["histories", "inputs"], HIST,
     WHY_UT + "They check a few amounts; exactness at every reachable index, balance sign and boundary is untested.",
     ["instructions/token_deposit.rs", "instructions/token_withdraw.rs", "state/bank.rs"],
     [("deposit/withdraw", M + "instructions/token_deposit.rs"), ("balance change with fees and dusting", M + "state/bank.rs")],
     TX, DEPTH + TRUST)

prop("C04", "Per-token limits bind at their exact boundary",
     "The deposit limit, the net borrow limit per time window, the minimum vault reserve and the reduce-only modes of a token reject every operation that would exceed them and reject nothing that stays within them. "
     "The net borrow window restarts on its documented schedule, counts new borrows up and repayments down, and values borrows at the more expensive of oracle and stable price. A deposit limit set for the group bounds the collateral value (weighted assets) of an account that deposits.",
     ["histories", "inputs"], HIST + " (amounts one unit on either side of each limit; window boundaries; each reduce-only mode; oracle above and below stable price)",
     WHY_UT + "No test walks up to a limit through different histories.",
     ["state/bank.rs", "instructions/token_deposit.rs", "instructions/token_withdraw.rs"],
     [("limit checks", M + "state/bank.rs")],
     TX, DEPTH + TRUST)

prop("C05", "Interest accrues exactly as configured and only flows to lenders and fees",
     "Advancing a token's indexes charges borrowers the utilisation-curve rate plus the loan fee rate for exactly the elapsed time, credits depositors with the curve interest and the protocol with the loan fee, never lowers either index, and does nothing before any time passes. "
     "The interest curve is continuous and monotone through its configured points, and its adaptive scaling moves only in the direction of the utilisation error and within its bounds. "
     "An update is refused unless it is given exactly the token's banks, runs directly rather than through another program, and its transaction contains nothing but such updates and compute budget requests. "
     "While the token's oracle is unusable the update is refused, or in its resilient form accepted without changing the token.",
     ["histories", "inputs"], HIST + "; the rate curve is enumerated on a dense utilisation grid for a set of parameterisations; every transaction of up to 3 (thorough 4) instructions over updates, budget requests, foreign instructions and wrapped updates",
     WHY_UT + "They check the curve at a handful of points and never compound it.",
     ["instructions/token_update_index_and_rate.rs", "state/bank.rs"],
     [("index update", M + "instructions/token_update_index_and_rate.rs"), ("rate curve", M + "state/bank.rs")],
     TX, DEPTH + "The rate curve is additionally enumerated as a pure function. " + TRUST)

prop("C06", "Token liquidation: only the unhealthy, at fair price, no further than needed",
     "Liquidating a token position is possible exactly when the account is below maintenance (or still in liquidation), earlier liquidation phases are done, and never for a healthy account. "
     "It transfers asset for liability at oracle prices with exactly the configured liquidator and platform fees, never more than requested, than either position, or than what brings liquidation-end health back to zero, and sets or clears the in-liquidation mark accordingly. "
     "The liquidator must itself stay healthy, and all other balances stay untouched.",
     ["histories", "inputs"], HIST,
     WHY_UT + "No unit test liquidates anything through the instruction.",
     ["instructions/token_liq_with_token.rs", "state/mango_account.rs", "health/cache.rs"],
     [("liquidation transfer", M + "instructions/token_liq_with_token.rs"), ("liquidation flag", M + "state/mango_account.rs")],
     TX, DEPTH + TRUST)

prop("C07", "Bankruptcy: insurance first, then losses are shared by all depositors equally",
     "A token debt is written off only for an account in liquidation with no liquidatable asset left. "
     "The liquidator is paid from the insurance fund (if the token is covered) at the documented price including the liquidation fee, never more than the debt or the fund holds; only the remainder after the fund is exhausted is socialised, by lowering the deposit index of every bank of the token proportionally, so total deposits drop by exactly the written-off loss and no depositor is skipped. "
     "Debts of other tokens stay.",
     ["histories", "inputs"], HIST + "; with and without insurance cover, with empty, partial and ample insurance fund, with one and two banks per token",
     WHY_UT + "No unit test covers bankruptcy.",
     ["instructions/token_liq_bankruptcy.rs", "health/cache.rs"],
     [("bankruptcy", M + "instructions/token_liq_bankruptcy.rs")],
     TX, DEPTH + TRUST)

prop("C08", "Winding a token down returns deposits and closes borrows at fair terms",
     "When a token is set to force-close, anyone holding it can repay an account's borrow of it against another of that account's assets at oracle price without charging more than the configured fee, never beyond the debt or the requested amount, and never for a token not in that mode. "
     "When set to force-withdraw, the full deposit (and nothing else) is paid to a token account that belongs to the account owner, never to anyone else.",
     ["histories", "inputs"], HIST,
     WHY_UT + "No unit test covers the wind-down instructions.",
     ["instructions/token_force_close_borrows_with_token.rs", "instructions/token_force_withdraw.rs"],
     [("force close", M + "instructions/token_force_close_borrows_with_token.rs"), ("force withdraw", M + "instructions/token_force_withdraw.rs")],
     TX, DEPTH + TRUST)

prop("C09", "Flash loans are repaid in full within the same transaction",
     "A flash loan begins only if a matching end for the same account follows later in the same top-level transaction, with only allowed programs and no other use of the account in between. "
     "At the end, each bank vault has been made whole: what was taken but not returned becomes the account's own borrow (or withdrawal) plus the configured flash-loan, deposit and origination fees, what was added becomes its deposit, the vaults' transfer authority given for the loan is back where it was, and health, vault-reserve, net-borrow, deposit and reduce-only limits all apply to the net change. "
     "No transaction can end with a loan outstanding or tokens missing.",
     ["histories", "inputs"], HIST + "; transactions are lists of begin, transfers in and out, foreign program calls, and end, in every listed arrangement (missing, repeated, reordered, nested, via CPI, wrong account or vault)",
     WHY_UT + "No unit test runs a flash loan.",
     ["instructions/flash_loan.rs"],
     [("flash loan begin/end", M + "instructions/flash_loan.rs")],
     TX, DEPTH + TRUST)

prop("C10", "Token conditional swaps fill only when due, at the promised price",
     "A conditional swap can be triggered only by its rules: inside the stated price range, before expiry, after being started when it needs starting (auction types), never beyond its maximum buy and sell amounts, and never breaking reduce-only settings or the owner's health rules. "
     "The price paid by the owner follows the stated premium or auction schedule and rate limits exactly, the maker and taker fees and the start incentive are charged as configured, and the caller's slippage limits are honoured. "
     "A filled or expired swap is removed; nobody but the owner can create or cancel a live one.",
     ["histories", "inputs"], HIST + " (create, start, trigger, cancel; prices and times at every schedule boundary; fixed-premium, premium-auction and linear-auction swaps)",
     WHY_UT + "They test the pricing arithmetic on a few points and one trigger flow on internal structures, not the instruction sequence.",
     ["instructions/token_conditional_swap_trigger.rs", "instructions/token_conditional_swap_start.rs", "instructions/token_conditional_swap_create.rs", "state/token_conditional_swap.rs"],
     [("trigger", M + "instructions/token_conditional_swap_trigger.rs"), ("pricing", M + "state/token_conditional_swap.rs")],
     TX, DEPTH + TRUST)

prop("C11", "Health regions defer the health check, never escape it",
     "A health region is accepted exactly when its account is usable, every instruction inside succeeds on its own apart from health, and at the end initial health is non-negative or not lower than at the beginning; its effect is exactly that of the instructions inside. "
     "Only order placing, cancelling and settling may appear inside, called directly and not through other programs; a region must be opened and closed once, in the same transaction and for the same account, and must check all the account's positions. "
     "Deposits, withdrawals, liquidations, flash loans, nested or interleaved regions and everything else inside are refused.",
     ["histories", "inputs"], "every pair and triple of six perp and spot order operations inside a region, further allowed operations alone, and every transaction sequence around them; 40 malformed or mixed regions in every reached state",
     WHY_UT + "No unit test runs a region; one integration test checks one accepted and a few refused ones.",
     ["instructions/health_region.rs", "state/mango_account.rs"],
     [("begin and end", M + "instructions/health_region.rs"), ("health pre/post checks", M + "state/mango_account.rs")],
     TX, DEPTH + "The effect is compared with the same inner instructions run by the real code with health checks off; the final health rule is judged by the reference. " + TRUST)

prop("C12", "Collateral fees are charged only when due and in proportion to use",
     "A collateral fee is charged at most once per configured interval, for at most two intervals, only to accounts with at least 100 USD of liabilities, and never by the call that first starts the clock. "
     "The fee is each positive balance (spot, perp and locked in spot orders) with a fee rate times the share of collateral in use (maintenance liabilities over maintenance assets, at most one), the rate and the elapsed days. "
     "The total is taken only from tokens with negative health, in proportion to it and at oracle prices, recorded as fees of their banks, and nothing else changes.",
     ["histories", "inputs"], HIST + "; spot, perp (settling in a non-quote token) and spot order accounts, elapsed times around the interval, fee rates and interval switched on and off",
     WHY_UT + "The only unit test covers one account state.",
     ["instructions/token_charge_collateral_fees.rs", "health/cache.rs"],
     [("charge", M + "instructions/token_charge_collateral_fees.rs"), ("liability total", M + "health/cache.rs")],
     TX, DEPTH + TRUST)

prop("C13", "Fee buybacks and fee withdrawals move exactly what is due",
     "A buyback exchanges at most the requested amount, the account's unexpired accrued fees, the buying account's quote balance and the account's own MNGO: MNGO at the lower of oracle and stable price times the bonus goes to the buying account, quote at the higher of the two comes back, and the accrued fees fall by the value (older ones first, rounded up). "
     "It only works with the group's configured buying account, MNGO and quote banks, while enabled, for an unfrozen account acted for by its owner or delegate, and the buying account must end without debts, perp or spot positions. "
     "Admin withdrawals of token fees, perp fees and insurance money pay out exactly what was collected or asked and not yet taken, limited by the vault, and change nothing else.",
     ["histories", "inputs"], HIST + "; users with fees of two periods, little or borrowed MNGO, a buying account with little quote, debts, perp or spot positions, prices off their stable price; nearly empty vaults",
     WHY_UT + "No unit test calls these instructions.",
     ["instructions/account_buyback_fees_with_mngo.rs", "instructions/admin_token_withdraw_fees.rs", "instructions/admin_perp_withdraw_fees.rs", "instructions/group_withdraw_insurance_fund.rs", "state/mango_account.rs"],
     [("buyback", M + "instructions/account_buyback_fees_with_mngo.rs"), ("accrued fees", M + "state/mango_account.rs"), ("fee withdrawal", M + "instructions/admin_token_withdraw_fees.rs")],
     TX, DEPTH + TRUST)

prop("C14", "Perp orders match by price, then time, and never outside what was asked",
     "An incoming perp order is filled against the opposite side best price first and oldest first, across fixed and oracle-pegged orders, at the resting order's price, never worse than its limit price and never beyond its base, quote, match-count or reduce-only limits; only limit and post-only orders leave a remainder on the book, market and immediate orders never do, post-only orders never take, and a pegged order never trades beyond its peg limit. "
     "Expired or invalid resting orders are never filled, self-trades follow the requested behaviour, a full book only gives way to better-priced orders, and cancelling by id, client id or all removes exactly the caller's own matching orders. "
     "Every fill and removal is queued as an event exactly once and the fees charged for it are the configured ones.",
     ["histories", "inputs"], HIST + "; three traders, all order types, pegged and fixed, expiry, self-trade, reduce-only and full-book situations, with the oracle and clock moving",
     WHY_UT + "They exercise the book and matching engine with a few hand-made orders.",
     ["state/orderbook/book.rs", "state/orderbook/ordertree.rs", "state/orderbook/bookside.rs", "state/orderbook/bookside_iterator.rs", "instructions/perp_place_order.rs", "instructions/perp_cancel_order.rs"],
     [("matching engine", M + "state/orderbook/book.rs"), ("order tree", M + "state/orderbook/ordertree.rs"), ("order placement", M + "instructions/perp_place_order.rs")],
     TX, "The reference matching engine works on sorted lists decoded from the raw account bytes, with tree structure validated in every state. " + DEPTH + TRUST)

prop("C15", "Perp bookkeeping balances: positions, orders and fees add up",
     "At every moment the base positions of a perp market sum to zero, open interest equals the sum of their sizes, each account's pending order and taker lots equal its orders on the book plus its unprocessed events, and every open order slot has its counterpart. "
     "Placing, cancelling and processing events in order moves quote only between traders and market fees, applies trades at the fill price with the fees of that fill, settles funding first, tracks entry price, realised profit and settle allowances by the documented rules, and never frees or corrupts a slot reused by a newer order.",
     ["histories", "inputs"], HIST + "; event processing interleaved at any point with placing, cancelling, funding and price moves; positions that grow, shrink, flip and close",
     WHY_UT + "They check single position updates, never a queue of events over a history.",
     ["instructions/perp_consume_events.rs", "state/mango_account.rs", "state/mango_account_components.rs", "state/orderbook/queue.rs"],
     [("event processing", M + "instructions/perp_consume_events.rs"), ("position updates", M + "state/mango_account_components.rs"), ("maker and taker execution", M + "state/mango_account.rs")],
     TX, DEPTH + TRUST)

prop("C16", "Perp funding follows the book's premium over the oracle, within limits",
     "A funding update charges longs and pays shorts the premium of the book's impact mid-price over the oracle, using only valid orders, clamped to the market's minimum and maximum rate (the extreme when only one side has enough depth, none when neither has), for exactly the elapsed time but at most one hour. "
     "Each position pays exactly the funding accrued while it was held, once, and the same update moves the market's stable price by its growth-limited, delay-averaged rule.",
     ["histories", "inputs"], HIST + "; thin, one-sided, expired and pegged books; updates 0 s to 25 h apart; oracle moves in between",
     WHY_UT + "No unit test updates funding.",
     ["state/perp_market.rs", "instructions/perp_update_funding.rs", "state/orderbook/bookside.rs", "state/stable_price.rs"],
     [("funding update", M + "state/perp_market.rs"), ("impact price", M + "state/orderbook/bookside.rs"), ("stable price", M + "state/stable_price.rs")],
     TX, DEPTH + TRUST)

prop("C17", "Settling perp profits and losses respects limits, backing and fees",
     "Settling moves realised quote between a profitable and a losing account into token balances one for one, after funding, never beyond either side's profit or loss, either side's settle limit for the current time window (fraction of position value plus recurring and one-shot allowances, less what the window already used), or what the loser's other assets can back. "
     "The settler earns exactly the configured fee from the winner's proceeds - flat above the threshold, health-scaled below, none when the profit is under one percent of the position - and settling fees moves a loss to the market's settled fees under the same limits and keeps the account healthy.",
     ["histories", "inputs"], HIST + "; windows, allowances used in both directions, positive and negative funding, spot debts, moving oracle and stable price, three settle-limit configurations",
     WHY_UT + "Unit tests check the limit arithmetic at a few points, never a settlement between two accounts.",
     ["instructions/perp_settle_pnl.rs", "instructions/perp_settle_fees.rs", "state/mango_account_components.rs", "state/perp_market.rs"],
     [("settle pnl", M + "instructions/perp_settle_pnl.rs"), ("settle limits", M + "state/mango_account_components.rs"), ("settler fee", M + "state/perp_market.rs")],
     TX, DEPTH + TRUST)

prop("C18", "Perp liquidation transfers no more than needed, at oracle price less set fees",
     "Liquidating a perp position or its positive profit is possible exactly when the account is below maintenance (or still in liquidation), its perp orders are cancelled and its fills processed. "
     "Base moves to the liquidator at oracle price adjusted by exactly the liquidator and platform fees, profit is bought at exactly its fee along with a proportional share of settle allowance, and neither exceeds the requested amounts, the position, or what the documented steps need to bring liquidation-end health back to zero. "
     "The liquidated account's health never falls, the liquidator stays healthy, funding is settled first on both sides, and the platform's share and nothing else accrues to the market.",
     ["histories", "inputs"], HIST + "; long and short positions, quote or other settle token with spot debts, zero, partial and near-full weights for positive profit, open orders and unprocessed fills",
     WHY_UT + "One unit test drives the inner function with hand-built numbers; nothing follows it over a history.",
     ["instructions/perp_liq_base_or_positive_pnl.rs", "health/cache.rs"],
     [("perp liquidation", M + "instructions/perp_liq_base_or_positive_pnl.rs")],
     TX, DEPTH + TRUST)

prop("C19", "Perp losses: insurance first, then shared equally, only as a last resort",
     "A liquidator can take over an account's negative perp profit only in liquidation, once no assets or positions are left to liquidate, and for tokens up to what the account can still back and may settle. "
     "Only what remains after that is bankruptcy: the insurance fund, if the market is insured, pays the liquidator for the loss at oracle prices plus the liquidation fee, and only when the fund is exhausted is the rest spread over all open positions, long and short, in proportion to size. "
     "Neither part exceeds what is needed to restore liquidation-end health, and quote is otherwise conserved.",
     ["histories", "inputs"], HIST + "; insured and uninsured markets, empty, small and large insurance fund, same or different settle and insurance token, partial takeovers in any order",
     WHY_UT + "One unit test drives the inner function with hand-built numbers.",
     ["instructions/perp_liq_negative_pnl_or_bankruptcy.rs", "state/perp_market.rs"],
     [("negative pnl and bankruptcy", M + "instructions/perp_liq_negative_pnl_or_bankruptcy.rs"), ("loss socialisation", M + "state/perp_market.rs")],
     TX, DEPTH + TRUST)

prop("C20", "Winding down perp positions keeps the market balanced and orders safe",
     "Anyone may cancel an account's perp orders only when it is liquidatable or frozen or the market is in force-close mode, and only in that mode may a long and a short be closed against each other, at oracle price, by the smaller of their sizes, with funding settled first. "
     "A perp position can be given up only by its owner and only when no base, quote, orders or unprocessed fills are left, and giving it up releases exactly its own hold on the settle token.",
     ["histories", "inputs"], HIST + "; fixed and pegged orders of several accounts, cancel limits, frozen and liquidatable accounts, funding in both directions",
     WHY_UT + "No unit test runs these instructions.",
     ["instructions/perp_force_close_position.rs", "instructions/perp_liq_force_cancel_orders.rs", "instructions/perp_deactivate_position.rs", "instructions/perp_settle_fees.rs"],
     [("force close", M + "instructions/perp_force_close_position.rs"), ("force cancel", M + "instructions/perp_liq_force_cancel_orders.rs"), ("position close", M + "instructions/perp_deactivate_position.rs")],
     TX, DEPTH + TRUST)

prop("C27", "The stable price follows the oracle slowly, exactly as configured",
     "The stable price of tokens and perp markets moves with each price update toward the oracle price by at most the configured growth rate times the elapsed time (counted up to ten minutes), scaled down by the squared ratio of stable to delayed price; updates within ten seconds change nothing. "
     "The delayed price is the limited average of the oracle price one day ago, kept per interval across skipped intervals and full days; all banks of a token share one value. "
     "Only an admin reset, or the first non-zero price ever, makes it jump, and no price history makes updates fail.",
     ["histories", "inputs"], "every sequence of updates up to the depth bound over 15 waiting times (around the 10 s, 10 min, interval and day boundaries) x 6 price moves, from six starting histories and two parameterisations",
     WHY_UT + "The unit tests follow a handful of price curves.",
     ["state/stable_price.rs", "instructions/token_update_index_and_rate.rs", "state/perp_market.rs"],
     [("stable price model", M + "state/stable_price.rs")],
     TX, "Exhaustive to depth 3 (quick) / 4 (thorough) over 70 updates per step; each step is compared with an independent model. " + TRUST)

prop("C28", "Account health is computed exactly as defined, never overstated",
     "Initial, maintenance and liquidation-end health equal the documented formula: balances (with free spot funds) and weighted perp profit in their settle token, each valued with the weight and price of that health type (worse of oracle and stable price, weights scaled by a token's total deposits or borrows, scheduled weight shifts), open spot orders and perp orders at their worst outcome, accrued funding and unprocessed fills included; health ratios follow from it. "
     "Where an instruction may leave out a token, because its bank is not passed or its oracle is unusable, it only can for non-negative positions, and then health counts nothing for it; borrowing such a token is impossible. "
     "Perp markets, open orders, foreign or duplicate banks and oracles of other tokens can never be left out or substituted.",
     ["inputs", "histories"], "every combination of up to four (quick) or five (thorough) of 45 deviations in balances, prices, weights, spot orders, perp positions, funding and oracle quality; each read through 25 probes with differing accounts",
     WHY_UT + "The unit tests check one combination at a time of some twenty hand-written ones.",
     ["health/cache.rs", "health/account_retriever.rs", "instructions/health_check.rs", "instructions/token_withdraw.rs", "instructions/compute_account_data.rs", "state/bank.rs"],
     [("health formula", M + "health/cache.rs"), ("health accounts", M + "health/account_retriever.rs")],
     TX, "Health is bracketed from both sides by health check instructions and compared with an independent reference. " + TRUST)

prop("C26", "Oracle prices are scaled right, and only fresh, confident ones are used",
     "Each supported oracle type yields its published price and uncertainty scaled to native units by exponent and token decimals; pool oracles multiply by the quote feed's, taking over its age. "
     "A price older than the configured slots or time, more uncertain than the configured share of itself, negative, unverified or not established by enough sources is never used to value a position, to allow a borrow, or for index and funding updates, which then change nothing. "
     "A fallback oracle counts only when the token's own oracle is stale or unconfident and the fallback was handed over, and must meet the same conditions.",
     ["inputs"], "every combination of 25 oracle types and variants x published values, uncertainties, slots and times around the limits x decimals x staleness settings; primaries x fallbacks x accounts handed over; each read through nine instructions",
     WHY_UT + "The unit tests read a few recorded oracle accounts.",
     ["state/oracle.rs", "state/amm_cpi.rs", "state/bank.rs", "state/perp_market.rs", "health/account_retriever.rs"],
     [("oracle reading", M + "state/oracle.rs"), ("pool oracles", M + "state/amm_cpi.rs"), ("fallback", M + "state/bank.rs")],
     TX, "One step over an exhaustive product of oracle images; each result is compared with an independent reading of the image. " + TRUST)

CAT = "a catalogue of one or more valid transactions for every instruction, each in six variants (users swapped, other token, other market, other bank, other group)"

prop("C21", "New tokens, banks and markets start sound, once, and within the listing quota",
     "A token, perp market or spot market index, mint or external market can be registered once, only with parameters that pass the bank checks, and starts exactly as configured: indexes at their start value, no positions, no fees, the stable price at the oracle price (or to be set by the first non-zero price), vault and books owned by the group. "
     "Fast listings get the fixed conservative configuration (no collateral value, deposits only, tier C) and at most the allowed number per week, counted over calendar weeks, whoever of the admins lists; index 0 and the reserved index are never given out. "
     "A further bank takes over the configuration and indexes of the first, starts empty, and takes the next of six numbers.",
     ["inputs", "histories"], "60 variations of the registration parameters and all their pairs x oracle usable, unusable or scaled by decimals x fallback; every history of four fast listings over 5 waiting times, 3 starts and 4 quotas; 64 states of the first bank; variations of perp and spot market parameters",
     WHY_UT + "The integration tests register everything with one set of parameters.",
     ["instructions/token_register.rs", "instructions/token_register_trustless.rs", "instructions/token_add_bank.rs", "instructions/perp_create_market.rs", "instructions/serum3_register_market.rs", "state/bank.rs"],
     [("token registration", M + "instructions/token_register.rs"), ("fast listing", M + "instructions/token_register_trustless.rs"), ("further banks", M + "state/bank.rs")],
     EN, "All bytes of the new accounts are compared with an independent expectation, all other accounts must stay as they were. " + TRUST)

prop("C22", "Only owners and valid delegates act for an account; frozen accounts stay still",
     "Every instruction that acts for a margin account needs the signature of its owner or, where delegates are allowed, of its delegate or its temporary delegate up to the end of that delegation; account settings, closing and expanding are the owner's alone. "
     "A delegate can withdraw only into the owner's own associated token account and only if that empties and closes the token position. "
     "No user instruction runs on an account while it is frozen, in whichever role it takes part; crank instructions that only process what was already agreed, and the freeze itself, still do.",
     ["inputs"], CAT + " x every signer (owner, delegate, expired and current temporary delegate, admins, other users and groups, nobody) x delegation settings x freeze times of every account involved; delegate withdrawals x balances x amounts x destinations",
     WHY_UT + "No test runs an instruction with the wrong signer for more than a few instructions.",
     ["accounts_ix", "state/mango_account.rs", "instructions/token_withdraw.rs"],
     [("account constraints", M + "accounts_ix"), ("owner or delegate", M + "state/mango_account.rs")],
     EN, "One step from prepared states; the right signer must be accepted and every wrong one refused. " + TRUST)

prop("C23", "No account of a transaction can be swapped for a foreign or mismatched one",
     "Replacing any account of a valid transaction (group, margin account, bank, vault, oracle, market, book, queue, open orders, mint info, insurance vault, program) by any other existing account, by an account of another group, by a foreign-owned copy or by a look-alike token account is refused, except where the account is free to choose (own wallets, the other of several banks of the same token, a different valid counterparty). "
     "The same holds for every mixture of two valid transactions: accounts that belong together cannot be combined from two markets, tokens, groups or users.",
     ["inputs"], CAT + " x every account position x every other account of two groups and adversarial copies; every subset of the differing positions of two valid transactions (small and nearly complete subsets beyond twelve)",
     WHY_UT + "No test passes mismatched accounts to more than a few instructions.",
     ["accounts_ix", "health/account_retriever.rs", "instructions/flash_loan.rs"],
     [("account constraints", M + "accounts_ix"), ("health account matching", M + "health/account_retriever.rs")],
     EN, "The accepted substitutions are compared with a table of 387 lines that were reviewed by hand one by one. " + TRUST)

prop("C24", "Administrative power stays with its roles; the security admin only de-risks",
     "Every administrative instruction needs the signature of its group's own admin, or of the fast listing admin for fast listings; nobody else, no admin of another group and no unset role gets in. "
     "The security admin can only make edits that reduce risk (enter a reduce-only mode but not relax a stricter one, set the initial asset weight of a token or perp market or a collateral or platform liquidation fee to zero, abort a weight shift, disable instructions): any edit that contains something else, in whatever combination and starting configuration, is refused to it, and what it can do has the same effect as when the admin does it. "
     "No admin can leave the group without an admin.",
     ["inputs"], "every administrative instruction x every signer x unset roles; every option of the token, perp, spot market and gate edits and all pairs of options in six starting configurations x every signer",
     WHY_UT + "No test uses the security admin for more than one edit.",
     ["instructions/token_edit.rs", "instructions/perp_edit_market.rs", "instructions/serum3_edit_market.rs", "instructions/ix_gate_set.rs", "accounts_ix"],
     [("security admin rules", M + "instructions/token_edit.rs"), ("gates", M + "instructions/ix_gate_set.rs")],
     EN, "One step from prepared states; acceptance is compared with an independent table of who may do what. " + TRUST)

prop("C25", "A disabled instruction is stopped, and no other one is",
     "Every instruction that has a gate is refused while its own gate is closed, in whatever form it is called, and no instruction is affected by any other gate: cranks, liquidations and withdrawals stay possible whatever else is disabled. "
     "With every gate but its own closed an instruction works as before.",
     ["inputs"], CAT + " x each of the 128 gate bits alone, all others, and all",
     WHY_UT + "One test disables one instruction.",
     ["accounts_ix", "state/group.rs", "instructions/ix_gate_set.rs", "lib.rs"],
     [("gates", M + "state/group.rs"), ("account constraints", M + "accounts_ix")],
     EN, "One step from prepared states. " + TRUST)

prop("C31", "Margin accounts survive creation, resizing, migration, edits and closing",
     "A new account is empty, belongs to its owner and group, has the requested numbers of slots within the limits, and never replaces an existing account; resizing or migrating keeps every used position, order slot and token conditional swap byte for byte (orders at their index), clears the rest, is refused when something used does not fit or a limit is newly exceeded, and leaves the rent exactly right. "
     "An account can be closed by its owner only without active token, spot or perp positions and outside liquidation (force closing only exists in testing groups), never while frozen, and its rent goes to the destination. "
     "An edit changes only the named fields, and a sequence check passes exactly for the current number and advances it, undoing its whole transaction otherwise.",
     ["inputs"], "all combinations of per-section occupancies and sizes (every pair of sections completely), all slot counts around the limits, all legacy sizes, all occupancies x flags for closing, all 65536 pairs of sequence numbers",
     WHY_UT + "The unit test of resizing uses random layouts of one kind and does not see limits, rent or legacy sizes.",
     ["state/mango_account.rs", "state/dynamic_account.rs", "instructions/account_create.rs", "instructions/account_expand.rs", "instructions/account_size_migration.rs", "instructions/account_close.rs", "instructions/account_edit.rs", "instructions/sequence_check.rs"],
     [("dynamic layout", M + "state/mango_account.rs"), ("expand", M + "instructions/account_expand.rs"), ("migration", M + "instructions/account_size_migration.rs"), ("close", M + "instructions/account_close.rs")],
     EN, "Slots hold arbitrary distinct bytes; the account's bytes after the call are compared with an independent description of the layout. " + TRUST)

prop("C32", "Account slots are used consistently and other users' accounts are left alone",
     "After every transaction, however tokens, spot orders, perp positions and orders, conditional swaps, flash loans, liquidations and resizes were mixed before, no account has two slots for one token, market, order or swap id; every token position counts exactly the spot markets, perp positions and swaps that need it, and each of those has its token position, its own open orders account, or its position slot. "
     "A user's own actions (deposits, withdrawals, orders, cancels, settling spot funds, swaps, flash loans, opening and closing slots) leave every other margin account byte for byte as it was. "
     "No account is left inside a health region.",
     ["histories", "inputs"], HIST + "; one account with hardly any slots (with resizes between), one with a position of every kind, the same under liquidation and insolvent",
     WHY_UT + "They use each slot type alone, never a history that mixes them.",
     ["state/mango_account.rs", "state/mango_account_components.rs", "state/bank.rs", "instructions/serum3_create_open_orders.rs", "instructions/serum3_close_open_orders.rs", "instructions/token_conditional_swap_create.rs", "instructions/perp_deactivate_position.rs"],
     [("token position use counts", M + "state/mango_account_components.rs"), ("slot allocation", M + "state/mango_account.rs")],
     TX, "Invariants are recomputed from the raw account bytes after every transaction. " + TRUST)

prop("C34", "checked_math evaluates exactly, or reports every overflow",
     "For every expression of the supported syntax, checked_math yields Some of the exact integer value when every intermediate result fits its type and no divisor is zero, and None otherwise; it never panics or wraps, follows Rust's precedence, grouping, shift and cast rules, and evaluates each operand once in order. "
     "checked_math_or_panic and its assignment forms yield the same value, or panic leaving the assigned variable as it was.",
     ["inputs"], "129 expressions (all pairs of operators in all groupings, negation, casts, shifts, pow, abs, I80F48 conversions) over all 8-bit values of two variables and a third from all (thorough) or a coset plus limits (quick); 64-bit values around every limit",
     "The one test evaluates eight expressions on one value each.",
     ["lib/checked_math/src/transform/checked.rs"], [("expression rewriting", "lib/checked_math/src/transform/checked.rs")],
     "exhaustive enumeration of inputs against exact integer arithmetic, through the real macro", "The same tokens are expanded by the real macro and evaluated on exact integers of 128 bits. ", None)

prop("C35", "The margin-trade example moves exactly what it says, or nothing",
     "The margin-trade program moves exactly the first amount from the paying to the receiving token account and exactly the second amount back, the first only with the paying account's owner signing, the second only under the receiving account's authority, which is the address derived from the given bump (or an owner who signed). "
     "Missing balances, other mints, wrong bumps, accounts of others or missing signatures fail the whole transaction and change nothing else. "
     "Between the halves of a flash loan, what is left beyond the balance before the loan is paid back, and the position changes by exactly that less the loan.",
     ["inputs"], "all combinations of whose accounts, which mints, which authority is named, signed or not, five bumps and amounts at every balance limit; flash loans of every such amount",
     "Its only unit test checks the program id.",
     ["programs/margin-trade/src/lib.rs", "instructions/flash_loan.rs"], [("transfers", "programs/margin-trade/src/lib.rs")],
     EN, "Runs on the real token program processor. " + TRUST)

prop("C38", "Configuration edits change exactly what they say, consistently on every bank",
     "Every option of the token, perp market, spot market, group and account edits sets exactly the stated field to the stated value and nothing else, alone and combined with any other option; token edits reach every bank of the token alike along with its mint info. "
     "Edits that would leave a token with an unsound configuration are refused as a whole: negative rates or weights, initial weights looser than maintenance, force-close without reduce-only, force-withdraw without deposits reduce-only and disabled asset liquidation with no collateral weight. "
     "A temporary delegation is set as a whole and ends within a week.",
     ["inputs"], "every option and every pair of options of each edit in six starting configurations; names, delegates and expiries at their limits",
     WHY_UT + "No unit test runs an edit.",
     ["instructions/token_edit.rs", "instructions/perp_edit_market.rs", "instructions/serum3_edit_market.rs", "instructions/group_edit.rs", "instructions/account_edit.rs", "state/bank.rs"],
     [("token edit", M + "instructions/token_edit.rs"), ("configuration checks", M + "state/bank.rs")],
     EN, "The whole state after the edit is compared with an independent expectation. " + TRUST)

prop("C29", "Spot orders: funds, loans, limits and worst-case tracking are accounted exactly",
     "Placing a spot order passes exactly the requested order to the market and moves exactly the tokens the market takes from the paying token's vault, charging them to the account without fee while remembering the newly borrowed part; it is accepted exactly when the market accepts it, the market and tokens are not reduce-only in that direction, deposit, net-borrow and vault limits and the price band hold and the account's initial health passes. "
     "Settling credits exactly the tokens that come back, charges the loan origination fee once on remembered loans whose tokens have left the open orders, and books referrer rebates to the DAO (with a buyback credit at the lower of oracle and stable price) or to the account as requested; cancelling moves nothing. "
     "The highest/lowest placed prices and the potential tokens of account and banks follow every order, and each bank's potential tokens always equal the sum over all accounts and are never below what the open orders hold.",
     ["histories", "inputs"], HIST,
     WHY_UT + "The integration tests follow a few stories at one price.",
     ["instructions/serum3_place_order.rs", "instructions/serum3_settle_funds.rs", "instructions/serum3_cancel_order.rs", "instructions/serum3_cancel_all_orders.rs", "instructions/serum3_create_open_orders.rs", "instructions/serum3_close_open_orders.rs", "serum3_cpi.rs", "state/bank.rs"],
     [("placing", M + "instructions/serum3_place_order.rs"), ("settling", M + "instructions/serum3_settle_funds.rs"), ("DEX calls", M + "serum3_cpi.rs")],
     TX, DEPTH + "What the market itself does is obtained by running the equivalent market instructions alone on a copy of the state; the market is a small reimplementation of the Serum v3 semantics, since its crate is not available offline. " + TRUST)

prop("C30", "Spot orders are force-cancelled only when allowed, and fully accounted",
     "Anyone can force-cancel an account's spot orders and settle its open orders only while the account is liquidatable, is frozen, or the market is in force-close; for any other account the call changes nothing but a mark of an ended liquidation. "
     "It cancels up to the given number of orders of that account on that market, credits all settled tokens to the account and the rebates to the DAO, charges due loan origination fees, and touches nothing else. "
     "Afterwards the account is marked as being liquidated exactly if it was liquidatable and its liquidation-end health is still negative.",
     ["histories", "inputs"], HIST,
     WHY_UT + "One integration test force-cancels once.",
     ["instructions/serum3_liq_force_cancel_orders.rs", "instructions/serum3_settle_funds.rs", "serum3_cpi.rs", "state/mango_account.rs"],
     [("force cancel", M + "instructions/serum3_liq_force_cancel_orders.rs")],
     TX, DEPTH + "The market part is obtained as for C29. " + TRUST)

prop("C40", "Transaction logs tell off-chain readers the true balances and amounts",
     "Whenever a transaction changes a token, perp or spot-order balance of a mango account, it logs that balance: the last token balance log (position and bank indexes), perp balance log (base, quote and funding) and open orders balance log of a transaction equal what is stored afterwards, and positions are logged as deactivated exactly when they are closed; exempt are only the DAO's side of a buyback, what the spot market itself moves, and perp funding already due and placement fees, which have a log of their own or none. "
     "The amounts logged for deposits, withdrawals, loan fees, flash loans, liquidations, bankruptcies, swap triggers, settlements, fills, force-closes, collateral fees and buybacks add up to the balance changes, at the oracle prices logged. "
     "Logged indexes, rates, totals and funding equal the bank's and market's, and the interest an account is shown is what its balance earned or paid.",
     ["histories", "inputs"], HIST,
     WHY_UT + "No test reads a log.",
     ["logs.rs", "instructions/token_deposit.rs", "instructions/token_withdraw.rs", "instructions/flash_loan.rs", "instructions/token_liq_with_token.rs", "instructions/perp_consume_events.rs", "instructions/perp_settle_pnl.rs", "state/mango_account.rs", "state/bank.rs"],
     [("logs", M + "logs.rs"), ("deactivation logs", M + "state/mango_account.rs")],
     TX, DEPTH + "Logs are the program-data log lines the program emits, decoded and compared with account data decoded byte by byte; the scenarios are those of the other properties. " + TRUST)

FEED = ("The async task is driven by a deterministic stand-in executor (select! polls its branches in every starting order); "
        "sequences are replayed from scratch, every prefix is judged. Trusts the shims of the absent feed crates (account cache, channels). ")
prop("C39", "The crank processes exactly the next events, with the accounts they need",
     "For every event queue content, a write of a perp market's queue makes the crank send one instruction, to that market, which consumes as many of the next events as the program takes at once (8) and names every account they touch as writable, and no account unrelated to the queue; for a spot market one that consumes all events and names each open orders account once, in the order the DEX searches them in. "
     "Queues with neither a fill nor more than two events, and writes of other accounts, send nothing. It never panics.",
     ["inputs"], "all queues of up to 5 (quick) or 7 (thorough) events of five kinds at seven queue positions (fresh, wrapping, long-running), of both markets of each kind, and queues of up to 60 events",
     "It has no tests.",
     ["bin/service-mango-crank/src/transaction_builder.rs"], [("queue to instructions", "bin/service-mango-crank/src/transaction_builder.rs")],
     EN, FEED)

prop("C41", "Fills feed subscribers hold exactly the market's fills at every moment",
     "Whatever the order of slots, forks, late and missed account writes, a subscriber who applies the new and revoked fills holds exactly the fills in a perp market's event queue (as far back as the queue reaches), with the on-chain sequence numbers, parties, side, prices, quantities, fees and times; no fill is announced twice or revoked unannounced. "
     "Every change of the queue yields one checkpoint listing exactly its fills, and a head update exactly when the head moved; nothing is published otherwise. "
     "No input is dropped and the service never panics.",
     ["histories", "schedules"], "all sequences of 3 to 4 (quick) or 4 to 5 (thorough) operations (fills, outs, consumption, queue wrap-around, forks, late, early and missed writes, other markets) at seven queue positions, with either input channel polled first",
     "It has no tests.",
     ["bin/service-mango-fills/src/fill_event_filter.rs", "bin/service-mango-fills/src/lib.rs", "lib/mango-feeds-lib/src/lib.rs"], [("queue differences", "bin/service-mango-fills/src/fill_event_filter.rs")],
     "stateless model checking of the real service task (exhaustive enumeration of event sequences and select! orders)", FEED + "Forks that roll back more than a whole queue length are out of bounds.")

prop("C42", "Order book feed subscribers hold exactly the current book at every moment",
     "Whatever the sequence of book and oracle changes, a subscriber who applies the order and level updates of a market holds exactly the orders (price, quantity, owner, with multiplicity) and levels a trader could hit, oracle-pegged orders at the current oracle price included and expired or out-of-limit ones excluded. "
     "Every change of a side or its oracle is followed by checkpoints equal to both sides, labelled with the book's version; nothing is published otherwise.",
     ["histories", "schedules"], "all sequences of 3 to 4 (quick) or 4 to 5 (thorough) of 18 operations (orders and levels coming, going, filled, duplicated, oracle moves, pegged limits, forks, both sides in one slot) on two perp markets sharing an oracle and a spot market",
     "It has no tests.",
     ["bin/service-mango-orderbook/src/orderbook_filter.rs", "lib/mango-feeds-lib/src/lib.rs"], [("book differences", "bin/service-mango-orderbook/src/orderbook_filter.rs")],
     "stateless model checking of the real service task (exhaustive enumeration of event sequences and select! orders)", FEED)

prop("C36", "The client library's operations do exactly what they promise",
     "Every operation of the Rust client library (deposits, withdrawals, perp and spot orders, cancels, position and open orders closing, settlement, liquidations, bankruptcies, conditional swap triggers and starts, collateral fees, health checks and regions) sends transactions that fit the size limit, are fully signed, and succeed whenever the program can execute the operation with every account supplied, and then have exactly its effect: stale or uncertain oracles are backed by the fallback oracles the client is configured to use, and room for an order is made by closing an unused perp position, an empty open orders account or token positions of at most one native token. Operations the program refuses fail and change nothing. "
     "The health the client computes equals the program's; its list of accounts with the most settleable pnl is correct; a cached read returns what a direct read returns while the chain has not changed since the cache was cleared.",
     ["histories", "inputs"], "all sequences of 3 to 5 (quick) or 4 to 6 (thorough) client operations and market events from twelve account configurations (few or exhausted token, perp and spot slots, dust, shared and circular fallback oracles, delegates), for every fallback configuration and account source; all sequences of three to four cached reads, clearings and chain changes",
     "The client has no tests of its transactions. ",
     ["lib/client/src/client.rs", "lib/client/src/context.rs", "lib/client/src/health_cache.rs", "lib/client/src/account_fetcher.rs", "lib/client/src/perp_pnl.rs"],
     [("operations", "lib/client/src/client.rs"), ("health accounts and fallback oracles", "lib/client/src/context.rs"), ("cache", "lib/client/src/account_fetcher.rs")],
     TX, "Client and program run together: each transaction the client sends is checked for signatures, size, address lookup tables and account locks and executed by the program in the in-memory runtime. The RPC node is a stand-in that always answers from the latest block. " + TRUST)

prop("C43", "The client's trade size calculators keep the wanted health ratio",
     "For every account, oracle price, trade price and minimum health ratio (zero or more), the size that the Rust client library calculates for a swap, a borrow or a perp trade leaves the account's init health ratio at or above the minimum when traded, and no larger size does (up to a tenth of a ratio point or one search step). "
     "A swap or perp trade whose price is so good that size never lowers health is reported as unlimited. Where the minimum is out of reach: a swap size is then no worse than not swapping and, without perp positions and open spot orders, the best there is up to the larger of the two balances, a borrow is zero, and a perp trade is zero or closes the position, whichever leaves the higher ratio; a perp trade is zero if health is negative already. "
     "A swap size within limits is the unlimited one cut down to what the source token's net borrow limit and the target token's deposit limit still allow, never negative. The calculators do not fail on valid accounts, and an account is called liquidatable exactly if its maintenance health (or, while in liquidation, its liquidation end health) is negative.",
     ["histories", "inputs"], "all sequences of 3 (quick) or 4 (thorough) deposits, borrows, spot orders, perp trades and price moves, with plain banks, binding limits and scaled weights; in every state each pair of tokens, token and perp market and side, four or five prices and four minimum ratios",
     "Unit tests check hand-made health caches on a few sizes; they never compare with the health of an account that has really made the trade. ",
     ["health/client.rs", "health/cache.rs"],
     [("trade size calculators", M + "health/client.rs"), ("health cache adjustments", M + "health/cache.rs")],
     TX, "The oracle applies the trade to the account's and bank's bytes and recomputes the ratio with an independent health reference. With weights that scale with a token's deposits or borrows, whether a size is unlimited is not judged, nor are perp trades of accounts whose health is within one native unit of zero. " + TRUST)
