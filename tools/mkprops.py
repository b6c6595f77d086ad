#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a program so that the texts can be read and edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PAIR, STB, PCL, TAX = "contracts/pair/src", "contracts/pair_stable/src", "contracts/pair_concentrated/src", "contracts/pair_xyk_sale_tax/src"
TRM, PXA, PCON = "contracts/pair_transmuter/src", "contracts/pair_xastro/src", "contracts/pair_astro_converter/src"
PCC, PKG = "packages/astroport_pcl_common/src", "packages/astroport/src"
INC, VST, STK, MKR, XAT = (f"contracts/tokenomics/{x}/src" for x in ("incentives", "vesting", "staking", "maker", "xastro_token"))

p("C01", "Constant-product pool: every trade is priced and split exactly by the curve",
  "A swap in a constant-product pool pays the trader the ask reserve minus k / (offer reserve + offer) (k the product of the reserves, the quotient carried to 18 decimals and the payment rounded down), less a commission of floor(gross * fee rate), to the requested receiver, where the reserves are the pool's holdings before the trade. Out of the commission the integrator's fee share is taken first (at most 10%) and the protocol's maker cut of the remainder goes to the configured fee address, each rounded down, and everything else stays in the pool. No other account's balance changes.",
  ["inputs", "histories", "configurations"],
  "Every reserve ratio and magnitude, trade size and direction, fee configuration (total fee, maker fee, fee share), native and cw20 assets, receiver, and any preceding history of deposits, trades, donations and withdrawals.",
  "Unit tests fix one reserve pair and one fee setting against a mocked querier; rounding, tiny or huge reserves and fee splits in combination with history are never sampled.",
  [f"{PAIR}/contract.rs", f"{PKG}/pair.rs", f"{PKG}/querier.rs"],
  [("swap / compute_swap / calculate_maker_fee", f"{PAIR}/contract.rs"), ("fee share payment", f"{PAIR}/contract.rs: swap")],
  [("config", "pool identity, factory, fee share", f"{PAIR}/state.rs")],
  ["balances of trader, receiver, pool, fee address, fee-share recipient"])

p("C02", "Constant-product pool: shares are pro rata; value per share never falls",
  "The first deposit mints floor(sqrt(a*b)) shares of which 1000 stay locked in the pool forever; later deposits mint the smaller of the two pro-rata amounts, and withdrawals pay the pro-rata share of both reserves, rounded down and never more (the ratio carried to 18 decimals), while burning the shares returned. Over any history of deposits, trades, donations and withdrawals by any accounts the product of the reserves per squared outstanding share never decreases beyond that resolution, a deposit immediately withdrawn never returns more than was put in, and outstanding shares always equal what was minted minus what was burned.",
  ["histories", "inputs", "configurations"],
  "All operation sequences by several accounts, all magnitudes and ratios, native and cw20 assets, auto-staking or direct receipt, any receiver.",
  "The tests check single calls from fixed states; value conservation is a statement over whole histories and rounding in every step.",
  [f"{PAIR}/contract.rs", f"{PKG}/pair.rs"],
  [("provide_liquidity / calculate_shares", f"{PAIR}/contract.rs"), ("withdraw_liquidity / get_share_in_assets", f"{PAIR}/contract.rs"), ("MINIMUM_LIQUIDITY_AMOUNT", f"{PKG}/asset.rs")],
  None, ["LP supply", "reserves", "user balances"])

p("C03", "Stableswap pool: trades and liquidity never dilute the invariant per share",
  "Over any history of deposits (balanced or one-sided), trades and withdrawals at any amplification, the stableswap invariant D per outstanding LP share of the remaining holders does not decrease beyond the rounding of the amounts moved and the solver's precision, and no trade pays more than the exact stableswap curve allows for its offer (up to one unit of rounding). Withdrawals return the pro-rata share of every asset (the ratio carried to 18 decimals, each amount rounded down and never more), and a deposit immediately withdrawn never profits beyond the same precision.",
  ["histories", "inputs", "configurations"],
  "All amplification values, asset precisions from 0 to 18 decimals, reserve imbalances and magnitudes, and sequences of operations by several accounts.",
  "No pair_stable test builds offline and its unit tests only sample a few amounts; convergence of the iterative solver and rounding across decimals need generated inputs.",
  [f"{STB}/contract.rs", f"{STB}/math.rs", f"{STB}/utils.rs"],
  [("compute_d / calc_y", f"{STB}/math.rs"), ("compute_swap, mint_liquidity_token, withdraw", f"{STB}/contract.rs, {STB}/utils.rs")],
  None, ["LP supply", "reserves", "user balances", "query_compute_d"])

p("C04", "Stableswap pool: amplification only moves along the announced bounded ramp",
  "The amplification in force equals the announced start value before the change, the target value after it, and in between the linear interpolation in time between them, never outside the two. Only the factory's owner (or the pool's owner) can start or stop a change; a start is rejected if the target is out of range, differs by more than the permitted factor, is sooner than a day after the previous change, or gives a ramp shorter than a day; a stop freezes the value in force at that moment.",
  ["histories", "inputs"],
  "All sequences of start, stop and time advance, for every start value, target and ramp length.",
  "Unit tests sample one ramp up and one ramp down at a few fixed timestamps.",
  [f"{STB}/contract.rs", f"{STB}/utils.rs", f"{STB}/state.rs"],
  [("start_changing_amp / stop_changing_amp", f"{STB}/contract.rs"), ("compute_current_amp", f"{STB}/utils.rs")],
  [("init_amp, next_amp and their times", "current ramp", f"{STB}/state.rs")], ["Config query params.amp"])

p("C05", "Concentrated pool: no history of operations dilutes the LP share value",
  "Over any history of deposits (balanced, imbalanced or one-sided), trades in both directions, withdrawals and donations, no operation lowers the value of one LP share (the curve's invariant of the reserves at the price scale and amplification before the operation, per share) beyond the solver's precision; as long as amplification and gamma were never ramped a share is never worth less than initially, also after re-pegs. A re-peg never spends more than half of the profit the pool has made since it started, a trade pays out no more than the curve allows, a deposit mints no more than the curve allows, and outside of ramps an operation that lowers the share value is refused. Withdrawals pay the pro-rata share of both reserves, rounded down, short of at most one share's worth and never more. The quoted share value is that of the reserves.",
  ["histories", "inputs", "configurations"],
  "All parameter sets within the accepted ranges, asset precisions, price scales, imbalances, operation sequences and time gaps, for pools large enough that the solver's tolerance is small against them.",
  "Existing unit tests check the math on a handful of points; the integration tests that run the contract do not build offline. Solver convergence and re-peg safety are statements over histories.",
  [f"{PCL}/contract.rs", f"{PCL}/utils.rs", f"{PCC}/math/math_decimal.rs", f"{PCC}/state.rs", f"{PCC}/utils.rs"],
  [("calc_d / newton_y / get_xcp", f"{PCC}/math"), ("update_price (re-peg) and profit accounting", f"{PCC}/state.rs"), ("provide fee, share computation", f"{PCC}/utils.rs, {PCL}/contract.rs")],
  [("price state", "price scale, oracle price, xcp profit", f"{PCC}/state.rs")], ["LpPrice / Config queries", "reserves, LP supply, balances"])

p("C06", "Concentrated pool: parameters change only within bounds and gradually",
  "After any sequence of owner updates the pool's fees, fee slope, re-peg thresholds and moving-average time are within their documented bounds, and the minimum fee never exceeds the maximum fee. Amplification and gamma change only by a promotion whose targets are within bounds, differ by at most the permitted factor, and take at least the minimum time; during it both move linearly in time from the old to the new value and stay at the new value afterwards, and stopping freezes the values in force. The integrator's fee share is between 1 and 1000 bps. Only the pool's owner can make any of these changes.",
  ["histories", "inputs", "configurations"],
  "All sequences of updates, promotions, stops and time advances, with in-range, out-of-range and partial updates.",
  "Tests sample a few parameter values; partial updates in combination with the stored state are not enumerated.",
  [f"{PCC}/state.rs", f"{PCL}/contract.rs"],
  [("PoolParams::update_params", f"{PCC}/state.rs"), ("PoolState::promote_params / stop_promotion / get_amp_gamma", f"{PCC}/state.rs")],
  None, ["Config query params"])

p("C07", "Sale-tax pool: exactly the configured tax is taken, once, from taxed sales only",
  "Selling an asset with a configured tax sends floor(offer * tax rate) of it to that tax's recipient and trades the remainder exactly as the constant-product curve prescribes; assets without a tax are traded untaxed. Liquidity operations are never taxed, and the simulation of a sale quotes the amount after tax. Only the tax administrator can change the taxes or hand over that role, and a tax above 50% is rejected.",
  ["histories", "inputs", "configurations"],
  "All tax configurations, offers, reserve states, fee settings, and interleaved configuration changes by every kind of caller.",
  "Unit tests use one configuration against a mocked querier.",
  [f"{TAX}/contract.rs", f"{TAX}/state.rs", f"{PKG}/pair_xyk_sale_tax.rs"],
  [("swap with tax", f"{TAX}/contract.rs"), ("TaxConfigs::check / apply", f"{PKG}/pair_xyk_sale_tax.rs"), ("update_config", f"{TAX}/contract.rs")],
  None, ["balances of tax recipient, trader, pool"])

p("C08", "Transmuter pool: assets exchange one to one and stay fully redeemable",
  "A trade pays exactly the offered amount converted between the two assets' precisions (rounded down) with no fee and fails if the pool cannot pay it. LP shares outstanding never exceed the pool's total holdings in the common precision, deposits mint exactly the normalized sum deposited, a proportional withdrawal pays the pro-rata share of every asset (as an 18-digit ratio, rounded down), and a withdrawal of chosen amounts burns shares worth at least what it pays and returns the rest.",
  ["histories", "inputs", "configurations"],
  "Two to five assets with any precisions from 0 to 18, all sequences of deposits, trades and both kinds of withdrawal.",
  "No transmuter test builds offline.",
  [f"{TRM}/contract.rs", f"{TRM}/utils.rs", f"{TRM}/state.rs", f"{TRM}/queries.rs"],
  [("swap / provide / withdraw", f"{TRM}/contract.rs"), ("Normalizer for precision", f"{TRM}/state.rs")],
  None, ["LP supply, reserves, balances, simulations"])

p("C09", "ASTRO/xASTRO pool: swaps are exactly staking and unstaking",
  "Swapping ASTRO in this pool gives the receiver exactly the xASTRO that staking the same amount would mint at that moment, and swapping xASTRO gives exactly the ASTRO that unstaking would return; the pool keeps nothing and takes no fee. Its quotes equal what execution then pays, and liquidity can never be provided or withdrawn.",
  ["histories", "inputs"],
  "All staking states (including fresh, donated-to and emptied), amounts, receivers and interleavings with direct staking.",
  "No pair_xastro test builds offline.",
  [f"{PXA}/contract.rs", f"{PXA}/queries.rs", f"{PXA}/state.rs", f"{STK}/contract.rs"],
  [("swap via Enter/Leave", f"{PXA}/contract.rs"), ("predict_stake / predict_unstake", f"{PXA}/queries.rs")],
  None, ["balances", "Simulation query"])

p("C10", "Traders and LPs never get worse terms than they declared acceptable",
  "A swap that succeeds in a constant-product, sale-tax, stableswap or concentrated pool respects the declared maximum spread (else the default: 0.5%, in concentrated pools 5%) against the declared belief price, else against the pool's own reference price; limits are compared before the commission (in concentrated pools after it), and a maximum above 50% is rejected. A deposit that succeeds mints at least the declared minimum of LP tokens in every pool type, and is within the declared (or default) slippage tolerance in constant-product and sale-tax pools and, when it is not in the proportion of the reserves, in concentrated pools. A withdrawal that succeeds pays at least every declared minimum of assets, whatever their order, and one that names an asset the pool does not have is rejected. Conversely, an operation within its declared limits is not rejected because of them.",
  ["inputs", "histories", "configurations"],
  "All pool types, reserve states, limits around the achievable value and operation sequences.",
  "Tests sample a few limits on a few pools; some pool types silently accept an option without any test exercising it.",
  [f"{PAIR}/contract.rs", f"{STB}/contract.rs", f"{PCL}/contract.rs", f"{TAX}/contract.rs", f"{PCC}/utils.rs"],
  [("assert_max_spread / assert_slippage_tolerance", f"{PAIR}/contract.rs"), ("min_lp_to_receive, min_assets_to_receive", "pair contracts")],
  None, ["success/failure of execute and balance deltas"])

p("C11", "Pool quotes equal execution",
  "At any reachable state of any pool type, the amounts quoted by the swap simulation equal those paid by executing the same swap, the quoted deposit and withdrawal amounts equal what executing them mints and pays, and the share query equals the withdrawal. A trade, deposit or withdrawal that is quoted is not refused (with the loosest limits, amounts that are not zero, and reserves within the contracts' arithmetic). A reverse simulation's offer, when executed, yields at least the asked amount, up to the rounding of fee inversion and the resolution of the pool's solver, and except in concentrated pools (which quote with their highest fee) it is not more than needed beyond the same rounding.",
  ["histories", "inputs", "configurations"],
  "All pool types, fee settings, precisions, reserve states and amounts.",
  "Tests compare a few hand-picked values; quotes and execution are separate code paths that must agree everywhere.",
  [f"{PAIR}/contract.rs", f"{STB}/contract.rs", f"{PCL}/queries.rs", f"{TAX}/contract.rs", f"{TRM}/queries.rs"],
  [("query_simulation / query_reverse_simulation", "pair contracts"), ("simulate_provide / simulate_withdraw", "pair contracts")],
  None, ["query results versus balance deltas"])

p("C12", "Pools credit only assets actually received, and only their own assets",
  "A deposit or swap succeeds only if the native coins attached are exactly the ones declared and the cw20 tokens were really transferred by the caller; declaring more, declaring a foreign asset (or one of another kind that is spelled like a pool asset), attaching undeclared coins, or invoking a token hook from a contract that is not one of the pool's tokens is rejected with all balances unchanged. LP tokens are burned only when they are this pool's own.",
  ["inputs", "histories"],
  "All pool types, all malformed combinations of declared and attached funds, hook senders and duplicated or missing assets.",
  "Tests sample one or two mismatches for one pool.",
  [f"{PKG}/asset.rs", f"{PAIR}/contract.rs", f"{STB}/contract.rs", f"{PCL}/contract.rs", f"{TRM}/contract.rs"],
  [("assert_coins_properly_sent / assert_sent_native_token_balance", f"{PKG}/asset.rs"), ("receive_cw20 authentication", "pair contracts")],
  None, ["execute result and all balances"])

p("C13", "Cumulative prices integrate the pool price over time",
  "The cumulative price counters of constant-product pools advance between two pool operations by exactly the spot price implied by the reserves in force times the elapsed seconds, for both directions (as long as the ratio of the reserves is representable), wrapping around rather than failing; they never advance twice for the same second, and the query extrapolates the same way to the current time. Stableswap pools accumulate the quoted one-unit swap price likewise, and concentrated pools the price of a small purchase at the reserves before a trade, or of the last trade when the operation is a deposit.",
  ["histories", "inputs"],
  "All sequences of operations and time gaps, reserve magnitudes and counters near wrap-around.",
  "Unit tests check a few fixed accumulations; history and wrap-around combinations are unreachable by examples.",
  [f"{PAIR}/contract.rs", f"{TAX}/contract.rs", f"{STB}/contract.rs", f"{STB}/utils.rs"],
  [("accumulate_prices", f"{PAIR}/contract.rs, {STB}/utils.rs"), ("query_cumulative_prices", "pair contracts")],
  None, ["CumulativePrices query"])

p("C14", "Price observations: the time series answers with the true moving average",
  "An observation query for a past moment returns the linear interpolation in time between the two recorded averages around it, the recorded value at a recorded moment, and the newest or oldest recorded value at the ends of the series; it fails only when the pool has no observation or the moment is before the oldest one still kept. The recorded averages are the running averages of the trades' effective prices, with all trades of one block forming one observation, and queries never fail because the buffer has wrapped around.",
  ["histories", "inputs"],
  "All trade histories and block spacings including several trades per block and more observations than the buffer holds, and all query times.",
  "Unit tests use a handful of records in a small buffer.",
  [f"{PKG}/observation.rs", "packages/circular_buffer/src/lib.rs", f"{STB}/utils.rs", f"{PCL}/utils.rs", f"{PCC}/state.rs"],
  [("query_observation / binary_search", f"{PKG}/observation.rs"), ("accumulate_swap_sizes / PrecommitObservation", f"{PKG}/observation.rs, {STB}/utils.rs, {PCL}/utils.rs")],
  None, ["Observe query"])

p("C15", "Circular buffer keeps exactly the latest values in order",
  "After any sequence of pushes, multi-pushes and re-initialisations, the circular buffer returns exactly the most recent values up to its capacity at the indexes they were written to, fails for indexes never written, and reports the position and capacity that follow from the number of pushes.",
  ["histories", "inputs", "configurations"],
  "All capacities and push sequences, including pushing more values than the capacity at once, and reads with limits, ascending and descending.",
  "Tests push a few values to a 5- or 10-slot buffer.",
  ["packages/circular_buffer/src/lib.rs"],
  [("BufferManager::push / push_many / commit / read", "packages/circular_buffer/src/lib.rs")],
  None, ["read results"])

p("C16", "Factory: one registered pool per asset set, always findable",
  "For any history of creations and deregistrations, at most one registered pool exists for a set of assets regardless of their order, looking a set up returns the pool created for exactly that set (and only while registered), distinct sets never interfere, and paging through the list with any page size returns every registered pool exactly once and nothing else. A pool's type can be created only while its configuration is enabled, and by the owner only if it is permissioned.",
  ["histories", "inputs"],
  "All sequences of create, deregister and configuration changes over overlapping asset sets and adversarial denoms, with any page sizes.",
  "Unit tests create one or two pairs with a mocked reply.",
  ["contracts/factory/src/contract.rs", "contracts/factory/src/state.rs", f"{PKG}/factory.rs"],
  [("pair_key, PAIRS, read_pairs", "contracts/factory/src/state.rs"), ("execute_create_pair / reply / deregister", "contracts/factory/src/contract.rs")],
  [("PAIRS", "registered pools by asset set", "contracts/factory/src/state.rs")], ["Pair, Pairs queries"])

p("C17", "Factory: fee settings stay within bounds and reach every pool",
  "No sequence of messages leaves the factory with a pair configuration whose total fee or maker fee exceeds 100%, with duplicated pair types at instantiation, or changed by anyone but the owner. The fee query returns the configured rates and fee address for a type in force now, pools charge those rates on their next trade, and blacklisted types are exactly the disabled ones or those with incentives disabled.",
  ["histories", "inputs", "configurations"],
  "All sequences of configuration updates by all callers interleaved with trades.",
  "Tests sample a few updates.",
  ["contracts/factory/src/contract.rs", f"{PKG}/factory.rs", f"{PKG}/querier.rs"],
  [("PairConfig::valid_fee_bps", f"{PKG}/factory.rs"), ("execute_update_pair_config, query_fee_info", "contracts/factory/src/contract.rs")],
  None, ["Config, FeeInfo, BlacklistedPoolTypes queries", "maker fee received"])

p("C18", "Router: all-or-nothing multi-hop swaps with a guaranteed minimum",
  "A multi-hop swap that succeeds delivers to the receiver the composition of the hops' pool outputs on the whole offered amount, at least the declared minimum, and leaves the router and the intermediate holders with nothing; otherwise it fails and nothing moves. Malformed routes (empty, too long, disconnected, repeating an offer-to-ask step's own asset) are rejected, the internal steps cannot be invoked by outsiders, and forward and reverse simulations equal the composition of the pools' own quotes.",
  ["inputs", "histories", "configurations"],
  "All routes over mixed pool types and asset kinds, amounts, minimums around the achievable value, receivers, and pool states.",
  "The router integration tests do not build offline and sample a few routes.",
  ["contracts/router/src/contract.rs", "contracts/router/src/operations.rs", f"{PKG}/router.rs"],
  [("execute_swap_operations, assert_operations, reply", "contracts/router/src/contract.rs"), ("execute_swap_operation", "contracts/router/src/operations.rs")],
  None, ["receiver, sender, router balances", "simulate queries"])

p("C19", "Incentives: staked LP is always redeemable and every promised reward is funded",
  "At every point of any history the incentives contract holds at least the sum of all users' staked LP tokens and, of each external reward token, at least the sum of all users' pending rewards plus orphaned and not-yet-distributed rewards; every user can always withdraw the whole stake. The total of a reward ever paid out, to stakers, orphaned-reward claims and removals, never exceeds what was deposited for it.",
  ["histories", "inputs"],
  "All sequences of deposits, withdrawals, claims, schedule registrations, removals, deactivations, blocked tokens, orphaned-reward claims and time advances by several users over several pools and reward tokens.",
  "The incentives integration tests do not build offline; solvency is a statement over all histories including same-block coincidences.",
  [f"{INC}/state.rs", f"{INC}/execute.rs", f"{INC}/utils.rs"],
  [("PoolInfo::update_rewards / claim_finished / deregister", f"{INC}/state.rs"), ("deposit / withdraw / claim", f"{INC}/execute.rs, {INC}/utils.rs")],
  [("FINISHED_REWARDS_INDEXES, ORPHANED_REWARDS", "settled schedules", f"{INC}/state.rs")], ["balances", "PendingRewards, Deposit queries"])

p("C20", "Incentives: rewards accrue per second in proportion to stake",
  "Each user's reward from each pool equals, up to integer rounding, the sum over time of the pool's reward rate times the user's share of the stake in force, for protocol emissions by allocation points and for external schedules between their start and end; it does not depend on how often anyone claims. What accrues while nobody is staked goes to those staked at the end of the block in which staking resumes or, if an external reward ends or is removed before that, to the owner's designated receiver, each once. Claiming pays exactly what the pending-reward query reports and pays the same seconds only once.",
  ["histories", "inputs"],
  "All histories of stake changes, claims and schedules by several users over several pools, with several events in one block and long idle gaps.",
  "Same as above: only two helper functions are unit-tested offline.",
  [f"{INC}/state.rs", f"{INC}/execute.rs", f"{INC}/utils.rs", f"{INC}/query.rs"],
  [("reward indexes", f"{INC}/state.rs"), ("calc_pending / claim_rewards", f"{INC}/state.rs, {INC}/utils.rs")],
  None, ["balance deltas on claim", "PendingRewards query"])

p("C21", "Incentives: only eligible pools and funded schedules ever emit",
  "The emission of the protocol token is divided among exactly the active pools in proportion to their allocation points and never exceeds the configured rate; deregistered pools and pools holding blocked tokens stop receiving it and cannot be re-enabled while ineligible. External schedules are accepted only when fully funded, within the permitted duration, with a rate of at least one unit per second, for a non-blocked token in a registered pool with fewer than the maximum number of reward tokens, and with the incentivization fee paid for a new token.",
  ["histories", "inputs"],
  "All sequences of pool setup, deactivation, blocking, unblocking, schedule registration by all kinds of callers with all kinds of funds.",
  "No running test covers these paths.",
  [f"{INC}/execute.rs", f"{INC}/utils.rs", f"{INC}/state.rs", f"{PKG}/incentives.rs"],
  [("setup_pools, deactivate_pool, update_blocked_pool_tokens", f"{INC}/execute.rs"), ("InputSchedule validation, incentivize", f"{INC}/utils.rs, {PKG}/incentives.rs")],
  None, ["ActivePools, RewardInfo, PoolInfo queries"])

p("C22", "Vesting: nobody receives more, or earlier, than their schedule unlocks",
  "At any time an account's available amount equals, summed over its schedules, the starting amount once the start is reached plus the linearly unlocked part of the rest (all of it after the end), minus what was already claimed; claims pay at most that and exactly what was asked. Schedules are accepted only from the owner and fully funded, the contract always holds at least everything registered and not yet released, and the owner can withdraw early only from a single active schedule and only what has not been unlocked.",
  ["histories", "inputs"],
  "All schedule sets per account, claim amounts and times, re-registrations, and owner withdrawals, with native and cw20 tokens.",
  "The integration tests sample a few schedules at a few times.",
  [f"{VST}/contract.rs", f"{VST}/state.rs", f"{PKG}/vesting.rs"],
  [("compute_available_amount / claim", f"{VST}/contract.rs"), ("register_vesting_accounts, withdraw_from_active_schedule", f"{VST}/contract.rs")],
  None, ["AvailableAmount, VestingAccount queries, balances"])

p("C23", "Staking: the xASTRO exchange rate never decreases",
  "Over any history of staking, unstaking and donations by any accounts, the ASTRO backing per outstanding xASTRO never decreases, staking mints exactly floor(amount * shares / deposit) and unstaking pays exactly floor(amount * deposit / shares), and stake followed by unstake never profits. The first stake locks 1000 xASTRO forever, zero-value stakes are rejected, and the contract always holds the ASTRO that the total-deposit query reports.",
  ["histories", "inputs"],
  "All sequences of stake, unstake, donation with all magnitudes, receivers and hooks.",
  "The staking integration tests do not build offline.",
  [f"{STK}/contract.rs", f"{PKG}/staking.rs"],
  [("execute_enter / execute_leave", f"{STK}/contract.rs"), ("MINIMUM_STAKE_AMOUNT", f"{STK}/contract.rs")],
  None, ["balances, TotalShares, TotalDeposit"])

p("C24", "Historical balances: the tracker replays every account's past exactly",
  "For a token with the tracker installed, the balance of an account at a past unit of time (block height or second) equals its bank balance at the beginning of that unit, however many transfers, mints and burns happened within the same unit, and the current balance is returned for the present; the total supply query answers likewise from the latest recorded supply. A pool created with balance tracking installs such a tracker, by block height, on its own LP token. Transfers of other denoms and calls by anyone but the chain are rejected and change nothing.",
  ["histories", "inputs"],
  "All sequences of transfers (including to oneself and to the module), mints, burns and time advances among several accounts, with tracking by height and by time, and all query points.",
  "The tracker's tests do not build offline and cover one fixed history.",
  ["contracts/periphery/tokenfactory_tracker/src/contract.rs", "contracts/periphery/tokenfactory_tracker/src/query.rs", "contracts/periphery/tokenfactory_tracker/src/state.rs"],
  [("track_balances", "contracts/periphery/tokenfactory_tracker/src/contract.rs"), ("balance_at / total_supply_at", "contracts/periphery/tokenfactory_tracker/src/query.rs")],
  None, ["BalanceAt, TotalSupplyAt queries"])

p("C25", "xASTRO cw20: balances always sum to supply and history is answered exactly",
  "Over any history of transfers, sends, mints, burns and allowance operations the balances sum to the total supply, supply never exceeds the cap, only the minter mints or burns, and allowances bound what spenders move. The balance at a past block equals the balance before that block's first change, and the supply at a past block equals the supply at its end; paging through accounts or allowances returns each exactly once.",
  ["histories", "inputs"],
  "All operation sequences and block patterns by several accounts and spenders with expiring allowances.",
  "Unit tests sample single operations.",
  [f"{XAT}/contract.rs", f"{XAT}/state.rs"],
  [("execute_* with snapshot storage", f"{XAT}/contract.rs"), ("balance and supply snapshots", f"{XAT}/state.rs")],
  None, ["Balance, BalanceAt, TokenInfo, TotalSupplyAt, AllAccounts queries"])

p("C26", "Maker: collected ASTRO is distributed exactly, nothing is lost",
  "When the fee collector distributes its ASTRO, the second receiver gets floor(amount * cut%), governance floor of its percentage of the remainder, the development fund exactly what swapping its configured share brings, and stakers everything left, so that the parts add up to the distributed amount and nothing leaves to anyone else. Before rewards are enabled the ASTRO stays in the collector; afterwards the amount accumulated before (as of the last collection) is released at floor(amount / blocks) per block and never faster. (Shares that add up to more than everything are unspecified.)",
  ["histories", "inputs", "configurations"],
  "All combinations of percentages, receivers, native and cw20 ASTRO, amounts, block gaps and the enabling moment.",
  "Unit tests cover instantiation and bridges; the integration tests do not build offline.",
  [f"{MKR}/contract.rs", f"{MKR}/utils.rs", f"{PKG}/maker.rs"],
  [("distribute / distribute_astro", f"{MKR}/contract.rs")],
  None, ["balances of all receivers and the collector"])

p("C27", "Maker: anyone can trigger collection, nobody can divert it",
  "Collection swaps each requested fee token, at most up to its limit, to ASTRO along the configured bridges and pools (tokens reached on the way are swapped on in full) and then distributes, is limited by the cooldown and rejects duplicates, and the internal steps are callable only by the collector itself. Seizing moves only whitelisted assets, only to the configured receiver and within the limit, and no message from a non-owner changes routes, bridges, shares or receivers.",
  ["histories", "inputs", "configurations"],
  "All asset lists with limits, bridge configurations, callers, cooldowns and block times.",
  "Unit tests do not reach the swap paths.",
  [f"{MKR}/contract.rs", f"{MKR}/utils.rs"],
  [("collect / swap_bridge_assets / seize", f"{MKR}/contract.rs"), ("validate_bridge, cooldown", f"{MKR}/utils.rs, {MKR}/contract.rs")],
  None, ["balances, query results, authorization failures"])

p("C28", "Oracle: answers the pair's time-weighted average of the last full period",
  "After an update, the oracle's answer for an amount is that amount times the difference of the pair's cumulative prices between the two latest recorded moments divided by the seconds between them, scaled by the price precision and rounded down, also when the counters wrapped in between; while that average is zero (before the first update) it answers the pool's current quote. An update is rejected before a full period has elapsed since the previous one, and only the pair's own assets can be consulted.",
  ["histories", "inputs"],
  "All trade histories, update times and amounts, with counters wrapping around.",
  "The unit test uses one fixed mock sequence.",
  ["contracts/periphery/oracle/src/contract.rs"],
  [("update / consult", "contracts/periphery/oracle/src/contract.rs")],
  None, ["Consult query"])

p("C29", "Ownership changes hands only by an unexpired proposal that its target accepts",
  "In every contract with an owner, ownership moves only if the current owner proposed that address, the proposal has been neither dropped nor replaced and has not expired, and the proposed address itself claims it; the accepted lifetime is bounded, the current owner cannot be proposed, and a claimed, dropped or expired proposal cannot be used again.",
  ["histories", "inputs"],
  "All sequences of propose, drop, claim and time advance by all callers, in every owned contract.",
  "Tests walk one happy path per contract.",
  [f"{PKG}/common.rs", "contracts/factory/src/contract.rs", f"{VST}/contract.rs", f"{INC}/execute.rs", f"{MKR}/contract.rs"],
  [("propose_new_owner / drop_ownership_proposal / claim_ownership", f"{PKG}/common.rs")],
  None, ["Config owner after each step"])

p("C30", "Privileged operations are refused to everyone else and then change nothing",
  "Every administrative message of every contract (configuration, fees, pools, rewards, routes, schedules, ownership, callbacks reserved to the contract itself or to its factory) succeeds only for the role it is reserved to. For any other caller, at any point of any history, it fails and leaves all balances and all configuration unchanged.",
  ["inputs", "histories", "configurations"],
  "All contracts, all privileged messages with valid payloads, and all other callers, including users, LPs, other contracts and owners of other contracts.",
  "Tests try one wrong caller for some of the messages.",
  ["contracts/factory/src/contract.rs", f"{PAIR}/contract.rs", f"{STB}/contract.rs", f"{PCL}/contract.rs", f"{INC}/execute.rs", f"{MKR}/contract.rs", f"{VST}/contract.rs", "contracts/router/src/contract.rs"],
  [("sender checks in each execute handler", "all contracts")],
  None, ["execute result and full state"])

p("C31", "ASTRO converter: old tokens convert one to one and cannot be forged",
  "Converting old ASTRO pays exactly the same amount of new ASTRO, only for tokens of the configured old denomination or cw20 really received, to the sender or chosen receiver; old tokens received can only be burned or shipped for burning in full, never returned to anyone, and the conversion pool forwards to the converter with the same one-to-one result. The converter's new ASTRO decreases only by conversions.",
  ["histories", "inputs", "configurations"],
  "All amounts, sources (native or cw20), receivers, forged hooks and sequences of conversions and burns.",
  "Only a few unit tests with fixed values exist.",
  ["contracts/periphery/astro_converter/src/contract.rs", f"{PCON}/contract.rs", f"{PCON}/migration.rs"],
  [("convert / cw20_receive / burn / ibc_transfer_for_burning", "contracts/periphery/astro_converter/src/contract.rs"), ("swap forwarding", f"{PCON}/contract.rs")],
  None, ["balances and emitted messages"])

p("C32", "Whitelist wallet: only admins act, and a frozen list stays frozen",
  "The shared wallet executes messages only for its current admins, the admin list changes only by an admin while it is mutable, and after freezing no sequence of messages by anyone changes it. The can-execute query agrees with what execution does.",
  ["histories", "inputs"],
  "All sequences of execute, update and freeze by admins, former admins and strangers.",
  "No running test.",
  ["contracts/whitelist/src/contract.rs"],
  [("admin checks", "contracts/whitelist/src/contract.rs")],
  None, ["execute result, AdminList query"])

p("C33", "Fee granter: grants are exact, unique and revocable only by its operators",
  "Only the owner or an admin can grant, revoke or move funds; a grant names exactly the requested grantee and allowance and, unless funded by the contract, is accepted only with exactly that coin attached; a grantee holds at most one grant and can be granted again after revocation. The grant queries list exactly the grants in force, and only the owner changes the admins.",
  ["histories", "inputs"],
  "All sequences of grant, revoke, transfer and admin updates by all callers with all kinds of attached funds.",
  "The integration test samples one path.",
  ["contracts/periphery/fee_granter/src/contract.rs", "contracts/periphery/fee_granter/src/query.rs", f"{PKG}/fee_granter.rs"],
  [("grant / revoke / transfer_coins", "contracts/periphery/fee_granter/src/contract.rs")],
  None, ["emitted chain messages, queries, balances"])

p("C34", "Coin registry: recorded precisions change only by the owner",
  "A native coin's precision, once recorded, changes or disappears only by the owner; anyone may record a coin not yet recorded but only while holding it, and gets the coin back. Recorded precisions are between 0 and 18, and the queries return exactly what was recorded with every coin listed exactly once when paging.",
  ["histories", "inputs"],
  "All sequences of add, register and remove with duplicates, bad precisions and attached funds by all callers.",
  "Integration tests sample a few calls.",
  ["contracts/periphery/native_coin_registry/src/contract.rs"],
  [("add / register / remove", "contracts/periphery/native_coin_registry/src/contract.rs")],
  None, ["NativeToken(s) queries, balances"])

p("C35", "Pools with balance tracking answer past reserves exactly",
  "A pool with balance tracking (chosen when it is created) answers, for any block, each asset's reserve as the last trade or liquidity operation before that block left it (zero before the first, nothing before its creation), however many operations happened within one block; what somebody sends to the pool in between counts from the next operation on. A pool without tracking answers nothing.",
  ["histories", "inputs"],
  "All sequences of pool operations and block advances, all query heights, in the pool types that support tracking.",
  "Tests check one fixed history.",
  [f"{PAIR}/contract.rs", f"{TAX}/contract.rs", f"{PCL}/contract.rs"],
  [("BALANCES snapshot", f"{PAIR}/state.rs, {TAX}/state.rs, {PCC}/../state")],
  None, ["AssetBalanceAt query"])

p("C36", "Stable and concentrated pools split swap fees exactly as configured",
  "On every swap in a stableswap or concentrated pool the integrator's fee share is floor(commission * share), the protocol's cut is the maker percentage of what remains, rounded down (in concentrated pools, which split before rounding to units, either may be one unit off), paid to the configured address, and the rest of the commission stays with the liquidity providers; with no fee address or a zero maker rate the protocol receives nothing. An owner can set a fee share only between 1 and 1000 basis points. The commission is the configured fee for stableswap pools and lies between the minimum and maximum fee for concentrated pools, and no other account's balance changes.",
  ["histories", "inputs", "configurations"],
  "All fee configurations, precisions, pool states and trade sizes.",
  "No running test executes these swaps.",
  [f"{STB}/contract.rs", f"{PCL}/contract.rs", f"{PCC}/utils.rs"],
  [("swap fee handling", f"{STB}/contract.rs, {PCL}/contract.rs")],
  None, ["balances of fee address, share recipient, pool; swap event"])

p("C37", "Signed fixed-point and precision helpers agree with exact arithmetic",
  "Sums, differences, products, quotients and conversions of signed 256-bit fixed-point numbers equal exact rational arithmetic truncated toward zero, and conversion of an amount between two precisions is exact when scaling up and rounds down when scaling down, round-tripping without loss when scaling up first.",
  ["inputs"],
  "All operands and precisions for which the result is representable.",
  "Tests use a few constants.",
  [f"{PCC}/math/signed_decimal.rs", f"{PKG}/cosmwasm_ext.rs", f"{PKG}/asset.rs"],
  [("SignedDecimal256", f"{PCC}/math/signed_decimal.rs"), ("IntegerToDecimal, DecimalToInteger, AbsDiff, ConvertInto", f"{PKG}/cosmwasm_ext.rs")],
  None, ["return values"])

p("C38", "Concentrated pool: trades and deposits follow the curve and the dynamic fee",
  "A swap in a concentrated pool takes out of the ask reserve what leaves the curve's invariant (amplification and gamma in force, second reserve valued at the price scale) unchanged, and charges on it a fee between the minimum and the maximum fee, set by the fee slope and the balance of the reserves after the trade; out of the fee the integrator's share is taken first and the protocol's maker cut of the remainder next, everything else stays in the pool. The first deposit makes invariant / (2 sqrt(price scale)) shares, 1000 units of which stay locked; later deposits make shares in proportion to the growth of the invariant, less a fee on the imbalanced part of the deposit.",
  ["inputs", "histories", "configurations"],
  "All fee and curve parameters as deployed pools have them, asset precisions, price scales, imbalances up to 1:1000, trade sizes from dust to many times the pool, ramps of amplification and gamma, re-pegs, fee configurations and preceding histories.",
  "Unit tests of the math use a handful of points and compare with recorded outputs; no test running the contract builds offline.",
  [f"{PCC}/utils.rs", f"{PCC}/state.rs", f"{PCC}/math/math_decimal.rs", f"{PCL}/contract.rs", f"{PCL}/utils.rs"],
  [("compute_swap", f"{PCC}/utils.rs"), ("PoolParams::fee", f"{PCC}/state.rs"), ("calculate_shares / calc_provide_fee", f"{PCL}/utils.rs, {PCC}/utils.rs"), ("newton_d / newton_y", f"{PCC}/math/math_decimal.rs")],
  None, ["swap attributes and payments", "LP supply"])

p("C39", "Concentrated pool: re-pegs follow the averaged trade price, out of profit only",
  "The price scale changes in trades and deposits only. The pool's oracle price is an exponential moving average (with the configured half-time) of the last price of the blocks with trades or imbalanced deposits, ignoring amounts below 0.00001; a trade's reported spread is measured against it. When the oracle price is apart from the price scale by at least the minimum step and the profit retained exceeds half of the profit made by the configured threshold, the price scale moves towards it by the minimum step or a tenth of the distance, whichever is more, provided that afterwards more than half of the profit made is retained; otherwise it stays. A trade or deposit that would lower the share value is refused unless a ramp is under way, and re-pegging never makes an otherwise valid trade, deposit or withdrawal fail.",
  ["histories", "inputs", "configurations"],
  "All parameters as deployed pools have them including zero thresholds and minimum steps, sequences of trades, deposits, withdrawals, donations, parameter updates and ramps, and time gaps from none to many half-times.",
  "The mechanism is a recurrence over the whole history of trades and block times; the recorded scenarios of existing tests do not build offline and cannot cover it.",
  [f"{PCC}/state.rs", f"{PCC}/utils.rs", f"{PCC}/math/math_decimal.rs", f"{PCL}/contract.rs", f"{PCL}/utils.rs"],
  [("PoolState::update_price", f"{PCC}/state.rs"), ("half_float_pow", f"{PCC}/math/math_decimal.rs"), ("SwapResult::calc_last_price, last price of deposits", f"{PCC}/utils.rs, {PCL}/utils.rs")],
  [("price state", "oracle price, last price, price scale, profits", f"{PCC}/state.rs")], ["Config query (price scale)", "swap attribute spread_amount", "success or failure of operations"])

p("C40", "Auto-staked deposits: every share is staked for the receiver, none is lost",
  "A deposit that asks for automatic staking takes the same amounts and makes the same number of LP shares as the same deposit without it, is refused exactly when that one is, and all the shares made for the depositor are then staked in the incentives contract in the name of the receiver (else the depositor), who can unstake them at once; nobody's freely held shares or other stakes change. While no incentives contract is configured, and in transmuter pools, which do not support it, such a deposit is refused and changes nothing.",
  ["inputs", "histories", "configurations"],
  "Constant-product, sale-tax, stableswap, concentrated and transmuter pools, first and later deposits, own and other receivers, before and after an incentives contract is configured, in between trades, withdrawals and unstaking.",
  "Existing tests stake one deposit of one pool; that sameness with the plain deposit holds in every state, and that the stake lands with the right account, is a relation over all inputs.",
  [f"{PAIR}/contract.rs", f"{STB}/utils.rs", f"{PCL}/contract.rs", f"{TAX}/contract.rs", f"{TRM}/contract.rs", f"{INC}/execute.rs"],
  [("mint_liquidity_token_message", f"{PAIR}/contract.rs, {STB}/utils.rs, {PCC}/utils.rs"), ("deposit", f"{INC}/execute.rs")],
  None, ["LP balances and supply", "Deposit query of the incentives contract", "balances"])

p("C41", "Incentives: listings report every staker, pool and schedule exactly once",
  "Paging with any page size through the stakers of a pool, the pools ever incentivized, the blocked tokens or the external schedules of a reward never yields more entries on a page than asked for, ends, and together reports exactly what is in force: every account with a stake and its amount, every known pool, every blocked token, and for a reward consecutive periods from now until its last end with the rate funded for each. The total stake reported for a pool is the sum of its stakes.",
  ["histories", "inputs"],
  "All histories of stakes, schedules (overlapping, in several pools), removals, blocking and time advances, read with small and default page sizes after every step.",
  "The incentives integration tests do not build offline; listings have to agree with the state after every history.",
  [f"{INC}/query.rs", f"{INC}/state.rs"],
  [("list_pool_stakers", f"{INC}/state.rs"), ("list_pools, query_blocked_tokens, query_external_reward_schedules", f"{INC}/query.rs")],
  None, ["PoolStakers, ListPools, BlockedTokensList, ExternalRewardSchedules, PoolInfo queries"])

p("C42", "A settings update applies exactly the given values and changes nothing else",
  "Whenever the factory, the incentives contract, the maker, a pool (fee share, sale tax) or the xASTRO token accepts a settings message from the account entitled to it, every field given in the message reads back as given and every other setting of every contract is as before. It is accepted exactly when all given values are within their bounds (fees of a pair type up to 100%, fee share 0.01% to 10%, sale tax up to 50% on an asset of the pool, reward transfer gas limit 400000 to 1500000, governance percent up to 100, maximum spread above 0 and up to 50%, second receiver's cut 1 to 50 percent, collect cooldown 30 to 600 seconds, dev fund share above 0 and up to 1 with a pool from the protocol token to its asset), and when refused nothing changes.",
  ["inputs", "histories", "configurations"],
  "All subsets of fields with values in, at and beyond their bounds, in any sequence, on all these contracts at once.",
  "Unit tests set most fields once, one at a time; that no combination of given and omitted fields disturbs another setting is a statement about all of them.",
  ["contracts/factory/src/contract.rs", f"{INC}/execute.rs", "contracts/tokenomics/maker/src/contract.rs", "contracts/tokenomics/maker/src/utils.rs", f"{PAIR}/contract.rs", f"{STB}/contract.rs", f"{PCL}/contract.rs", f"{TAX}/contract.rs", f"{XAT}/contract.rs"],
  [("execute_update_config, update_pair_config, update_tracker_config", "contracts/factory/src/contract.rs"), ("update_config", f"{INC}/execute.rs, contracts/tokenomics/maker/src/contract.rs, pools"), ("update_second_receiver_cfg, validate_cooldown", "contracts/tokenomics/maker/src/utils.rs")],
  None, ["Config, TrackerConfig, QuerySeizeConfig, Bridges, MarketingInfo queries"])

p("C43", "Only sound pools can be created, and a new pool is what was asked for",
  "The factory creates a pool exactly when its assets are distinct and valid (a native denom of 3 to 128 permitted characters, a valid address), two of them (two to five native coins in a transmuter), their precisions are known where the pool type needs them, and the type's parameters are present and within their bounds (amplification 1 to 1000000; concentrated pool parameters in their ranges with the out fee above the mid fee and a positive price scale; sale taxes up to 50% on the pool's own native coins; balance tracking only if the factory knows a tracker); otherwise nothing changes. The new pool reports exactly the given assets in the given order, its type and parameters, is found under its assets in any order, has an LP token of its own with no supply, holds nothing, and accepts a first deposit.",
  ["inputs", "configurations"],
  "All pool types over lists of zero to six assets, valid or not, with parameters in, at and beyond their bounds.",
  "Unit tests create pools with good parameters and a few bad ones against mocked queriers.",
  ["contracts/factory/src/contract.rs", "contracts/factory/src/state.rs", f"{PAIR}/contract.rs", f"{STB}/contract.rs", f"{PCL}/contract.rs", f"{TAX}/contract.rs", f"{TRM}/contract.rs", f"{PKG}/asset.rs", "packages/astroport_pcl_common/src/state.rs"],
  [("execute_create_pair, check_asset_infos", "contracts/factory/src"), ("instantiate", "pool contracts"), ("PoolParams::update_params, AmpGamma::new", "packages/astroport_pcl_common/src/state.rs"), ("validate_native_denom", f"{PKG}/asset.rs")],
  None, ["CreatePair; Pair, Pool, Config queries"])

p("C44", "Staking reports past balances and supply as they were at that time",
  "The balance of an account and the total supply of xASTRO that staking reports for a past second are the ones that held at that second's beginning, after any history of staking (with or without a receiver or hook), unstaking, transfers between accounts, xASTRO or ASTRO sent to the staking contract; for the current second and without a time they are the current ones, and accounts and seconds before the first stake have nothing.",
  ["inputs", "histories"],
  "All histories of several accounts, several operations in one second included; every moment of a change and its neighbours are asked about.",
  "Unit tests ask about a handful of moments in one history.",
  ["contracts/tokenomics/staking/src/contract.rs"],
  [("execute_leave (snapshot of the supply), execute_enter", "contracts/tokenomics/staking/src/contract.rs"), ("QueryMsg::BalanceAt, QueryMsg::TotalSupplyAt", "contracts/tokenomics/staking/src/contract.rs")],
  None, ["Enter, EnterWithHook, Leave; BalanceAt, TotalSupplyAt queries"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
