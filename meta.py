#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: the one place where properties are stated and claimed."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
HIST = "Every sequence of the listed operations up to the depth given in DESIGN.md, by several participants, at several reserve sizes, fees and token decimals, including amounts at every boundary the code distinguishes"


def prop(id, title, statement, text, why, files, mech, over=("histories", "inputs"), observe="results of contract calls, token balances and query results", level="model_checking", note=None, technique=None, claim=True):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, observe=observe, level=level, note=note, technique=technique, claim=claim))


POOL = "contracts/pool/src/contract.rs"
STB = "contracts/pool_stable/src/contract.rs"
STAKE = "contracts/stake/src/contract.rs"
SR = "contracts/stake_rewards/src/contract.rs"
VEST = "contracts/vesting/src/contract.rs"
FAC = "contracts/factory/src/contract.rs"
HOP = "contracts/multihop/src/contract.rs"
TRD = "contracts/trader/src/contract.rs"
TOK = "contracts/token/src/contract.rs"

prop("P01", "Token: balances and allowances are an exact ledger",
     "Every mint, transfer, approval, delegated transfer and burn of the token contract changes balances and allowances by exactly the stated amount, or is refused without effect: negative amounts, amounts above the balance or the live allowance, and results beyond the integer range are refused. The owner signs transfers, burns and approvals, the spender signs delegated ones, and only the current administrator mints or hands over administration. An allowance counts until its expiration ledger, decreases by exactly what is spent, and is zero afterwards.",
     HIST + "; three holders and the administrator, ledgers passing in between", "The tests run a few fixed sequences with friendly amounts; nothing checks every operation after every other one against a reference ledger, or the edges of expiry and integer range.",
     [TOK, "contracts/token/src/allowance.rs", "contracts/token/src/balance.rs"], [("allowance accounting", "contracts/token/src/allowance.rs"), ("balance changes", "contracts/token/src/balance.rs")])

prop("P02", "Constant product pool: reserves, shares and holdings always agree",
     "After every operation the reserves the pool reports equal what arrived of deposits and swaps minus what was paid out, also if a token takes a fee of transfers (tokens sent to the pool unasked count from the next deposit on), and the pool never holds less of either token than its reserve. The total of shares the pool reports equals the supply of its share token (plus what holders destroyed at that token themselves); deposits mint, withdrawals burn, and swaps and transfers leave it alone. Tokens move only between the caller, the pool and the fee recipient, in exactly the amounts the call reports, and a refused call changes nothing.",
     HIST + "; deposits, swaps, withdrawals, unasked transfers, share transfers, staking and fee changes, also with tokens of which less arrives than is sent", "Unit tests look at balances after one or two calls; agreement after every interleaving of deposits, swaps, withdrawals and donations is not examined.",
     [POOL, "contracts/pool/src/storage.rs"], [("do_swap balance updates", POOL), ("provide/withdraw_liquidity bookkeeping", POOL), ("pool balances in storage", "contracts/pool/src/storage.rs")])

prop("P03", "Constant product pool: every swap is priced by the curve",
     "A swap of d of one token against reserves x and y pays out, before the fee, y*d/(x+d) rounded to one of its two neighbouring integers, and never more than the price before the trade gives (y*d/x rounded down). The fee is the configured number of basis points of that payout, rounded down, goes to the fee recipient in the received token, and the trader receives the rest. Every swap that stays within its limits is executed.",
     "Every offer from 1 up to a bound in both directions against several pools and fees, and sequences of swaps of all sizes relative to the reserves, for reserves from tens to 10^18 units", "Tests compare a handful of swaps with expected numbers; rounding in either direction at other reserves and fees is not covered.",
     [POOL], [("compute_swap", POOL), ("do_swap", POOL)], over=("inputs", "histories"))

prop("P04", "Constant product pool: nobody profits at the liquidity providers' expense",
     "A deposit mints the smaller of the two proportional shares rounded down (the first one the root of the product, of which the pool keeps 1000), and a withdrawal pays the burned proportion of both reserves, rounded down. No operation lowers the product of the reserves per share squared by more than the rounding of a single unit of each token. By any sequence of swaps, deposits and withdrawals alone a user cannot end up with more of one token without giving up the other, beyond one unit per operation.",
     HIST + "; every small deposit and withdrawal against fixed pools", "Tests exercise a few deposits with round numbers; sandwiching, donation and repeated rounding sequences are not enumerated.",
     [POOL], [("provide_liquidity", POOL), ("withdraw_liquidity", POOL)])

prop("P05", "Constant product pool: the caller's limits bind",
     "A swap, deposit or withdrawal executes only within the limits its caller gave: deadline, minimum received, accepted fee, spread and slippage tolerance, minimum amounts taken. Without limits the pool's own bounds apply, tolerances above those are refused, and amounts must be positive and of a token in the pool. Calls within all limits and balances are not refused.",
     "Every combination of two limits (in the thorough tier: of all limits) at, just inside and just outside their boundary, for swaps, deposits and withdrawals of several sizes, also after another trader moved the price", "Tests check single limits with comfortable margins; off-by-one at the boundaries and combinations are not covered.",
     [POOL, "packages/phoenix/src/utils.rs"], [("assert_max_spread", POOL), ("assert_slippage_tolerance", POOL), ("deadline checks", POOL)], over=("inputs", "histories"))

prop("P06", "Constant product pool: quotes are what execution gives",
     "A simulated swap names exactly the received amount, the commission and the spread that executing the same swap at once gives. A reverse simulation names an offer that brings the asked amount, while noticeably less (more than a unit of rounding) does not, and that offer's commission and spread. A share query names what withdrawing those shares pays, and the pool information reports current reserves, shares and fee.",
     "Every amount from 1 up to a bound in both directions, and quotes after every sequence of swaps, deposits, withdrawals and fee changes up to a depth", "Tests compare a few quotes with expected constants, not quotes with executions at all states.",
     [POOL], [("simulate_swap", POOL), ("simulate_reverse_swap", POOL), ("query_share", POOL)], over=("inputs", "histories"))

prop("P07", "Stable pool: reserves, shares and holdings always agree",
     "After every operation the reserves the stable pool reports equal what arrived of deposits and swaps minus what was paid out, also if a token takes a fee of transfers (tokens sent to it unasked count from the next deposit on), and it never holds less of either token than its reserve. The total of shares it reports equals the supply of its share token (plus what holders destroyed at that token themselves); deposits mint, withdrawals burn, and swaps and transfers leave it alone. Tokens move only between the caller, the pool and the fee recipient, in exactly the amounts the call reports, and a refused call changes nothing.",
     HIST + "; pools of equal and of different decimals, and of tokens of which less arrives than is sent", "Unit tests look at balances after one or two calls.",
     [STB, "contracts/pool_stable/src/storage.rs"], [("do_swap balance updates", STB), ("provide/withdraw_liquidity bookkeeping", STB)])

prop("P08", "Stable pool: every swap is priced by the invariant",
     "A swap in a stable pool never pays more than the amplified invariant of its reserves allows, in whichever direction and whatever the tokens' decimals, up to the solver's stated tolerance of ten units of the sixth decimal. It pays at least what the invariant gives with the reserves' sum as the invariant, less the tolerance; the fee is the configured number of basis points of the payout, rounded down, and goes to the fee recipient. Every swap within its limits is executed, for pools and amounts up to 10^20 base units.",
     "Every offer from 1 up to a bound and a grid up to twice the reserves, in both directions, at several amplifications, sizes and decimals, and sequences of swaps", "Tests compare a few swaps of balanced 7-decimals pools with the numbers the code produced.",
     [STB, "contracts/pool_stable/src/math.rs"], [("compute_d, calc_y", "contracts/pool_stable/src/math.rs"), ("compute_swap", STB)], over=("inputs", "histories"))

prop("P09", "Stable pool: the caller's limits bind",
     "A swap, deposit or withdrawal in a stable pool executes only within the limits its caller gave: deadline, minimum received, accepted fee, spread tolerance, minimum shares, minimum amounts paid out. Without limits the pool's own bounds apply, tolerances above those are refused, and amounts must be positive and of a token in the pool. Calls within all limits and balances are not refused.",
     "Every combination of two limits (in the thorough tier: of all limits) at, just inside and just outside their boundary, also after another trader moved the price", "Tests check single limits with comfortable margins.",
     [STB], [("assert_max_spread", STB), ("deadline and minimum checks", STB)], over=("inputs", "histories"))

prop("P10", "Stable pool: quotes are what execution gives",
     "A simulated swap in a stable pool names exactly the received amount, the commission and the spread that executing the same swap at once gives. A reverse simulation names an offer that brings the asked amount, while noticeably less does not (up to the solver's tolerance), with its commission, and as spread what the offer exceeds the asked amount by. A share query names what withdrawing those shares pays, and the pool information reports current reserves, shares and fee.",
     "Every amount from 1 up to a bound and a grid up to the reserves, in both directions, and quotes after every sequence of operations up to a depth", "Tests compare a few quotes with expected constants.",
     [STB], [("simulate_swap", STB), ("simulate_reverse_swap", STB), ("query_share", STB)], over=("inputs", "histories"))

prop("P28", "Stable pool: deposits and withdrawals are fair to the other providers",
     "A deposit into a stable pool mints between the smaller and the larger of the two proportional shares (the first one the worth of the deposit less 1000), whatever the tokens' decimals, up to the solver's tolerance. A withdrawal pays the burned proportion of both reserves, rounded down by at most a unit. Deposits and withdrawals within the holder's balances are not refused, for amounts up to 10^20 base units.",
     HIST + "; every small deposit and withdrawal against fixed pools; decimals 3 to 18", "Tests exercise a few balanced deposits with round numbers and equal decimals.",
     [STB, "contracts/pool_stable/src/math.rs"], [("provide_liquidity", STB), ("withdraw_liquidity", STB)])

prop("P11", "Staking: stakes stay their owners' and come back in full",
     "The total the staking contract reports is the sum of all open stakes, each user's record lists exactly their open stakes with amount and time, and the contract holds at least that many share tokens. Bonding takes exactly the stated amount (at least the minimum), and unbonding returns exactly one existing stake of the caller, named by its amount and time, at any later moment and whatever rewards exist; nothing else is paid out. Unbonding anything that is not an open stake of the caller is refused.",
     HIST + "; two users, stakes of equal and different size at equal and different times, with rewards and with the staked token as the reward", "Tests bond and unbond once or twice per test.",
     [STAKE, "contracts/stake/src/storage.rs"], [("bond, unbond, remove_stake", STAKE), ("bonding info and totals", "contracts/stake/src/storage.rs")])

prop("P12", "Staking: rewards are solvent and pro rata",
     "Every distribution is shared among the stakes open at its time in proportion to their size, scaled by their age at that time in whole days up to 60; a staker is paid and can see exactly that share, less rounding by under a unit per stake and distribution. What has been paid plus what is withdrawable never exceeds what was distributed, and the contract holds exactly what was distributed and not yet paid. Only the manager or the owner can create reward tokens and distribute.",
     HIST + "; bonding, unbonding, distributions at the same and at different moments, claims, days passing; every age from 0 to 75 days", "Tests run single scenarios with one or two distributions at days 0, 60 or so.",
     [STAKE, "contracts/stake/src/distribution.rs"], [("calculate_pending_rewards", "contracts/stake/src/distribution.rs"), ("distribute_rewards, withdraw_rewards", STAKE)])

prop("P13", "Staking: a reward is claimed once, as quoted, and nobody's claim is lost",
     "Claiming pays, for each reward token, exactly what the query promised just before, and nothing more until a later distribution. Claims, bonds and unbonds of one user never change what another user can withdraw, and joining later gives no part of earlier distributions. Claiming and querying are never refused to a user, also without stakes or rewards.",
     HIST + "; three users and two reward tokens", "Tests claim in one fixed order.",
     [STAKE, "contracts/stake/src/distribution.rs"], [("withdraw_rewards", STAKE), ("query_withdrawable_rewards", STAKE)])

prop("P14", "Reward contract: fundings are released over their time and shared by power",
     "The reward contract distributes exactly what its fundings have released (each linearly from its start over its duration) and was not distributed before, and holds exactly what was funded less what was paid. What has been paid to and is withdrawable by all users together never exceeds what was distributed; a user's share of each distribution is in proportion to their power at that time (stake per 1000, nothing below the minimum bond), and a withdrawal pays it scaled by the age of the stakes, as quoted. Reported distributed and undistributed amounts add up to all that was funded.",
     HIST + "; two users, funding at several moments with several durations, distributions, bonding and unbonding through the staking contract's calls, withdrawals, time passing", "Tests fund once and withdraw once.",
     [SR, "contracts/stake_rewards/src/distribution.rs"], [("distribute_rewards, fund_distribution", SR), ("withdrawable_rewards", "contracts/stake_rewards/src/distribution.rs")])

prop("P15", "Vesting: exactly the released part can be claimed, in every schedule",
     "At every moment a recipient has been able to claim exactly the part of each of their schedules released by its curve: the total minus the curve's value now, rounded as the curve rounds, and by the end of the schedule all of it. Claims of one schedule or recipient never touch another's, a claim pays exactly the quoted amount to its recipient only, and with nothing released it is refused. Schedules are accepted only if they fall monotonically to zero and have fewer corners than the complexity limit.",
     HIST + "; several schedules of two recipients, linear and piecewise, claims at every moment around every corner of the curves", "Tests claim at two or three moments of one schedule.",
     [VEST, "contracts/vesting/src/utils.rs", "contracts/vesting/src/storage.rs", "packages/curve/src/lib.rs"], [("claim, query_available_to_claim", VEST), ("validate_vesting_schedule", "contracts/vesting/src/utils.rs")])

prop("P16", "Vesting: the contract can always pay, and minting stays within capacity",
     "The vesting contract always holds at least the sum of all unclaimed schedules: creating schedules takes exactly their total from the administrator or is refused, and each claim lowers holdings and the schedule's balance by the same amount. The minter can mint at most the remaining capacity, into the contract only, and each mint lowers the capacity by the amount; only the minter hands over the role, only the administrator sets the capacity. Burning destroys the caller's own tokens and nobody else's.",
     HIST + "; creation of schedules, claims, mint, burn, handing over the minter and capacity changes by four participants", "Tests check single calls.",
     [VEST, "contracts/vesting/src/storage.rs"], [("create_vesting_schedules", VEST), ("mint, burn, update_minter", VEST)])

prop("P17", "Factory: the registry names every pool once and the right one",
     "Every pool created through the factory, and nothing else, is listed, in the order of creation; looking up a pair of tokens in either order gives the pool created for exactly that pair, and pairs without a pool are refused. Creation is refused without effect for pairs that have a pool already, callers that are not whitelisted, unordered or equal tokens, invalid staking parameters, basis points outside 0 to 10000, and stable pools without amplification. The created pool trades exactly the two tokens, with the fee, limits and administrator asked for, and its details are what the pool reports itself.",
     HIST + "; pools of both types over three or four tokens created by several callers with valid and invalid parameters", "Tests create one or two pools.",
     [FAC, "contracts/factory/src/storage.rs", "contracts/factory/src/utils.rs"], [("create_liquidity_pool", FAC), ("query_for_pool_by_token_pair", FAC)])

prop("P18", "Factory: whitelist, code hashes and portfolios are kept exactly",
     "The whitelist is exactly the set of accounts added and not removed by the administrator, code hashes change only as asked and by the administrator, and everything else in the configuration stays. A user's portfolio lists, for every pool they hold or staked shares in, exactly the assets those shares are worth now, and, if asked for, exactly their stakes. Queries are never refused, also for pools without liquidity and users without anything.",
     HIST + "; whitelist and hash updates by several callers; deposits, staking and trading by two users in two pools", "Tests check one update and one portfolio.",
     [FAC, "contracts/factory/src/storage.rs"], [("update_whitelisted_accounts, update_wasm_hashes", FAC), ("query_user_portfolio", FAC)])

prop("P19", "Multihop: a route is exactly its single swaps, or nothing",
     "A swap along a route gives the caller exactly what executing its single swaps in order through the same pools gives, each hop offering precisely what the previous one paid out, and leaves every pool and every other balance in the same state as those swaps. If any hop is refused, by its minimum amount, spread, fee or deadline, or the route does not connect, nothing at all changes. The multihop contract never keeps any tokens.",
     "Every route of one to four hops over four tokens, repeated and circular ones included, in every state reached by previous trades, for both pool types, with minimum amounts at, below and above what the hop gives", "Tests swap along one route of two or three hops.",
     [HOP, "contracts/multihop/src/utils.rs"], [("swap", HOP), ("verify_swap", "contracts/multihop/src/utils.rs")])

prop("P20", "Multihop: quotes are what executing the route gives",
     "A simulated route names exactly what executing it at once pays out (unless a pool occurs twice), with the commission and spread of every hop. A reverse simulation names an offer whose execution brings the asked amount, up to rounding of the hops. Simulations change nothing and refuse exactly the routes that do not connect or name no pool.",
     "Every route of one to four hops over four tokens, in both pool types, after every sequence of trades up to a depth, for small and large amounts", "Tests compare a few quotes with constants.",
     [HOP], [("simulate_swap", HOP), ("simulate_reverse_swap", HOP)])

prop("P21", "Trader: only its administrator moves its funds, and only its own",
     "A trade of the trading contract swaps exactly the given amount of its own balance (all of it if none is given) of one of its two tokens in the given pool and keeps the proceeds; the caller's and everybody else's balances stay. Only the administrator can trade or transfer, transfers pay exactly the amount of the named token (the output token if none is named) from the contract's balance to the recipient. The pool's and the caller's limits apply, and queries report actual balances and settings.",
     HIST + "; trades and transfers of all tokens by the administrator and others, with and without amounts and limits", "Tests run a trade or two by the administrator.",
     [TRD], [("trade_token", TRD), ("transfer", TRD)])

prop("P22", "Authorization: nothing of others' changes without their signature",
     "In every contract, no call that carries only an outsider's signature lowers the balance, stakes, shares, rewards, vesting or allowances of anybody else, moves a contract's funds out beyond what that call is entitled to, or changes configuration, administrators, minters or code. Administrative entry points succeed only with the signature of the current administrator (manager, owner or minter where that is the role). Every exported function is covered.",
     "Every exported function of all nine contracts, as found in their compiled interface, called with every combination of arguments from typed domains, in states reached by setting up and using the whole system; the host records whose signature each successful call needed", "Tests mock all signatures; almost none checks that a call fails without the right one.",
     ["contracts"], [("require_auth in every entry point", "contracts")], over=("inputs", "histories"))

prop("P23", "Initialization happens once, and code is replaced only by the administrator",
     "A contract that has been initialized refuses every further initialization, by anybody, through any initializing entry point, at any later time, and keeps its configuration. Replacing the code needs the administrator's signature and keeps all data: after an update to the same code all balances, stakes, schedules and settings are unchanged. Before initialization no operation moves funds.",
     "Every initializing and updating function of all nine contracts, with every combination of signers and arguments from domains, before and after use, and after long times", "Tests check a second initialization for some contracts with identical arguments only.",
     ["contracts"], [("is_initialized checks", "contracts"), ("update", "contracts")], over=("inputs", "histories"))

prop("P24", "Curves: values, ranges, sums and checks agree everywhere",
     "The value of a curve at every time lies in its reported range, follows its definition (constant; linear between corners, saturated outside; rounded as documented), and has the monotonicity the checks report: a curve passes a monotonicity check exactly if its values never rise (never fall). The sum of two curves has at every corner and outside all corners the sum of their values, and between corners differs by rounding only. End times and sizes are right, and invalid curves are refused.",
     "Every constant, saturating linear and piecewise linear curve with corners from a small grid, all pairs of them for sums, evaluated at every time of the grid and beyond", "Tests check some example curves at some times.",
     ["packages/curve/src/lib.rs"], [("value, combine, validate", "packages/curve/src/lib.rs")], over=("inputs",), observe="results of the library's public functions")

prop("P25", "Decimal arithmetic is exact up to truncation, and refuses to overflow",
     "Addition, subtraction, difference and absolute value of the fixed point numbers are exact; multiplication, division, ratios, inverses and conversions from and to integers, other numbers of decimals, percent, permille and basis points give the exact result truncated to the last digit (toward zero). A power never exceeds the exact one and loses at most the truncations on the way; powers of integers are exact. A result that does not fit is refused and never wrapped around, and nothing is refused while it and the products on the way fit; order and approximate equality agree with the exact values, numbers are printed exactly, with their sign, and read back the same, and the helpers that validate basis points and positive parameters and convert between signed and unsigned amounts accept exactly what they should.",
     "All pairs from a grid of values that contains zero, one, the neighbourhoods of all powers of ten and of two, of square roots of the limits, and the limits themselves, with both signs; and sequences of operations from there", "Tests check selected examples.",
     ["packages/decimal/src/decimal.rs", "packages/phoenix/src/utils.rs"], [("Mul, Div, from_ratio, pow", "packages/decimal/src/decimal.rs"), ("validation and conversion", "packages/phoenix/src/utils.rs")], over=("inputs", "histories"), observe="results of the library's public functions")

prop("P26", "Settings are what was asked for, in range, and count from then on",
     "A contract is set up only with settings in range (basis points of 0 to 10000, a fee within the accepted one, an amplification of 1 to 1000000, two tokens in order, positive minimum bond, reward and complexity, at most 18 decimals of shares, a whitelist that is not empty), and then reports exactly the settings, administrators and parts it was set up with; other settings are refused without effect. A later change of a pool's settings needs its administrator, changes exactly the settings it names or, if one is out of range, none at all. From then on fee, fee recipient, tolerances and administrator are the reported ones in every quote, swap and deposit.",
     "All combinations of boundary values of the settings at initialization of all nine contracts and in changes of both pool types, and every sequence of single changes up to a depth with swaps in between", "Tests set up contracts with a handful of settings and try one value out of range for some of them; nothing combines them or checks what a later swap does with them.",
     [POOL, STB, STAKE, FAC, TRD, VEST, SR, TOK], [("initialize, update_config, upgrade", POOL), ("initialize, update_config", STB), ("initialize", STAKE), ("validate_bps", "packages/phoenix/src/utils.rs")])

prop("P27", "Idle time costs nothing: no position, right or setting is lost",
     "What the contracts keep lasts: however long nobody uses them, every call gives the same answer, needs the same signatures and has the same effect as without the pause, except where time is meant to count (expiring allowances, deadlines, the age of stakes, and releases of vesting and rewards). In particular no balance, stake, reward, schedule, reserve, role or setting is kept where the ledger drops it when its time to live is over, and shares, stakes and quotes neither grow nor shrink by waiting.",
     "Every exported function of all nine contracts with every combination of arguments from typed domains, in systems in use, called on the ledger as it is, without everything the ledger may drop, and after pauses of a second, 45 days and 900 days; and again after every call that changes something", "The test environment never drops anything, and tests move the clock only where a feature needs it.",
     ["contracts"], [("storage of every contract", "contracts"), ("time to live", "packages/phoenix/src/ttl.rs")], over=("inputs", "histories"))

prop("P29", "Reward contract: the quoted yearly reward is what the fundings will bring",
     "The reward contract quotes, for one point of power (1000 staked; nothing for stakes below the minimum bond), what its fundings still release in the coming year; where all of them end within a year, the amount not yet released is extrapolated to a year, and after the last has ended the quote is zero. It depends on fundings, time and the stated total stake alone: not on who staked, on earlier distributions, withdrawals or donations. It is never refused as long as the quoted number has its 18 decimals within 128 bits.",
     HIST + "; fundings from a second to three years, overlapping, following each other and not yet begun, with distributions, bonds, unbonds, withdrawals and donations in between; several total stakes around the minimum", "The only test of the whole query is commented out; a unit test of the payout covers one curve.",
     [SR, "contracts/stake_rewards/src/distribution.rs", "packages/curve/src/lib.rs"], [("query_annualized_reward", SR), ("calculate_annualized_payout", "contracts/stake_rewards/src/distribution.rs")])

prop("P30", "Events: what is published is exactly what happened",
     "The transfer, mint and burn events of a token add up to the change of every balance in every call, and its approvals and changes of administrator are published as they were made. For every successful operation the pools, staking, reward, factory, vesting and trading contracts publish once, and only for it, who acted, which tokens, and exactly the amounts offered, received, given as spread, deposited, withdrawn, bonded, unbonded, distributed, claimed, minted, burned or funded (with start and end), the pool created and the minter or capacity set, also when another contract makes the call. Queries and simulations publish nothing.",
     "Every exported function of all nine contracts with every combination of arguments from typed domains, in systems in use and again after calls that change something; and all histories of swaps, deposits, withdrawals and donations in empty, small and large pools of both types up to a depth", "No test of the repository looks at the data of an event.",
     ["contracts"], [("do_swap, provide_liquidity, withdraw_liquidity", POOL), ("do_swap, provide_liquidity, withdraw_liquidity", STB), ("bond, unbond, distribute_rewards, withdraw_rewards", STAKE), ("distribute_rewards, withdraw_rewards, fund_distribution", SR), ("token events", TOK)], over=("inputs", "histories"), observe="events published by each call")

prop("P31", "Everybody can always leave with what is theirs, and no token is made or lost",
     "In every state that users, donations, time, rewards and settings within their range bring about, every holder can, one after the other and in any order, claim their rewards from a pool's staking contract, unbond every stake in full, and withdraw all their shares for their part of both reserves (rounded down), unless that is less than a unit of one token. Throughout, and when all have left, the sum of all balances of every token stays the same, all shares are in somebody's hands, the staking contract keeps no stakes, and the pools hold what they count on.",
     "Both kinds of pools as the factory makes them, with their staking contracts, rewards in another token and in the shares themselves, routes through the multihop contract, extreme settings, gifts of tokens and shares to pools and staking contracts, and time; every sequence of these up to a depth, and in every state reached several orders of leaving", "Tests look at one contract at a time and never empty a system in use.",
     [POOL, STB, STAKE], [("withdraw_liquidity", POOL), ("withdraw_liquidity", STB), ("unbond, withdraw_rewards", STAKE)])

TECH = "explicit-state model checking of the compiled contracts (exhaustive breadth-first exploration of call sequences in the Soroban host)"
NOTE = "Exhaustive over the listed alphabets, configurations and depths on the real wasm; nothing is said beyond those bounds. Trusts the vendored Soroban host and the reference model in mc/src/props."
NOTE_PK = "Exhaustive over the listed grids on the real library code compiled natively; nothing is said beyond those bounds. Trusts the reference arithmetic in pk/src."

PENDING = "Not claimed yet: the check is still being built."


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": [p["observe"]]},
            }) + "\n")
    native = {"P24", "P25"}
    m = {
        "version": 1,
        "setup_cmd": "python3 /verif/run.py setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 /verif/run.py check %s quick" % p["id"],
            "thorough_cmd": "python3 /verif/run.py check %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"] or (TECH if p["id"] not in native else "explicit-state model checking of the library (exhaustive breadth-first exploration of operation sequences on the real code)"),
            "level": p["level"],
            "level_note": p["note"] or (NOTE_PK if p["id"] in native else NOTE),
        } for p in P if p["claim"]],
        "not_applicable": [{"property": p["id"], "reason": PENDING} for p in P if not p["claim"]],
        "notes": "No hooks in /repo are needed. Replay a violation with: python3 /verif/run.py replay FILE",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
