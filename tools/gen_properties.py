#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/gen_properties.py > properties.jsonl)."""
import json
S="contracts/sumtree-orderbook/src/"
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    print(json.dumps({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}))

P("C01","Fills at a tick go strictly first-in first-out",
 "For every history, the amount of each resting order that counts as filled is exactly what a first-in-first-out queue per tick and side would give: swaps consume the oldest open quantity first, an order that was cancelled is skipped, and nothing else shifts the queue. This does not depend on when, how often, by whom or in which order anybody claims, nor on how many cancellations happened at that tick or in which order. An order can therefore be claimed for exactly its filled-but-unclaimed quantity at every moment, and is refused as having nothing to claim when that is zero.",
 ["histories","inputs"],"All interleavings of placements, cancellations, swaps and claims by any users, on any tick and side, with any quantities, including hundreds of cancellations on one tick.",
 "The tests fix a few dozen short histories with hand computed values; the cumulative-sum encoding of the queue (sum tree of cancellations, lazy tick sync) can go wrong for a shape or order of cancellations, partial claims and swaps nobody wrote down.",
 ["order.rs","tick.rs","sumtree/tree.rs","sumtree/node.rs"],
 [("cumulative swapped amount and order start positions","order.rs: claim_order, place_limit"),("lazy tick sync","tick.rs: sync_tick"),("prefix sum over cancellations","sumtree/tree.rs: get_prefix_sum"),("balanced tree of cancelled ranges","sumtree/node.rs: insert, rebalance")],
 [("tick state","liquidity, cumulative placed, effective swapped, realised cancels","types/tick.rs"),("sum tree","cancelled ranges per tick and side","sumtree/node.rs: NODES")],
 ["claim_limit results and payouts","orders_by_tick","get_unrealized_cancels"])
P("C02","The contract can always pay everything it owes, and only rounding dust is kept",
 "After every transaction the contract's balance of each denom covers all open orders to be refunded or filled plus the payout value of everything filled but not yet claimed, whatever the history. Value is conserved: tokens move only between the contract and the parties entitled to them, nobody ever receives more than they are owed at the stated prices, and all that the contract keeps over its obligations is the rounding remainder of each individual swap step and claim.",
 ["histories","inputs"],"All histories of valid and invalid messages by any users over any ticks, prices, quantities, bounties and maker fees.",
 "Solvency is an invariant over whole histories with rounding at every step; the tests check single payouts of single steps.",
 ["order.rs","sudo.rs","tick_math.rs"],
 [("swap input rounded up, output rounded down","order.rs: run_market_order_internal"),("claims rounded down","order.rs: claim_order"),("deposit must equal quantity","order.rs: place_limit")],
 [("bank balances","contract and user balances","observed in the chain simulator")],
 ["bank transfers of every transaction","orders_by_tick","get_total_pool_liquidity"])
P("C03","A swap trades exactly what price-priority matching against the book gives",
 "A swap takes resting liquidity of the opposite side only, tick by tick from the best price outwards (highest bids first when selling base, lowest asks first when selling quote), takes as much of each tick as the remaining input can buy at exactly that tick's price (rounded down), and charges for it exactly that amount at that price rounded up. It stops where the input is spent, where the rest cannot buy a single unit any more (that rest is kept), where the requested limit tick is passed, or where the book ends. The trader receives exactly the sum of what was taken, the reported output equals what is sent, and each tick's liquidity drops by exactly what was taken from it.",
 ["histories","inputs"],"All book states reachable by any history (crossed books, emptied ticks, stale best-tick pointers, extreme ticks), all input amounts and limit ticks, both directions.",
 "The tests run about forty fixed swaps over two or three ticks, mostly at a handful of round prices, and compare with constants.",
 ["order.rs","sudo.rs","tick_math.rs"],
 [("tick iteration from the best-tick pointer","order.rs: run_market_order_internal"),("conversions","tick_math.rs: amount_to_value")],
 [("best-tick pointers","next_bid_tick, next_ask_tick","types/orderbook.rs")],
 ["swap_exact_amount_in and swap_to_tick: response data, bank sends","ticks_by_id"])
P("C04","A swap honours its limits and refunds, and a failed swap changes nothing",
 "A swap succeeds only if input and output are the two denoms of the book and differ, the input is not zero, the swap fee equals the book's fee (zero), at least the requested minimum comes out, and the limit tick (if any) lies within the valid tick range and not on the wrong side of the best price; a swap without limit tick also fails unless all its input, save a rest too small to buy one unit, is used. Input that a successful swap neither charged nor used up as such dust is returned to the sender in the same transaction. A swap that fails leaves every balance, order, tick and best-tick pointer as it was, and no swap ever fills beyond its limit tick.",
 ["inputs","histories"],"All book states, denom pairs, fees, input amounts, minimum outputs (in particular equal to, one below and one above the exact output) and limit ticks.",
 "Tests try single instances of each error; the exact boundaries (minimum output, limit tick at the best tick, rest of dust) vary with book state and price.",
 ["sudo.rs","order.rs"],
 [("guard rails","sudo.rs: dispatch_swap_exact_amount_in, validate_output_amount, ensure_swap_fee"),("full-fill check","order.rs: run_market_order_internal"),("pair check","types/orderbook.rs: direction_from_pair")],
 None,["swap messages: success or failure, refunds","all queries before and after a failed swap"])
P("C05","A swap quote equals the swap",
 "The quoted output for an input amount is exactly what the same swap without minimum output and limit tick, executed on the same state, pays out, and both quote queries give the same answer. A quote is refused exactly when that swap is refused for its fee, denoms, amount or missing liquidity; and quoting never changes anything.",
 ["histories","inputs"],"All book states and all swap inputs, also invalid ones.",
 "Tests compare quotes with constants on a few books; the claim is about two different entry points agreeing on every state.",
 ["query.rs","sudo.rs","order.rs","contract.rs"],
 [("shared matching core","order.rs: run_market_order_internal"),("quote","query.rs: calc_out_amount_given_in")],
 None,["calc_out_amount_given_in","calc_out_amt_given_in","swap_exact_amount_in"])
P("C06","Cancelling: owner only, untouched orders only, exact refund, no side effects",
 "Only the owner can cancel an order, and exactly when none of its quantity is filled and unclaimed; cancelling then returns precisely the order's remaining quantity in the deposited denom to the owner and removes the order, so it can be neither cancelled nor claimed again. A cancellation takes the order's open quantity out of the tick's liquidity and does not change what any other order has filled or will be refunded, nor its place in the queue. A refused cancellation changes nothing.",
 ["histories","inputs"],"All histories before the cancellation, all callers, existing and non-existing orders, orders partially filled and claimed, attached funds.",
 "Tests cancel one or two orders after fixed short histories; effects on other orders show only in longer ones.",
 ["order.rs","tick.rs","sumtree/node.rs"],
 [("ownership, fill check, refund","order.rs: cancel_limit"),("sync before the check","tick.rs: sync_tick")],
 None,["cancel_limit: outcome, refund","orders_by_tick","ticks_by_id"])
P("C07","A claim splits the filled value exactly between owner, claimer and fee recipient",
 "Claiming pays for exactly the filled and unclaimed quantity, valued at the order's own tick price and rounded down, in the denom opposite to the deposit: the claimer gets the order's bounty share and the fee recipient the maker-fee share of that value (each rounded down, both taken from the full value), the owner gets all the rest, and no other account is paid. The order's remaining quantity drops by exactly the filled quantity, it is removed when nothing remains and stays otherwise, and no quantity is ever paid twice. Shares of zero are not sent.",
 ["histories","inputs"],"All fill states, claimers (owner or anyone), bounties 0 to 1 %, maker fees 0 to 5 %, fee recipients, ticks, quantities from one unit to the full supply.",
 "Tests check fixed quantities and prices with round percentages, and few combinations of bounty and fee, seldom after repeated partial claims.",
 ["order.rs","tick_math.rs"],
 [("value, bounty, fee","order.rs: claim_order"),("rounding","tick_math.rs: amount_to_value")],
 None,["bank sends of claim_limit and batch_claim","orders_by_owner"])
P("C08","Every maker can always get out: all orders end claimed or cancelled, book empty",
 "From every reachable state of an active book, every resting order can be closed by its owner: what is filled can be claimed, and then what is open can be cancelled, whatever the others do and in whatever order the owners leave. When everybody has left, no order is listed, all liquidity figures are zero and each owner has received in full either deposit or the value of fills. No trader action can put the book in a state in which a valid claim, cancellation, placement or swap fails.",
 ["histories"],"All reachable states (any history, adversarial dust orders, extreme ticks) and all exit orders of the owners.",
 "Tests never drain a book after a random history; a stuck order needs a particular combination of cancels, partial claims and swaps.",
 ["order.rs","tick.rs","sumtree/tree.rs","sumtree/node.rs"],
 [("checked arithmetic and guard rails that could trap funds","tick.rs: sync_tick; order.rs"),("tree invariants","sumtree/node.rs")],
 None,["claim_limit, cancel_limit of every order on a copy of the state","get_total_pool_liquidity"])
P("C09","Batch claim equals claiming one by one, skipping the ones that fail",
 "A batch claim has exactly the same effect - payments, their recipients and amounts, remaining orders, tick accounting, claim events in the listed order - as claiming each listed order on its own in the listed order by the same sender and ignoring failures, for any list including duplicates, unknown orders and unfilled orders. (A failing entry may bring forward the internal settlement of earlier cancellations on its tick, which changes no order's fill, position or liquidity.) Lists of more than 100 entries, and batches or single claims sent with coins attached, are rejected with no effect; lists up to 100 never fail as a whole because of one entry that cannot be claimed.",
 ["inputs","histories"],"All lists of (tick, order) pairs of length 0 to beyond 100 on all reachable states.",
 "Tests batch a handful of orders in four fixed scenarios.",
 ["order.rs"],[("batch loop","order.rs: batch_claim_limits"),("limit","constants.rs: MAX_BATCH_CLAIM")],
 None,["batch_claim versus a sequence of claim_limit on a copy of the state"])
P("C10","Reported liquidity equals the open order quantity",
 "At all times the pool liquidity reported for each denom equals the sum of the open (unfilled, uncancelled) quantities of all resting orders of that side, and each tick reports exactly the open quantity of its own orders per side. Base and quote amounts are each labelled with the right denom, and zero liquidity is reported as zero.",
 ["histories"],"All histories of placements, cancellations, swaps, claims and failing messages.",
 "Totals are kept incrementally in three places (tick, direction total, orders); tests check them after one or two operations.",
 ["state.rs","order.rs","query.rs"],
 [("incremental totals","state.rs: add_directional_liquidity, subtract_directional_liquidity"),("report","query.rs: total_pool_liquidity")],
 [("direction total","total liquidity per side","state.rs: DIRECTION_TOTAL_LIQUIDITY")],["get_total_pool_liquidity","all_ticks","ticks_by_id"])
P("C11","Order and tick listings are complete, ordered, correctly paged and up to date",
 "Listing orders by owner or by tick returns exactly the resting orders of that owner or tick, in ascending (tick, order id) order, each with its owner, side, tick, current remaining quantity, original quantity, bounty and placement time; the start and end bounds are inclusive and the limit (default 100 for the owner listing) cuts the list from the front, so paging reproduces the full list without gaps or repeats. The count is the owner's total number of resting orders, respectively the number within the bounds for a tick. Listing ticks follows the same rules for inclusive bounds, order and limit, and asking for a tick never used is an error.",
 ["histories","inputs"],"All book states, owners, ticks including negative ones, bounds (also reversed or outside) and limits including 0.",
 "Tests list a few orders at one or two ticks; secondary indexes, negative ticks and bounds combine in many ways.",
 ["query.rs","state.rs"],
 [("indexes","state.rs: orders, get_orders_by_owner"),("listings","query.rs: orders_by_owner, orders_by_tick, all_ticks, ticks_by_id")],
 None,["orders_by_owner","orders_by_tick","all_ticks","ticks_by_id"])
P("C12","Best-tick pointers never hide liquidity, and the spot price follows them",
 "No liquidity ever rests at a better price than the published best bid and best ask tick: after every transaction the best-bid tick is at or above every tick with open bids and the best-ask tick at or below every tick with open asks. A placement moves its own side's pointer to its tick exactly if it improves it, a swap moves the pointer of the side it consumed to the last tick it filled from, and nothing else moves them. The spot price is the exact price of the best bid tick for the pair in (base, quote) order and the inverse of the best ask tick's price for the opposite pair, and denoms not of the book are refused.",
 ["histories","inputs"],"All histories, ticks and both sides, including crossed books and empty sides.",
 "Tests check the pointers after single fixed operations.",
 ["order.rs","query.rs"],
 [("pointer updates","order.rs: place_limit, run_market_order_internal"),("spot price","query.rs: spot_price")],
 [("best-tick pointers","next_bid_tick, next_ask_tick","types/orderbook.rs")],["orderbook_state","spot_price"])
P("C13","Tick prices are exact, strictly increasing and bounded",
 "Every tick from the minimum to the maximum has exactly one price: 10^k plus r times 10^(k-6) for a tick of 9,000,000 k + r with 0 <= r < 9,000,000, represented exactly with 18 decimals. A higher tick always has a strictly higher price, tick 0 is price one, and every tick outside the range is refused.",
 ["inputs"],"All 290,402,824 ticks of the valid range and all other 64-bit tick numbers.",
 "Tests probe about thirty ticks; rounding mistakes or off-by-one errors at decade boundaries or in the negative range hit particular ticks.",
 ["tick_math.rs","constants.rs"],[("conversion","tick_math.rs: tick_to_price, pow_ten"),("bounds","constants.rs: MIN_TICK, MAX_TICK")],
 None,["tick_to_price","spot_price after a placement"])
P("C14","Amount/price conversions are exact with the stated rounding",
 "Converting an amount of base to quote (multiplying) or of quote to base (dividing) by a tick price gives exactly the mathematically exact quotient or product rounded down or rounded up as requested, with no error from intermediate precision; zero converts to zero. In particular rounding up never yields less than the exact value and rounding down never more, and results outside the representable range are errors rather than wrong numbers.",
 ["inputs"],"All amounts from 0 to 2^128-1, all tick prices, both directions and both roundings.",
 "Tests use about twenty round numbers; errors show at large amounts, at extreme prices, or when the exact value is just above or below an integer.",
 ["tick_math.rs"],[("conversions","tick_math.rs: multiply_by_price, divide_by_price, amount_to_value, RoundingDirection")],
 None,["amount_to_value","swap and claim amounts"])
P("C15","Placing an order: accepted iff valid and funded exactly, and recorded faithfully",
 "A placement on an active book is accepted exactly if the tick is within the range, the quantity positive, the bounty absent or between 0 and 1 %, and the attached funds are exactly that quantity of the one right denom (quote for bids, base for asks). An accepted placement creates one order owned by the sender with a fresh, strictly increasing id, at the tick, side, quantity, bounty and block time asked for, with nothing filled and the quantity as its original quantity, and adds exactly that quantity of liquidity. A refused one changes nothing and uses up no id.",
 ["inputs","histories"],"All ticks, sides, quantities, bounties and combinations of attached funds (missing, wrong denom, several coins, off by one), on all reachable states.",
 "Tests try one wrong value per field on an empty book.",
 ["order.rs","state.rs"],[("validation and record","order.rs: place_limit"),("ids","state.rs: new_order_id")],
 None,["place_limit: outcome","orders_by_tick","ticks_by_id"])
P("C16","Admin and moderator rights move only along the offer-and-claim protocol",
 "Only the current admin can offer or cancel an admin transfer, offer the moderator role or renounce; only the address currently holding an offer can claim or reject it, once; claiming makes it the sole holder of that role and consumes the offer, and chain governance can set or remove the admin directly. Nobody else can change a role, offer, fee, fee recipient or the pause switch, a refused message changes nothing, invalid addresses are refused, and the published admin, moderator and offers always equal the outcome of that protocol.",
 ["histories","inputs"],"All sequences of auth messages and governance calls by any senders, including former holders, replaced offers and no admin at all.",
 "Tests check single transitions from fixed states; privilege mistakes appear in sequences (stale offers, former holders, both roles in one hand).",
 ["auth.rs","sudo.rs"],[("role checks and transitions","auth.rs"),("governance path","sudo.rs: TransferAdmin, RemoveAdmin")],
 [("roles","admin, moderator and pending offers","auth.rs: ADMIN, ADMIN_OFFER, MODERATOR, MODERATOR_OFFER")],["auth messages and auth queries"])
P("C17","The pause switch stops all trading and nothing else, and can always be released",
 "While the book is paused every placement, cancellation, claim, batch claim and swap is refused and no order, balance, tick or pointer changes; all queries and all role and configuration messages go on working. The switch can be set and released by the admin, the moderator and chain governance and by nobody else; after release the book continues exactly as if the pause had never happened. A fresh book is active.",
 ["histories","inputs"],"All histories with pauses and releases at any point by any of the entitled and not entitled parties.",
 "Tests check one message of each kind against a switch set directly in storage.",
 ["contract.rs","sudo.rs","auth.rs","query.rs"],[("gate","contract.rs: execute; sudo.rs: sudo, ensure_is_active"),("switch","sudo.rs: set_active; auth.rs: dispatch_set_active")],
 [("switch","active flag","state.rs: IS_ACTIVE")],["is_active","all messages while paused"])
P("C18","Maker fee and recipient: admin only, at most 5 %, effective at claim time",
 "The maker fee is zero at the start, can be set only by the current admin to any value from 0 to 5 % inclusive and to nothing above, and the recipient only by the admin to a valid address; the fee query always returns the value last set. A change takes effect for all later claims, whatever the time of the order or its fill, never for earlier ones, and touches neither swaps, cancellations nor bounties.",
 ["histories","inputs"],"All sequences of fee and recipient changes by all senders, interleaved with trading.",
 "Tests set a fee once and claim once.",
 ["auth.rs","orderbook.rs","order.rs"],[("limit","orderbook.rs: set_maker_fee"),("rights","auth.rs: dispatch_set_maker_fee, dispatch_set_maker_fee_recipient"),("use","order.rs: claim_order")],
 [("fee","maker fee and recipient","state.rs: MAKER_FEE, MAKER_FEE_RECIPIENT")],["get_maker_fee","claim payouts"])
P("C19","A payout that fails undoes the whole transaction",
 "If any of the payments a transaction makes - refund, claim, bounty, maker fee, swap output - is rejected by the bank, the whole transaction is refused and leaves all orders, ticks, totals, pointers and balances exactly as they were; the same operation succeeds with the same result once the payment can go through. No state is ever updated for a payment that was not made, and every payment is made from the contract's own account.",
 ["fault_sequences","histories"],"Every choice of rejected payment (any message of any transaction, any recipient, all subsets) on all reachable states.",
 "Tests call the reply handler with a literal error; they never run a transaction whose payment fails.",
 ["contract.rs","order.rs","sudo.rs","types/reply_id.rs"],[("payments as sub-messages with reply on error","order.rs, sudo.rs"),("failing reply","contract.rs: reply")],
 None,["outcome and state after injected bank failures"])
P("C20","A book is created only for two different existing denoms, with safe defaults",
 "Creating a book succeeds exactly if base and quote denoms differ and both have a non-zero supply on chain; it then trades exactly those denoms in those roles, is active, empty, with no fee, with best ticks at the opposite ends of the range, and with the governance address as admin, the circuit-breaker address as moderator and the protocol's default fee recipient, no offers pending. Who creates it makes no difference.",
 ["inputs","configurations"],"All denom pairs (existing or not, equal, swapped, odd strings), supplies including zero and the maximum, and senders.",
 "Tests instantiate with one valid and three invalid pairs.",
 ["contract.rs","orderbook.rs","constants.rs"],[("validation and defaults","orderbook.rs: create_orderbook; contract.rs: instantiate")],
 None,["instantiate","denoms, orderbook_state, auth, is_active, get_maker_fee queries"])
P("C21","Cost: constant to place, per tick to swap, logarithmic to cancel or claim",
 "Placing an order takes a number of storage accesses that does not grow with the number of orders, cancellations or ticks in the book; a swap's cost grows only with the number of ticks in its path and not with the number of orders or cancellations on them. Cancelling an order and claiming one take at most a number of accesses that grows logarithmically with the number of cancellations on that tick, in whatever order they happened, and not with the number of resting orders.",
 ["histories"],"All histories, in particular adversarial ones: thousands of orders and cancellations on one tick in ascending, descending, alternating or random order.",
 "No test measures cost, and trees in tests have at most a few dozen nodes.",
 ["order.rs","sumtree/node.rs","sumtree/tree.rs","tick.rs"],[("cumulative accounting","order.rs"),("balancing","sumtree/node.rs: rebalance"),("tree walk","sumtree/tree.rs: prefix_sum_walk")],
 None,["storage reads and writes counted per message"])
P("C22","Wire format and published response schema hold",
 "Every documented message and query is accepted in its documented JSON form, with optional fields absent or null treated alike; every response of every query validates against the response schema the contract publishes for that query. Numbers that may exceed 64 bits are decimal strings, amounts are exact, payments are bank sends from the contract's own address, and a swap's response data is the JSON object with its output amount that the pool module expects.",
 ["inputs","histories"],"All messages and queries with all combinations of optional fields, on all reachable states.",
 "Tests build Rust values directly and never look at the JSON, nor compare responses with the schema.",
 ["msg.rs","contract.rs","types/coin.rs","query.rs"],[("message definitions","msg.rs"),("responses","contract.rs: query"),("bank send encoding","types/coin.rs")],
 None,["raw JSON in and out of every entry point"])
P("C23","Events tell the truth",
 "The events of a placement, cancellation, claim, batch claim and swap name the order, owner, side, tick, quantities, denoms, and amounts that actually apply: an indexer that follows nothing but the events reconstructs at every moment exactly the set of resting orders with their owners, remaining (unclaimed) quantities and claim payments to owners. One claim event is emitted per order actually claimed, with the remaining quantity after the claim and a fully-claimed flag that is true exactly if the order is gone; refused operations emit nothing.",
 ["histories"],"All histories of operations including batch claims with failing entries and partial claims.",
 "Tests compare attributes of single responses with constants for few operations.",
 ["order.rs","sudo.rs"],[("event attributes","order.rs: place_limit, cancel_limit, generate_claimed_order_event; sudo.rs: dispatch_swap_exact_amount_in")],
 None,["attributes and events of every response versus queries and bank sends"])
P("C24","The public tick and order data predict every claim exactly",
 "From the published tick state (effective amount swapped and cumulative total), the published unrealised cancellations and an order's published position, anyone can compute the order's filled quantity as the effective amount swapped plus unrealised cancellations minus the order's start position, limited to 0 and its quantity; this is exactly what a claim at that moment pays for and decides whether a cancellation is possible. The effective amount swapped never decreases and never exceeds the cumulative placed total, which grows only by placements, and asking again without a transaction gives the same answer.",
 ["histories"],"All histories, ticks with both sides active, with and without pending (unsynced) cancellations.",
 "Tests check the unrealised-cancel query on fixed small trees; the front end and indexers rely on the combination for every order.",
 ["query.rs","tick.rs","sumtree/tree.rs","types/tick.rs"],[("unrealised cancellations","query.rs: get_unrealized_cancels"),("sync","tick.rs: sync_tick")],
 None,["get_unrealized_cancels, ticks_by_id, orders_by_tick versus claim_limit and cancel_limit"])
P("C25","Ticks and sides are independent, and bids mirror asks",
 "Operations on one tick or side never change the fills, refunds, queue, liquidity or order data of another: a history restricted to the operations on one tick gives that tick the same orders, claims and refunds as the full history, and operations on different ticks or sides can be exchanged without effect on the result. Exchanging the two denoms and bids with asks in a history confined to price one gives exactly the mirrored result.",
 ["histories"],"All histories over several ticks and both sides, all interleavings of their per-tick parts, and mirrored histories.",
 "Tests rarely use both sides of one tick or more than three ticks, and never compare two histories.",
 ["order.rs","tick.rs","state.rs","sumtree/tree.rs"],[("per tick and side state","types/tick.rs; sumtree/tree.rs: TREE; sumtree/node.rs: NODES keys"),("both sides synced together","tick.rs: sync_tick")],
 None,["pairs of histories compared through all queries"])
P("C26","No message crashes the contract; bad input is refused cleanly, without a trace",
 "Every syntactically valid message and query, with whatever values - extreme or negative ticks, zero or maximal amounts, unknown orders, empty or strange strings, wrong funds, maximal ids and limits - either succeeds or returns an error; none panics or exceeds a sane amount of work. A message that returns an error leaves no trace in orders, ticks, totals, pointers, roles or settings. (The exact-output swap and quote, published as not implemented, are excluded.)",
 ["inputs","histories"],"All message and query values on all states reachable with a token supply within 2^128-1 per denom.",
 "Tests pass values a careful caller would pass.",
 ["contract.rs","sudo.rs","order.rs","query.rs","auth.rs"],[("validation and checked arithmetic","all entry points")],
 None,["all entry points"])
P("C27","Migration and records of older versions are preserved",
 "Migrating the contract at any point changes no order, tick, balance, role or setting and no later behaviour. Orders stored by the earlier version without a placement time are still listed (with the zero time), claimed and cancelled exactly like any other order.",
 ["histories","configurations"],"All states at which a migration can happen and all subsets of orders written in the old format.",
 "No test migrates a populated book, nor loads old records.",
 ["contract.rs","types/order.rs"],[("no-op migration","contract.rs: migrate"),("defaulted field","types/order.rs: LimitOrder.placed_at")],
 None,["migrate","listings, claims and cancels before and after"])
P("C28","A bigger swap never gets less, and splitting a swap never gains",
 "On the same state, a larger input never yields a smaller output; the output never beats the best resting price nor falls short of the worst price it touches by more than rounding; and two swaps in a row never yield more in total than one swap of the combined input.",
 ["histories","inputs"],"All book states, pairs of input amounts and both directions.",
 "These are relations between several executions on the same state; the tests only run single swaps.",
 ["order.rs","tick_math.rs"],[("rounding against the taker","order.rs: run_market_order_internal; tick_math.rs: amount_to_value")],
 None,["several executions of swaps on copies of one state"])
P("C29","Only the book's own messages matter, not the clock, block or gifts",
 "The same messages in the same order have the same outcomes, payments, answers and events and leave the same published state whenever and however they arrive: whatever the block time, height and chain id, in one block or centuries apart, as transaction or not, whatever the position in the block, and whatever tokens anybody has sent to the contract in between. The recorded placement time, which is the block time of the placement, is the only thing that differs; nothing expires, matures or depends on it, and given tokens are never paid out.",
 ["histories","schedules"],"All histories under all non-decreasing clocks, heights, transaction positions and unsolicited transfers to the contract.",
 "Tests run in one fixed environment with one fixed time and a contract account that holds what a test puts there.",
 ["contract.rs","order.rs","sudo.rs"],[("time is only recorded","order.rs: place_limit, with_placed_at"),("state, not balances, decides","state.rs; orderbook.rs")],
 None,["the same history in two environments, compared through all outcomes and queries"])
P("C30","Names do not matter: all accounts and all denoms are treated alike",
 "Renaming the traders and fee recipients one-to-one and naming the two denoms differently - in another alphabetical order, one a part of the other, with slashes, long or short - gives the same history renamed: the same outcomes, and exactly the renamed payments, answers, events, listings and balances. In trading no address is privileged: admin, moderator, fee recipient and the protocol's own addresses trade, pay and receive exactly like everybody else.",
 ["histories","configurations"],"All histories, one-to-one renamings of accounts (role holders and fee recipients included), and pairs of denom names.",
 "Tests use a handful of fixed names and one pair of denoms.",
 ["order.rs","orderbook.rs","query.rs","state.rs","types/orderbook.rs"],[("owner checks and owner index","order.rs: cancel_limit; state.rs: orders"),("denom pairs","types/orderbook.rs: direction_from_pair, get_expected_denom")],
 None,["a history and its renaming, compared through all outcomes and queries"])
P("C31","Dividing orders gains and loses nothing but rounding",
 "Placing a quantity as several orders of the same owner, tick, side and bounty in a row instead of one changes nothing for anybody: all swaps, quotes, liquidity figures, best ticks and the queue for others are the same, the parts together have exactly the open quantity and refund of the single order, and their claims pay together the same up to rounding of each claim - also if they are claimed more often or at other moments.",
 ["histories","schedules"],"All histories, all ways of dividing each order, all further claims at any moments.",
 "These are relations between two histories of different messages; tests compare fixed results.",
 ["order.rs","tick.rs","sumtree/tree.rs"],[("queue positions by cumulative value","order.rs: place_limit; types/tick.rs"),("claim of a part","order.rs: claim_order")],
 None,["the history with single and with divided orders on two books"])
P("C32","The unit of account does not matter: smaller quote units, same trades",
 "Expressing the quote denom in a unit 10^k times smaller - all quote amounts times 10^k, all ticks 9,000,000 k higher, so that prices are 10^k times higher - gives exactly the same trades in the new unit: the same messages succeed, base amounts are the same and quote amounts exactly 10^k times as large, in swaps, claims, refunds, listings and best ticks (for whole-number prices and without fee and bounty, where no rounding depends on the unit).",
 ["histories","inputs"],"All histories at ticks with whole-number prices, all powers of ten for which the shifted ticks stay in the range.",
 "Tests check single conversions at single prices; that magnitudes are treated alike is a relation between histories.",
 ["tick_math.rs","order.rs"],[("geometric price scale","tick_math.rs: tick_to_price, amount_to_value"),("matching and dust","order.rs: run_market_order_internal")],
 None,["a history and its image in another unit"])

P("C33","An upgrade loses nothing: books kept by the released version go on unchanged",
 "Whatever the released version (the one of this repository) left in the contract's storage stays readable: after a migration to this code every order, tick, total, best tick, role, pending offer, fee setting, pause and the order counter is as before, and the standard record (cw2) names the contract and a version. From then on the book gives the same outcomes, payments, answers and events as a book with the same history that was run by this code from the start.",
 ["histories"],"All histories under the released version and all continuations under this code.",
 "Tests start from an empty store every time, so they write and read with the same code and cannot notice a changed key or format.",
 ["state.rs","auth.rs","contract.rs","sumtree/node.rs","sumtree/tree.rs","types/order.rs","types/tick.rs","types/orderbook.rs"],
 [("storage keys and indexes","state.rs: ORDER_ID, ORDERBOOK, TICK_STATE, orders; auth.rs: ADMIN, MODERATOR; sumtree: TREE, NODES"),("stored formats","types/order.rs, types/tick.rs, sumtree/node.rs"),("migration","contract.rs: migrate")],
 None,["contract storage","migrate","all queries and messages on a copy with recorded storage"])
