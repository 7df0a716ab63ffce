SVC = "src/invariant_service.rs"
STO = "src/invariant_storage.rs"
POOL = "src/contracts/storage/pool.rs"
POS = "src/contracts/storage/position.rs"
TICK = "src/contracts/storage/tick.rs"
TICKMAP = "src/contracts/collections/tickmap.rs"
CLAMM = "calc/math/clamm.rs"
LOG = "calc/math/log.rs"

LEVEL_NOTE = (
    "Randomized exploration of the real program, run natively on the real Gear runtime library with in-process "
    "stand-ins for the node's system calls; exact oracles. It shows no violation was found in the cases the evidence "
    "file counts; it does not prove absence. Trusted: the harness, its reference arithmetic over unbounded integers, and "
    "the model of the node (rollback of messages that panic, wake-ups, reply hooks)."
)

HIST = "every sequence of operations by any users on any set of pools, with any arguments that fit the interface"
HOOK = "feature verif-hooks: copies and restores the whole program state (a node's rollback of a failed message)"
E2E = "The end-to-end tests run a few fixed scenarios and need a node build that is not part of the reliable tests; the unit tests of the library call single functions with fixed numbers. None of them runs a history of operations."

J = "sdk/src/"
JSE = "The client's tests need a running node, so they are not part of the reliable tests; they sample a few fixed calls with round numbers, where the properties speak of every history, argument and failure."
JS_NOTE = (
    "Randomized exploration of the TypeScript client under Node.js with the library compiled to WebAssembly from the "
    "current tree, and, where it talks to a chain, with the real program run natively behind it. @gear-js/api, sails-js, "
    "@polkadot/types and the JavaScript half of wasm-bindgen are not installed here: stand-ins follow their documented "
    "behaviour and are trusted, with the harness. It shows no violation was found in the cases the evidence file counts; "
    "it does not prove absence."
)

PROPS = [
 dict(id="C01", title="The program always holds at least what it owes, and everybody can leave",
  statement="At every moment, for every token, what the program holds of it is at least the sum of all user balances in it, of what all open positions would pay if closed (principal and uncollected fees), and of the protocol fees not yet withdrawn. From any reachable state all positions can be closed, all protocol fees and all balances withdrawn in full, and afterwards no pool has liquidity or initialized ticks left.",
  over=["histories", "inputs"], forall=HIST + ", with token contracts that carry out the transfers they are asked for",
  tests=E2E + " Solvency is never asserted: it depends on the rounding of every operation of a history.",
  files=[SVC, STO, CLAMM, POOL, POS], mechanism=[("rounding in favour of the pool", CLAMM), ("settlement through user balances", STO + " (increase/decrease_token_balance)"), ("closing", SVC + " (remove_position)")],
  observe=["program queries (balances, pools, ticks, positions)", "books of the token contracts"], hook=HOOK,
  technique="stateful property-based testing against a solvency invariant and a full-exit postcondition"),
 dict(id="C02", title="A pool's active liquidity is that of the positions in range",
  statement="After every operation, the active liquidity of every pool equals the sum of the liquidity of its open positions whose range contains the current tick (lower end included, upper end excluded).",
  over=["histories", "inputs"], forall=HIST, tests=E2E + " Crossing ticks in unusual ways (a price limit exactly on a tick, the end of the search range, the same tick from both sides) is not sampled.",
  files=[STO, TICK, POOL, POS, CLAMM], mechanism=[("tick crossing", TICK + " (cross)"), ("position opening and closing", POS + " (modify)"), ("tick update after a step", POOL + " (update_tick)")],
  observe=["get_pool, get_all_positions"], hook=HOOK,
  technique="stateful property-based testing with an invariant over every reached state"),
 dict(id="C03", title="Initialized ticks are exactly the ends of open positions",
  statement="After every operation, a tick of a pool is initialized (in the tick map, in the tick records and in the initialized-tick query) exactly if an open position of that pool begins or ends there. Its gross liquidity is the sum of the liquidity of those positions, and its net change the liquidity of those that begin there minus that of those that end there.",
  over=["histories", "inputs"], forall=HIST, tests=E2E + " Shared ticks with positions opened and closed in any order are not sampled.",
  files=[STO, TICK, TICKMAP, SVC], mechanism=[("creation and removal of ticks", STO + " (add_tick, remove_tick)"), ("liquidity bookkeeping", TICK + " (update)"), ("bitmap", TICKMAP + " (flip)")],
  observe=["get_tickmap, get_tick, is_tick_initialized, get_all_positions"], hook=HOOK,
  technique="stateful property-based testing with an invariant over every reached state"),
 dict(id="C04", title="Price and current tick of a pool agree, and move only with swaps, the right way",
  statement="After every operation, the current tick of every pool is a multiple of its tick spacing inside the allowed range and the price lies between the price of that tick and the price of the next usable tick, within the global price bounds. Only swaps in that pool move price and tick: down when x is paid in and up when y is paid in, never past the caller's price limit, and after a rise the tick is the highest usable one not above the price.",
  over=["histories", "inputs"], forall=HIST, tests=E2E + " The tests assert ticks after a handful of swaps, not at boundaries.",
  files=[STO, POOL, LOG, CLAMM], mechanism=[("tick after a step", POOL + " (update_tick)"), ("tick of a price", LOG + " (get_tick_at_sqrt_price)"), ("price limit", STO + " (calculate_swap)")],
  observe=["get_pool"], hook=HOOK, technique="stateful property-based testing with an invariant over every reached state"),
 dict(id="C05", title="A swap does exactly what the swap rules say",
  statement="Every accepted swap pays in, pays out and charges exactly the amounts of the concentrated-liquidity rules carried out step by step in exact arithmetic with the documented rounding (input and fees up, output down), over all initialized ticks on the way and the bounded search range. It leaves exactly the resulting price, tick, active liquidity and fee growth in the pool, flips exactly the fee and time records of the crossed ticks, reports the prices it moved between, and moves exactly these two amounts between the caller's balances.",
  over=["histories", "inputs"], forall=HIST + "; every direction, amount, exact side and price limit", tests=E2E + " The tests compare a few swaps with precomputed numbers.",
  files=[STO, SVC, CLAMM, POOL, TICK, TICKMAP], mechanism=[("swap loop", STO + " (calculate_swap)"), ("swap step", CLAMM + " (compute_swap_step)"), ("next tick", TICKMAP + " (get_closer_limit)"), ("fees", POOL + " (add_fee)")],
  observe=["swap reply", "get_pool, get_tick, get_user_balances"], hook=HOOK,
  technique="stateful property-based testing against a reference model (differential)"),
 dict(id="C06", title="Quotes tell what swaps do, and change nothing",
  statement="A quote made on a state gives exactly the amounts, the target price and the crossed ticks of the same swap done on that state, and fails with the same error where the swap fails (apart from the caller's balance). A route quote likewise gives the result of the route, for routes that use no pool twice, and no quote changes the state or leaves an event.",
  over=["histories", "inputs"], forall=HIST + "; every swap and route, valid or not", tests=E2E + " A quote is compared with its swap for one scenario.",
  files=[SVC, STO], mechanism=[("quote", SVC + " (quote, quote_route)"), ("shared calculation", STO + " (calculate_swap)")],
  observe=["quote, quote_route, swap, swap_route replies", "all state queries"], hook=HOOK,
  technique="stateful property-based testing of a differential relation (quote against execution)"),
 dict(id="C07", title="No sequence of a trader's operations ends with a free profit",
  statement="Whatever swaps a trader does and whatever positions they open, claim and close in a pool nobody else acts in meanwhile, after closing their positions they never own more of one token without owning less of the other, also not after trading back what they lost or gained, apart from fees and liquidity of nobody. What the other users own and the positions they hold do not change.",
  over=["histories", "inputs"], forall="every sequence of swaps and position operations of one trader on every pool other users have provided liquidity for", tests=E2E + " Rounding that favours the trader by one unit would pass every test.",
  files=[CLAMM, STO, POS, POOL], mechanism=[("rounding against the caller", CLAMM)],
  observe=["get_user_balances, get_all_positions"], hook=HOOK,
  technique="stateful property-based testing of a metamorphic relation (round trips)"),
 dict(id="C08", title="Swap fees go to the positions in range, in proportion to their liquidity",
  statement="What a position has been paid in fees (by claims and on closing) is, per token, its share by liquidity of the fees (less the protocol's share) of every swap step done while its range held the current tick since the last payment: never more, and less by at most the documented rounding of each step. Claims credit exactly that to the owner, do not touch the principal, and are paid once; closing pays the principal besides.",
  over=["histories", "inputs"], forall=HIST, tests=E2E + " Fee growth bookkeeping outside and inside ranges is tested for single states with fixed numbers.",
  files=[POOL, POS, TICK, "calc/math/types/fee_growth.rs", SVC], mechanism=[("fee growth", POOL + " (add_fee)"), ("growth inside a range", "calc/math/types/fee_growth.rs (calculate_fee_growth_inside)"), ("claims", POS + " (claim_fee, update)")],
  observe=["claim_fee and remove_position replies, get_user_balances"], hook=HOOK,
  technique="stateful property-based testing against exact bounds of a reference ledger"),
 dict(id="C09", title="The protocol gets exactly its share of every fee",
  statement="The protocol fee a pool holds is, per token, the sum over all swap steps since the last withdrawal of the configured share of the step's fee, rounded up. The pool's fee receiver (initially the administrator) and nobody else can withdraw it, which credits all of it to them once; the configured share is what the administrator last set.",
  over=["histories", "inputs", "configurations"], forall=HIST + "; every protocol fee up to 100%", tests=E2E + " One withdrawal in one scenario.",
  files=[POOL, SVC], mechanism=[("share", POOL + " (add_fee)"), ("withdrawal", SVC + " (withdraw_protocol_fee)")],
  observe=["get_pool, get_protocol_fee, get_user_balances"], hook=HOOK,
  technique="stateful property-based testing against a reference ledger"),
 dict(id="C10", title="Privileged operations and other people's property are out of reach",
  statement="Only the administrator can change the protocol fee, the fee tiers and fee receivers, and only a pool's fee receiver can withdraw its protocol fee; anybody else is refused with the error that says so. No operation of a user changes the balances of another user, nor their positions except by giving them one, and configuration changes only by these operations and exactly as asked.",
  over=["histories", "inputs"], forall=HIST + ", by everybody entitled or not", tests=E2E + " A few refusals are tested one by one.",
  files=[SVC, STO], mechanism=[("administrator check", SVC + " (is_caller_admin)"), ("fee receiver check", SVC + " (withdraw_protocol_fee)"), ("per-caller balances and positions", STO)],
  observe=["replies and errors", "all state queries"], hook=HOOK,
  technique="stateful property-based testing with before/after frame conditions"),
 dict(id="C11", title="Position lists: nothing lost, duplicated or changed by moving",
  statement="Every user's list holds exactly the positions they opened or were given and have not closed or given away; a position is addressed by its place in the list, the last one takes the place of one that leaves, and a new one comes last. Transferring moves a position unchanged, also to oneself and to somebody without any, and every operation on a place without a position is refused.",
  over=["histories", "inputs"], forall=HIST, tests="The unit tests of the list call each function once or twice; sequences with several users, self-transfers and removals from the middle are not sampled.",
  files=["src/contracts/collections/positions.rs", SVC], mechanism=[("list operations", "src/contracts/collections/positions.rs")],
  observe=["get_position, get_all_positions, get_user_position_amount"], hook=HOOK,
  technique="stateful property-based testing against a model of the lists"),
 dict(id="C12", title="Token deposits and withdrawals follow what the tokens really did",
  statement="Under any interleaving of requests, any reply of the token contracts (confirmation, refusal, any error reply, a reply outside the interface) and any delay of it, also past the caller's wait, a deposit is credited exactly if its token confirms it, and a withdrawal is debited when asked and given back exactly if its token refuses or fails. Each request asks for exactly the transfers it is for, of which the caller is payer or payee, ends as soon as all are answered, and ends with the result, or the error (recoverable, unrecoverable, unknown outcome), that fits; requests that cannot be honoured (too little balance or gas, equal tokens, zero amounts, the native currency, a message that cannot be sent) are refused without any effect.",
  over=["schedules", "fault_sequences", "histories", "inputs"], forall="every interleaving of single and pair deposits and withdrawals of any users with any replies of the token contracts at any time", tests=E2E + " Failing tokens are tried with one kind of failure; replies that come late, twin requests in flight and unusual error payloads are not.",
  files=[SVC, STO, "src/contracts/storage/awaiting_transfers.rs"], mechanism=[("requests", SVC + " (transfer_single_token, transfer_token_pair)"), ("settlement when the reply comes", SVC + " (reply_handler)"), ("result for the caller", SVC + " (handle_transfer_result)")],
  state=[("awaiting transfers", "transfers asked for and not answered", "src/contracts/storage/awaiting_transfers.rs")],
  observe=["messages sent", "replies", "get_user_balances", "books of the token contracts"], hook=HOOK,
  technique="stateful property-based testing with injected faults and generated schedules against a model"),
 dict(id="C13", title="Native currency: paid in, credited; withdrawn, paid out; never more than held",
  statement="A deposit credits exactly the value sent with it; a withdrawal debits and pays out exactly the amount asked for, or all if none is given (nothing if there is nothing), and is refused without effect for zero or for more than the balance. The value the program holds always covers all balances in it (and equals them while no pool trades it), and the entry points for tokens never move it.",
  over=["histories", "inputs"], forall="every sequence of deposits and withdrawals of native currency by any users, between trades against it", tests=E2E + " One deposit and one withdrawal are tried.",
  files=[SVC, STO], mechanism=[("deposit and withdrawal", SVC + " (deposit_vara, withdraw_vara)")],
  observe=["value held and paid", "replies", "get_user_balances"], hook=HOOK,
  technique="stateful property-based testing against a model"),
 dict(id="C14", title="A route is its hops, all or nothing, and gives at least the minimum",
  statement="A route gives what its hops give when each is done as a swap of the whole output of the one before with no price limit, and leaves the same state and events; the output is at least the expected amount less the tolerated slippage (rounded up), otherwise it is refused. A refused route, whichever hop or reason it is refused for, leaves no trace.",
  over=["histories", "inputs"], forall=HIST + "; routes of any length, through the same pool twice, back and forth, through missing pools", tests=E2E + " One route of two hops.",
  files=[SVC, CLAMM], mechanism=[("route", SVC + " (swap_route, route)"), ("minimum", CLAMM + " (calculate_min_amount_out)")],
  observe=["swap_route replies and events", "all state queries"], hook=HOOK,
  technique="stateful property-based testing of a differential relation (route against its hops)"),
]
PROPS += [
 dict(id="C15", title="Opening a position charges exactly its tokens, or changes nothing",
  statement="Opening a position takes from the caller exactly the amounts its liquidity is worth at the pool's current price, rounded up, adds exactly that position at the end of their list, marks its two ticks, and adds its liquidity to the active one exactly if its range holds the current tick. It is refused without any effect exactly for no liquidity, an empty or unusable range, a price outside the limits the caller set, more liquidity than a tick may carry, too little balance, or a missing pool.",
  over=["histories", "inputs"], forall=HIST + "; positions with any range, liquidity and price limits", tests=E2E + " Ranges that begin or end at the current tick, ticks that are shared or already passed, and each limit exactly met are not sampled.",
  files=[SVC, POS, TICK, POOL, CLAMM], mechanism=[("opening", SVC + " (create_position)"), ("amounts", CLAMM + " (calculate_amount_delta)"), ("new position", POS + " (create)"), ("new tick", TICK + " (create)")],
  observe=["create_position reply", "get_position, get_pool, get_tick, get_user_balances"], hook=HOOK,
  technique="stateful property-based testing against a reference model (differential)"),
 dict(id="C16", title="Fee tiers and pools: exactly the allowed ones, started as asked",
  statement="Fee tiers exist exactly if the administrator added them (spacing from 1 to 100, fee below 100%) and did not remove them. Anybody can create a pool exactly for two different tokens, an existing fee tier, a usable start tick, a price that belongs to that tick, and a pair without a pool of that tier; it starts exactly at that price and tick, empty, stamped with the current time and with the administrator as fee receiver. The queries of tiers and pools show exactly these, whichever way round the tokens are named.",
  over=["histories", "inputs"], forall=HIST + "; every fee tier, token pair, price and tick", tests=E2E + " Prices at the boundaries of a tick and refusals other than one example each are not sampled.",
  files=[SVC, POOL, "src/contracts/collections/fee_tiers.rs", "src/contracts/collections/pool_keys.rs", "src/contracts/collections/pools.rs", "src/lib.rs"], mechanism=[("fee tiers", SVC + " (add_fee_tier, remove_fee_tier)"), ("creation", SVC + " (create_pool)"), ("starting state", POOL + " (create)")],
  observe=["replies and errors", "get_fee_tiers, fee_tier_exists, get_pool, get_pools, get_all_pools_for_pair"], hook=HOOK,
  technique="stateful property-based testing against a model of the registry"),
 dict(id="C17", title="Queries tell the truth, page by page, and change nothing",
  statement="Every query, through the encoding users decode it from, answers with exactly the state: pools, positions with their pools, ticks, tick maps, liquidity at ticks, their numbers and balances, for any page size and offset, also past the end. Pages put together are the whole list, without gaps or repetitions; limits documented for a page are respected, requests beyond them refused, and no query changes the state or leaves an event.",
  over=["histories", "inputs"], forall=HIST + "; every page size, offset, user, pool and list of ticks", tests=E2E + " Pages are tried with sizes that fit; the first, the last and overlong pages, and ticks in the first or last chunk of the map are not.",
  files=[SVC, STO, "src/contracts/collections/positions.rs", "src/contracts/collections/pool_keys.rs", TICKMAP, "src/lib.rs"], mechanism=[("pages", SVC + " (get_pool_keys, get_positions, get_user_positions)"), ("ticks", SVC + " (get_tickmap, get_liquidity_ticks, get_liquidity_ticks_amount, get_position_ticks)")],
  observe=["query replies as encoded"], hook=HOOK,
  technique="stateful property-based testing against a model of the state (differential, metamorphic paging)"),
 dict(id="C18", title="Events tell exactly what happened",
  statement="An accepted opening or closing of a position leaves exactly one event with its owner, pool, liquidity, range and current price; a swap leaves one with its amounts, fee, prices and direction, preceded by one naming the crossed ticks in order if any were crossed; a route leaves those of its hops. Refused operations and all others leave none.",
  over=["histories", "inputs"], forall=HIST, tests=E2E + " Events are compared after single operations of a fixed scenario.",
  files=[SVC], mechanism=[("events", SVC + " (notify_on)")],
  observe=["events sent by the program, decoded"], hook=HOOK,
  technique="stateful property-based testing against a model of the events"),
 dict(id="C19", title="Time in range is counted exactly",
  statement="For every open position, the time its range held the current tick since it was opened, as computed from its two ticks and the pool, is exactly the time it did by the clock. A tick's own count is the time the current tick was on its other side, where the time before it was initialized counts as below it. A pool's creation time never changes and its last update is never in the future nor moves back.",
  over=["histories", "schedules"], forall=HIST + ", with any time passing between them", tests=E2E + " No test lets time pass between swaps that cross ticks.",
  files=[TICK, POOL, STO, SVC], mechanism=[("outside seconds", TICK + " (create, cross)"), ("clock", POOL)],
  state=[("seconds_outside", "time spent on the other side of a tick", TICK)],
  observe=["get_tick, get_pool"], hook=HOOK,
  technique="stateful property-based testing against a reference clock"),
 dict(id="C20", title="A position can always be claimed and closed, for exactly what it is worth",
  statement="From every reachable state, the owner of any open position can claim its fees and can close it, whatever else happened in the pool, and nothing but the lack of such a position refuses it. Claiming pays exactly the fees accrued and not paid yet; closing pays exactly those and the principal at the current price, rounded down, and removes the position and the ticks nobody else uses.",
  over=["histories", "inputs"], forall=HIST, tests=E2E + " Positions are closed right after a swap or two, never after fee growth has wrapped around or the price has left and come back.",
  files=[SVC, POS, TICK, "calc/math/types/fee_growth.rs", CLAMM], mechanism=[("claiming", SVC + " (claim_fee)"), ("closing", SVC + " (remove_position)"), ("settling", POS + " (remove, claim_fee)")],
  observe=["claim_fee and remove_position replies", "get_user_balances, get_tick"], hook=HOOK,
  technique="stateful property-based testing against a reference model, with claims and closings tried from copies of reached states"),
 dict(id="C21", title="Pools do not touch each other",
  statement="An operation on one pool changes no other pool, no tick or position of another pool and no balance in a token the pool does not trade; two pools of the same pair with different fee tiers are as separate as any others. A refused operation changes nothing at all.",
  over=["histories", "inputs"], forall=HIST, tests=E2E + " Most scenarios have one pool.",
  files=[STO, SVC, "src/contracts/storage/pool_key.rs", "src/contracts/collections/ticks.rs", TICKMAP], mechanism=[("keys", "src/contracts/storage/pool_key.rs"), ("ticks and bits by pool", STO)],
  observe=["all state queries"], hook=HOOK, technique="stateful property-based testing with before/after frame conditions"),
 dict(id="C22", title="A swap is accepted exactly when it can be carried out",
  statement="A swap is carried out exactly if the rules of concentrated liquidity allow it and the caller's balance covers what it costs. Otherwise it is refused, with the error that says which: zero amount, a price limit on the wrong side or out of bounds, the limit reached before the amount is used up, no more liquidity within the search range, nothing gained, no such pool, too little balance; and it changes nothing.",
  over=["histories", "inputs"], forall=HIST + "; every direction, amount, exact side and price limit", tests=E2E + " One example of some refusals.",
  files=[SVC, STO, CLAMM], mechanism=[("checks", SVC + " (swap)"), ("loop", STO + " (calculate_swap)")],
  observe=["swap reply or error", "all state queries"], hook=HOOK,
  technique="stateful property-based testing against a reference model (acceptance and errors)"),
]
LIB_NOTE = (
    "Generated inputs (ends of types and ranges, powers, neighbours of boundaries, everyday numbers) on the real library, "
    "against reference arithmetic over unbounded integers written from the definitions. It shows no violation was found in "
    "the inputs the evidence file counts (all ticks, where it says so); it does not prove absence. Trusted: the harness and "
    "its reference arithmetic."
)
UNIT = "The unit tests compare with precomputed numbers, a few per function; "
DEC = ["calc/decimal/decimal_core/src/lib.rs", "calc/decimal/decimal_core/src/big_ops.rs", "calc/decimal/decimal_core/src/ops.rs", "calc/decimal/decimal_core/src/others.rs", "calc/decimal/decimal_core/src/factories.rs"]
TY = "calc/math/types/"
PROPS += [
 dict(id="M01", title="Ticks and prices belong together one to one",
  statement="Every tick from -221818 to 221818 has the price fixed by the definition of the tick price (1.0001^(tick/2), within one part in ten million), rising strictly from tick to tick and from the lowest to the highest allowed price. The tick of a price, for every tick spacing, is the highest multiple of the spacing whose price is not above it; prices and ticks outside the bounds are refused.",
  over=["inputs"], forall="every tick, and every tick spacing at the first and last price of every tick (exhaustive), with generated prices between them and out of bounds",
  tests=UNIT + "no test visits every tick, and rounding in the logarithm fails at single ticks and spacings only.",
  files=[LOG, TY + "sqrt_price.rs", "calc/math/consts.rs"], mechanism=[("price of a tick", TY + "sqrt_price.rs (calculate_sqrt_price)"), ("tick of a price", LOG + " (get_tick_at_sqrt_price)")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing, exhaustive over ticks, against a table recomputed from the definition (round trip, monotonicity)"),
 dict(id="M02", title="Token amounts of liquidity: exact, rounded for the pool",
  statement="The amount of either token that liquidity is worth between two prices is the exact amount rounded down, or, where the pool is to be paid, up (each within one unit or one part in ten trillion, never on the wrong side by a billionth of a unit), whichever way round the prices are named. A range takes only x below it, only y above it (from its upper end on) and both inside, and its liquidity is active exactly inside; amounts that do not fit are refused, as are reversed ranges.",
  over=["inputs"], forall="every pair of prices, liquidity up to 2^256, range, current tick and price of it, both directions of rounding",
  tests=UNIT + "rounding errors show at particular magnitudes only.",
  files=[CLAMM, TY + "sqrt_price.rs", TY + "liquidity.rs"], mechanism=[("amounts", CLAMM + " (get_delta_x, get_delta_y)"), ("amounts of a range", CLAMM + " (calculate_amount_delta)")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing against exact rational arithmetic"),
 dict(id="M03", title="A swap step never favours the trader, stops at its target and uses the amount",
  statement="For every price, target, liquidity, amount, direction and fee, a swap step goes from the price towards the target and not past it, uses no more than the amount, all of it unless it reaches the target, and takes and gives the exact amounts with input and fee rounded up and output down. The price after an amount is rounded to the trader's disadvantage, a step that would empty the liquidity is refused, and an amount is told to be too small to move the price exactly if it is.",
  over=["inputs"], forall="every price, target, liquidity, amount (at, and one unit about, what reaches the target), direction, exact side and fee below 100%",
  tests=UNIT + "amounts that just reach or just miss the target, at other magnitudes, are not sampled.",
  files=[CLAMM], mechanism=[("step", CLAMM + " (compute_swap_step)"), ("next price", CLAMM + " (get_next_sqrt_price_from_input, get_next_sqrt_price_from_output, get_next_sqrt_price_x_up, get_next_sqrt_price_y_down)"), ("too small", CLAMM + " (is_enough_amount_to_change_price)")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing against exact rational arithmetic (differential and invariants)"),
 dict(id="M04", title="Fee and time accumulators are exact and survive wrapping around",
  statement="Fee growth is the fee per liquidity rounded down; what positions draw from it is their share rounded down, together never more than the fee and less by at most the rounding. Growth and time inside a range are the global value less that below and above, modulo 2^128, so that neighbouring ranges add up and wrapping around changes no difference; seconds per liquidity count the time passed and nothing for no liquidity or no time.",
  over=["inputs"], forall="every fee, liquidity, growth and timestamp, every order of two or three ticks and the current one",
  tests=UNIT + "wrapping is tested for single values.",
  files=[TY + "fee_growth.rs", TY + "seconds_per_liquidity.rs"], mechanism=[("growth", TY + "fee_growth.rs (from_fee, to_fee, calculate_fee_growth_inside)"), ("time", TY + "seconds_per_liquidity.rs")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing against modular reference arithmetic and additivity (metamorphic)"),
 dict(id="M05", title="Decimal arithmetic is exact with the rounding it names",
  statement="Every operation on decimals (sums, differences, products, quotients, conversions between decimal types and from integers at any scale, through the wide type, in place and checked) gives the exact result rounded in the direction it names, or refuses; it never gives a wrong number, whatever the sizes. It refuses only if the result, or the product the operation is defined by, does not fit; the text of a decimal is its exact value.",
  over=["inputs", "configurations"], forall="every pair of decimal types and every value of them",
  tests=UNIT + "the macros expand into hundreds of functions of which the tests call some, for one type.",
  files=DEC + ["calc/decimal/src/uint.rs", "calc/decimal/src/traits.rs"], mechanism=[("operations by macro", "calc/decimal/decimal_core/src (ops.rs, big_ops.rs, checked_ops.rs, others.rs, factories.rs, by_number.rs)")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing against unbounded integers (differential)"),
 dict(id="M06", title="Casts between integer widths keep the number or refuse",
  statement="Casting an integer between any two of the widths in use gives the same number if it fits and is refused if it does not (as an error where the cast is a checked one).",
  over=["inputs", "configurations"], forall="every pair of integer types and every value of them",
  tests=UNIT + "values at the limits of other types, and with single high words, are not sampled.",
  files=["calc/decimal/src/uint.rs", "calc/decimal/decimal_core/src/uint_casts.rs"], mechanism=[("casts", "calc/decimal/src")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing against unbounded integers (differential)"),
 dict(id="M07", title="The tick map finds the next initialized tick within reach, and no other",
  statement="After any sequence of changes to the tick maps of several pools, a tick is marked exactly if it was set last, and setting what is set is refused. The searches up and down give the nearest marked tick of that pool within 256 spacings and the usable range, or none, and the stop of a swap is that tick, the end of the range, or the price limit if it comes first.",
  over=["histories", "inputs"], forall="every sequence of changes, every tick and spacing, both directions and every price limit",
  tests=UNIT + "bits across words and at the ends of the map are sampled for a few spacings.",
  files=[TICKMAP], mechanism=[("searches", TICKMAP + " (next_initialized, prev_initialized)"), ("stop", TICKMAP + " (get_closer_limit)")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="stateful property-based testing against a set model"),
 dict(id="M08", title="Liquidity from token amounts is the most they pay for",
  statement="The liquidity for an amount of one token in a range costs no more of that token than given, and a part in 10^12 more would; the amount of the other token is the exact one, rounded as asked. Both are refused where that token does not enter (above or below the range) and for ticks out of range; for two amounts it is the lesser of both, within what is given.",
  over=["inputs"], forall="every amount, range, price and rounding",
  tests=UNIT + "prices at the ends of the range and other magnitudes are not sampled.",
  files=["src/contracts/logic/liquidity_result.rs"], mechanism=[("liquidity", "src/contracts/logic/liquidity_result.rs (get_liquidity, get_liquidity_by_x, get_liquidity_by_y)")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing against exact rational arithmetic (optimality)"),
 dict(id="M09", title="Usable ticks, limits and bounds per spacing are what they should be",
  statement="For every tick spacing: usable ticks are its multiples within the bounds, a price belongs to a tick exactly from the tick's price up to the next usable one's (the last has only its own), every usable tick has its place in the tick map and every place its tick, and the search limit is 256 spacings away or the last usable tick. The liquidity allowed on one tick is the largest number shared among all ticks, and the least output of a route is the expected one less the tolerance, rounded up.",
  over=["inputs", "configurations"], forall="every tick spacing from 1 to 100, every tick, price, amount and tolerance",
  tests=UNIT + "spacings that do not divide the bounds are hardly sampled.",
  files=[LOG, CLAMM, TICKMAP, "calc/math/lib.rs", TY + "sqrt_price.rs"], mechanism=[("ticks", CLAMM + " (check_tick, calculate_max_liquidity_per_tick, calculate_min_amount_out)"), ("places", TICKMAP + " (tick_to_position, position_to_tick, get_search_limit)"), ("tick of a price", TY + "sqrt_price.rs (check_tick_to_sqrt_price_relationship)")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing against the definitions (differential, round trip)"),
 dict(id="M10", title="Errors of the libraries tell their cause and the way they took",
  statement="An error of the libraries keeps the cause it began with, word for word, and lists the place where it began and then every place that marked it on its way out, in that order and no other, each with its file, function and line. Its text, and the panic of whoever unwraps it, tell all of that in order. A number passes all of it unchanged, and a recovered error leaves no trace.",
  over=["inputs", "histories"], forall="every nesting of calls up to eighty deep that mark, pass on or recover, every kind of error and every cause", tests="Two chains of three functions and one panic without a text are tested.",
  files=["calc/traceable_result/lib.rs"], mechanism=[("error", "calc/traceable_result/lib.rs (TrackableError)"), ("marks", "calc/traceable_result/lib.rs (err!, ok_or_mark_trace!, from_result!, unwrap!)")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing of generated call chains against a model of the trace"),
]
W = "sdk/src/wasm/"
SDK = "the SDK's library that applications compute with before they send anything: "
JS = "The SDK's tests need a node, a browser build or the network; the unit tests of the library call functions with a few fixed numbers, and nothing compares the two implementations beyond them."
PROPS += [
 dict(id="S01", title="SDK: ticks and prices are those of the program",
  statement="In the SDK's library every tick from -221818 to 221818 has the price fixed by the definition of the tick price, rising strictly, and the tick of a price, for every tick spacing, is the highest multiple of the spacing whose price is not above it. Prices and ticks outside the bounds are refused.",
  over=["inputs"], forall="every tick and every tick spacing at the first and last price of every tick (exhaustive), with generated prices between them and out of bounds", tests=JS,
  files=[W + "log.rs", W + "types/sqrt_price.rs"], mechanism=[("price of a tick", W + "types/sqrt_price.rs"), ("tick of a price", W + "log.rs")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing, exhaustive over ticks, against a table recomputed from the definition"),
 dict(id="S02", title="SDK: amounts of liquidity are those the program will move",
  statement="The SDK's library gives for every price range, liquidity and rounding exactly the amounts the program charges or pays: the exact amounts rounded up to the pool or down to the user, only x below the range, only y above it. Adding or removing liquidity on a pool there changes its active liquidity exactly if the range holds the current tick, and nothing else; what does not fit or is not there is refused.",
  over=["inputs"], forall="every pair of prices, liquidity up to 2^256, range, current tick and price of it, both roundings", tests=JS,
  files=[W + "clamm.rs", W + "storage/pool.rs"], mechanism=[("amounts", W + "clamm.rs"), ("pool", W + "storage/pool.rs (update_liquidity)")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing against exact rational arithmetic, the reference of the program"),
 dict(id="S03", title="SDK: a swap step is that of the program",
  statement="For every price, target, liquidity, amount, direction and fee, a swap step of the SDK's library gives exactly the price, amounts and fee the program's step gives wherever the program can carry it out, and says of the same amounts that they are too small to move the price.",
  over=["inputs"], forall="every price, target, liquidity, amount (at, and one unit about, what reaches the target), direction, exact side and fee below 100%", tests=JS,
  files=[W + "clamm.rs"], mechanism=[("step", W + "clamm.rs (compute_swap_step)")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing against exact rational arithmetic, the reference of the program"),
 dict(id="S04", title="SDK: the fees it shows are those a claim pays",
  statement="From a position, its two ticks and the pool, the SDK's library computes exactly the fees of both tokens the program would pay on a claim, also after fee growth has wrapped around. Its accumulators follow the same exact rules: growth is fee per liquidity rounded down, shares never add up to more than the fee, and neighbouring ranges add up.",
  over=["inputs"], forall="every growth of a pool, two ticks and a position, any liquidity and current tick", tests=JS,
  files=[W + "custom.rs", W + "types/fee_growth.rs"], mechanism=[("fees of a position", W + "custom.rs (calculate_fee)"), ("growth", W + "types/fee_growth.rs")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing against modular reference arithmetic, the reference of the program"),
 dict(id="S05", title="SDK: a simulated swap gives what the swap would give",
  statement="A simulation on a pool, its tick map and its ticks (in any order) gives exactly the input, output, fee, prices and crossed ticks of the swap the program would carry out; it says when liquidity or the price limit does not suffice, when it stops after its limit of steps, and when a tick it needs is missing. It refuses exactly zero amounts and price limits on the wrong side or out of bounds, and never fails otherwise.",
  over=["inputs", "histories"], forall="every pool with positions anywhere (also at the ends of the search range and of the ticks), every swap on it, and swaps that follow each other", tests=JS,
  files=[W + "swap.rs", W + "collections/tickmap.rs", W + "storage/pool.rs", W + "storage/tick.rs", W + "clamm.rs"], mechanism=[("simulation", W + "swap.rs (simulate_invariant_swap)")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="stateful property-based testing against the reference model of the program's swap (differential)"),
 dict(id="S06", title="SDK: tick search, usable ticks and limits are those of the program",
  statement="In the SDK's library the searches on a tick map give the nearest marked tick within 256 spacings and the usable range, or none, and the stop of a swap is that tick, the end of the range or the price limit if it comes first. Usable ticks, their places in the tick map, the prices that belong to a tick, the search limit, the liquidity allowed per tick and the least output of a route follow the same definitions as the program's.",
  over=["inputs", "histories"], forall="every sequence of changes to a tick map, every tick, spacing, direction, price and tolerance", tests=JS,
  files=[W + "collections/tickmap.rs", W + "clamm.rs", W + "helpers.rs", W + "math.rs"], mechanism=[("searches", W + "collections/tickmap.rs"), ("limits", W + "math.rs, " + W + "clamm.rs")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="stateful property-based testing against a set model and the definitions"),
 dict(id="S07", title="SDK: liquidity from token amounts is the most they pay for",
  statement="The SDK's library gives for an amount of one token in a range the most liquidity it pays for (a part in 10^12 more would cost more), and the exact amount of the other token, rounded as asked. It refuses where that token does not enter (above or below the range) and ticks out of range.",
  over=["inputs"], forall="every amount, range, price and rounding", tests=JS,
  files=[W + "math.rs"], mechanism=[("liquidity", W + "math.rs (get_liquidity_by_x, get_liquidity_by_y)")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing against exact rational arithmetic (optimality)"),
 dict(id="S08", title="SDK: decimal arithmetic and casts are exact or refused",
  statement="Every operation on the SDK's decimals and every cast between integer widths, as compiled for the SDK, gives the exact result rounded in the direction it names, or refuses because something does not fit. It never gives a wrong number.",
  over=["inputs", "configurations"], forall="every pair of decimal types and of integer types and every value of them", tests=JS,
  files=DEC + ["calc/decimal/src/uint.rs"], mechanism=[("operations by macro", "calc/decimal/decimal_core/src"), ("types", W + "types")],
  observe=["results of the library functions"], level_note=LIB_NOTE, technique="property-based testing against unbounded integers (differential)"),
 dict(id="S09", title="SDK: keys, limits and encodings agree with the program",
  statement="The SDK's library orders the tokens of a pool by address as the program does and refuses equal ones, accepts fee tiers with spacing from 1 to 100 and a fee of at most 100%, and states the limits the program applies. Its values are serialized under the names and in the forms its JavaScript types declare and come back unchanged, 256-bit numbers as decimal text.",
  over=["inputs"], forall="every pair of addresses, fee tier and value of the serialized types", tests=JS,
  files=[W + "storage/pool_key.rs", W + "storage/fee_tier.rs", W + "consts.rs", W + "custom.rs", W + "storage", W + "types"], mechanism=[("order of tokens", W + "storage/pool_key.rs"), ("serialization", W + "custom.rs")],
  observe=["results of the library functions", "serialized values"], level_note=LIB_NOTE, technique="property-based testing against the definitions (round trip, differential)"),
 dict(id="T01", title="Client: a transaction does what its method and arguments say",
  statement="Every transaction method of the TypeScript client sends one message to the program it was loaded with, from the signer given, with the gas limit and the value asked for, that calls the program's method of that name with exactly the arguments given (amounts, keys, tiers, limits worked out from the price and the tolerance); it returns the program's answer or events as typed values without losing precision, and fails with the program's error when the program refuses. A transaction that is prepared and sent later does the same. Arguments that do not fit are refused before anything is sent.",
  over=["histories", "inputs"], forall="every history of transactions made through the client, and every argument", tests=JSE,
  files=[J + "invariant.ts", J + "invariant-contract.ts", J + "utils.ts"], mechanism=[("transactions", J + "invariant.ts"), ("TransactionWrapper, conversions", J + "utils.ts")],
  observe=["messages the client sends, what its methods return, the program's state"], level_note=JS_NOTE, technique="stateful property-based testing: the client drives the program, against the message and result its interface calls for"),
 dict(id="T02", title="Client: queries return the program's data, whole and in order",
  statement="Every query method of the client asks the program's method of that name with the arguments given and returns its answer as typed values without losing precision, or fails when the program refuses. Methods that gather a list over several queries (all positions with pages skipped or not, all pool keys, all liquidity ticks, the full tickmap) return every entry once, in the program's order, the pages under their own index.",
  over=["histories", "inputs"], forall="every state reached by a history and every argument, pages skipped, lists longer than a page", tests=JSE,
  files=[J + "invariant.ts", J + "utils.ts", J + "consts.ts"], mechanism=[("queries and paging", J + "invariant.ts"), ("conversions", J + "utils.ts"), ("page sizes", J + "consts.ts")],
  observe=["results of the client's queries"], level_note=JS_NOTE, technique="stateful property-based testing: the client's answers against the program's"),
 dict(id="T03", title="Client: prices, tolerances and what a position can cost",
  statement="The client's conversions between price and square root of price round down the exact value; the price impact of a move and the limit after a tolerance are exact up to their last digit; the breakpoints of a pool's liquidity are the running sums of its ticks' changes. The amounts calculated for a position with a tolerance are, each, the most that the position takes at any price within the tolerance that a pool can have.",
  over=["inputs"], forall="every price, tolerance, range and list of ticks in the valid ranges", tests=JS,
  files=[J + "utils.ts"], mechanism=[("helpers", J + "utils.ts")],
  observe=["results of the client's functions"], level_note=JS_NOTE, technique="property-based testing against unbounded integers (differential)"),
 dict(id="T04", title="Client: the library's functions answer as the program does",
  statement="The functions of the compiled library, called through the client with its types, return what the program's own arithmetic returns (prices of ticks, ticks of prices, limits per spacing, places in the tickmap, fee tiers, pool keys, order of tokens, amounts and fees of positions, conversions of scale) as the declared types, without losing precision, and refuse what the program refuses; an integer that does not fit is refused, not cut.",
  over=["inputs"], forall="every argument that fits the declared types, at and beyond the limits", tests=JS,
  files=[J + "utils.ts", J + "wasm-serializer.ts", "sdk/src/wasm/math.rs", "sdk/src/wasm/clamm.rs"], mechanism=[("wrappers", J + "utils.ts"), ("forms of numbers", J + "wasm-serializer.ts")],
  observe=["results of the client's functions"], level_note=JS_NOTE, technique="property-based testing against the program's own arithmetic (differential)"),
 dict(id="T05", title="Client: a simulated swap predicts the swap",
  statement="simulateInvariantSwap, given the pool, tier, ticks and tickmap the client read from the program, predicts the amounts, fee, resulting price and crossed ticks of that swap, or that it fails, whether the ticks were filtered with filterTicks and filterTickmap for its direction or not; it says so when it cannot tell.",
  over=["histories", "inputs"], forall="every pool reached by a history and every swap", tests=JSE,
  files=[J + "utils.ts", "sdk/src/wasm/swap.rs"], mechanism=[("simulateInvariantSwap, filterTicks, filterTickmap", J + "utils.ts"), ("simulation", "sdk/src/wasm/swap.rs")],
  observe=["results of the client's functions", "the same swap made through the program"], level_note=JS_NOTE, technique="stateful property-based testing: prediction against the program's outcome (differential)"),
 dict(id="T06", title="Client: listeners hear each event of the program once, as it was",
  statement="A listener registered with the client is called once for each event of its kind that its program emits, in order, with exactly the event's data; it hears no message of another program or service, none that is sent to a user, and none after it was dropped. Dropping one listener leaves the others. The same holds for each subscription to one kind of event that the client's class of the program offers.",
  over=["histories", "schedules"], forall="every history of events and other messages, every order of registering and dropping listeners", tests=JSE,
  files=[J + "invariant.ts", J + "utils.ts"], mechanism=[("on, off, listen", J + "invariant.ts"), ("decodeEvent", J + "utils.ts")],
  observe=["calls of the listeners"], level_note=JS_NOTE, technique="stateful property-based testing against a model of the listeners"),
 dict(id="T07", title="Client: a batch tells of each transaction whether it succeeded",
  statement="batchTxs sends all transactions given to it, in order, as one batch of the signer; it returns when all have been answered, and fails if the chain refuses the batch or any transaction failed, naming exactly those that failed with their errors. A reply to a deposit or withdrawal that is not of its kind counts as a failure.",
  over=["histories", "fault_sequences"], forall="every batch of transactions, outcome of each and refusal of the whole", tests=JSE,
  files=[J + "utils.ts", J + "invariant.ts"], mechanism=[("batchTxs, BatchError, checks of replies", J + "utils.ts")],
  observe=["messages sent, what batchTxs returns or throws"], level_note=JS_NOTE, technique="stateful property-based testing with injected failures against a model of the batch"),
 dict(id="T08", title="Client: token calls reach the token named; deployments deploy what is asked",
  statement="Every method of the token client calls the method of that name of the token it names with exactly the arguments given, as the signer or the administrator, and returns the token's answer or fails with its error; a prepared transaction goes to the token it was prepared for, whatever was called since. Deploying the program or a token uploads the compiled program with the arguments, signer and gas limit given, returns its address, and fails when the program does not start. A subscription to one kind of event of a token hears each such event of that token, with its data, and no other message.",
  over=["histories", "inputs"], forall="every sequence of calls on several tokens, every argument", tests=JSE,
  files=[J + "erc20.ts", J + "erc20-token.ts", J + "invariant.ts", J + "utils.ts"], mechanism=[("token client", J + "erc20.ts"), ("deploy", J + "invariant.ts")],
  observe=["messages the client sends, what its methods return"], level_note=JS_NOTE, technique="stateful property-based testing against a model of the token"),
 dict(id="T09", title="Client: concentrations and ranges of ticks correspond",
  statement="calculateConcentration gives how much more a range yields than the whole range of prices, 1/(1-1.0001^(-ticks/4)) over the client's constant factor; calculateTickDelta gives the least number of steps at which the concentration is no more than the one asked for, the inverse of it; getConcentrationArray lists the concentrations from the least range while they fall by at least one per step, then whole ones down to two, no more of them than steps fit between the current tick and the end of the price range, and refuses when even the least range does not fit.",
  over=["inputs"], forall="every tick spacing, least range, number of steps and current tick", tests=JS,
  files=[J + "utils.ts", J + "computed-consts.ts"], mechanism=[("concentrations", J + "utils.ts")],
  observe=["results of the client's functions"], level_note=JS_NOTE, technique="property-based testing against the defining formula (inverse, differential)"),
 dict(id="T10", title="Client: connections, new blocks and delays",
  statement="initGearApi connects to the node of the network asked for (local, testnet or mainnet) and to no other, tells of the node, and gives that very connection once the node has answered; any other network is refused without a connection, and a node that fails to answer is no success. subscribeToNewHeads tells the number and the hash of every new block until the function it gives is called, and of none afterwards. A delay ends, and not before the time asked for.",
  over=["inputs", "fault_sequences", "histories"], forall="every network, failure of the node, stream of blocks and moment of its end", tests=JS,
  files=[J + "utils.ts", J + "network.ts", J + "consts.ts"], mechanism=[("connection", J + "utils.ts (initGearApi)"), ("blocks", J + "utils.ts (subscribeToNewHeads)"), ("delay", J + "utils.ts (delay)")],
  observe=["connections asked for, what the functions return and tell"], level_note=JS_NOTE, technique="property-based testing with a stand-in of the node and injected failures"),
]
PROPS += [
 dict(id="E01", title="Token: supply is what is held; minted, burned, administered by those who may",
  statement="The token program (extended-vft) starts with the deployer as only admin, minter and burner, and with the name, symbol and decimals asked for. Only minters mint and only burners burn, exactly the amount asked, to or from exactly the account named, with a Minted or Burned event; an amount of zero changes nothing and replies false; more than the numbers or the balance allow is refused. Only admins give and take the three roles, each exactly from whom it is taken, and switch the failure of transfers on and off (nobody where it is not compiled in). The total supply always is the sum of all balances, Admins, Minters and Burners list exactly who has the role, and a refused message changes nothing. Transfers, approvals and views of the standard token are reachable unchanged, except that transfers fail while failures are switched on.",
  over=["inputs", "histories"], forall="every history of messages from any accounts, with any amounts", tests="extended-vft/app/tests (they need a node or the compiled program)",
  files=["extended-vft/app/src/services/extended_vft/mod.rs", "extended-vft/app/src/services/extended_vft/funcs.rs", "extended-vft/app/src/lib.rs"],
  mechanism=[("roles", "extended-vft/app/src/services/extended_vft/mod.rs"), ("supply", "extended-vft/app/src/services/extended_vft/funcs.rs")],
  observe=["replies and events of the token, all its views after every message"],
  level_note=LEVEL_NOTE + " The standard token it extends is a stand-in.", technique="stateful property-based testing against a model of the token"),
]
NOT_APPLICABLE = []
NOTES = "Every check builds the harness from /repo's working tree and runs cases derived from VERIF_SEED; ./show.sh REPLAY shows a failing case and runs it again."
