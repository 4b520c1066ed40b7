F = 'pallet/dex/src/lib.rs pallet/dex/src/types.rs'
prop('D01', 'dex', 'DEX swaps pay exactly the constant-product price and are all-or-nothing',
 '''Along every history of swaps and liquidity changes, a swap moves exactly the quoted amounts hop by hop, respects the caller's limit, deadline and recipient, never lowers the product of the pool reserves, and neither creates nor destroys any traded asset.
 The recorded reserves always equal what the pool holds after a trade. A refused swap leaves every balance and record untouched.''',
 'histories inputs', 'every sequence of swaps, liquidity changes, donations and fee switches up to the stated depth, over direct, multi-hop, circular and invalid paths, with limits exactly met and missed by one',
 'The tests trade on one or two freshly made pools with hand-picked amounts; they cannot cover the reserves that arbitrary earlier operations leave behind.',
 F, [('exact supply / exact target swaps', 'pallet/dex/src/lib.rs do_swap_with_exact_supply, do_swap_with_exact_target, _swap'), ('quotes along a path', 'pallet/dex/src/lib.rs get_amounts_out, get_amounts_in')],
 state=[('LiquidityPool', 'recorded reserves per pair')])
prop('D02', 'dex', 'DEX liquidity shares are minted and redeemed in exact proportion',
 '''Adding liquidity takes assets at the pool's current ratio within the caller's minimums and mints shares in proportion to the smaller contribution; the first deposit mints the geometric mean with 1000 shares locked forever.
 Removing liquidity burns the given shares and pays out their exact pro-rata part of both assets. What one share is worth never falls through any operation except the documented protocol fee.''',
 'histories inputs', 'every sequence of additions, removals, share transfers, donations and swaps up to the stated depth from four pool configurations, with minimums exactly met and missed by one',
 'The tests check a handful of deposits; proportionality after donations, odd reserves, partial exits and re-deposits is only visible over histories.',
 F, [('add and remove liquidity', 'pallet/dex/src/lib.rs do_add_liquidity, do_remove_liquidity')], state=[('LiquidityPool', 'recorded reserves per pair'), ('TradingPairLPToken', 'share asset of a pair')])
prop('D03', 'dex', 'DEX protocol fee only takes its share of swap growth; pairs stay switchable',
 '''The protocol fee mints shares only to the configured receiver, only while one is set, and only for growth from trading since the last collection, never for added liquidity. A disabled pair accepts no trade or deposit but still lets holders withdraw, and only the privileged origin can disable, re-enable or choose the fee receiver.''',
 'histories configurations', 'every sequence of fee-receiver changes, pair switches, swaps and liquidity changes up to the stated depth',
 'Whether a stale growth baseline is charged depends on the order of fee switches and deposits; tests exercise one order.',
 F, [('protocol fee', 'pallet/dex/src/lib.rs mint_fee, set_fee_to'), ('pair status', 'pallet/dex/src/lib.rs disable_trading_pair, reenable_trading_pair')], state=[('LiquidityPoolLastK', 'product of reserves at the last fee collection'), ('FeeTo', 'receiver of the protocol fee')])
prop('D04', 'dex', 'DEX price functions are exact over the whole 128-bit range and never overpay',
 '''For every amount and pair of reserves the output quote equals the floor of the fee-adjusted constant-product formula and is below the reserve, the input quote is enough to buy the requested output, and impossible requests are refused rather than wrapped.
 The address of a pair's pool does not depend on the order of its assets and differs between pairs.''',
 'inputs', 'every triple from a boundary grid over the full 128-bit range and every triple of small numbers; every pair of a grid of asset ids',
 'Tests use a few round numbers; rounding and overflow errors sit at the boundaries.',
 F, [('price formulas', 'pallet/dex/src/lib.rs get_amount_out, get_amount_in, quote'), ('pool address', 'pallet/dex/src/types.rs pool_address')], technique='exhaustive enumeration of a bounded input space on the implementation against exact arithmetic')
