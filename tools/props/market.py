F = 'pallet/marketplace/src/lib.rs pallet/marketplace/src/impls.rs pallet/marketplace/src/types.rs'
prop('M01', 'market', 'A fixed-price sale swaps exactly the listed tokens for exactly the price',
 '''Only an owner of free tokens lists them, and they stay locked to that one listing until it is bought, cancelled by its seller, expires or an offer for them is accepted; then every token of the listing is handed over or free again. A buyer (the named one, if named) pays exactly the current price and gets exactly the listed tokens, or nothing happens; buying several listings is all or nothing. Only the seller changes price or cancels; a listing closes in exactly its end block and leaves no trace.''',
 'histories inputs', 'every sequence of listings of NFT and SFT bundles (empty, repeated, foreign, too many), price changes, purchases, batch purchases, cancellations, transfer switches and block steps up to the stated depth from three markets',
 'Listings live in four maps plus token locks and reservations that must agree after every history, including expiry hooks.',
 F, [('listing and buying', 'pallet/marketplace/src/impls.rs do_sell, do_buy, do_cancel_sale, do_update_fixed_price'), ('expiry', 'pallet/marketplace/src/impls.rs close_listings_at'), ('locks', 'pallet/marketplace/src/types.rs lock_tokens, unlock_tokens, unlock_and_transfer')], state=[('Listings', 'open listings'), ('ListingEndSchedule', 'when listings end'), ('OpenCollectionListings', 'listings by collection')])
prop('M02', 'market', 'Auctions sell to the highest bidder, refund everyone else, lose nothing',
 '''The first bid must reach the reserve and each later one must exceed the last; the winning bid, and only it, is on hold, and outbid funds return at once. A bid within the last 40 blocks moves the close to 40 blocks ahead, never closer. At close the winner gets exactly the tokens and the bid is paid out; without bids the tokens are freed; if settlement is impossible the bid is refunded and the tokens are freed. Cancelling is for the seller and only before a bid.''',
 'histories schedules', 'every sequence of auctions of NFT and SFT bundles, bids by seller and strangers, cancellations, transfer switches and block steps to just before, at and after each close, up to the stated depth',
 'Outcomes depend on when bids fall relative to the close and on what happened to the collection meanwhile.',
 F, [('bids', 'pallet/marketplace/src/impls.rs do_bid'), ('closing', 'pallet/marketplace/src/impls.rs close_listings_at, process_auction_closure')], state=[('ListingWinningBid', 'winning bid'), ('ListingEndSchedule', 'close blocks')])
prop('M03', 'market', 'Offers stay fully funded and end only by withdrawal or the owner\'s consent',
 '''Each offer has exactly its amount on hold until its maker withdraws it or the token's current owner accepts it, for as long as it exists, also across transfers, burns and listings of the token. Accepting pays out exactly the amount and hands the token to the offer's maker, or changes nothing; it ends a fixed-price listing of the token freeing everything else in it, and is refused while the token is on auction. Offers are refused for one's own, missing or auctioned tokens, for nothing, and beyond the limit per token.''',
 'histories', 'every sequence of offers, withdrawals, acceptances, listings, auctions, bids, purchases, transfers and burns by four accounts up to the stated depth',
 'Offers interact with listings and ownership changes made in between.',
 F, [('offers', 'pallet/marketplace/src/impls.rs do_make_simple_offer, do_accept_offer, do_cancel_offer, remove_offer')], state=[('Offers', 'open offers'), ('TokenOffers', 'offers per token')])
prop('M04', 'market', 'Sale proceeds are split exactly: royalties, network fee, marketplace, seller',
 '''For every sale, auction or accepted offer the payouts add up to the price: each collection royalty, the network fee (if there is a receiver) and the marketplace's share gets its rounded part, and the seller exactly the rest. Shares are those in force when the tokens were listed (or the offer accepted); totals above 100% and unknown marketplaces are refused. Only root changes the fee receiver, and marketplaces keep the account and share they registered.''',
 'histories inputs', 'every sequence of marketplace registrations, fee receiver changes, listings, auctions and offers under each marketplace, and sales at prices with all kinds of remainders, up to the stated depth, from three royalty schedules including exactly 100%',
 'Rounding, stacked shares and changes between listing and sale are not sampled by tests.',
 F + ' primitives/src/nft.rs', [('payouts', 'pallet/marketplace/src/impls.rs calculate_royalty_payouts, calculate_bundle_royalties'), ('registration', 'pallet/marketplace/src/impls.rs do_register_marketplace, do_set_fee_to')], state=[('RegisteredMarketplaces', 'marketplace shares'), ('FeeTo', 'network fee receiver')])
