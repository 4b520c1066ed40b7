F = 'pallet/crowdsale/src/lib.rs pallet/crowdsale/src/impls.rs'
prop('W01', 'crowdsale', 'A crowdsale keeps all contributions and closes exactly at its end block',
 '''Only the owner of a capped, empty, not publicly mintable collection can put it up for sale (a sale lasts at least one and at most the maximum number of blocks), only that admin can start the sale, and only while it is open can anyone contribute, any positive amount they have. The sale's vault holds exactly what was contributed, and the recorded total, contributions and number of participants agree. In exactly its end block each sale closes, whatever was raised, and the whole of the funds goes to the admin.''',
 'histories schedules', 'every sequence of creations, starts, contributions, block steps, distributions and forced distributions of two admins, three contributors and up to three sales in two payment assets (one the admin does not hold) up to the stated depth, from four initial situations',
 'Closing happens in a hook whose failures are only logged; bounded queues make it take rare branches.',
 F, [('creation and contribution', 'pallet/crowdsale/src/lib.rs initialize, enable, participate'), ('closing', 'pallet/crowdsale/src/impls.rs close_sales_at')], state=[('SaleInfo', 'the sales'), ('SaleParticipation', 'contributions'), ('SaleEndBlocks', 'when sales end')])
prop('W02', 'crowdsale', 'Every contributor gets exactly the vouchers due, once, in any order',
 '''A contribution is worth its value at the soft cap price, or its proportional share (rounded down) of all vouchers if the sale raised more than the soft cap for all; what cannot be sold goes to the admin. Each contributor receives that, once, whether claimed or distributed (in order of closing, a bounded number at a time), in any order and mixture, and the amount does not depend on when. After the last one the rest goes to the admin and the sale ends. A sale that found the queue full is distributed once anyone asks for it and there is room.''',
 'histories inputs', 'every sequence of contributions, claims, distributions, forced distributions and block steps up to the stated depth, and every complete sale over a grid of collection sizes, prices and contributions of three accounts under four orders of payment',
 'Rounding, over- and under-subscription and the interleaving of claims with automatic distribution.',
 F, [('worth', 'pallet/crowdsale/src/impls.rs calculate_voucher_rewards, transfer_user_vouchers'), ('payment', 'pallet/crowdsale/src/lib.rs claim_voucher, distribute_crowdsale_rewards, try_force_distribution')], state=[('SaleDistribution', 'queue of sales in distribution')])
prop('W03', 'crowdsale', 'A sale\'s vouchers are always backed one to one by tokens not yet minted',
 '''From creation on, a sale's vouchers in all hands plus one voucher per token minted equal the collection's cap. Only whole vouchers can be redeemed, after closing, for as many new tokens for the redeemer as vouchers burnt, however many at once; nobody, including the collection's former owner and the sale's admin, can mint the collection's tokens or vouchers in another way or take the collection back: the admin can only make permitted calls through the vault.''',
 'histories inputs', 'every sequence of redemptions, voucher transfers, attempted mints, calls through the vault, claims and distributions up to the stated depth, and single redemptions of up to 12 000 tokens',
 'Backing depends on everything that ever happened to the vouchers and the collection.',
 F + ' pallet/nft/src/lib.rs', [('redemption', 'pallet/crowdsale/src/lib.rs redeem_voucher'), ('vault', 'pallet/crowdsale/src/lib.rs proxy_vault_call, initialize'), ('voucher asset', 'pallet/crowdsale/src/impls.rs create_voucher_asset')])
