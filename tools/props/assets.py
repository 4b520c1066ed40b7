F = 'pallet/assets-ext/src/lib.rs pallet/assets-ext/src/impls.rs pallet/assets-ext/src/imbalances.rs'
prop('A01', 'assets', 'Held funds are fully backed and can only go where the hold says',
 '''For each pallet, account and asset, the held amount is exactly what was placed minus what was released or spent, and the holding account always owns the total. Placing takes exactly that amount from the account's balance; releasing returns it to the same account; spending pays exactly the listed recipients. Nothing can be released or spent beyond the hold, one pallet's hold is not touched by another's, and a split payment or spend happens wholly or not at all.''',
 'histories inputs', 'every sequence of place, release, spend and split-payment calls by three pallets for three accounts in the native, an ordinary and a missing asset, and in an asset with a minimum balance, up to the stated depth',
 'Holds share one account and a bounded list; partial releases, several pallets and minimum balances interact only in particular orders.',
 F, [('holds', 'pallet/assets-ext/src/lib.rs place_hold, release_hold, spend_hold'), ('split payments', 'pallet/assets-ext/src/lib.rs split_transfer')], state=[('Holds', 'held amounts per asset, account and pallet')])
prop('A02', 'assets', 'Asset creation, minting and burning conserve supply and respect ownership',
 '''Each created asset gets a fresh consecutive id of this chain, its own metadata and owner, and reserves exactly the configured native deposit from its creator. Supply of every asset equals what accounts own. Only an asset's owner mints or burns it; the native token can never be minted or burned this way; transfers move exactly the amount named and respect keep-alive. Only root sets the deposit; decimals above 18 and zero minimum balances are refused.''',
 'histories inputs', 'every sequence of creations, mints, burns, transfers and deposit changes by three accounts up to the stated depth',
 'Tests sample single calls; supply and deposits must agree after every history.',
 F, [('extrinsics', 'pallet/assets-ext/src/lib.rs create_asset, mint, burn_from, transfer, set_asset_deposit')], state=[('NextAssetId', 'ids used'), ('AssetDeposit', 'native deposit per asset')])
prop('A03', 'assets', 'Fee withdrawal, refund and the fee pot conserve the fee currency',
 '''Withdrawing, refunding, depositing, splitting, merging or setting a balance through the fee currency changes total issuance exactly by what leaves or enters accounts, once the imbalances are dropped. Settling a fee costs the payer exactly fee minus refund, tip included, and the fee pot and the era's fee counter rise by the same amount; the era payout returns that counter and resets it. A withdrawal that would break keep-alive or exceed the balance changes nothing.''',
 'histories inputs', 'every sequence of fee settlements (fees, refunds, tips), withdrawals, deposits, balance settings and era ends up to the stated depth',
 'Issuance is corrected by drop handlers; tests look at single operations.',
 F + ' pallet/tx-fee-pot/src/lib.rs', [('fee currency', 'pallet/assets-ext/src/impls.rs AssetCurrency'), ('imbalances', 'pallet/assets-ext/src/imbalances.rs'), ('fee pot', 'pallet/tx-fee-pot/src/lib.rs OnUnbalanced, EraPayout')], state=[('EraTxFees', 'fees of the era')])
