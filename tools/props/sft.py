F = 'pallet/sft/src/lib.rs pallet/sft/src/impls.rs pallet/sft/src/types.rs'
prop('S01', 'nft', 'SFT supply always equals what its holders own, free and reserved',
 '''For each semi-fungible token, supply is the sum of every holder's free and reserved balance, one entry per account and at most the configured number of holders. A transfer or burn takes only from the caller's free balance and only while the collection allows it; the receiver gets exactly what the sender loses. Reserving and freeing only move an account's own balance between free and reserved. A call naming several tokens, or one twice, applies wholly or not at all.''',
 'histories inputs', 'every sequence of mints, transfers and burns of one or several (also repeated, missing, zero, too large) entries, reservations, releases and flag changes up to the stated depth from three starting collections, one near the 128-bit limit',
 'Balances live in lists edited in place by five operations; tests look at one at a time.',
 F, [('balances', 'pallet/sft/src/types.rs SftTokenInformation add_balance, remove_balance, reserve_balance'), ('transfer, burn', 'pallet/sft/src/impls.rs do_transfer, do_burn')], state=[('TokenInfo', 'holders, balances, issuance')])
prop('S02', 'nft', 'SFT minting obeys permission, issuance limits and price',
 '''Only the collection owner, or anyone while public minting is on for each token named, can mint, and never while minting is switched off or past a token's maximum issuance or the number range. A public minter pays the owner exactly price times quantity for each token, or nothing is minted. New tokens take consecutive serial numbers; initial issuance above the limit, zero limits and invalid names are refused; a limit is set at most once and never below supply.''',
 'histories inputs configurations', 'every sequence of token creations, mints of one or several entries, limit, price, public-mint, flag and owner changes and burns up to the stated depth',
 'Limits, prices and permissions differ per token of a batch and interact with burns and repeated entries.',
 F, [('mint admission', 'pallet/sft/src/impls.rs do_mint, pre_mint, charge_mint_fee'), ('creation', 'pallet/sft/src/impls.rs do_create_token, do_create_collection')], state=[('PublicMintInfo', 'public minting and price'), ('TokenInfo', 'issuance and its limit')])
prop('S03', 'nft', 'Only the owner administers an SFT collection; operators are per account',
 '''Owner, name, URI, royalties, flags, issuance limits, prices and new tokens change only through a call by the current owner with valid values, take effect exactly as given and touch nothing else. ERC-1155 operator approvals are recorded for exactly the calling account, operator and collection, can be withdrawn, cannot name oneself, and come only from the trusted origin.''',
 'histories', 'every sequence of administrative and approval calls by owners, former owners and strangers up to the stated depth, all attributes compared after every step',
 'Tests try one wrong caller per call and do not follow rights across ownership changes.',
 F + ' pallet/token-approvals/src/lib.rs', [('administrative calls', 'pallet/sft/src/lib.rs and impls.rs do_set_*'), ('operators', 'pallet/token-approvals/src/lib.rs erc1155_approval_for_all')], state=[('SftCollectionInfo', 'owner and attributes'), ('ERC1155ApprovalsForAll', 'operators')])
