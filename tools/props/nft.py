F = 'pallet/nft/src/lib.rs pallet/nft/src/impls.rs pallet/nft/src/types.rs'
M = [('transfer, burn, bridged mint', 'pallet/nft/src/impls.rs do_transfer, do_burn, mint_bridged_nft'), ('ownership records', 'pallet/nft/src/types.rs CollectionInformation')]
prop('N01', 'nft', 'Every NFT has exactly one owner and only that owner can move or burn it',
 '''Along every history, each minted and unburned token has exactly one owner, a burned token has none and its serial number is not reissued by minting, and issuance, balances and paged owned-token lists all agree with the set of owners.
 Only the owner can transfer or burn, only unlocked tokens move, and only while the collection allows it; a transfer of several tokens (even one listed twice) moves all of them once or none.
 Tokens arriving over a bridge are minted once to the recipient and never taken from an existing owner.''',
 'histories inputs', 'every sequence of mints, transfers (single, batch, repeated, foreign, missing), burns, locks, flag changes and bridged mints up to the stated depth from three starting collections',
 'Owner lists are edited in place by many operations; tests look at one operation at a time from a fresh collection.',
 F, M, state=[('CollectionInfo', 'owners and serial numbers'), ('TokenLocks', 'tokens that must not move')])
prop('N02', 'nft', 'NFT minting obeys permission, issuance limits and price',
 '''Only the collection owner, or anyone while public minting is on, can mint; never on collections bridged from elsewhere, never while minting is switched off, never past the maximum issuance, the per-collection limit or the per-call limit.
 A public minter other than the owner pays exactly price times quantity to the owner, or nothing is minted. New tokens get the next consecutive serial numbers. Invalid names, royalties above 100% and impossible issuance limits are refused at creation.''',
 'histories inputs configurations', 'every sequence of collection creations, mints, limit, price, flag and owner changes and burns up to the stated depth',
 'Limits interact with burns, bridged tokens and prior limits; tests reach each limit once from a fresh collection.',
 F, [('mint admission', 'pallet/nft/src/impls.rs pre_mint, charge_mint_fee, do_mint'), ('creation', 'pallet/nft/src/impls.rs do_create_collection')], state=[('CollectionInfo', 'next serial, issuance, limit'), ('PublicMintInfo', 'public minting and price')])
prop('N03', 'nft', 'Only the owner of an NFT collection can administer it',
 '''Name, metadata URI, royalties, issuance limit, price, flags, XLS-20 compatibility and ownership change only through a call by the current owner with valid values, take effect exactly as given, and touch nothing else. A limit is set at most once and never below what exists. Root can assign an owner only to a collection still held by the pallet itself.''',
 'histories', 'every sequence of administrative calls by owners, former owners and strangers up to the stated depth',
 'Tests try one wrong caller per call; they do not follow rights across ownership changes.',
 F, [('administrative calls', 'pallet/nft/src/lib.rs set_owner, set_name, set_base_uri, set_max_issuance, set_royalties_schedule, set_utility_flags, claim_unowned_collection')], state=[('CollectionInfo', 'owner and attributes'), ('UtilityFlags', 'allowed operations')])
prop('N04', 'nft', 'ERC-721 approvals name who may move a token, and end when it moves',
 '''An account may move a token exactly if it owns it, holds its current single approval, or is an operator approved by its current owner for the collection. Single approvals are given only by the owner or such an operator, disappear when the token is transferred or burned, and collection-wide approvals never follow a token to its next owner. Calls must come from the trusted (unsigned) origin.''',
 'histories', 'every sequence of approvals, revocations, transfers, burns and bridged mints up to the stated depth, with every caller, operator and token compared after every step',
 'Stale approvals appear only after particular orders of approval and transfer.',
 'pallet/token-approvals/src/lib.rs ' + F, [('ERC-721 approvals', 'pallet/token-approvals/src/lib.rs erc721_approval, erc721_approval_for_all, is_approved_or_owner, on_nft_transfer')], state=[('ERC721Approvals', 'single approvals'), ('ERC721ApprovalsForAll', 'operators')])
prop('N05', 'nft', 'XLS-20 links are set once by the relayer, fees are paid in full',
 '''A token's XLS-20 id is set at most once by fulfilment, only by the current relayer and only for an existing token; a batch applies wholly or not at all. Every mint or re-request on a compatible collection pays the relayer exactly fee times tokens and asks for exactly those tokens with their URIs; re-requests need the collection owner and unlinked tokens. Compatibility can be enabled only by the owner of an empty collection.
 An XRPL token id decodes to its exact flags, issuer, unscrambled taxon and sequence; a deposited token is minted with that sequence in the one collection of its issuer and taxon, and burnable tokens are refused.''',
 'histories inputs', 'every sequence of fee, relayer, mint, burn, request, fulfilment and deposit operations up to the stated depth; all 65536 flag words and a grid of taxons and sequences for decoding',
 'Batches with repeated or partly linked tokens, fees beyond 32 bits and all flag words are outside the tests\' samples.',
 'pallet/xls20/src/lib.rs pallet/xls20/src/types.rs', [('requests and fulfilment', 'pallet/xls20/src/lib.rs pay_xls20_fee, re_request_xls20_mint, fulfill_xls20_mint'), ('token ids', 'pallet/xls20/src/types.rs Xls20Token')], state=[('Xls20TokenMap', 'token links'), ('CollectionMapping', 'collection links')])
prop('N06', 'nft', 'NFI data is written only by the relayer, paid for in full and gone after a burn',
 '''Data is stored only by the current relayer, and for tokens of this chain only for existing tokens of collections whose owner enabled it; it changes nothing else and disappears when an NFT is burned, leaving other tokens' and other chains' data alone.
 Each requested token costs the requester exactly the configured fee, split between the receiver and the network share, or the request (and the mint that triggered it) fails as a whole; requests name exactly the tokens concerned, and only a token or collection owner can ask by hand.''',
 'histories', 'every sequence of fee and relayer settings, enabling, mints, burns, ownership changes, manual requests and submissions up to the stated depth',
 'Tests do not combine fee settings, ownership changes and burns.',
 'pallet/nfi/src/lib.rs', [('requests and fees', 'pallet/nfi/src/lib.rs pay_mint_fee, manual_data_request, request'), ('data', 'pallet/nfi/src/lib.rs submit_nfi_data, on_burn')], state=[('NfiData', 'data per token'), ('MintFee', 'fee per token')])
