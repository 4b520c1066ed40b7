F = 'pallet/xrpl-bridge/src/lib.rs pallet/xrpl-bridge/src/types.rs'
K = 'explicit-state BFS of the real pallets in lock-step with a reference model; the requested signatures are decoded independently'
prop('X01', 'xrplb', 'An XRPL deposit is credited exactly once, after its challenge period',
 '''Only a relayer can submit an XRPL transaction, only one of the submission window or later, and never a hash whose details are still kept. In exactly the block in which its challenge period ends it is credited to its receiver in full, unless anyone challenged it: ROOT from the bridge's pool, other assets by minting the asset its currency is mapped to (the mapping is one to one). A deposit that cannot be credited leaves no trace in the balances. Details of settled transactions are removed only once their ledger lies before the submission window, so no transaction is ever credited a second time, and the hooks never panic.''',
 'histories schedules', 'every sequence of submissions, challenges, relayer, mapping and window changes, manual pruning and blocks (with plenty of and with hardly any weight for pruning) up to the stated depth, from three initial situations',
 'Replay protection depends on the interplay of window, settlement and pruning over many blocks.',
 F, [('submission', 'pallet/xrpl-bridge/src/lib.rs submit_transaction, add_to_relay'), ('settlement', 'pallet/xrpl-bridge/src/lib.rs process_xrp_tx'), ('pruning', 'pallet/xrpl-bridge/src/lib.rs clear_storages')], state=[('ProcessXRPTransactionDetails', 'what was submitted'), ('SettledXRPTransactionDetails', 'what was credited, by ledger')], technique=K)
prop('X02', 'xrplb', 'A withdrawal to the XRPL pays exactly what was taken from the account, once',
 '''For a withdrawal exactly the paid amount is burnt (ROOT: moved to the bridge's pool) plus the door's fee in XRP, and a payment of exactly that amount, in the mapped currency and issuer, with the given destination and tags, from the door, is requested to be signed. What the XRPL cannot express stays with the user and is less than one whole unit; otherwise, and for unmapped assets, the withdrawal is refused without effect. At or over the asset's threshold the payment is requested exactly once, not before its delay has passed, in order, and as soon as there is weight and a door; other withdrawals at once.''',
 'histories inputs', 'every sequence of withdrawals of four assets, delays, door, fee, tag and mapping changes, and blocks with five amounts of weight up to the stated depth, and a grid of amounts of up to 39 digits for every number of decimals',
 'Decimal conversion has corner cases at every magnitude; the delay queue is processed in weight-bounded slices.',
 F, [('withdrawal', 'pallet/xrpl-bridge/src/lib.rs add_to_withdraw, process_*_withdrawal'), ('conversion', 'pallet/xrpl-bridge/src/lib.rs saturate_balance, balance_to_mantissa_exponent, serialize_*'), ('delays', 'pallet/xrpl-bridge/src/lib.rs process_delayed_payments')], state=[('DelayedPayments', 'what is to be paid later')], technique=K)
prop('X03', 'xrplb', 'No XRPL ticket is ever used twice and each lies in a bucket that was set',
 '''Every transaction the bridge requests signatures for carries a ticket of its door which was never used before, which is greater than all earlier ones and lies in a bucket set by a relayer (next) or root (current). When the tickets of a bucket are used up and no usable next bucket is set, what needs a ticket is refused without effect. A change of signers is requested for both doors with the given entries or not at all; only relayers can have an NFT offer accepted or set the next bucket. No setting makes a later request panic.''',
 'histories', 'every sequence of bucket settings around the current ones, withdrawals, delayed payments, accepted offers and signer list changes for both doors up to the stated depth, from three initial situations',
 'A bucket is chosen long before it is used; a reused ticket blocks the door on the XRPL.',
 F, [('tickets', 'pallet/xrpl-bridge/src/lib.rs get_door_ticket_sequence, set_ticket_sequence_*'), ('signer lists', 'pallet/xrpl-bridge/src/lib.rs submit_signer_list_set_request')], state=[('DoorTicketSequence', 'next ticket'), ('DoorTicketSequenceParams', 'current bucket')], technique=K)
prop('X04', 'xrplb', 'A bridged XLS-20 token exists on one side only and returns as the same token',
 '''A settled deposit of an XLS-20 token mints, for its receiver, the token whose serial number is the XLS-20 sequence in the one collection that belongs to its issuer and taxon (created by the first such deposit, owned by the bridge, bridged from the XRPL); burnable tokens are refused. Only its owner can withdraw a token, only of a compatible collection and only if its XLS-20 id is known; the token is burnt and the offer to be signed names exactly that id, for free, to the given destination. Ids of tokens minted here are set once, by the relayer.''',
 'histories', 'every sequence of deposits of tokens of several issuers, taxons and sequences, withdrawals, transfers, mints and fulfilments of two users up to the stated depth, from three initial situations',
 'A token crosses in both directions through four pallets.',
 F + ' pallet/xls20/src/lib.rs pallet/xls20/src/types.rs pallet/nft/src/impls.rs', [('deposit', 'pallet/xls20/src/lib.rs deposit_xls20_token'), ('withdrawal', 'pallet/xrpl-bridge/src/lib.rs do_nft_withdrawal'), ('ids', 'pallet/xls20/src/types.rs Xls20Token')], state=[('Xls20TokenMap', 'XLS-20 ids'), ('CollectionMapping', 'collections by issuer and taxon')], technique=K)
