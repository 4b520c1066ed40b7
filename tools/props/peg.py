F = 'pallet/erc20-peg/src/lib.rs pallet/erc20-peg/src/types.rs'
N = 'pallet/nft-peg/src/lib.rs pallet/nft-peg/src/types.rs'
K = 'explicit-state BFS of the real pallets (over the real multi-currency and NFT pallets) in lock-step with a reference model'
prop('K01', 'peg', 'An ERC20 deposit credits its beneficiary once, at once or after the delay',
 '''While deposits are active, a deposit reported by the right peg contract (ROOT by its own, all other tokens by the common one) gives exactly its amount of the mapped asset to its beneficiary: ROOT out of the peg's account, anything else newly minted; for a token seen first an asset is created and mapped both ways. If the amount reaches the asset's limit and delays are active, this happens instead in an idle slot once the delay (at least a block) is over, in order and as far as the weight goes, or earlier if root claims it - exactly once, also if delays, limits or switches changed since. A refused deposit has no effect. Only root changes switches, delays and mappings.''',
 'histories', 'every sequence of deposits of four tokens from three sources, blocks with weight for a varying number of payments, claims, changes of delays, switches and mappings up to the stated depth, from five initial situations; histories of up to 450 blocks without weight for payments, with payments in all, some or the last of them',
 'Payments are put off over many blocks while the configuration changes and idle weight varies.',
 F, [('deposit', 'pallet/erc20-peg/src/lib.rs do_deposit, process_deposit'), ('schedule', 'pallet/erc20-peg/src/lib.rs delay_payment, on_idle, on_initialize')], state=[('DelayedPayments', 'payments put off'), ('DelayedPaymentSchedule', 'when they are due'), ('ReadyBlocks', 'blocks whose payments are due')], technique=K)
prop('K02', 'peg', 'An ERC20 withdrawal takes the tokens and sends one matching release message',
 '''While withdrawals are active, a holder can withdraw a mapped asset: exactly the amount leaves the holder (ROOT to the peg's account, anything else is burnt) and exactly one message with the token, the amount and the beneficiary goes to the right contract. From the limit of the asset on, while delays are active, the tokens are taken at once and the message follows in an idle slot after the delay, or when root claims it - once, for the token and amount taken, also if the configuration changed since; through the EVM such withdrawals are refused. A withdrawal that is refused, be it by the bridge, has no effect. So on Root never exists more of a token than the contract holds.''',
 'histories', 'every sequence of withdrawals by two holders, natively and through the EVM, deposits, blocks with weight for a varying number of payments, claims, changes of delays, switches and mappings up to the stated depth, from five initial situations; histories of up to 450 blocks without weight for payments, with payments in all, some or the last of them',
 'Payments are put off over many blocks while the configuration changes and idle weight varies.',
 F, [('withdrawal', 'pallet/erc20-peg/src/lib.rs do_withdrawal, burn_or_transfer, process_withdrawal'), ('schedule', 'pallet/erc20-peg/src/lib.rs delay_payment, on_idle, process_delayed_payment')], state=[('DelayedPayments', 'payments put off'), ('DelayedPaymentSchedule', 'when they are due')], technique=K)
prop('K03', 'peg', 'A bridged NFT is on Ethereum, on Root or blocked, and never lost or doubled',
 '''A token of an Ethereum contract reported by the peg contract appears on Root with the same id, owned by its recipient, in the one collection that stands for its contract - created with the first token and mapped both ways. If the collection is full, exactly its tokens of that message are set aside for the recipient, those of other collections still arrive. The owner, and nobody else, can send tokens back: they vanish here and one message with exactly these contracts and ids goes to the peg contract; tokens set aside can be sent back by their recipient, once. Tokens of this chain can never be sent. If any token cannot be sent, none is. Only root changes the contract address.''',
 'histories', 'every sequence of deposits and withdrawals of up to three lists of tokens of two contracts by three users, transfers, burns, reclaims and address changes up to the stated depth, from three initial situations, in collections of at most three tokens',
 'Each token is in one of several places and moves between them in batches that can fail in part.',
 N + ' pallet/nft/src/impls.rs', [('deposit', 'pallet/nft-peg/src/lib.rs do_deposit'), ('withdrawal', 'pallet/nft-peg/src/lib.rs do_withdrawal, do_reclaim_blocked_nfts'), ('minting', 'pallet/nft/src/impls.rs mint_bridged_token')], state=[('BlockedTokens', 'tokens set aside'), ('EthToRootNft', 'collections by contract'), ('RootNftToErc721', 'contracts by collection')], technique=K)
prop('K04', 'peg', 'Malformed or foreign messages to the pegs are refused and have no effect',
 '''Whatever bytes arrive for a peg, the pallet neither panics nor does anything but refuse them, unless they come from the configured contract and are an ABI encoding of a deposit: for the ERC20 peg a token, an amount below the largest balance and a beneficiary; for the NFT peg the code of a deposit, as many contracts as lists of ids, within the limits, with ids that are valid serial numbers, and a recipient. Then exactly this deposit is made. Repeated ids or tokens that are already here do not create a second one or change an owner.''',
 'inputs', 'eight well-formed and special messages, from four sources, cut to every length, and with every word replaced by every one of 26 values (thorough: also cut to every multiple of eight bytes)',
 'The bytes come from outside and are processed when a block is initialised, where a panic stops the chain.',
 N + ' pallet/erc20-peg/src/lib.rs', [('ERC20 decoding', 'pallet/erc20-peg/src/lib.rs on_event'), ('NFT decoding', 'pallet/nft-peg/src/lib.rs on_event, decode_deposit_event')], technique='exhaustive enumeration of mutated messages on the real pallets, judged by an independent ABI reader')
