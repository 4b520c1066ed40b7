RT = 'runtime/src/impls.rs'
prop('R01', 'plumb', 'A message from Ethereum reaches the one pallet it is for, and no other',
 '''A message that came over the bridge is handled by exactly the pallet whose address it names - the ERC20 peg, the NFT peg or the echo pallet, as derived from their pallet ids - and by nobody if it names another. A peg takes it only from a contract it is configured to trust (ROOT only from the contract for ROOT), echo from any. What is refused changes no state. The echo pallet answers each ping from Ethereum with exactly one message to its sender's destination with the same id, numbers its own pings one after the other, answers nothing else, and sends nothing while the bridge is paused but what the bridge keeps for later.''',
 'inputs', 'every combination of sources (each configured contract, addresses one bit off, the pallets, strangers), destinations (each pallet address, each of them with one bit changed, other accounts) and messages (well formed, cut, empty, with kinds and ids at the limits of their types); sequences of pings, pongs, pauses and their ends to the stated depth',
 'The address of each pallet is all that keeps a message for one from being read by another with the same three words.',
 RT + ' pallet/echo/src/lib.rs pallet/common/src/lib.rs', [('router', RT + ' EthereumEventRouter'), ('dispatch to a subscriber', 'pallet/common/src/lib.rs EthereumEventSubscriber'), ('echo', 'pallet/echo/src/lib.rs ping, on_event')], state=[('NextSessionId', 'number of the next ping')], technique='exhaustive enumeration of messages, and BFS of ping histories, on the real pallets in the extracted runtime configuration')
prop('R02', 'plumb', 'The last session of an era and the author of a block are recognised exactly',
 '''The bridge learns that the active session is the last of its era exactly if it is the last of the sessions that an era has, counted from the first one of the active era, or if a new era is forced now or always; an era without a known start has no last session of its own. The author of a block is the validator with the index that the consensus gives, in the order of the session's validators; there is none for an index out of range.''',
 'inputs', 'all combinations of the active era, the recorded starts of it and its neighbours, the session (from two before the start to three eras after it, and the extremes) and the forcing mode; all numbers of validators and indices of a set around the limits',
 'The bridge hands over its keys in this session only: announced one session early or late, the next authorities cannot sign.',
 RT, [('sessions', RT + ' StakingSessionTracker'), ('authors', RT + ' EthereumFindAuthor')], technique='exhaustive enumeration of states of the real runtime functions against a reference')
prop('R03', 'plumb', 'Each asset and collection is reached at its own address, from its creation on',
 '''The address of an asset, an NFT collection or an SFT collection in the EVM is the prefix of its kind followed by its id and zeros, and gives that id back, while an address with any other prefix gives none. Ids are numbers of 22 bits followed by the 10 bits of this chain; there is a next one until they are used up, and then nothing more is created. Whatever creates it - a call, a precompile, a new pool, a token arriving from Ethereum - at that address, and at no other, code appears that did not exist before, and the precompile there answers for that asset or collection, but not at the addresses with the prefixes of the others. Only root changes the chain id, which the EVM then uses.''',
 'histories', 'all ids with one or two bits set or clear, their neighbours and all ids of this chain up to a bound (thorough: all of them) with each prefix, and every prefix one bit off; every sequence of eight ways to create to the stated depth from six positions of the two counters, including the last ids there are',
 'Contracts find assets by computed addresses; an id that is cut, or code at another address, sends value to the wrong asset.',
 RT + ' pallet/common/src/utils.rs pallet/assets-ext/src/lib.rs pallet/nft/src/impls.rs pallet/sft/src/impls.rs pallet/evm-chain-id/src/lib.rs', [('conversion', RT + ' ErcIdConversion'), ('code', RT + ' OnNewAssetSubscription'), ('ids', 'pallet/common/src/utils.rs next_asset_uuid')], state=[('NextAssetId', 'next asset'), ('NextCollectionId', 'next collection'), ('AccountCodes', 'code at the addresses')], technique='exhaustive enumeration of ids, and BFS of creations, in the extracted runtime configuration')
prop('R04', 'plumb', 'Upgrading the NFI data keeps every entry, under its new key and only there',
 '''After the runtime upgrade that gives NFI entries a chain id, each old entry of a token or a collection is found, unchanged, under the key of this chain with the same collection and serial number; nothing else is among the NFI data, no other state has changed, and the storage version says so. The upgrade made again, or on data that are already new, changes nothing.''',
 'inputs', 'all sets of tokens and of settings from small universes (ids 0, the chain id, the largest and others) with several chain ids and both storage versions',
 'Old and new entries share one storage prefix, where keys of one kind can be read as keys of the other.',
 'runtime/src/migrations/nfi.rs runtime/src/migrations/mod.rs', [('upgrade', 'runtime/src/migrations/nfi.rs Upgrade, v1::migrate')], state=[('NfiData', 'data of tokens'), ('NfiEnabled', 'collections with NFI')], technique='exhaustive enumeration of initial states of the real migration, all raw keys compared with a reference')
prop('R05', 'plumb', 'A migration over many blocks handles each entry once, in the weight it has',
 '''A runtime upgrade whose version is not the one stored starts the migration, once. While it is enabled and a block is due by the configured delay, the end of the block makes as many steps as fit: each with at least the largest weight of a step left, in both dimensions, of what the block leaves and the migration may use, and no more than the configured number; and it reports the weight used. Steps go through the entries in order, each once, also over pauses and changes of settings, and the migration is completed exactly once, with the step that finds no more. One that was abandoned leaves nothing behind for the next. Only root changes the settings. While a migration runs, the XLS-20 calls that need its data are refused without effect, and at no other time.''',
 'histories', 'every sequence of blocks that leave one of nine weights (around one and two steps in each dimension), upgrades with none, one or four entries, pauses, delays and limits by root and others to the stated depth, under five caps; every status with every XLS-20 call and caller',
 'Progress is kept from block to block, and an overrun of weight in one dimension makes a block invalid.',
 'pallet/migration/src/lib.rs pallet/xls20/src/lib.rs', [('steps', 'pallet/migration/src/lib.rs migrate'), ('start', 'pallet/migration/src/lib.rs on_runtime_upgrade'), ('guards', 'pallet/xls20/src/lib.rs ensure_migrated')], state=[('Status', 'whether a migration runs'), ('LastKey', 'where it resumes')], technique='explicit-state BFS of the real pallet with a recorded migration, in lock-step with a reference model')

prop('R06', 'plumb', 'What the runtime tells clients about its state is what the chain would do',
 '''The amounts told for trades along a path are exactly those a trade executed in that state takes and gives, and are told for every trade that goes through; quotes are the exact proportion, or refused where that does not fit. Reserves, pool shares and the status of pairs are those stored. The free balance of an account is exactly the most it could send, kept alive or not. Paging through the tokens of an account with any limit finds each token it holds exactly once and tells their number; the address of a token's metadata is its collection's, followed by its number. The validators and XRPL signers are those in force, with their thresholds and set. Nonces, EVM balance, code, storage and gas price are those of the state.''',
 'histories', 'after every history to the stated depth of transfers, burns, mints, metadata changes, swaps, withdrawals and halts of pools, transfers of all or a third of the free balance, offers, changes of notaries and signers, nonces, gas prices and code: all questions, with eight paths by eight amounts, five limits, every cursor; quotes over 13 values in each of three places',
 'The answers are computed apart from the code that executes, and must agree with it in every state.',
 'runtime/src/lib.rs pallet/dex/src/lib.rs pallet/nft/src/impls.rs pallet/assets-ext/src/lib.rs pallet/ethy/src/impls.rs', [('interfaces', 'runtime/src/lib.rs impl_runtime_apis'), ('trades', 'pallet/dex/src/lib.rs get_amounts_out, get_amounts_in, quote'), ('tokens', 'pallet/nft/src/impls.rs owned_tokens'), ('balances', 'pallet/assets-ext/src/lib.rs reducible_balance'), ('signers', 'pallet/ethy/src/impls.rs validator_set, get_xrpl_notary_keys')], technique='explicit-state BFS on the real runtime, in every state all answers compared with trial executions (rolled back) and storage')
