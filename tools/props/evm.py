U = 'evm-precompiles/utils/src/lib.rs evm-precompiles/utils/src/data/mod.rs evm-precompiles/utils/src/handle.rs evm-precompiles/utils/src/precompile_set.rs runtime/src/precompiles.rs'
T = 'explicit-state BFS of the real precompiles and pallets in the extracted runtime configuration, in lock-step with a reference model'
prop('V01', 'evm', 'ERC20 precompiles move, approve and report exactly the native asset',
 '''For every asset the contract at its address is an ERC20 of exactly the native balances: balances, supply, name, symbol and decimals are those of the asset, whether changed through the EVM or natively; transfer moves exactly the amount from the caller, approve sets exactly the caller's allowance, transferFrom moves exactly the amount for a spender whose allowance covers it, which shrinks by it. What is done logs exactly one matching Transfer or Approval of that contract; what is refused changes and logs nothing. Nobody else's balance or allowance changes.''',
 'histories', 'every sequence of transfers, approvals and delegated transfers through the EVM and natively by three users over two assets up to the stated depth, with amounts at, below and beyond balances, allowances and the range of 128 bits, from three initial situations',
 'The EVM view and native accounting are two faces of one state, changed from both sides.',
 'evm-precompiles/erc20/src/lib.rs pallet/token-approvals/src/lib.rs ' + U, [('transfers', 'evm-precompiles/erc20/src/lib.rs transfer, transfer_from, approve'), ('allowances', 'pallet/token-approvals/src/lib.rs erc20_approval, erc20_update_approval')], state=[('ERC20Approvals', 'allowances')], technique=T)
prop('V02', 'evm', 'ERC721 precompiles act exactly as the collection, its owners and approvals allow',
 '''The contract at a collection's address is an ERC721 of exactly its tokens: owners, balances, supply, approvals, name, symbol and URIs are the native ones. A token moves only by its owner, its approved account or an operator of its owner, and never unless it belongs to the from address; a safe transfer calls the receiving contract after the move, with the true operator, sender, token and data, and stands only if that answers with the agreed value. Only the collection's owner administers it; public minting follows its switch and fee. What is done logs exactly the matching events; what is refused, be it by the receiver, changes and logs nothing, and nothing panics.''',
 'histories', 'every sequence of the calls of the interface by three users and two contracts as receivers, with native transfers, burns and mints in between, up to the stated depth, from three initial situations; receivers answer well, wrongly, shortly, or call back into the collection',
 'Transfers hand control to a receiving contract in the midst, and authority comes from several sources that change over time.',
 'evm-precompiles/erc721/src/lib.rs pallet/nft/src/impls.rs pallet/token-approvals/src/lib.rs ' + U, [('transfers', 'evm-precompiles/erc721/src/lib.rs transfer_from, safe_transfer_from'), ('approvals', 'evm-precompiles/erc721/src/lib.rs approve, set_approval_for_all'), ('administration', 'evm-precompiles/erc721/src/lib.rs mint, transfer_ownership, set_max_supply, set_base_uri')], state=[('ERC721Approvals', 'approvals by token'), ('ERC721ApprovalsForAll', 'operators')], technique=T)
prop('V03', 'evm', 'ERC1155 precompiles act exactly as balances, operators and receivers allow',
 '''The contract at a semi-fungible collection's address is an ERC1155 of exactly its balances and supplies. Only the holder or an operator moves or burns tokens, only the collection's owner mints, creates tokens and sets limits, prices and switches; batches are done whole or not at all. A safe transfer calls the receiving contract after the move, with the true operator, sender, ids, amounts and data, and stands only if that answers with the agreed value. What is done logs exactly the matching events; what is refused, be it by the receiver, changes and logs nothing, and nothing panics.''',
 'histories', 'every sequence of the calls of the interface by three users and a contract as receiver up to the stated depth, from two initial situations; receivers answer well, wrongly, shortly, or call back into the collection',
 'Transfers hand control to a receiving contract in the midst; batches mix tokens that can and cannot be moved.',
 'evm-precompiles/erc1155/src/lib.rs pallet/sft/src/impls.rs pallet/token-approvals/src/lib.rs ' + U, [('transfers', 'evm-precompiles/erc1155/src/lib.rs safe_transfer_from, safe_batch_transfer_from'), ('burning', 'evm-precompiles/erc1155/src/lib.rs burn, burn_batch'), ('administration', 'evm-precompiles/erc1155/src/lib.rs mint, create_token, set_max_supply')], state=[('ERC1155ApprovalsForAll', 'operators')], technique=T)
prop('V04', 'evm', 'Precompiles exist at their addresses only and take well-formed calls only',
 '''Each precompile answers at its own address, those of assets, collections and futurepasses exactly for those that exist, and any other address is plain. Each function takes exactly its selector and at least its arguments. In a static call functions that only read answer the same as otherwise, all others are refused, and nothing changes; through a delegatecall nothing but Ethereum's own precompiles answers; XRP sent along is refused unless the function uses it. No input makes a precompile panic, and a call that is refused changes and logs nothing.''',
 'inputs', 'every function of every precompile called well, statically, by delegatecall, with three values, cut to every length of the first words and around every word (thorough: to every length), and with every word replaced by every one of twelve values; every selector of one precompile on each other; 400 addresses around the known ones',
 'The call modes, selectors, lengths and values multiply over more than 120 functions.',
 'evm-precompiles/erc20/src/lib.rs evm-precompiles/erc721/src/lib.rs evm-precompiles/erc1155/src/lib.rs evm-precompiles/futurepass/src/lib.rs evm-precompiles/futurepass-registrar/src/lib.rs evm-precompiles/dex/src/lib.rs evm-precompiles/marketplace/src/lib.rs evm-precompiles/nft/src/lib.rs evm-precompiles/sft/src/lib.rs evm-precompiles/peg/src/lib.rs ' + U, [('routing', 'runtime/src/precompiles.rs FutureversePrecompiles'), ('sets', 'evm-precompiles/utils/src/precompile_set.rs PrecompileAt, PrecompileSetStartingWith'), ('modifiers', 'evm-precompiles/utils/src/modifier.rs check_function_modifier'), ('arguments', 'evm-precompiles/utils/src/data/mod.rs EvmDataReader')], technique='exhaustive enumeration of calls and their mutations on the real precompile set in one world where every function succeeds')
prop('V05', 'evm', 'A precompile call does what the pallet call does, for all arguments',
 '''A call to a function of the DEX, marketplace, NFT, SFT, peg or registrar precompile by an account is taken exactly when the corresponding calls of the pallets by that account with the same arguments are, and then leads to exactly the same state; it answers with the resulting ids and amounts, and views answer with what is stored. Arguments the pallets cannot express, such as too large ids or amounts, or addresses that belong to no asset or collection, are refused. XRP sent along with a function is used or stays the caller's.''',
 'inputs', 'every function called by three accounts with every combination of arguments that differs in up to two (thorough: three) places from a good one, over 2 to 9 alternatives each: other and missing assets, collections, tokens and accounts, zero, huge and aliasing values, lists of other lengths; for functions that use XRP fourteen amounts',
 'Arguments are converted field by field in over 60 functions, each of which can mix up fields, callers or widths.',
 'evm-precompiles/dex/src/lib.rs evm-precompiles/marketplace/src/lib.rs evm-precompiles/nft/src/lib.rs evm-precompiles/sft/src/lib.rs evm-precompiles/peg/src/lib.rs evm-precompiles/futurepass-registrar/src/lib.rs ' + U, [('dex', 'evm-precompiles/dex/src/lib.rs'), ('marketplace', 'evm-precompiles/marketplace/src/lib.rs'), ('collections', 'evm-precompiles/nft/src/lib.rs, evm-precompiles/sft/src/lib.rs'), ('pegs', 'evm-precompiles/peg/src/lib.rs'), ('conversion', 'evm-precompiles/utils/src/data/mod.rs')], technique='exhaustive enumeration of arguments, each call compared with the real pallet calls from the same state (bounded differential model checking)')
prop('V06', 'evm', "Precompiles read and write Solidity's ABI, whatever bytes they are called with",
 '''A precompile reads from the bytes of a call exactly the arguments that Solidity's ABI finds there: selectors, integers of every width, booleans, addresses, strings, lists and structures, nested in any way, with pointers taken from the start of what contains them. Data that end too early, point outside, hold a too large integer, or exceed a list's or string's limit are refused; nothing is misread and nothing panics. Answers, logs and reasons for a revert are written as the ABI says, logs are charged what the EVM charges for them, and a function is refused in a static call unless it is a view, and with value unless it is payable.''',
 'inputs', 'over 30 lists of argument types of up to three levels of nesting, each with several values, whole and cut at every length around a word, with any one word (thorough: any two) replaced by any of 26 interesting ones',
 'Lengths and pointers are chosen by the caller, so that the number of malformed calls is unbounded and a wrong bound shows on few of them.',
 'evm-precompiles/utils/src/data/mod.rs evm-precompiles/utils/src/lib.rs evm-precompiles/utils/src/revert.rs evm-precompiles/utils/src/modifier.rs evm-precompiles/utils/src/logs.rs evm-precompiles/utils/src/costs.rs evm-precompiles/utils/src/handle.rs', [('reading', 'evm-precompiles/utils/src/data/mod.rs EvmDataReader, EvmData::read'), ('writing', 'evm-precompiles/utils/src/data/mod.rs EvmDataWriter, EvmData::write'), ('reasons', 'evm-precompiles/utils/src/revert.rs'), ('modifiers', 'evm-precompiles/utils/src/modifier.rs check_function_modifier'), ('logs', 'evm-precompiles/utils/src/logs.rs, evm-precompiles/utils/src/costs.rs log_costs')], technique='exhaustive enumeration of calls, each compared with a reference reading and writing of the ABI (bounded model checking of the codec)')
prop('V07', 'evm', 'No precompile is entered again while at work, and all answer again after it',
 '''While a token, collection or other precompile carries out a call, every further call to the same address made by a contract it asks, directly or through any others, is refused; so is the third call within each other to the same futurepass. Calls to other addresses, even of the same kind, are taken. Once a call has ended, well or not, the address answers again within the same transaction. What a refused or reverted call and all it called did is undone, and what the others did stands.''',
 'programs', 'every tree of nested calls up to depth four (thorough: five) through safe transfers of two collections of each kind, two futurepasses and plain contracts, ending in transfers, views or Ethereum\'s precompiles, with a second call on every level of the shallower trees, by contracts that go on after a refusal or pass it on',
 'Re-entrancy shows only when contracts call back in, nested in particular ways; the number of such nestings grows exponentially.',
 'evm-precompiles/utils/src/precompile_set.rs runtime/src/precompiles.rs evm-precompiles/erc721/src/lib.rs evm-precompiles/erc1155/src/lib.rs evm-precompiles/futurepass/src/lib.rs', [('nesting', 'evm-precompiles/utils/src/precompile_set.rs PrecompileAt, PrecompileSetStartingWith'), ('limits', 'runtime/src/precompiles.rs FutureversePrecompiles'), ('receivers', 'evm-precompiles/erc721/src/lib.rs, evm-precompiles/erc1155/src/lib.rs safe transfers'), ('futurepass', 'evm-precompiles/futurepass/src/lib.rs proxyCall')], technique='exhaustive enumeration of call trees on the real precompile set, each compared with a reference count of active calls (bounded model checking)')
