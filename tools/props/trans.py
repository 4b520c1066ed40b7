X = 'pallet/xrpl/src/lib.rs pallet/xrpl/src/types.rs runtime/src/lib.rs'
TT = 'explicit-state BFS of transactions through the real self-contained validation, payment and dispatch of the extracted runtime'
prop('T01', 'trans', 'An XRPL transaction does what its signer signed, once, at its cost',
 '''A transaction signed as an XRP ledger transaction is taken exactly if its signature is good for its public key, its memo names this chain, the account's current nonce, a block within its validity and this very call, and the account (or its futurepass, if the call is proxied through one of which it is a delegate) can pay. Then exactly this call is made as the account, its nonce goes up by one, so that it cannot be used again, and the fee (in the token asked for, at no more than the limit) is paid once. What is refused changes nothing; validation and inclusion agree; no bytes make it panic.''',
 'histories', 'sequences of transactions by secp256k1 and ed25519 accounts with every kind of call, wrapping, fee payment and nonce, to the stated depth; every malformation of memo, key, signature, encoding and call, from five initial situations',
 'Authority is rebuilt from foreign bytes: a check missed for one key type, memo order or wrapping lets anybody act, replay or act for free.',
 X + ' pallet/fee-proxy/src/impls.rs', [('signature and memo', 'pallet/xrpl/src/lib.rs check_self_contained'), ('nonce, era and fees', 'pallet/xrpl/src/lib.rs validate_self_contained'), ('inclusion', 'runtime/src/lib.rs SelfContainedCall')], state=[('nonce', 'frame_system account nonces')], technique=TT)
prop('T02', 'trans', 'A doughnut allows its holder what its issuer signed, until revoked',
 '''A transaction under a doughnut is taken exactly if issuer and holder are who they say (both signatures good), the holder is on governance's list, the doughnut is for this domain, valid now and not revoked, nor its holder revoked by its issuer, and the permissions in it cover this call and the calls carried within it with these very arguments. It is made as the issuer, paid for by the issuer or holder as the doughnut says, and advances the holder's nonce. Nobody pays for a transaction under what was revoked. Only an issuer revokes. What is refused changes nothing, and no encoding of the same doughnut evades its revocation.''',
 'histories', 'every doughnut (issuer, holder, payer, period, topping, encoding), call and malformation; histories of revocations and uses, to the stated depth, from three initial situations',
 'Delegated authority depends on the product of permission, call, wrapping, period and revocation; a missed pair gives more than was signed.',
 'pallet/doughnut/src/lib.rs runtime/src/impls.rs runtime/src/lib.rs', [('transactions', 'pallet/doughnut/src/lib.rs transact, check_self_contained'), ('permissions', 'runtime/src/impls.rs DoughnutCallValidator'), ('revocation', 'pallet/doughnut/src/lib.rs revoke_doughnut, revoke_holder')], state=[('BlockedDoughnuts', 'revoked doughnuts'), ('BlockedHolders', 'revoked holders'), ('WhitelistedHolders', 'holders allowed')], note='doughnut_rs itself is not in the sandbox; a stand-in takes its place', technique=TT)
prop('T03', 'trans', 'What governance has stopped stays stopped, by every way to it',
 '''While maintenance mode is on, or an account, call, pallet or EVM address is blocked, no transaction of any kind (signed, XRPL, doughnut, EVM) by that account, of that call, pallet or to that address takes effect, whether bare, proxied, in a batch or with fee preferences; all else works as before. The way back (sudo, maintenance mode itself, and what blocks need) cannot be blocked. Only root sets or lifts blocks, names are matched whatever their case, and what is refused changes nothing.''',
 'histories', 'every sequence of blocks and unblocks by root and others over 15 pallet and 11 call names, accounts and targets, to the stated depth; in each state every kind of transaction, wrapping and call is tried',
 'The emergency brake must hold for every route; each route has its own check, or none.',
 'pallet/maintenance-mode/src/lib.rs runtime/src/lib.rs runtime/src/impls.rs pallet/fee-proxy/src/runner.rs', [('blocks', 'pallet/maintenance-mode/src/lib.rs'), ('call filter', 'runtime/src/lib.rs CallFilter'), ('self-contained calls', 'runtime/src/impls.rs check_maintenance_mode')], state=[('BlockedAccounts', 'blocked accounts'), ('BlockedCalls', 'blocked calls'), ('BlockedPallets', 'blocked pallets'), ('BlockedEVMAddresses', 'blocked targets')], technique=TT)
prop('T04', 'trans', 'An EVM transaction costs its gas, at its price, and no drop is lost',
 '''The EVM shows an account exactly its XRP in wei. A transaction is taken only if its price reaches the base fee and the account holds all it can cost. Its sender pays for the gas used at the price agreed, in whole drops and never more than agreed up front; the base fee goes to the fee pot and is noted there, the rest to the block's author, and what is sent arrives in whole drops, no fewer than asked for. XRP is neither made nor lost. What is refused costs nothing. The base fee and the multipliers of fees are set by root alone and are what is charged.''',
 'inputs', 'EVM calls over base fees, price limits, tips, gas limits, values, purses at the edge of enough and kinds of targets; amounts around whole drops for each operation of the currency; sequences of fee settings',
 'Two scales (wei and drops) meet in every step of charging, refunding and splitting; a missed or doubled scaling gives or takes a million million times too much.',
 'runtime/src/impls.rs pallet/common/src/utils.rs pallet/tx-fee-pot/src/lib.rs pallet/fee-control/src/lib.rs', [('charging', 'runtime/src/impls.rs FutureverseEVMCurrencyAdapter'), ('currency', 'runtime/src/impls.rs EvmCurrencyScaler'), ('pot', 'pallet/tx-fee-pot/src/lib.rs'), ('settings', 'pallet/fee-control/src/lib.rs')], state=[('Data', 'base fee and multipliers'), ('EraTxFees', 'fees noted')], technique='exhaustive enumeration of EVM calls and amounts, and explicit-state BFS of settings, on the real adapters in the extracted runtime configuration')
prop('T05', 'trans', 'A fee in tokens costs what the fee is worth, at most the limit',
 '''A transaction whose fee is paid in a token is taken exactly if the exchange gives the fee (and what an EVM call within may cost) for no more than the limit and the payer has that. The payer is the futurepass for calls proxied by its delegates, else the caller. Then all is as if the payer had swapped exactly that and made the call with its plain fee: others pay nothing, nothing is lost. Whoever asks for XRP, a token without a pool, nested preferences or malformed ones is refused, and that changes nothing. The check of Ethereum transactions with preferences accepts exactly those that can be paid. No amount, however large, makes it panic.''',
 'inputs', 'signed extrinsics by every account and payer with every token, limit (exact, one less, none), kind of call and gas setting after histories of poor purses and thin pools; EVM calls with every encoding, token, target, gas, value and purse',
 'The fee route swaps before the call is checked; a wrong payer, limit or scale charges others or lets transactions in that cannot pay.',
 'pallet/fee-proxy/src/impls.rs pallet/fee-proxy/src/runner.rs pallet/fee-proxy/src/lib.rs runtime/src/lib.rs runtime/src/impls.rs', [('signed extrinsics', 'pallet/fee-proxy/src/impls.rs withdraw_fee'), ('EVM calls', 'pallet/fee-proxy/src/runner.rs'), ('Ethereum transactions', 'runtime/src/lib.rs transaction_asset_check'), ('balances', 'runtime/src/impls.rs HandleTxValidation')], technique='explicit-state BFS of signed extrinsics and exhaustive enumeration of EVM calls, each compared with swap, fee and call made one after another from the same state')
