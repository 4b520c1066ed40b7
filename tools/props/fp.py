F = 'pallet/futurepass/src/lib.rs evm-precompiles/futurepass/src/lib.rs runtime/src/impls.rs'
TF = 'explicit-state BFS of the real futurepass pallet, proxies and precompiles in the extracted runtime configuration'
prop('F01', 'fp', 'A futurepass has one owner, consenting delegates, and exact deposits',
 '''Whatever is done natively, through the EVM or through a futurepass itself: each account owns at most one futurepass and each futurepass has at most one owner; its address is new. Only the owner registers delegates, and only those who signed exactly this registration before its deadline; only the owner, or a delegate for itself, unregisters; only the owner transfers or gives it up, and then exactly the former owner and all delegates lose their powers. What is reserved for its entries is exactly the deposit for their number, and nobody pays for another beyond the documented payer. What is refused changes nothing.''',
 'histories', 'every sequence of creations, registrations with good, late, foreign and mangled signatures, unregistrations, transfers and renunciations by every account, by each route (native, EVM, proxied, proxied EVM), up to the stated depth, from five initial situations; every consent with its futurepass, owner, permission, deadline and signature each replaced',
 'Ownership, permissions and deposits are kept in three places and changed by four routes; a slip leaves a former owner in control.',
 F + ' evm-precompiles/futurepass-registrar/src/lib.rs', [('creation', 'pallet/futurepass/src/lib.rs create'), ('delegates', 'pallet/futurepass/src/lib.rs register_delegate_with_signature, unregister_delegate'), ('transfers', 'pallet/futurepass/src/lib.rs transfer_futurepass'), ('deposits', 'runtime/src/impls.rs ProxyPalletProvider')], state=[('Holders', 'futurepass of each owner'), ('Proxies', 'permissions by futurepass')], technique=TF)
prop('F02', 'fp', 'Acting as a futurepass is for its delegates, administering it for its owner',
 '''Only the owner and full delegates of a futurepass can act as it, by whatever way: a proxied extrinsic, the proxy pallet with or without a forced type, the precompile, a contract, with batches and fee preferences around or inside. They can move its funds. No way lets a delegate that is not the owner register or remove delegates, transfer or renounce the futurepass or one that it owns, or create others; nor does any way let even the owner change its permissions with calls of the proxy pallet or nest proxied calls. Those who unregistered or lost it can do nothing.''',
 'histories', 'every combination of actor, way, wrapping (two levels inside, one outside; all combinations in the thorough run) and call, before and after unregistration, transfer and renunciation, from three initial situations',
 'The filters compose over wrappers, routes and target encodings; any unfiltered combination takes over accounts.',
 F + ' pallet/fee-proxy/src/runner.rs', [('native filter', 'runtime/src/impls.rs InstanceFilter for ProxyType'), ('EVM filter', 'runtime/src/impls.rs EvmProxyCallFilter'), ('blacklist', 'pallet/futurepass/src/lib.rs proxy_extrinsic')], technique=TF)
prop('F03', 'fp', 'A proxied EVM call does exactly what the futurepass itself would do',
 '''proxyCall by an owner or delegate leads to exactly the state, answer and events of the same call made by the futurepass, and one event that tells of it; a static one changes nothing, creations put a contract paid for by the futurepass. Other callers, unknown or unsupported call types, and calls that administer a futurepass by another than its owner are refused. What is refused or fails changes nothing; no call data, however short, makes it panic. Its views answer what is stored.''',
 'inputs', 'five callers of every standing, seven call types, ten kinds of targets, nineteen call data of every critical length and five values, from three situations',
 'Call type, target, data length, value and standing multiply; short data are read with fixed offsets.',
 'evm-precompiles/futurepass/src/lib.rs runtime/src/impls.rs', [('dispatch', 'evm-precompiles/futurepass/src/lib.rs proxy_call, do_proxy'), ('filter', 'runtime/src/impls.rs is_evm_proxy_call_allowed')], technique='exhaustive enumeration of proxied calls, each compared with the call made directly from the same state (bounded differential model checking)')
