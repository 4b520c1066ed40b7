F = 'pallet/ethy/src/lib.rs pallet/ethy/src/impls.rs pallet/ethy/src/types.rs'
K = 'explicit-state BFS of the real pallet (over the real multi-currency pallet) in lock-step with a reference model'
prop('E01', 'ethy', 'An Ethereum event is delivered once, when its own challenge period is over',
 '''Only the relayer can submit an Ethereum event, and never one that is pending or was delivered. A claim nobody challenged, or whose challenge proved it valid, is delivered - with the source, destination and data submitted - exactly in the block in which the challenge period since its own submission ends; one still under challenge is put off by another challenge period. A claim refuted meanwhile is never delivered, also not under the id's later, other claim, which waits for its own period. No id that lies between delivered ones is lost: it stays open to ordinary submission or is listed as missing until delivered or cleared by root, and no delivered one can ever be submitted again, whatever was pruned.''',
 'histories schedules', 'every sequence of submissions (ordinary, of missing events), clearances, challenges, votes, relayer and period changes and blocks up to the stated depth, from five initial situations',
 'Replay protection prunes a list of ids while claims, challenges and missing ids are in flight over many blocks.',
 F, [('submission', 'pallet/ethy/src/lib.rs submit_event, submit_missing_event'), ('delivery', 'pallet/ethy/src/lib.rs on_initialize'), ('pruning', 'pallet/ethy/src/impls.rs prune_claim_ids')], state=[('PendingEventClaims', 'claims'), ('MessagesValidAt', 'when they are due'), ('ProcessedMessageIds', 'ids not to be replayed'), ('MissedMessageIds', 'ids skipped')], technique=K)
prop('E02', 'ethy', 'The authorities in office settle a challenge and the bonds follow the verdict',
 '''Anyone who can afford the bond may challenge a pending claim once, while fewer than the limit are open. Each authority in office votes once on an open challenge. When those for it reach the threshold of the authorities the claim is proven: the challenger's bond goes to the relayer (back, if there is none). As soon as the threshold is out of reach it is refuted: the challenger gets the bond back and the relayer's bond, and the relayer is removed. When all have voted it is decided. After a change of authorities the new ones decide, without the votes of the former. Every bond is held exactly while it is needed, and no other funds move; only a bonded account can be made relayer and only another than the relayer can take its bond back.''',
 'histories inputs', 'every sequence of submissions, challenges, votes, bonds, withdrawals, relayer and authority changes and blocks by four users up to the stated depth, from four initial situations; and every number of votes for and against, in three orders, for every set of up to the stated number of authorities',
 'Verdicts depend on vote order, rounding of percentages and on changes of authorities in between.',
 F, [('challenge', 'pallet/ethy/src/lib.rs submit_challenge'), ('verdict', 'pallet/ethy/src/impls.rs handle_event_notarization, handle_valid_claim, handle_invalid_claim'), ('bonds', 'pallet/ethy/src/lib.rs deposit_relayer_bond, withdraw_relayer_bond')], state=[('ChallengerAccount', 'who challenged, with which bond'), ('EventNotarizations', 'votes'), ('RelayerPaidBond', 'relayer bonds')], technique=K)
prop('E03', 'ethy', 'Every request for a proof gets a fresh id and is emitted to be signed once',
 '''Every request to sign an Ethereum message or an XRPL transaction that fits the size limit gets an id never used before. It is emitted to the notaries exactly once: at once when the bridge is not paused, otherwise in a later idle slot in which it is not paused, at most the configured number per block and only with weight for it, none lost. What is to be signed is the keccak hash of the ABI encoding of source, destination, message, the id of the authorities then in office and the request's id; for the XRPL it is the transaction itself. Messages that are too large are refused.''',
 'histories', 'every sequence of requests of four sizes to both chains, pauses by hand and for a hand-over, completed hand-overs, limits and idle slots with four amounts of weight up to the stated depth, from three initial situations',
 'Delayed requests interleave with pauses and changes of authorities.',
 F, [('requests', 'pallet/ethy/src/impls.rs send_event, sign_xrpl_transaction, do_request_event_proof'), ('delayed', 'pallet/ethy/src/lib.rs on_idle'), ('encoding', 'pallet/ethy/src/types.rs abi_encode, data')], state=[('PendingEventProofs', 'delayed requests'), ('NextEventProofId', 'ids')], technique=K)
prop('E04', 'ethy', 'New authorities take office only as announced to Ethereum and the XRPL',
 '''Before the end of an era (the configured time before, or at the end if the era was forced to end) a proof of the next set - the addresses of the keys queued and the next id - is requested from those in office, the bridge pauses, and if the keys of the XRPL door change with it, a change of its signers to exactly the new ones is requested. At the end of the era (the configured time later if forced) exactly the announced keys take office under the announced id, with the threshold rounded up, the notaries are told, and the bridge resumes, unless paused by hand. Nothing else changes the keys, the id or the pause. Door keys are the first allowed ones in order of the set; only root changes who is allowed, and only up to the limit at a time.''',
 'histories schedules', 'every sequence of blocks, sessions with four sets of queued keys, final or not, forced eras, changes of allowed door keys and pauses by hand up to the stated depth, from four initial situations',
 'The hand-over spans many blocks, is scheduled in two different ways and interleaves with governance.',
 F, [('announcement', 'pallet/ethy/src/impls.rs handle_authorities_change'), ('activation', 'pallet/ethy/src/impls.rs do_finalise_authorities_change'), ('sessions', 'pallet/ethy/src/impls.rs on_new_session, on_before_session_ending')], state=[('NotaryKeys', 'keys in office'), ('NextNotaryKeys', 'keys queued'), ('NotaryXrplKeys', 'keys of the door'), ('NextAuthorityChange', 'when to announce')], technique=K)
prop('E05', 'ethy', 'An eth_call request is answered once, with a result the authorities agree on',
 '''A request is kept with exactly the parameters asked and a fresh id. Its subscriber is told exactly once: a result as soon as the threshold of the authorities in office report that very result (return data, block and time, or the same failure), or an internal failure as soon as no result can reach it; at the latest when all have voted. Nothing of a request remains afterwards. A vote, on an event or a call, is admitted only as an unsigned transaction with the signature of the authority with the given index over exactly the vote, and only once per authority, kind and id; votes on different matters never displace each other in the pool. No other call is admitted unsigned.''',
 'histories inputs', 'every sequence of requests, votes with up to seven results, changes of authorities and time up to the stated depth for three to six authorities; every poll of up to the stated number of authorities with three results; every combination of key set, index, signer, tampering and earlier votes',
 'Agreement must hold for every order of votes; the admission check guards it against forged ones.',
 F, [('requests', 'pallet/ethy/src/impls.rs checked_eth_call'), ('votes', 'pallet/ethy/src/impls.rs handle_call_notarization'), ('admission', 'pallet/ethy/src/lib.rs validate_unsigned')], state=[('EthCallRequestInfo', 'open requests'), ('EthCallNotarizations', 'votes')], technique=K)
prop('E06', 'ethy', 'An authority reports only what its Ethereum node shows',
 '''The worker of a node votes on a challenged event at most once, and only if one of its keys is in office, enough authorities are, and the bridge is not paused. It votes valid exactly if the node has a successful receipt of the transaction sent to the source, the receipt contains - anywhere - the log of the bridge contract with the claimed id, source, destination and data, and the latest block is at least the configured number of confirmations ahead. For an eth_call it reports the 32 bytes returned together with the block and time used: the block asked for if it lies before the latest and not further back than allowed (one more per 12 seconds of delay), else the latest; or the failure that occurred. Its votes are admissible.''',
 'inputs', 'every combination of receipt, status, recipient, one or two (thorough: three) logs out of ten kinds, confirmations and heights; of latest block, time, block asked for, limit, delay and data returned; and of pauses, keys held, keys in office and number of authorities',
 'Unit tests mock a handful of node answers; a wrong vote costs an honest party its bond or lets a forged event through.',
 F, [('events', 'pallet/ethy/src/impls.rs offchain_try_notarize_event, do_event_notarization_ocw'), ('calls', 'pallet/ethy/src/impls.rs offchain_try_eth_call'), ('gate', 'pallet/ethy/src/lib.rs offchain_worker')], technique='exhaustive enumeration of the answers of the Ethereum node on the real off-chain worker')
