G = 'ethy-gadget/src/worker.rs ethy-gadget/src/witness_record.rs'
T = 'the real gadget task and gossip validator over a scripted client, keystore and network; every order of the inputs of each scenario'
prop('G01', 'gadget', "Every proof a node publishes is signed by enough of its block's validators",
 '''A node stores, and announces to its subscribers, a proof only of a request in a finalised block, once, under the key of the chain and the id of the event. The proof names that block and the validator set of that block, and the digest of the request's data; each of its signatures is the one of the validator with that index in that set over the data of the request, in ascending order and each once; and they are at least as many as that set's threshold - for the XRPL counted among the signers authorised at that block, against their threshold - and never none. This holds whatever other, forged, repeated or late messages arrive, when the validators or the signers change meanwhile, and when the state of a block cannot be queried; what cannot be had is as it was last.''',
 'schedules', 'every order of up to eight inputs (finality notifications, messages well and badly signed, over other data, with the other of two equivalent signatures, cut, from strangers) in some 60 scenarios with one to six events on both chains, ids in and out of order, changes of validators and of signers, nodes with no, one and several keys; every word of the inputs to the stated depth with skipped, repeated and late notifications, major sync, and requests that age; long runs; state that fails to be had',
 'The contracts on the other chain check each signature against the validator at its place: a proof of other validators, or with too few signatures, blocks the bridge or robs it.',
 G, [('witnesses', 'ethy-gadget/src/witness_record.rs note_event_witness, has_consensus'), ('proof', 'ethy-gadget/src/worker.rs try_make_proof')], state=[('aux store', 'published proofs'), ('witnesses', 'votes for open events')], technique='stateless model checking (exhaustive enumeration of input orders) of ' + T + ', each proof checked against the scripted chain')
prop('G02', 'gadget', 'A proof is made as soon as it can be, in whatever order its parts arrive',
 '''As soon as a node has finalised the block with a request and has enough valid votes of that block's validators, its own included, it makes the proof - no matter in which order blocks and messages came, which events were complete before, which notifications were skipped (the blocks between are fetched), or which forged or repeated messages came before the valid ones. It makes none before. Blocks up to the one it started with are not looked at, nor is any during major sync; afterwards they are caught up.''',
 'schedules', 'the scenarios and orders of G01',
 'An event that is never proved is a withdrawal that never arrives.',
 G + ' ethy-gadget/src/gossip.rs', [('finality', 'ethy-gadget/src/worker.rs handle_finality_notification'), ('early votes', 'ethy-gadget/src/witness_record.rs process_unverified_witnesses'), ('completed events', 'ethy-gadget/src/witness_record.rs compact_sequence')], state=[('unverified_witnesses', 'votes before their event'), ('completed_events', 'events that are over')], technique='stateless model checking of ' + T + ', in lock-step with a reference model of the protocol')
prop('G03', 'gadget', 'A validator signs each request of each finalised block once, and nothing else',
 '''A node that holds the key of one of the block's validators signs each request of each finalised block once and sends the vote, with that key - the first in the order of the set if it holds several -, the set's id, the event and the block's number; a node that holds none signs nothing. A vote of another validator that is valid as far as the node can tell, and new to it, is passed on once, unless the event is complete or too old; anything else is not passed on.''',
 'schedules', 'the scenarios and orders of G01',
 'A validator that signs too little stalls the bridge, one that signs what was not finalised endangers it.',
 G + ' ethy-gadget/src/keystore.rs ethy-gadget/src/types.rs', [('signing', 'ethy-gadget/src/worker.rs handle_finality_notification_active'), ('own key', 'ethy-gadget/src/keystore.rs authority_id'), ('digest', 'ethy-gadget/src/types.rs data_to_digest')], state=[('has_witnessed', 'who voted')], technique='stateless model checking of ' + T + ', the sent messages compared with a reference model')
prop('G04', 'gadget', "Gossip keeps what is open and recent, and nobody uses up another's vote",
 '''The gossip layer takes, and keeps for late peers, the first message of each validator of the active set for each event, if it is well signed by that validator and of a block at most 90 below the last finalised one; messages that are cut, of strangers, or not signed by the validator they name are dropped and do not count, so that the validator's own message is still taken afterwards. It drops what it keeps once the event is complete or too old, and not before.''',
 'schedules', 'the scenarios and orders of G01, with the expiry of messages among the inputs, and votes and blocks at the limits of the window',
 'If a forged message could take the place of the real one, anybody could silence a validator.',
 'ethy-gadget/src/gossip.rs', [('validation', 'ethy-gadget/src/gossip.rs GossipValidator validate'), ('expiry', 'ethy-gadget/src/gossip.rs message_expired, message_allowed')], state=[('known_votes', 'votes seen per event'), ('complete_events', 'events that are over')], technique='stateless model checking of ' + T + ', the kept messages compared with a reference model')
prop('G05', 'gadget', "The RPC serves each proof with each signature at its validator's place",
 '''For an event with a stored proof the RPC gives its id, its block, the id of the set and, for Ethereum, one signature per validator of that set in order, with v, r and s of the validators that signed and zeros for the others, and their addresses; for the XRPL the signatures of those signers that are authorised at the block, in DER with low s, each with its public key, and the data they signed. For other events it gives nothing. A subscriber gets each proof published after he subscribed, once, as the RPC serves it.''',
 'schedules', 'the orders of G01; every set of up to four (thorough: five) validators that sign, with every set of authorised XRPL signers and both forms of signatures',
 'Relayers submit what the RPC gives; one signature at the wrong place makes a proof useless.',
 'ethy-gadget/rpc/src/lib.rs ethy-gadget/rpc/src/notification.rs primitives/src/ethy.rs', [('proofs', 'ethy-gadget/rpc/src/lib.rs get_event_proof, get_xrpl_tx_proof'), ('places', 'primitives/src/ethy.rs EventProof expanded_signatures')], state=[('aux store', 'published proofs')], technique='exhaustive enumeration of input orders and signer sets through the real gadget and RPC handler, compared with the scripted chain')
