# ID -> how it is decided: model / oracle / what is enumerated beyond the quantifier text
D = {
'A01':'Model: map (pallet, account, asset) -> held amount, and balances. Checked in each state: the `Holds` storage equals the model, the holding account owns the sum of all holds of an asset, supply = sum of balances. `split_transfer`, `place_hold`, `release_hold`, `spend_hold` with amounts 0, 1, part, all, all+1, 2^64 and beyond; the asset with a minimum balance has a part of its own.',
'A02':'Model: assets with owner, metadata, deposit, supply and balances; all extrinsics with every origin (owner, other, root, none). Initial states with the next id at 255 and 65535, so that id arithmetic is crossed.',
'A03':'Fee withdrawal, correction and the fee pot are driven through the traits the runtime uses (`OnChargeTransaction`-shaped calls); sum of balances + pot + dropped imbalances = supply in each state.',
'D01':'The reference recomputes each hop with exact integers from the *actual* reserves, including the path (every path of up to 5 tokens over five assets is a part of its own), the limit, deadline and recipient; per hop: reserve product not lower; after: recorded reserves = balances; refused: storage unchanged.',
'D02':'Reference: exact share arithmetic (floor division, square root, 1000 locked); the value of a share (reserves/supply as a fraction) may not fall except by the protocol fee that the reference computes.',
'D03':'Model of k_last and fee receiver; the number of shares minted to the receiver is recomputed from sqrt(k) growth; all switch orders to depth 4 (thorough 6).',
'D04':'`get_amount_out`, `get_amount_in`, `quote` against exact 256-bit arithmetic over a boundary grid of 128-bit values and over every triple of small numbers; pool addresses (order-free, distinct) over a grid of asset ids.',
'E01':'Model: claims by id with their own due block, challenge state and status; a scripted subscriber records deliveries. Ids go through gaps, resubmission after refutation, pruning of processed ids, challenge periods changed on the way.',
'E02':'Model of bonds, claims, challenges and votes; the verdict is recomputed from the authorities in office. Separate part: every number of authorities with every split of the votes in several orders, so that thresholds and roundings are decided for each size. Vote admission: every combination of signer/authority index/payload.',
'E03':'A driver reads the digest log each block as the bridge worker does: each requested id appears exactly once, with exactly the message; delayed while paused, nothing lost.',
'E04':'The session pallet is played in its real call order; eras normal and forced, key changes at any point; announced set = set that takes office, notary keys for XRPL door = the first n in order; one proof each.',
'E05':'As E02 for `eth_call` oracle: every split of two answers and dissent among up to 12 (thorough 20) authorities, timeouts, reporters not in office; the subscriber is told exactly once.',
'E06':'The offchain worker of the pallet runs against an Ethereum node played by the harness (the own `BridgeEthereumRpcApi` trait): every answer shape (missing, malformed, wrong contract, several logs, too young/old) and what is voted.',
'F01':'Model: futurepass -> owner, delegates with permission, deposits reserved. All extrinsics and the precompile, signatures real secp256k1 with every wrong field.',
'F02':'For each state and each (signer, futurepass, call) the model of roles says whether the call may be made; then the effect equals that of the call made by the futurepass itself (differential).',
'F03':'Differential: `proxyCall(kind, to, value, data)` against the same call/create by the futurepass through the runner; whole storage compared up to the gas.',
'K01':'Model of deposits due; every block processed; sum(credited)+sum(waiting) = sum(messages). Immediately or delayed by the size, delay changes while waiting.',
'K02':'Model of withdrawals; tokens burnt or escrowed = amounts in messages sent (now or after the delay); the message is decoded and compared field by field.',
'K03':'A model of the Ethereum contract (which tokens it holds) plays the other side, so that "on Ethereum, on Root or blocked, exactly one" is an invariant of both sides together.',
'K04':'Every prefix (0…n bytes) and single-word corruption of valid messages, ids at 2^32 and 2^64, wrong source, list lengths crossed; accepted iff the reference decoder accepts, refused = nothing changed.',
'M01':'Model of listings, locks, royalties, fees. Whole sale computed by the reference to the unit.',
'M02':'Model of auctions with bids on hold; auctions end in `on_initialize`; extension near the end; every failure at settlement returns all.',
'M03':'Model of offers with funds on hold; accepted only by the owner; the holds of all offers = sum of the model.',
'M04':'As M01 with all royalty schedules (0, 100%, rounding-hostile numbers, several holders), marketplace fees and network fees; the split recomputed exactly; nothing remains.',
'N01':'Model: token -> owner per collection. Invariants: ownership lists disjoint, sum of balances, `token_owner` for each token, locks. "All argument combinations" runs the whole cartesian product of argument alphabets (valid and invalid) from 4–5 states.',
'N02':'Model of public mint (enabled, price, asset), max issuance, limits; payments. "Large numbers": limits of 2000 tokens and batches of 600, so that list lengths cross 255/256.',
'N03':'Model: for each administrative extrinsic, only the owner (or root where stated), with effect exactly on the named collection.',
'N04':'Model of approvals (token, collection, operator) after the events of transfer, burn, sale.',
'N05':'Model of XLS-20 requests, relayer, fee payments; decoding of XLS-20 token ids over a boundary grid against an independent decoder.',
'N06':'Model of NFI data per token, byte limits, fee split, removal on burn, collection-level enabling.',
'P01':'The proc macro is compiled from /repo and run by the real rustc: outputs compared with an independent Keccak-256. This is the one crate that `/opt/vp/build.sh` builds.',
'P02':'Reference formulas over boundary grids: id layout (22 bits of id, 10 of chain), decimals conversion, royalty sums, every URI scheme with boundary serials.',
'P03':'Real secp256k1/ed25519 signatures; each field tampered; degenerate keys and signatures; account derivation compared with independent code.',
'P04':'Every subset and permutation of signatures, gaps, out-of-range indices; expansion and order against the reference.',
'R01':'Who handled it is read from the effects: balances, tokens and the messages in the bridge events, all compared with the reference; the reference reads the words itself (so a deposit delivered to echo is a ping if its first word says so).',
'R02':'The runtime items are called directly with staking, session and consensus state set; the reference is the definition in 64-bit arithmetic.',
'R03':'The expected address is built from bytes; after each step the set of all EVM codes may have grown by exactly that address, and every address created so far is asked through the EVM for its name or owner, as are those with the other prefixes.',
'R04':'Old keys are written raw; afterwards the raw keys and values below both prefixes must equal the reference, and all others those before, up to the version.',
'R05':'The migration run by the pallet is one of the harness that records each step with the key it was given (keys name their migration), so that repeated, skipped or foreign steps show; weights are exact.',
'R06':'The functions of impl_runtime_apis! are taken out of runtime/src/lib.rs by rt\'s build script and compiled with the real pallets. In every state reached the answers are compared: trades with the balances before and after a trial execution that is rolled back; free balances with trial transfers of exactly that much and of one more; tokens, signers, nonces and code with what is stored.',
'S01':'Model: (token, account) -> free, reserved. Supply = sum. Batches with repeated ids, holders at the limit.',
'S02':'Model of mint permission, max issuance, price; argument products.',
'S03':'As N03 for SFT collections, and operators.',
'T01':'Real signatures over the XRPL encoding; model of nonces, fees, executed calls; every malformed or tampered transaction is refused by validation and by dispatch.',
'T02':'Model of issuer, holder, permissions, validity, nonces, revocations (doughnut and holder); effect compared with the call made by the issuer.',
'T03':'In every state of the switches, some 100 transactions by every kind of signer and wrapping are tried: refused exactly if the model says stopped.',
'T04':'Exact accounting of wei/drops: total issuance, author, fee pot, caller; refunds and rounding; every gas limit/price/value of the alphabet, every outcome (success, revert, out of gas).',
'T05':'Differential against: swap, pay the fee, make the call, one after another; the swap limit respected; refused leaves nothing.',
'U01':'Model of statuses, order book, balances of pots, vault and people. Whom a payment call pays is read from its events, that it was due and happened is checked against model and balances; worker runs are compared with the set of paying distributions. The batch is 2 (runtime: 100) so that resumption is reached at every position.',
'U02':'Shares by 256-bit arithmetic; all balances of all assets compared after every call.',
'V01':'Model of an ERC-20 per asset; return data, logs (decoded), reverts; both precompile and pallet state compared.',
'V02':'Model of ERC-721 with receivers that accept, refuse, answer short, re-enter.',
'V03':'As V02 for ERC-1155, single and batch.',
'V04':'Address × selector × modifier product: which addresses answer, which selectors exist, static call/value refused where not allowed, delegatecall refused; all truncations of the call data.',
'V05':'Differential: for each function of each precompile, the whole product of argument alphabets; storage after = storage after the corresponding extrinsic.',
'V06':'Reference model: an encoder and a decoder of the ABI written from its specification. Enumerated: argument lists of over 30 shapes, their values, every truncation next to a word boundary (thorough: at every byte), every word replaced by each of 26 values (thorough: every two words). The real EvmDataWriter must write the same bytes, the real EvmDataReader must read the same values or refuse where the reference finds nothing.',
'V07':'Scripted contracts execute a tree of calls: the first contract calls the nodes of the root, each of which enters the runtime\'s real precompile set; a safe transfer asks the second contract, proxyCall calls the first as the futurepass, and these go on with the children. Reference: a counter of active calls per address. Compared: how every single call ended, who holds every token, coin and share afterwards, and that a reverted transaction left no trace.',
'W01':'Model of sales, contributions and end blocks. The limits per block are made small so that queueing is reached.',
'W02':'Complete sales with all combinations of collection size, price, contributions; vouchers computed by rational arithmetic; distribution in blocks, claims by hand, in every order.',
'W03':'Vouchers in circulation ≤ tokens reserved, redemption of n vouchers mints exactly n tokens, with n past 2^32/10^6.',
'X01':'Model of deposits waiting, challenged, due; ledger window and pruning; each accepted (ledger, tx hash) credited once.',
'X02':'Model: amount taken = amount in the request (decoded XRPL payment, checked field by field: ticket, tag, fee, door); all decimals × amounts.',
'X03':'Model: set of tickets handed out; every new one is new and inside a bucket that was set by the relayer.',
'X04':'Model of both sides (XRPL tokens in the door account), as K03.',
'G01':'A node is the real task behind `start_ethy_gadget`, polled by hand: its client, backend, keystore, gossip engine and runtime API are stand-ins that do only what the scenario says, one input at a time, so that every order of inputs is a schedule of the real code. Each proof written is verified signature by signature (real secp256k1) against the set at the block. The part `faults` lets the runtime API fail or give empty sets.',
'G02':'The proofs made after each input must be those the model makes. The model is per event: block known, votes by validator, sets as they were at the block.',
'G03':'Messages given to the gossip engine after each input, decoded, must be the model\'s (the ECDSA nonce aside).',
'G04':'What the engine keeps after each input must be what the model keeps; expiry is an input. Blocks and votes at 89, 90 and 91 blocks of distance.',
'G05':'The handler reads the aux store the gadget of the same run has written; addresses, recovered keys and DER forms are computed by the harness.',
}
