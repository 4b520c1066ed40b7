T = 'exhaustive enumeration of a bounded input space on the implementation against independently written definitions'
prop('P02', 'prim', 'Asset and collection ids are unique; decimals, royalties and URIs are exact',
 '''Every pair of a 22-bit index and a 10-bit parachain id maps to its own 32-bit id holding both, and out-of-range values are refused. Converting wei to fewer decimals gives the smallest amount worth at least the value, and converting up and back returns the same amount. A royalty schedule is accepted exactly if it names one to the maximum number of shares that total at most 100%. A token URI is the base followed by the decimal serial number, and a base over the limit is refused, not cut.''',
 'inputs', 'all 4194304 indices and values beyond for several parachain ids; boundary grids over 128 bits for every decimals from 0 to 18; every share list up to the stated length from a boundary alphabet; serial numbers around every change of length',
 'Tests check a few values each; collisions and rounding errors hide between them.',
 'pallet/common/src/utils.rs primitives/src/nft.rs', [('ids and decimals', 'pallet/common/src/utils.rs next_asset_uuid, scale_wei_to_correct_decimals, scale_decimals_to_wei'), ('royalties and URIs', 'primitives/src/nft.rs RoyaltiesSchedule, MetadataScheme')], technique=T)
prop('P03', 'prim', 'A signature is accepted only from its signer, for its message',
 '''A transaction signature verifies exactly if it recovers the claimed account from the message under one of the three supported digests (plain, Ethereum personal message, personal message of the Blake2 hash); any other digest, message, account or altered signature is rejected, and degenerate signatures never verify. Account ids, Ethereum and XRPL addresses follow the standard derivation from a public key, conversions keep every byte, and malformed keys map to no real account.''',
 'inputs', 'all combinations of keys, messages around every length boundary, nine digest schemes and claimed accounts; bit flips over the signature; all recovery bytes; all key prefixes',
 'Tests accept a few good signatures and reject one bad one; acceptance of anything else is invisible to them.',
 'primitives/src/signature.rs primitives/src/ethy.rs', [('verification', 'primitives/src/signature.rs EthereumSignature::verify, verify_signature'), ('addresses', 'primitives/src/ethy.rs EthyEcdsaToEthereum, EthyEcdsaToXRPLAccountId')], technique=T)
prop('P04', 'prim', 'Bridge proofs keep every signature in its validator\'s slot',
 '''An expanded event proof has exactly the requested number of slots, each holding the signature of the validator with that index or blank, whatever the order of arrival and even when sizes disagree, and the signature count ignores blanks. Validator indices, chain ids, consensus log tags and the stored proof format are stable.''',
 'inputs', 'every assignment of absent, blank or present signatures for up to the stated number of validators, expanded to every size; every arrival order of five',
 'One test expands one proof of three signatures.',
 'primitives/src/ethy.rs', [('proof expansion', 'primitives/src/ethy.rs EventProof::expanded_signatures, signature_count'), ('validator set', 'primitives/src/ethy.rs ValidatorSet')], technique=T)
