prop('P01', 'py:macro_check', 'Selectors and hashes computed at compile time are the Keccak-256 ones',
 '''Every string literal hashed at compile time yields its Keccak-256 digest. Every selector enumeration gives each listed entry the first four bytes, big-endian, of the hash of its signature, converts to and from exactly those numbers, and keeps its visibility, attributes and entries.
 A declaration that does not give every entry a distinct string signature is refused by the compiler.''',
 'programs inputs', 'every program of an enumerated family: all short literals over an alphabet with escapes and multi-byte characters, all lengths across the hash block boundaries, all orderings of up to three or four signatures with visibility and attribute variants, and all single malformations at each position',
 'The three tests hash two strings and compare two selectors with the very hash library under test.',
 'evm-precompiles/utils/macro/src/lib.rs', [('hash literal', 'evm-precompiles/utils/macro/src/lib.rs keccak256'), ('selector enumeration', 'evm-precompiles/utils/macro/src/lib.rs generate_function_selector')],
 technique='exhaustive enumeration of a bounded family of programs, each compiled and run against an independent Keccak-256')
