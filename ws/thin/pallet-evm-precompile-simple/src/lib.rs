#![allow(unused_imports)]
pub use shim_pallets::evm::builtin::{ECRecover, ECRecoverPublicKey, Identity, Ripemd160, Sha256};
