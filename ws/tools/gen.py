#!/usr/bin/env python3
"""Generates ws/thin/* (re-export crates carrying the upstream crate names) and ws/wrap/*
(packages whose lib path is the unmodified /repo source).  Output is committed."""
import os
WS=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# extern name -> body
THIN={
 'codec':'pub use shim::codec::*;',
 'scale-info':'pub use shim::scale_info::*;',
 'sp-std':'pub use shim::sp_std::*;',
 'sp-core':'pub use shim::sp_core::*; pub use shim::codec::{self, Encode, Decode};',
 'sp-io':'pub use shim::sp_io::*;',
 'sp-runtime':'pub use shim::sp_runtime::*; pub use shim::codec;',
 'sp-arithmetic':'pub use shim::sp_arithmetic::*;',
 'sp-version':'pub use shim::sp_version::*;',
 'sp-api':'pub use shim_pallets::sp_api::*;',
 'sp-application-crypto':'pub use shim_pallets::sp_application_crypto::*;',
 'sp-consensus-babe':'pub use shim_pallets::sp_consensus_babe::*;',
 'sp-keystore':'pub use shim_pallets::sp_keystore::*;',
 'sp-staking':'pub use shim_pallets::sp_staking::*;',
 'frame-support':'pub use shim::frame_support::*;',
 'frame-system':'pub use shim::frame_system::*;',
 'pallet-balances':'pub use shim_pallets::balances::*;',
 'pallet-assets':'pub use shim_pallets::assets::*;',
 'pallet-timestamp':'pub use shim_pallets::timestamp::*;',
 'pallet-evm':'pub use shim_pallets::evm::pallet_evm::*;',
 'pallet-transaction-payment':'pub use shim_pallets::transaction_payment::*;',
 'pallet-proxy':'pub use shim_pallets::proxy::*;',
 'pallet-scheduler':'pub use shim_pallets::scheduler::*;',
 'pallet-utility':'pub use shim_pallets::utility::*;',
 'trn-pact':'pub use shim_pallets::doughnut_rs::pact::*;',
 'pallet-election-provider-multi-phase':'pub use shim_pallets::election::*;',
 'pallet-im-online':'pub use shim_pallets::im_online::*;',
 'pallet-ethereum':'pub use shim_pallets::evm::ethereum::*;',
 'pallet-evm-precompile-blake2':'pub use shim_pallets::evm::builtin::Blake2F;',
 'pallet-evm-precompile-bn128':'pub use shim_pallets::evm::builtin::{Bn128Add, Bn128Mul, Bn128Pairing};',
 'pallet-evm-precompile-modexp':'pub use shim_pallets::evm::builtin::Modexp;',
 'pallet-evm-precompile-sha3fips':'pub use shim_pallets::evm::builtin::Sha3FIPS256;',
 'pallet-evm-precompile-simple':'pub use shim_pallets::evm::builtin::{ECRecover, ECRecoverPublicKey, Identity, Ripemd160, Sha256};',
 'pallet-session':'pub use shim_pallets::session::*;',
 'pallet-sudo':'pub use shim_pallets::sudo::*;',
 'pallet-staking':'pub use shim_pallets::staking::*;',
 'fp-evm':'pub use shim_pallets::evm::fp::*;',
 'evm':'pub use shim_pallets::evm::core_::*;',
 'ethabi':'pub use shim_pallets::ethabi::*;',
 'ethereum-types':'pub use shim_pallets::ethereum_types::*;',
 'hex-literal':'pub use shim::macros::hex;',
 'libsecp256k1':'pub use shim_pallets::misc::libsecp256k1::*;',
 'impl-trait-for-tuples':'pub use shim::macros::impl_for_tuples;',
 'affix':'pub use shim::macros::paste;',
 'ripemd':'pub use shim_pallets::ripemd::*;',
 'rustc-hex':'pub use shim_pallets::rustc_hex::*;',
 'impl-serde':'pub use shim_pallets::impl_serde::*;',
 'similar-asserts':'#[macro_export] macro_rules! assert_eq { ($($t:tt)*) => { ::std::assert_eq!($($t)*) } }',
 'xrpl-codec':'pub use shim_pallets::xrpl_codec::*;',
 'xrpl-binary-codec':'pub use shim_pallets::xrpl_binary_codec::*;',
 'xrpl-types':'pub use shim_pallets::xrpl_types::*;',
 'doughnut-rs':'pub use shim_pallets::doughnut_rs::*;',
 'frame-executive':'pub use shim_pallets::frame_executive::*;',
 'fp-self-contained':'pub use shim_pallets::fp_self_contained::*;',
}
LIBNAME={'xrpl-binary-codec':'xrpl_binary_codec'}
# repo package -> (path, lib name or None, deps on other wrapped packages, dev-deps)
R='/repo/'
WRAP={
 'precompile-utils-macro':('evm-precompiles/utils/macro',[],[]),
 'seed-primitives':('primitives',[],[]),
 'precompile-utils':('evm-precompiles/utils',['precompile-utils-macro'],[]),
 'seed-pallet-common':('pallet/common',['seed-primitives'],[]),
}
PC='seed-primitives seed-pallet-common'
def p(n,deps='',dev='',path=None):
    WRAP['pallet-'+n]=('pallet/'+(path or n),(PC+' '+deps).split(),dev.split())
p('assets-ext','precompile-utils','pallet-fee-control')
p('fee-control','precompile-utils','pallet-dex pallet-assets-ext pallet-futurepass pallet-fee-proxy')
p('dex','','pallet-assets-ext')
p('nft','precompile-utils','pallet-assets-ext pallet-fee-control')
p('sft','pallet-nft precompile-utils','pallet-assets-ext')
p('marketplace','pallet-nft pallet-sft','pallet-assets-ext')
p('crowdsale','pallet-assets-ext','pallet-nft')
p('futurepass','precompile-utils','pallet-assets-ext pallet-fee-control pallet-dex pallet-nft seed-runtime')
p('fee-proxy','pallet-assets-ext pallet-dex pallet-futurepass precompile-utils','pallet-fee-control')
p('token-approvals','','pallet-assets-ext pallet-nft')
p('nfi','pallet-nft pallet-sft','pallet-assets-ext')
p('xls20','pallet-nft','pallet-assets-ext')
p('nft-peg','pallet-nft','pallet-assets-ext')
p('erc20-peg','','pallet-assets-ext')
p('echo','','')
p('migration','','')
p('maintenance-mode','','pallet-assets-ext')
p('evm-chain-id','','')
p('tx-fee-pot','pallet-assets-ext','')
p('xrpl-bridge','pallet-assets-ext','pallet-nft')
p('ethy','','pallet-assets-ext')
p('vortex-distribution','','pallet-assets-ext')
p('doughnut','','pallet-fee-control pallet-assets-ext pallet-futurepass')
p('xrpl','precompile-utils','pallet-assets-ext pallet-fee-control')
def e(n,deps):
    WRAP['pallet-evm-precompiles-'+n]=('evm-precompiles/'+n,('precompile-utils seed-primitives '+deps).split(),[])
e('dex','pallet-dex')
e('erc1155','pallet-sft pallet-nft pallet-token-approvals seed-pallet-common')
e('erc20','pallet-assets-ext pallet-token-approvals')
e('erc721','pallet-nft pallet-xls20 pallet-token-approvals seed-pallet-common')
e('futurepass','pallet-futurepass')
e('futurepass-registrar','pallet-futurepass')
e('marketplace','pallet-marketplace')
e('nft','pallet-nft')
e('peg','pallet-nft-peg pallet-erc20-peg')
e('sft','pallet-sft')
LOCAL={'seed-runtime':'../../local/seed-runtime'}
COMMON='''shim = { path = "../../shim/core" }
shim-pallets = { path = "../../shim/pallets" }
log = "0.4"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
sha2 = "0.10.9"
sha3 = { path = "../../vendor/sha3" }
num_enum = { path = "../../vendor/num_enum" }
hex = { version = "0.4.3", features = ["serde"] }
parking_lot = "0.12"
'''
def w(path,s):
    os.makedirs(os.path.dirname(path),exist_ok=True)
    if os.path.exists(path) and open(path).read()==s: return
    open(path,'w').write(s)
for n,body in THIN.items():
    d=f'{WS}/thin/{n}'
    pk='' if 'shim_pallets' not in body else 'shim-pallets = { path = "../../shim/pallets" }\n'
    w(d+'/Cargo.toml',f'[package]\nname = "{n}"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nshim = {{ path = "../../shim/core" }}\n{pk}[features]\ndefault = ["std"]\nstd = []\n')
    w(d+'/src/lib.rs','#![allow(unused_imports)]\n'+body+'\n')
ENABLED=os.environ.get('ONLY')
ALLTHIN=''.join(f'{n} = {{ path = "../../thin/{n}" }}\n' for n in sorted(THIN))
for n,(path,deps,dev) in WRAP.items():
    d=f'{WS}/wrap/{n}'
    if n=='precompile-utils-macro':
        w(d+'/Cargo.toml',f'''[package]
name = "{n}"
version = "0.1.0"
edition = "2021"
[lib]
path = "/repo/{path}/src/lib.rs"
proc-macro = true
[dependencies]
num_enum = {{ path = "../../vendor/num_enum" }}
proc-macro2 = "1"
quote = "1"
sha3 = {{ path = "../../vendor/sha3" }}
syn = {{ version = "1", features = ["extra-traits", "fold", "full", "visit"] }}
''')
        continue
    dd=''.join(f'{x} = {{ path = "{LOCAL.get(x,"../"+x)}" }}\n' for x in deps)
    dv=''.join(f'{x} = {{ path = "{LOCAL.get(x,"../"+x)}" }}\n' for x in dev)
    w(d+'/Cargo.toml',f'''[package]
name = "{n}"
version = "0.1.0"
edition = "2021"
build = false
[lib]
path = "/repo/{path}/src/lib.rs"
doctest = false
[features]
default = ["std"]
std = []
testing = []
runtime-benchmarks = []
try-runtime = []
[dependencies]
{COMMON}{ALLTHIN}{dd}[dev-dependencies]
{dv}''')
