//! What the checks on the runtime share: genesis, calls through the EVM's executor, the ABI.
use crate::*;
use frame_support::traits::{Currency, Hooks};
pub use fp_evm::{Context, ExitReason, ExitRevert, ExitSucceed, Log, PrecompileHandle, Transfer};
pub use pallet_evm::exec::{script, Ex, LogRec};
use std::rc::Rc;
pub const ROOT: AssetId = 1;
pub const XRP: AssetId = 2;
pub const VTX: AssetId = 3;
pub const DROP: u128 = 1_000_000_000_000;
pub fn h(i: u64) -> H160 {
	H160::from_low_u64_be(i)
}
pub fn user(i: usize) -> H160 {
	h(0x1000_0000 + i as u64)
}
pub fn acc(i: usize) -> AccountId {
	user(i).into()
}
pub fn at(a: H160) -> AccountId {
	a.into()
}
/// An address a runtime id is reached at: 4 bytes of prefix, the id, zeros.
pub fn token(prefix: u8, id: u32) -> H160 {
	let mut b = [0u8; 20];
	b[..4].copy_from_slice(&[prefix; 4]);
	b[4..8].copy_from_slice(&id.to_be_bytes());
	H160(b)
}
pub fn erc20(id: AssetId) -> H160 {
	token(0xcc, id)
}
pub fn erc721(id: u32) -> H160 {
	token(0xaa, id)
}
pub fn erc1155(id: u32) -> H160 {
	token(0xbb, id)
}
pub fn call(f: impl FnOnce() -> sp_runtime::DispatchResult) -> Result<(), String> {
	frame_support::storage::with_storage_layer(f).map_err(|e| {
		let s = format!("{e:?}");
		s.split("message: Some(\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or(&s).to_string()
	})
}
/// A signed (or root) call as the transaction pool and the block would run it, without fees.
pub fn dispatch(o: RuntimeOrigin, c: impl Into<RuntimeCall>) -> Result<(), String> {
	let c: RuntimeCall = c.into();
	call(|| c.dispatch(o).map(|_| ()).map_err(|e| e.error))
}
pub fn signed(a: H160) -> RuntimeOrigin {
	RuntimeOrigin::signed(a.into())
}
pub fn root() -> RuntimeOrigin {
	RuntimeOrigin::root()
}
/// The chain with its native assets and `n` accounts holding `each` of ROOT and XRP.
pub fn genesis(n: usize, each: u128) {
	System::set_block_number(1);
	// as the chain's genesis does
	let own: AccountId = acc(99);
	for (id, name, dec) in [(ROOT, "ROOT", 6u8), (XRP, "XRP", 6), (VTX, "VTX", 6)] {
		dispatch(root(), pallet_assets::Call::force_create { id, owner: own.clone(), is_sufficient: true, min_balance: 1 }).unwrap();
		dispatch(
			root(),
			pallet_assets::Call::force_set_metadata { id, name: name.into(), symbol: name.into(), decimals: dec, is_frozen: false },
		)
		.unwrap();
	}
	for i in 0..n {
		fund(ROOT, user(i), each);
		fund(XRP, user(i), each);
	}
}
pub fn fund(asset: AssetId, a: H160, amount: u128) {
	use frame_support::traits::fungibles::Mutate;
	if amount > 0 {
		AssetsExt::mint_into(asset, &a.into(), amount).unwrap();
	}
}
pub fn bal(asset: AssetId, a: H160) -> u128 {
	AssetsExt::balance(asset, &a.into())
}
pub fn supply(asset: AssetId) -> u128 {
	AssetsExt::total_issuance(asset)
}
/// A value of the ABI.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
	A(H160),
	U(U256),
	B(bool),
	S(Vec<u8>),
	L(Vec<V>),
}
pub fn n(x: impl Into<U256>) -> V {
	V::U(x.into())
}
fn word(v: &V) -> Option<Vec<u8>> {
	match v {
		V::A(a) => {
			let mut w = vec![0; 12];
			w.extend(a.as_bytes());
			Some(w)
		},
		V::U(x) => {
			let mut b = [0u8; 32];
			x.to_big_endian(&mut b);
			Some(b.to_vec())
		},
		V::B(b) => word(&n(*b as u64)),
		_ => None,
	}
}
pub fn enc(vs: &[V]) -> Vec<u8> {
	let mut head = vec![];
	let mut tail = vec![];
	for v in vs {
		match word(v) {
			Some(w) => head.extend(w),
			None => {
				head.extend(word(&n(32 * vs.len() as u64 + tail.len() as u64)).unwrap());
				match v {
					V::S(b) => {
						tail.extend(word(&n(b.len() as u64)).unwrap());
						tail.extend(b);
						tail.resize(tail.len().div_ceil(32) * 32, 0);
					},
					V::L(l) => {
						tail.extend(word(&n(l.len() as u64)).unwrap());
						tail.extend(enc(l));
					},
					_ => unreachable!(),
				}
			},
		}
	}
	head.extend(tail);
	head
}
pub fn sel(sig: &str) -> [u8; 4] {
	sp_io::hashing::keccak_256(sig.as_bytes())[..4].try_into().unwrap()
}
pub fn input(sig: &str, vs: &[V]) -> Vec<u8> {
	let mut b = sel(sig).to_vec();
	b.extend(enc(vs));
	b
}
/// A log as Solidity writes it.
pub fn log(address: H160, sig: &str, topics: &[V], data: &[V]) -> Log {
	let mut t = vec![H256(sp_io::hashing::keccak_256(sig.as_bytes()))];
	t.extend(topics.iter().map(|v| H256::from_slice(&word(v).unwrap())));
	Log { address, topics: t, data: enc(data) }
}
#[derive(Clone, Debug)]
pub struct Out {
	pub reason: ExitReason,
	pub out: Vec<u8>,
	pub logs: Vec<LogRec>,
	pub static_transfers: u32,
	pub used: u64,
}
impl Out {
	pub fn ok(&self) -> bool {
		self.reason.is_succeed()
	}
	pub fn plain(&self) -> Vec<Log> {
		self.logs.iter().map(|l| l.log.clone()).collect()
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
	Call,
	Static,
	/// run in the context of this contract
	Delegate(H160),
}
pub const GAS: u64 = 30_000_000;
/// One call by `from` - as a transaction would make it if `Mode::Call`.
pub fn evm(from: H160, to: H160, data: Vec<u8>, value: U256, mode: Mode) -> Out {
	let ex = Ex::<Runtime>::new();
	let (address, t, st) = match mode {
		Mode::Call => (to, Some(Transfer { source: from, target: to, value }), false),
		Mode::Static => (to, None, true),
		Mode::Delegate(c) => (c, None, false),
	};
	let (reason, out, used) =
		ex.call_inner(to, t, data, GAS, st, Context { address, caller: from, apparent_value: value }, 0);
	Out { reason, out, logs: ex.take_logs(), static_transfers: ex.static_transfers.get(), used }
}
pub fn tx(from: H160, to: H160, sig: &str, vs: &[V]) -> Out {
	evm(from, to, input(sig, vs), U256::zero(), Mode::Call)
}
pub fn view(to: H160, sig: &str, vs: &[V]) -> Result<Vec<u8>, String> {
	let o = evm(h(0xeeee), to, input(sig, vs), U256::zero(), Mode::Static);
	if o.ok() {
		Ok(o.out)
	} else {
		Err(format!("{:?}", o.reason))
	}
}
/// Give the address code (of no meaning) and a behaviour.
pub fn contract(a: H160, f: impl Fn(&mut dyn PrecompileHandle) -> (ExitReason, Vec<u8>) + 'static) {
	EVM::create_account(a, vec![0x60]);
	script(a, Some(Rc::new(f)));
}
pub fn done(out: Vec<u8>) -> (ExitReason, Vec<u8>) {
	(ExitSucceed::Returned.into(), out)
}
pub fn reverted() -> (ExitReason, Vec<u8>) {
	(ExitRevert::Reverted.into(), vec![])
}
/// Runs `f` and undoes all it did to the state.
pub fn peek<R>(f: impl FnOnce() -> R) -> R {
	shim::ext::begin();
	let r = f();
	shim::ext::rollback();
	r
}
pub fn kind<T: std::fmt::Debug>(op: &T) -> String {
	format!("{op:?}").split([' ', '{', '(']).next().unwrap().to_string()
}
pub fn next_block() {
	let b = System::block_number() + 1;
	System::set_block_number(b);
}
