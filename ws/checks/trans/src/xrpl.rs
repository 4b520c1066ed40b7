//! T01: transactions signed as XRP ledger transactions.
use crate::people::*;
use codec::Encode;
use explore::*;
use frame_support::dispatch::{DispatchInfo, GetDispatchInfo, PostDispatchInfo};
use rt::{sim::*, *};
use sha2::Digest;
use shim::secp;
use sp_core::{H160, U256};
use sp_runtime::traits::SignedExtension;
use std::cell::RefCell;
use std::collections::HashMap;
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum C {
	Pay(u128),
	Remark,
	Drain,
	Batch,
	Sudo,
	Evm,
	/// through a futurepass
	Proxy(u8),
	/// paying the fee in a token
	Token(u128),
	TokenProxy(u8),
	BatchProxy,
	Nested,
	/// refused by the call filter
	Filtered,
	/// change of owner of the first futurepass
	Hand,
	/// the same, by the account itself, plainly and paid for in a token
	HandAway,
	TokenHand,
}
pub fn pay(v: u128) -> RuntimeCall {
	pallet_assets_ext::Call::transfer { asset_id: XRP, destination: at(user(0)), amount: v, keep_alive: false }.into()
}
pub fn proxy(f: u8, c: RuntimeCall) -> RuntimeCall {
	pallet_futurepass::Call::proxy_extrinsic { futurepass: at(fp(f as u128)), call: Box::new(c) }.into()
}
pub fn with_token(asset: AssetId, max: u128, c: RuntimeCall) -> RuntimeCall {
	pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: asset, max_payment: max, call: Box::new(c) }.into()
}
pub fn evm_call(source: H160) -> RuntimeCall {
	pallet_evm::Call::call {
		source,
		target: user(1),
		input: vec![],
		value: U256::from(5 * DROP),
		gas_limit: 30_000,
		max_fee_per_gas: U256::from(30_000_000_000_000u64),
		max_priority_fee_per_gas: None,
		nonce: None,
		access_list: vec![],
	}
	.into()
}
fn real(c: C, who: usize) -> RuntimeCall {
	let a = p(who);
	match c {
		C::Pay(v) => pay(v),
		C::Remark => frame_system::Call::remark { remark: vec![7; 9] }.into(),
		C::Drain => pay(bal(XRP, a).saturating_sub(100_000)),
		C::Batch => pallet_utility::Call::batch { calls: vec![pay(3), pay(4)] }.into(),
		C::Sudo => pallet_sudo::Call::sudo { call: Box::new(pay(9)) }.into(),
		C::Evm => evm_call(a),
		C::Proxy(f) => proxy(f, pay(11)),
		C::Token(m) => with_token(TOKEN, m, pay(13)),
		C::TokenProxy(f) => with_token(TOKEN, RICH, proxy(f, pay(17))),
		C::BatchProxy => pallet_utility::Call::batch { calls: vec![proxy(1, pay(19))] }.into(),
		C::Nested => transact(vec![1], vec![2], pay(1)),
		C::Filtered => pallet_proxy::Call::add_proxy { delegate: at(user(1)), proxy_type: rt::impls::ProxyType::Any, delay: 0 }.into(),
		C::HandAway => pallet_futurepass::Call::transfer_futurepass { current_owner: at(a), new_owner: None }.into(),
		C::TokenHand => {
			with_token(TOKEN, RICH, pallet_futurepass::Call::transfer_futurepass { current_owner: at(a), new_owner: None }.into())
		},
		C::Hand => pallet_futurepass::Call::transfer_futurepass { current_owner: at(p(0)), new_owner: Some(at(p(1))) }.into(),
	}
}
pub fn transact(msg: Vec<u8>, sig: Vec<u8>, call: RuntimeCall) -> RuntimeCall {
	pallet_xrpl::Call::transact { encoded_msg: msg.try_into().unwrap(), signature: sig.try_into().unwrap(), call: Box::new(call) }.into()
}
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum Twist {
	None,
	// all fine
	Upper,
	MemoFirst,
	MemoAfter,
	OtherAccountField,
	// none of these is
	OtherSigner,
	OtherCall,
	OtherGenesis,
	/// one byte of what was signed differs
	GenesisAt(u8),
	CallAt(u8),
	LateNonce,
	LateTip,
	LateLife,
	LateCall,
	NoMemo,
	MemoSecond,
	TypeInData,
	EmptyKey,
	ShortKey,
	EdKey,
	BadKey,
	OthersKey,
	CutMessage,
	NoSignature,
	CutSignature,
	NoPrefix,
	OtherDigest,
	Missing(u8),
	Junk,
}
use Twist as T;
const FINE: [T; 5] = [T::None, T::Upper, T::MemoFirst, T::MemoAfter, T::OtherAccountField];
const BAD: [T; 25] = [
	T::OtherSigner,
	T::OtherCall,
	T::OtherGenesis,
	T::LateNonce,
	T::LateTip,
	T::LateLife,
	T::LateCall,
	T::NoMemo,
	T::MemoSecond,
	T::TypeInData,
	T::EmptyKey,
	T::ShortKey,
	T::EdKey,
	T::BadKey,
	T::OthersKey,
	T::CutMessage,
	T::NoSignature,
	T::CutSignature,
	T::NoPrefix,
	T::OtherDigest,
	T::Missing(0),
	T::Missing(2),
	T::Missing(3),
	T::Missing(4),
	T::Junk,
];
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Op {
	/// a transaction by `who`, `nonce` off the account's, valid for `life` blocks from now
	X { who: usize, call: C, nonce: i64, life: i64, tip: u64, twist: Twist },
	Signed { who: usize, call: C },
	Block(u32),
	/// the transaction last applied, again
	Again,
}
fn memo(typ: &[u8], data: &[u8]) -> Vec<u8> {
	let mut v = vec![0xEA];
	field(&mut v, 0x7C, typ);
	field(&mut v, 0x7D, data);
	v.push(0xE1);
	v
}
fn field(v: &mut Vec<u8>, tag: u8, b: &[u8]) {
	v.push(tag);
	let n = b.len();
	if n <= 192 {
		v.push(n as u8)
	} else {
		v.push(193 + ((n - 193) >> 8) as u8);
		v.push((n - 193) as u8);
	}
	v.extend(b)
}
fn message(key: &[u8], account: &[u8; 20], memos: &[Vec<u8>]) -> Vec<u8> {
	let mut v = vec![0x59];
	v.extend([0x16; 32]);
	field(&mut v, 0x73, key);
	field(&mut v, 0x81, account);
	v.push(0xF9);
	memos.iter().for_each(|m| v.extend(m));
	v.push(0xF1);
	v
}
fn der(rs: &[u8]) -> Vec<u8> {
	let int = |b: &[u8]| {
		let mut x: Vec<u8> = b.iter().copied().skip_while(|y| *y == 0).collect();
		if x.is_empty() || x[0] & 0x80 != 0 {
			x.insert(0, 0);
		}
		let mut o = vec![2, x.len() as u8];
		o.extend(x);
		o
	};
	let (r, s) = (int(&rs[..32]), int(&rs[32..64]));
	let mut o = vec![0x30, (r.len() + s.len()) as u8];
	o.extend(r);
	o.extend(s);
	o
}
pub fn half(b: &[u8]) -> [u8; 32] {
	sha2::Sha512::digest(b)[..32].try_into().unwrap()
}
fn sign(who: usize, m: &[u8]) -> Vec<u8> {
	thread_local! { static SEEN: RefCell<HashMap<(usize, Vec<u8>), Vec<u8>>> = Default::default(); }
	let k = (who, m.to_vec());
	if let Some(s) = SEEN.with(|x| x.borrow().get(&k).cloned()) {
		return s;
	}
	let s = if who == ED {
		use sp_core::Pair;
		sp_core::ed25519::Pair::from_seed(&secret(who)).sign(m).0.to_vec()
	} else {
		der(&secp::sign(&secret(who), &half(m)))
	};
	SEEN.with(|x| x.borrow_mut().insert(k, s.clone()));
	s
}
fn text(genesis: &[u8], nonce: u32, until: u32, tip: u64, call: &RuntimeCall) -> String {
	format!("{}:{nonce}:{until}:{tip}:{}", hex::encode(genesis), hex::encode(sp_core::hashing::blake2_256(&call.encode())))
}
/// A transaction as a wallet makes it, with a twist.
pub fn make(who: usize, call: RuntimeCall, nonce: u32, until: u32, tip: u64, twist: Twist) -> RuntimeCall {
	let gen = System::block_hash(0);
	let mut genesis = gen.0.to_vec();
	if twist == T::OtherGenesis {
		genesis[31] ^= 1;
	}
	if let T::GenesisAt(i) = twist {
		genesis[i as usize] ^= 1;
	}
	let other: RuntimeCall = frame_system::Call::remark { remark: vec![8] }.into();
	let signed_call = if twist == T::OtherCall { other.clone() } else { call.clone() };
	let t = text(&genesis, nonce, until, tip, &signed_call);
	let t = match twist {
		T::CallAt(i) => {
			// two digits of the hash at the end
			let mut b = t.into_bytes();
			let at = b.len() - 64 + 2 * i as usize;
			b[at] = if b[at] == b'0' { b'1' } else { b'0' };
			String::from_utf8(b).unwrap()
		},
		_ => t,
	};
	let typ: &[u8] = if twist == T::Upper { b"EXTrinsic" } else { b"extrinsic" };
	let t = if twist == T::Upper {
		let (a, b) = t.split_once(':').unwrap();
		format!("{}:{}", a.to_uppercase(), b)
	} else {
		t
	};
	let m = memo(typ, t.as_bytes());
	let decoy = memo(b"extrinsic", text(&genesis, nonce, until, tip, &other).as_bytes());
	let mut memos = vec![m];
	match twist {
		T::NoMemo => memos.clear(),
		T::MemoFirst => memos.insert(0, memo(b"note", b"hello")),
		T::MemoAfter => memos.push(decoy),
		T::MemoSecond => memos.insert(0, decoy),
		T::TypeInData => memos = vec![memo(t.as_bytes(), b"extrinsic")],
		T::Missing(i) => {
			let parts: Vec<&str> = t.split(':').enumerate().filter(|x| x.0 != i as usize).map(|x| x.1).collect();
			memos = vec![memo(typ, parts.join(":").as_bytes())];
		},
		T::Junk => memos = vec![memo(typ, &[0xff, 0xfe, b':', b'1'])],
		_ => {},
	}
	let k = match twist {
		T::EmptyKey => vec![],
		T::ShortKey => vec![key(who)[0]],
		T::EdKey => vec![0xED],
		T::BadKey => {
			let mut k = key(who);
			k[0] = 4;
			k
		},
		T::OthersKey => key(if who == ED { ED } else { (who + 1) % ED }),
		_ => key(who),
	};
	let address: [u8; 20] = if twist == T::OtherAccountField { [9; 20] } else { p(who).0 };
	let mut msg = message(&k, &address, &memos);
	if twist == T::OthersKey && who == ED {
		// a key nobody has signed with
		let at = msg.windows(2).position(|w| w == [0x73, 33]).unwrap();
		let mut x = secret(0);
		use sp_core::Pair;
		x[0] = 1;
		msg[at + 3..at + 35].copy_from_slice(&sp_core::ed25519::Pair::from_seed(&x).public().0);
	}
	// what is signed
	let was = match twist {
		T::OthersKey => message(&key(who), &address, &memos),
		T::LateNonce => message(&k, &address, &[memo(typ, text(&genesis, nonce.wrapping_sub(1), until, tip, &call).as_bytes())]),
		T::LateTip => message(&k, &address, &[memo(typ, text(&genesis, nonce, until, tip + 1, &call).as_bytes())]),
		T::LateLife => message(&k, &address, &[memo(typ, text(&genesis, nonce, until + 1, tip, &call).as_bytes())]),
		T::LateCall => message(&k, &address, &[memo(typ, text(&genesis, nonce, until, tip, &other).as_bytes())]),
		_ => msg.clone(),
	};
	let mut full = if twist == T::NoPrefix { vec![] } else { b"STX\0".to_vec() };
	full.extend(&was);
	let mut sig = match twist {
		T::OtherSigner => sign(if who == ED { ED } else { (who + 1) % ED }, &if who == ED { vec![1] } else { full.clone() }),
		T::OtherDigest if who == ED => sign(who, &half(&full)),
		T::OtherDigest => der(&secp::sign(&secret(who), &keccak(&full))),
		_ => sign(who, &full),
	};
	match twist {
		T::CutMessage => {
			msg.pop();
			msg.pop();
			msg.pop();
		},
		T::NoSignature => sig.clear(),
		T::CutSignature => {
			sig.pop();
		},
		_ => {},
	}
	transact(msg, sig, call)
}
pub fn xt(c: RuntimeCall) -> UncheckedExtrinsic {
	UncheckedExtrinsic::new_unsigned(c)
}
pub fn len_of(c: &RuntimeCall) -> usize {
	xt(c.clone()).encode().len()
}
/// Fee of a transaction: by its size and weight, and the tip
pub fn fee(info: &DispatchInfo, len: usize, tip: u128) -> u128 {
	let d = pallet_fee_control::Data::<Runtime>::get();
	let w = d.weight_multiplier.deconstruct() as u128 * info.weight.ref_time() as u128;
	d.length_multiplier * len as u128 + (w + 500_000_000) / 1_000_000_000 + tip
}
pub fn through_fp(c: &RuntimeCall) -> Option<H160> {
	match c {
		RuntimeCall::Futurepass(pallet_futurepass::Call::proxy_extrinsic { futurepass, .. }) => Some((*futurepass).into()),
		RuntimeCall::FeeProxy(pallet_fee_proxy::Call::call_with_fee_preferences { call, .. })
			if !matches!(**call, RuntimeCall::FeeProxy(_)) =>
		{
			through_fp(call)
		},
		_ => None,
	}
}
/// Charge `payer` for a transaction that dispatches `f`; the fee as the payer's wallet expects it.
pub fn charged(payer: H160, call: &RuntimeCall, info: &DispatchInfo, len: usize, tip: u128, f: impl FnOnce()) -> bool {
	type Ch = pallet_transaction_payment::ChargeTransactionPayment<Runtime>;
	let Ok(pre) = Ch::from(tip).pre_dispatch(&at(payer), call, info, len) else { return false };
	f();
	Ch::post_dispatch(Some(pre), info, &PostDispatchInfo::default(), len, &Ok(())).is_ok()
}
pub fn bump(a: H160) {
	frame_system::Account::<Runtime>::mutate(at(a), |x| x.nonce += 1);
}
pub struct S {
	/// 0: well-formed transactions, 1: malformed ones as well
	pub bad: bool,
	pub wide: bool,
}
#[derive(Clone, Hash)]
pub struct R {
	last: Option<Vec<u8>>,
}
fn events() -> Vec<RuntimeEvent> {
	System::events().into_iter().map(|e| e.event).collect()
}
impl Spec for S {
	type R = R;
	type Op = Op;
	fn init(&self, _: usize) -> R {
		world();
		R { last: None }
	}
	fn ops(&self, r: &R) -> Vec<Op> {
		let mut v = vec![];
		let x = |who, call| Op::X { who, call, nonce: 0, life: 2, tip: 0, twist: T::None };
		let calls = [
			C::Pay(5),
			C::Pay(RICH * 3),
			C::Remark,
			C::Drain,
			C::Batch,
			C::Sudo,
			C::Evm,
			C::Proxy(1),
			C::Proxy(2),
			C::Token(RICH),
			C::Token(1),
			C::TokenProxy(1),
			C::TokenProxy(2),
			C::HandAway,
			C::TokenHand,
			C::BatchProxy,
			C::Nested,
			C::Filtered,
		];
		let whos: &[usize] = if self.wide { &[0, 1, 2, ED] } else { &[0, 1, ED] };
		for who in whos {
			for c in calls {
				v.push(x(*who, c));
			}
			if self.bad {
				for twist in FINE.into_iter().chain(BAD).chain((0..32).flat_map(|i| [T::GenesisAt(i), T::CallAt(i)])) {
					for call in [C::Pay(5), C::Proxy(1)] {
						v.push(Op::X { who: *who, call, nonce: 0, life: 2, tip: 3, twist });
					}
				}
			}
			for (nonce, life, tip) in [(-1, 2, 0), (1, 2, 0), (2, 2, 0), (0, -1, 0), (0, 0, 1), (0, 1, 500), (0, 2, u64::MAX)] {
				for call in [C::Pay(5), C::Proxy(1)] {
					v.push(Op::X { who: *who, call, nonce, life, tip, twist: T::None });
				}
			}
		}
		v.push(Op::Signed { who: 0, call: C::Hand });
		v.push(Op::Signed { who: 0, call: C::Pay(1) });
		v.push(Op::Block(1));
		v.push(Op::Block(3));
		if r.last.is_some() {
			v.push(Op::Again);
		}
		v
	}
	fn step(&self, r: &mut R, op: &Op) -> Step {
		let h0 = shim::ext::state_hash();
		let now = System::block_number();
		match op {
			Op::Block(n) => {
				System::set_block_number(now + n);
				Ok("block".into())
			},
			Op::Signed { who, call } => {
				bump(p(*who));
				let o = dispatch(signed(p(*who)), real(*call, *who));
				Ok(format!("signed {call:?} {}", o.is_ok()))
			},
			Op::Again => {
				let t: RuntimeCall = codec::Decode::decode(&mut &r.last.clone().unwrap()[..]).unwrap();
				let v = Executive::validate_transaction(sp_runtime::transaction_validity::TransactionSource::External, xt(t.clone()), Default::default());
				req!(v.is_err(), "replay-taken: the pool takes a transaction a second time");
				let o = Executive::apply_extrinsic(xt(t));
				req!(o.is_err(), "replay-applied: a transaction applied twice: {o:?}");
				req!(shim::ext::state_hash() == h0, "refused-but-changed: replay");
				Ok("again".into())
			},
			Op::X { who, call, nonce: off, life, tip, twist } => {
				let a = p(*who);
				let n = nonce(a) as i64 + off;
				if n < 0 || now as i64 + life < 0 {
					return Ok("n/a".into());
				}
				let inner = real(*call, *who);
				let t = make(*who, inner.clone(), n as u32, (now as i64 + life) as u32, *tip, *twist);
				let (info, len) = (t.get_dispatch_info(), len_of(&t));
				let under = inner.get_dispatch_info().weight.ref_time();
				req!(info.weight.ref_time() >= under, "underweight: {op:?}: less weight than the call within");
				let proxy = through_fp(&inner).is_some();
				let payer = if proxy { own_fp(a) } else { Some(a) };
				let well = FINE.contains(twist) && *life >= 0 && *call != C::Nested && payer.is_some();
				// what is to happen
				let mut did = Err(String::new());
				let want = peek(|| {
					let payer = payer?;
					bump(a);
					let ok = charged(payer, &inner, &info, len, *tip as u128, || did = dispatch(signed(a), inner.clone()));
					ok.then(shim::ext::state_hash)
				});
				let payable = want.is_some();
				let valid = peek(|| Executive::validate_transaction(sp_runtime::transaction_validity::TransactionSource::External, xt(t.clone()), Default::default()));
				req!(
					valid.is_ok() == (well && payable && *off >= 0),
					"pool: {op:?} as expected? well-formed {well}, payable {payable}, pool says {valid:?}"
				);
				req!(shim::ext::state_hash() == h0, "validate-changed: {op:?}");
				if let Ok(v) = valid {
					req!(v.provides == vec![(at(a), n as u32).encode()], "provides: {op:?}: {:?}", v.provides);
					let need = if *off > 0 { vec![(at(a), n as u32 - 1).encode()] } else { vec![] };
					req!(v.requires == need, "requires: {op:?}: {:?}", v.requires);
				}
				let (x0, f0) = (payer.map(|y| bal(XRP, y)), payer);
				let pot = at(pallet_tx_fee_pot::Pallet::<Runtime>::account_id().into());
				let (p0, s0) = (bal(XRP, pot.into()), supply(XRP));
				System::reset_events();
				let o = Executive::apply_extrinsic(xt(t.clone()));
				if !(well && payable && *off == 0) {
					req!(o.is_err(), "accepted: {op:?} (well-formed {well}, payable {payable}): {o:?}");
					req!(shim::ext::state_hash() == h0, "refused-but-changed: {op:?}");
					return Ok(format!("{call:?} {twist:?} refused"));
				}
				// the weight a block has left is none of this
				frame_system::BlockWeight::<Runtime>::kill();
				let Ok(res) = o else { return Err(format!("refused: {op:?}: {o:?}")) };
				req!(res.is_ok() == did.is_ok(), "outcome: {op:?}: {res:?}, the call by its account: {did:?}");
				req!(Some(shim::ext::state_hash()) == want, "effect: {op:?}: not that of the account's call, its fee and nonce ({res:?})");
				// the EVM counts its transactions as well
				req!(nonce(a) as i64 == n + 1 + i64::from(*call == C::Evm && res.is_ok()), "nonce: {op:?}");
				req!(supply(XRP) == s0, "supply: {op:?}: {} then {s0}", supply(XRP));
				let took = bal(XRP, pot.into()) - p0;
				let f = fee(&info, len, *tip as u128);
				if *call != C::Evm {
					req!(took.abs_diff(f) <= 1, "fee: {op:?}: the pot got {took}, of {f}");
					if res.is_err() && !matches!(call, C::Token(_) | C::TokenProxy(_) | C::TokenHand) {
						req!(x0.unwrap() - bal(XRP, f0.unwrap()) == took, "fee-payer: {op:?}: {f0:?} does not pay");
					}
				}
				let said = events().into_iter().any(
					|e| matches!(e, RuntimeEvent::Xrpl(pallet_xrpl::Event::XRPLExtrinsicExecuted { caller, call: c, .. }) if caller == at(a) && c == inner),
				);
				req!(said == res.is_ok(), "event: {op:?}");
				r.last = Some(t.encode());
				Ok(format!("{call:?} {twist:?} {}", if res.is_ok() { "done" } else { "failed" }))
			},
		}
	}
	fn canon(&self, r: &R) -> u64 {
		use std::hash::{Hash, Hasher};
		let mut h = std::collections::hash_map::DefaultHasher::new();
		r.hash(&mut h);
		h.finish()
	}
}
pub fn run(ctx: &mut Ctx) {
	ctx.assume("accounts of 20 bytes are taken from keys as keccak-256 of the public key, whatever its type");
	ctx.note("secp256k1 and ed25519 signatures are made and verified for real; the XRP ledger's binary format by hand");
	let t = ctx.thorough();
	ctx.bfs("sequences of transactions", &S { bad: false, wide: t }, depth(if t { 3 } else { 2 }));
	ctx.bfs("malformed transactions", &S { bad: true, wide: true }, depth(if t { 2 } else { 1 }));
}
