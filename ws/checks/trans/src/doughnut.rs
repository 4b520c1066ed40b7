//! T02: transactions under a doughnut: what the issuer allowed, to whom, for how long, at whose cost.
use crate::people::*;
use crate::xrpl::{bump, charged, fee, len_of, pay, proxy, with_token, xt};
use codec::Encode;
use doughnut_rs::{
	doughnut::{
		topping::{method::Method, module::Module},
		Doughnut, DoughnutV0, DoughnutV1,
	},
	pact::{
		types::{Numeric, PactType, StringLike},
		Clause, Op as Cmp,
	},
	Topping,
};
use explore::*;
use frame_support::dispatch::GetDispatchInfo;
use rt::{sim::*, *};
use shim::secp;
use sp_core::H256;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
pub const BIG: u128 = 1 << 70;
const TRICK: u128 = (1 << 64) + 50;
/// What the issuer allows
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub enum Top {
	Anything,
	/// assets: XRP, to user 0, at most 100
	Assets,
	/// transfers of ROOT of at most 100, kept alive or not
	Root,
	/// remarks and futurepasses for the holder
	Little,
	/// the whole of the EVM, utility and sudo modules, and of those which carry other calls
	Odd,
	/// a domain of some other chain
	Elsewhere,
	Junk,
}
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct D {
	pub iss: usize,
	pub hol: usize,
	pub holder_pays: bool,
	pub from: u32,
	pub until: u32,
	pub top: Top,
	pub eip191: bool,
}
const fn d(iss: usize, hol: usize, holder_pays: bool, top: Top) -> D {
	D { iss, hol, holder_pays, from: 0, until: 1000, top, eip191: false }
}
pub const DOUGHNUTS: [D; 12] = [
	d(0, 1, false, Top::Anything),
	d(0, 1, true, Top::Anything),
	d(0, 1, false, Top::Assets),
	d(0, 1, true, Top::Root),
	d(0, 2, false, Top::Little),
	d(1, 2, false, Top::Anything),
	d(2, 0, true, Top::Anything),
	D { from: 3, until: 5, eip191: true, ..d(0, 1, false, Top::Anything) },
	D { until: 2, ..d(1, 0, false, Top::Assets) },
	d(0, 1, false, Top::Odd),
	d(0, 1, false, Top::Elsewhere),
	d(0, 1, false, Top::Junk),
];
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum C {
	Pay(u128),
	Root(u128),
	Keep(u128),
	Elsewhere,
	Remark,
	Create(usize),
	Proxy(u8),
	ProxyRemark,
	Token(u128),
	TokenProxy(u8),
	Deep,
	Batch,
	Evm,
	Sudo,
	Nested,
	Dex,
}
use C::*;
const CALLS: [C; 20] = [
	Pay(50),
	Pay(101),
	Pay(TRICK),
	Root(50),
	Root(TRICK),
	Keep(60),
	Keep(TRICK),
	Elsewhere,
	Remark,
	Create(2),
	Create(1),
	Proxy(1),
	ProxyRemark,
	Token(RICH),
	TokenProxy(1),
	Deep,
	Batch,
	Evm,
	Sudo,
	Dex,
];
fn real(c: C) -> RuntimeCall {
	let remark: RuntimeCall = frame_system::Call::remark { remark: vec![7; 9] }.into();
	match c {
		Pay(v) => pay(v),
		Root(value) => pallet_balances::Call::transfer { dest: at(user(1)), value }.into(),
		Keep(value) => pallet_balances::Call::transfer_keep_alive { dest: at(user(1)), value }.into(),
		Elsewhere => {
			pallet_assets_ext::Call::transfer { asset_id: XRP, destination: at(user(1)), amount: 7, keep_alive: false }.into()
		},
		Remark => remark,
		Create(i) => pallet_futurepass::Call::create { account: at(p(i)) }.into(),
		Proxy(f) => proxy(f, pay(11)),
		ProxyRemark => proxy(1, remark),
		Token(m) => with_token(TOKEN, m, pay(13)),
		TokenProxy(f) => with_token(TOKEN, RICH, proxy(f, pay(17))),
		Deep => proxy(1, with_token(TOKEN, RICH, pay(19))),
		Batch => pallet_utility::Call::batch { calls: vec![pay(3)] }.into(),
		Evm => crate::xrpl::evm_call(p(0)),
		Sudo => pallet_sudo::Call::sudo { call: Box::new(pay(9)) }.into(),
		Nested => crate::xrpl::transact(vec![1], vec![2], pay(1)),
		Dex => pallet_dex::Call::add_liquidity {
			token_a: TOKEN,
			token_b: XRP,
			amount_a_desired: 2000,
			amount_b_desired: 1000,
			amount_a_min: 1,
			amount_b_min: 1,
			to: None,
			deadline: None,
		}
		.into(),
	}
}
/// Whether a doughnut with these permissions is good for a call
fn permits(t: Top, c: C, hol: usize) -> bool {
	// what counts is the call in the end, and of those only some can be allowed at all
	enum K {
		Assets { user0: bool, v: u128 },
		Root(u128),
		Remark,
		Create(usize),
		No,
	}
	let k = match c {
		Pay(v) => K::Assets { user0: true, v },
		Elsewhere => K::Assets { user0: false, v: 7 },
		Proxy(_) => K::Assets { user0: true, v: 11 },
		Token(_) => K::Assets { user0: true, v: 13 },
		TokenProxy(_) => K::Assets { user0: true, v: 17 },
		Root(v) | Keep(v) => K::Root(v),
		Remark | ProxyRemark => K::Remark,
		Create(i) => K::Create(i),
		_ => K::No,
	};
	match (t, k) {
		(_, K::No) | (Top::Elsewhere | Top::Junk, _) => false,
		(Top::Odd, k) => matches!(k, K::Create(_)),
		(Top::Anything, _) => true,
		(Top::Assets, K::Assets { user0, v }) => user0 && v <= 100,
		(Top::Root, K::Root(v)) => v <= 100,
		(Top::Little, K::Remark) => true,
		(Top::Little, K::Create(i)) => i == hol,
		_ => false,
	}
}
fn topping(t: Top, hol: usize) -> Vec<u8> {
	let method = |name: &str, c: Option<Vec<Clause>>| Method { name: name.into(), block_cooldown: None, constraints: c.map(|c| c.encode()) };
	let module = |name: &str, methods| Module { name: name.into(), block_cooldown: None, methods };
	let num = |arg, op, v| Clause { arg, op, value: PactType::Numeric(Numeric(v)) };
	let who = |arg, b: [u8; 20]| Clause { arg, op: Cmp::Eq, value: PactType::StringLike(StringLike(b.to_vec())) };
	let modules = match t {
		Top::Anything | Top::Elsewhere => vec![module("*", vec![method("*", None)])],
		Top::Assets => vec![module(
			"AssetsExt",
			vec![method("transfer", Some(vec![num(0, Cmp::Eq, XRP as u64), who(1, user(0).0), num(2, Cmp::Lte, 100), num(3, Cmp::Eq, 0)]))],
		)],
		Top::Root => vec![module(
			"Balances",
			["transfer", "transfer_keep_alive"].map(|m| method(m, Some(vec![who(0, user(1).0), num(1, Cmp::Lte, 100)]))).to_vec(),
		)],
		Top::Little => vec![
			module("System", vec![method("remark", None)]),
			module("Futurepass", vec![method("create", Some(vec![who(0, p(hol).0)]))]),
		],
		Top::Odd => ["EVM", "Utility", "Sudo", "FeeProxy", "Futurepass", "Xrpl", "Doughnut", "Dex"].map(|m| module(m, vec![method("*", None)])).to_vec(),
		Top::Junk => return vec![0xff; 3],
	};
	Topping { modules }.encode()
}
fn raw(i: usize) -> [u8; 33] {
	key(i).try_into().unwrap()
}
fn sign(who: usize, v: u8, m: &[u8]) -> [u8; 65] {
	thread_local! { static SEEN: RefCell<HashMap<(usize, [u8; 32]), [u8; 65]>> = Default::default(); }
	let h = match v {
		2 => keccak(m),
		_ => {
			let mut x = format!("\x19Ethereum Signed Message:\n{}", m.len()).into_bytes();
			x.extend(m);
			keccak(&x)
		},
	};
	if let Some(s) = SEEN.with(|x| x.borrow().get(&(who, h)).copied()) {
		return s;
	}
	let s = secp::sign(&secret(who), &h);
	SEEN.with(|x| x.borrow_mut().insert((who, h), s));
	s
}
pub fn unsigned(x: D) -> DoughnutV1 {
	let domain = if x.top == Top::Elsewhere { "cennznet" } else { "trn" };
	DoughnutV1 {
		issuer: raw(x.iss),
		holder: raw(x.hol),
		fee_mode: x.holder_pays as u8,
		toppings: vec![("other".into(), vec![1]), (domain.into(), topping(x.top, x.hol))],
		expiry: x.until,
		not_before: x.from,
		payload_version: 0,
		signature_version: if x.eip191 { 3 } else { 2 },
		signature: [0; 65],
	}
}
pub fn bake(x: D) -> Vec<u8> {
	let mut y = unsigned(x);
	y.signature = sign(x.iss, y.signature_version, &y.payload());
	Doughnut::V1(y).encode()
}
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum Twist {
	None,
	// of the transaction
	OtherSigner,
	IssuerSigned,
	LateNonce,
	LateTip,
	LateCall,
	LateDoughnut,
	OtherGenesis,
	/// this byte of it
	GenesisAt(u8),
	PlainSignature,
	NoSignature,
	// of the doughnut
	HolderIssued,
	LongerLife,
	OtherTopping,
	OtherPayer,
	OtherHolder,
	Trailing,
	Cut,
	V0,
	OtherScheme,
	NotSigned,
	NoKey,
}
use Twist as T;
const TWISTS: [T; 20] = [
	T::OtherSigner,
	T::IssuerSigned,
	T::LateNonce,
	T::LateTip,
	T::LateCall,
	T::LateDoughnut,
	T::OtherGenesis,
	T::PlainSignature,
	T::NoSignature,
	T::HolderIssued,
	T::LongerLife,
	T::OtherTopping,
	T::OtherPayer,
	T::OtherHolder,
	T::Trailing,
	T::Cut,
	T::V0,
	T::OtherScheme,
	T::NotSigned,
	T::NoKey,
];
fn outer(call: &RuntimeCall, doughnut: Vec<u8>, nonce: u32, genesis: H256, tip: u64, sig: Vec<u8>) -> pallet_doughnut::Call<Runtime> {
	pallet_doughnut::Call::transact { call: Box::new(call.clone()), doughnut, nonce, genesis_hash: genesis, tip, signature: sig }
}
pub fn make(x: D, call: RuntimeCall, nonce: u32, tip: u64, twist: T) -> RuntimeCall {
	let mut y = unsigned(x);
	let mut iss = x.iss;
	match twist {
		T::HolderIssued => iss = x.hol,
		T::OtherScheme => y.signature_version = 1,
		_ => {},
	}
	y.signature = sign(iss, y.signature_version, &y.payload());
	match twist {
		T::LongerLife => y.expiry += 1,
		T::OtherTopping => y.toppings[1].1 = topping(Top::Anything, x.hol),
		T::OtherPayer => y.fee_mode ^= 1,
		T::OtherHolder => y.holder = raw((x.hol + 1) % 3),
		T::NotSigned => y.signature = [0; 65],
		T::NoKey => y.issuer = [0; 33],
		_ => {},
	}
	let mut doughnut = Doughnut::V1(y).encode();
	match twist {
		T::Trailing => doughnut.push(0),
		T::Cut => {
			doughnut.pop();
		},
		T::V0 => {
			doughnut = Doughnut::V0(DoughnutV0 {
				issuer: [1; 32],
				holder: [2; 32],
				toppings: vec![("trn".into(), topping(Top::Anything, 0))],
				expiry: 1000,
				not_before: 0,
				payload_version: 0,
				signature_version: 2,
				signature: Default::default(),
			})
			.encode()
		},
		_ => {},
	}
	let mut genesis = System::block_hash(0);
	if twist == T::OtherGenesis {
		genesis.0[3] ^= 1;
	}
	if let T::GenesisAt(i) = twist {
		genesis.0[i as usize] ^= 1;
	}
	let other: RuntimeCall = frame_system::Call::remark { remark: vec![8] }.into();
	let signed = match twist {
		T::LateNonce => outer(&call, doughnut.clone(), nonce.wrapping_sub(1), genesis, tip, vec![]),
		T::LateTip => outer(&call, doughnut.clone(), nonce, genesis, tip + 1, vec![]),
		T::LateCall => outer(&other, doughnut.clone(), nonce, genesis, tip, vec![]),
		T::LateDoughnut => outer(&call, bake(D { until: x.until + 1, ..x }), nonce, genesis, tip, vec![]),
		_ => outer(&call, doughnut.clone(), nonce, genesis, tip, vec![]),
	};
	let signer = match twist {
		T::OtherSigner => (0..3).find(|i| *i != x.iss && *i != x.hol).unwrap(),
		T::IssuerSigned => x.iss,
		T::OtherHolder => (x.hol + 1) % 3,
		_ => x.hol,
	};
	let sig = match twist {
		T::NoSignature => vec![],
		T::PlainSignature => sign(signer, 2, &signed.encode()).to_vec(),
		_ => sign(signer, 3, &signed.encode()).to_vec(),
	};
	outer(&call, doughnut, nonce, genesis, tip, sig).into()
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Op {
	X { d: usize, call: C, nonce: i64, tip: u64, twist: Twist },
	Again,
	Block(u32),
	Revoke { by: usize, d: usize, on: bool },
	RevokeHolder { by: usize, hol: usize, on: bool },
	/// by whom: governance (none) or an account
	Allow { by: Option<usize>, hol: usize, on: bool },
	/// straight to the pallet
	Direct { by: usize, d: usize },
}
#[derive(Clone, Hash, Default)]
pub struct R {
	last: Option<Vec<u8>>,
	doughnuts: BTreeSet<D>,
	holders: BTreeSet<(usize, usize)>,
	allowed: BTreeSet<usize>,
}
pub struct S {
	pub mode: u8,
}
impl Spec for S {
	type R = R;
	type Op = Op;
	fn init(&self, _: usize) -> R {
		world();
		for a in [p(0), fp(1)] {
			fund(XRP, a, BIG);
			fund(ROOT, a, BIG);
		}
		let mut r = R::default();
		for i in if self.mode == 2 { vec![] } else { vec![0, 1, 2] } {
			dispatch(root(), pallet_doughnut::Call::update_whitelisted_holders { holder: at(p(i)), add: true }).unwrap();
			r.allowed.insert(i);
		}
		r
	}
	fn ops(&self, r: &R) -> Vec<Op> {
		let mut v = vec![];
		let x = |d, call| Op::X { d, call, nonce: 0, tip: 0, twist: T::None };
		for d in 0..DOUGHNUTS.len() {
			match self.mode {
				// every doughnut with every call
				0 => {
					CALLS.iter().for_each(|c| v.push(x(d, *c)));
					v.push(x(d, Nested));
					for t in TWISTS.into_iter().chain((0..if d == 0 { 32 } else { 0 }).map(T::GenesisAt)) {
						for call in [Pay(50), Proxy(1)] {
							v.push(Op::X { d, call, nonce: 0, tip: 2, twist: t });
						}
					}
					for (nonce, tip) in [(-1, 0), (1, 0), (2, 5), (0, 500), (0, u64::MAX)] {
						for call in [Pay(50), Proxy(1)] {
							v.push(Op::X { d, call, nonce, tip, twist: T::None });
						}
					}
				},
				// histories
				_ => {
					for c in [Pay(50), Root(TRICK), Proxy(1), Batch] {
						v.push(x(d, c));
					}
				},
			}
		}
		if self.mode > 0 {
			for b in [1, 2] {
				v.push(Op::Block(b));
			}
			for (by, d) in [(0, 0), (0, 1), (1, 0), (1, 5), (0, 7)] {
				v.push(Op::Revoke { by, d, on: true });
			}
			v.push(Op::Revoke { by: 0, d: 0, on: false });
			v.push(Op::Revoke { by: 1, d: 0, on: false });
			for (by, hol, on) in [(0, 1, true), (0, 1, false), (1, 2, true), (2, 1, true), (0, 2, true), (1, 1, false)] {
				v.push(Op::RevokeHolder { by, hol, on });
			}
			for (by, hol, on) in [(None, 1, true), (None, 1, false), (None, 2, true), (None, 0, true), (Some(1), 1, true), (Some(0), 1, false)] {
				v.push(Op::Allow { by, hol, on });
			}
			v.push(Op::Direct { by: 1, d: 0 });
			if r.last.is_some() {
				v.push(Op::Again);
			}
		}
		v
	}
	fn step(&self, r: &mut R, op: &Op) -> Step {
		use sp_runtime::transaction_validity::TransactionSource::External;
		let h0 = shim::ext::state_hash();
		let now = System::block_number();
		let refused = |o: Result<(), String>, want: bool| -> Step {
			req!(o.is_ok() == want, "who-may: {op:?}: {o:?}");
			req!(o.is_ok() || shim::ext::state_hash() == h0, "refused-but-changed: {op:?}");
			Ok(format!("{} {want}", kind(op)))
		};
		match op {
			Op::Block(n) => {
				System::set_block_number(now + n);
				Ok("block".into())
			},
			Op::Revoke { by, d, on } => {
				let x = DOUGHNUTS[*d];
				let o = dispatch(signed(p(*by)), pallet_doughnut::Call::revoke_doughnut { doughnut: bake(x), revoke: *on });
				if o.is_ok() {
					if *on {
						r.doughnuts.insert(x);
					} else {
						r.doughnuts.remove(&x);
					}
				}
				refused(o, *by == x.iss)
			},
			Op::RevokeHolder { by, hol, on } => {
				let o = dispatch(signed(p(*by)), pallet_doughnut::Call::revoke_holder { holder: at(p(*hol)), revoke: *on });
				if *on {
					r.holders.insert((*by, *hol));
				} else {
					r.holders.remove(&(*by, *hol));
				}
				refused(o, true)
			},
			Op::Allow { by, hol, on } => {
				let origin = by.map_or(root(), |i| signed(p(i)));
				let o = dispatch(origin, pallet_doughnut::Call::update_whitelisted_holders { holder: at(p(*hol)), add: *on });
				if by.is_none() {
					if *on {
						r.allowed.insert(*hol);
					} else {
						r.allowed.remove(hol);
					}
				}
				refused(o, by.is_none())
			},
			Op::Direct { by, d } => {
				let x = DOUGHNUTS[*d];
				let t = make(x, real(Pay(50)), nonce(p(x.hol)), 0, T::None);
				refused(dispatch(signed(p(*by)), t), false)
			},
			Op::Again => {
				let t: RuntimeCall = codec::Decode::decode(&mut &r.last.clone().unwrap()[..]).unwrap();
				let v = Executive::validate_transaction(External, xt(t.clone()), Default::default());
				req!(v.is_err(), "replay-taken: the pool takes a transaction a second time");
				let o = Executive::apply_extrinsic(xt(t));
				req!(o.is_err(), "replay-applied: a transaction applied twice: {o:?}");
				req!(shim::ext::state_hash() == h0, "refused-but-changed: replay");
				Ok("again".into())
			},
			Op::X { d, call, nonce: off, tip, twist } => {
				let x = DOUGHNUTS[*d];
				let (iss, hol) = (p(x.iss), p(x.hol));
				let n = nonce(hol) as i64 + off;
				if n < 0 {
					return Ok("n/a".into());
				}
				let inner = real(*call);
				let t = make(x, inner.clone(), n as u32, *tip, *twist);
				let (info, len) = (t.get_dispatch_info(), len_of(&t));
				let under = inner.get_dispatch_info().weight.ref_time();
				req!(info.weight.ref_time() >= under, "underweight: {op:?}: less weight than the call within");
				let payer = if x.holder_pays { hol } else { iss };
				let proxied = matches!(call, Proxy(_) | ProxyRemark | TokenProxy(_) | Deep);
				let payer = if proxied { own_fp(payer) } else { Some(payer) };
				let revoked = r.doughnuts.contains(&x) || r.holders.contains(&(x.iss, x.hol));
				// the same permissions over again are no change
				let twisted = *twist != T::None && !(*twist == T::OtherTopping && matches!(x.top, Top::Anything | Top::Elsewhere));
				let well = !twisted && x.from <= now && now < x.until && !revoked && payer.is_some();
				let permitted = r.allowed.contains(&x.hol) && permits(x.top, *call, x.hol);
				let want = peek(|| {
					let payer = payer?;
					bump(hol);
					let ok = charged(payer, &inner, &info, len, *tip as u128, || {
						if permitted {
							let _ = dispatch(signed(iss), inner.clone());
						}
					});
					ok.then(shim::ext::state_hash)
				});
				let payable = want.is_some();
				let valid = peek(|| Executive::validate_transaction(External, xt(t.clone()), Default::default()));
				req!(
					valid.is_ok() == (well && payable && *off >= 0),
					"pool: {op:?} as expected? well-formed {well}, payable {payable}, pool says {valid:?}"
				);
				req!(shim::ext::state_hash() == h0, "validate-changed: {op:?}");
				if let Ok(v) = valid {
					req!(v.provides == vec![(hol, n as u32).encode()], "provides: {op:?}: {:?}", v.provides);
					let need = if *off > 0 { vec![(hol, n as u32 - 1).encode()] } else { vec![] };
					req!(v.requires == need, "requires: {op:?}: {:?}", v.requires);
				}
				let pot = pallet_tx_fee_pot::Pallet::<Runtime>::account_id();
				let (x0, p0, s0) = (payer.map(|y| bal(XRP, y)), bal(XRP, pot.into()), supply(XRP));
				System::reset_events();
				let o = Executive::apply_extrinsic(xt(t.clone()));
				if !(well && payable && *off == 0) {
					req!(o.is_err(), "accepted: {op:?} (well-formed {well}, payable {payable}): {o:?}");
					req!(shim::ext::state_hash() == h0, "refused-but-changed: {op:?}");
					return Ok(format!("{:?} {call:?} {twist:?} refused", x.top));
				}
				frame_system::BlockWeight::<Runtime>::kill();
				let Ok(res) = o else { return Err(format!("refused: {op:?}: {o:?}")) };
				req!(res.is_ok() == permitted, "permitted: {op:?}: {res:?}, permitted {permitted}");
				req!(Some(shim::ext::state_hash()) == want, "effect: {op:?}: not that of the issuer's call, the fee and the nonce ({res:?})");
				req!(nonce(hol) as i64 == n + 1, "nonce: {op:?}");
				req!(supply(XRP) == s0, "supply: {op:?}: {} then {s0}", supply(XRP));
				let (took, f) = (bal(XRP, pot.into()) - p0, fee(&info, len, *tip as u128));
				req!(took.abs_diff(f) <= 1, "fee: {op:?}: the pot got {took}, of {f}");
				if !permitted && !matches!(call, Token(_) | TokenProxy(_)) {
					req!(x0.unwrap() - bal(XRP, payer.unwrap()) == took, "fee-payer: {op:?}: {payer:?} does not pay");
				}
				let said = System::events().into_iter().any(
					|e| matches!(e.event, RuntimeEvent::Doughnut(pallet_doughnut::Event::DoughnutCallExecuted { call: c, .. }) if c == inner),
				);
				req!(said == permitted, "event: {op:?}");
				r.last = Some(t.encode());
				Ok(format!("{:?} {call:?} {twist:?} {}", x.top, if res.is_ok() { "done" } else { "not permitted" }))
			},
		}
	}
	fn canon(&self, r: &R) -> u64 {
		use std::hash::{Hash, Hasher};
		let mut h = std::collections::hash_map::DefaultHasher::new();
		r.hash(&mut h);
		h.finish()
	}
}
pub fn run(ctx: &mut Ctx) {
	ctx.assume("doughnut-rs is a stand-in: signed fields, validity and permissions as documented; its byte layout is SCALE");
	ctx.note("secp256k1 signatures are made and verified for real");
	let q = |a, b| if ctx.thorough() { b } else { a };
	let (a, b) = (q(1, 2), q(2, 3));
	ctx.bfs("every doughnut, call and malformation", &S { mode: 0 }, depth(a));
	ctx.bfs("histories of revocation and use", &S { mode: 1 }, depth(b));
	ctx.bfs("histories from no holder allowed", &S { mode: 2 }, depth(b));
}
