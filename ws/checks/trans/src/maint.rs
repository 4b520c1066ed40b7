//! T03: what governance has stopped stays stopped, by whatever way it is reached.
use crate::doughnut::{bake, DOUGHNUTS};
use crate::people::*;
use crate::xrpl::{pay, proxy, with_token, xt};
use codec::Encode;
use explore::*;
use pallet_evm::Runner as _;
use frame_support::dispatch::GetDispatchInfo;
use rt::{sim::*, *};
use sp_core::U256;
use sp_runtime::traits::{Applyable, Dispatchable};
use sp_runtime::transaction_validity::{TransactionSource::External, TransactionValidity, TransactionValidityError, ValidTransaction};
use std::collections::BTreeSet;
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum Leaf {
	Asset,
	Root,
	Sudo,
	Mode,
}
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum Wrap {
	Bare,
	Proxy,
	Token,
	TokenProxy,
	Batch,
}
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum Env {
	Signed,
	Xrpl,
	/// with a doughnut by the account 0
	Doughnut,
}
const UNBLOCKABLE: [&str; 5] = ["maintenancemode", "sudo", "timestamp", "imonline", "ethbridge"];
const PALLETS: [&str; 15] = [
	"AssetsExt",
	"BALANCES",
	"feeproxy",
	"Futurepass",
	"Xrpl",
	"Doughnut",
	"Utility",
	"EVM",
	"Sudo",
	"MAINTENANCEMODE",
	"Timestamp",
	"imonline",
	"EthBridge",
	"",
	"\u{e9}",
];
const CALLS: [(&str, &str); 11] = [
	("AssetsExt", "transfer"),
	("balances", "TRANSFER"),
	("Futurepass", "proxy_extrinsic"),
	("FeeProxy", "call_with_fee_preferences"),
	("xrpl", "transact"),
	("Doughnut", "Transact"),
	("Utility", "batch"),
	("evm", "call"),
	("Sudo", "sudo"),
	("Balances", ""),
	("", "transfer"),
];
const TARGETS: [u64; 3] = [0x77, 0x78, 1211];
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Op {
	Mode { by: Option<usize>, on: bool },
	Account { by: Option<usize>, who: usize, on: bool },
	Target { by: Option<usize>, to: u64, on: bool },
	Call { by: Option<usize>, i: usize, on: bool },
	Pallet { by: Option<usize>, i: usize, on: bool },
}
#[derive(Clone, Hash, Default)]
pub struct R {
	on: bool,
	accounts: BTreeSet<usize>,
	targets: BTreeSet<u64>,
	calls: BTreeSet<(String, String)>,
	pallets: BTreeSet<String>,
}
impl R {
	fn exempt(c: (&str, &str)) -> bool {
		UNBLOCKABLE.contains(&c.0)
	}
	fn paused(&self, c: (&str, &str)) -> bool {
		!Self::exempt(c) && (self.pallets.contains(c.0) || self.calls.contains(&(c.0.to_string(), c.1.to_string())))
	}
	fn accepts(&self, who: usize, top: (&str, &str)) -> bool {
		Self::exempt(top) || (!self.on && !self.accounts.contains(&who))
	}
}
fn leaf(l: Leaf) -> (RuntimeCall, (&'static str, &'static str)) {
	match l {
		Leaf::Asset => (pay(7), ("assetsext", "transfer")),
		Leaf::Root => (pallet_balances::Call::transfer { dest: at(user(0)), value: 9 }.into(), ("balances", "transfer")),
		Leaf::Sudo => (pallet_sudo::Call::sudo { call: Box::new(pay(7)) }.into(), ("sudo", "sudo")),
		Leaf::Mode => (
			pallet_maintenance_mode::Call::enable_maintenance_mode { enabled: false }.into(),
			("maintenancemode", "enable_maintenance_mode"),
		),
	}
}
fn wrap(w: Wrap, f: u8, l: Leaf) -> (RuntimeCall, Vec<(&'static str, &'static str)>) {
	let (c, n) = leaf(l);
	const P: (&str, &str) = ("futurepass", "proxy_extrinsic");
	const F: (&str, &str) = ("feeproxy", "call_with_fee_preferences");
	match w {
		Wrap::Bare => (c, vec![n]),
		Wrap::Proxy => (proxy(f, c), vec![P, n]),
		Wrap::Token => (with_token(TOKEN, RICH, c), vec![F, n]),
		Wrap::TokenProxy => (with_token(TOKEN, RICH, proxy(f, c)), vec![F, P, n]),
		Wrap::Batch => (pallet_utility::Call::batch { calls: vec![c] }.into(), vec![("utility", "batch"), n]),
	}
}
pub struct NoUnsigned;
impl sp_runtime::traits::ValidateUnsigned for NoUnsigned {
	type Call = RuntimeCall;
	fn validate_unsigned(_: sp_runtime::transaction_validity::TransactionSource, _: &RuntimeCall) -> TransactionValidity {
		Ok(ValidTransaction::default())
	}
	fn pre_dispatch(_: &RuntimeCall) -> Result<(), TransactionValidityError> {
		Ok(())
	}
}
pub fn extra(n: u32, tip: u128) -> SignedExtra {
	(
		frame_system::CheckNonZeroSender::<Runtime>::new(),
		frame_system::CheckSpecVersion::<Runtime>::new(),
		frame_system::CheckTxVersion::<Runtime>::new(),
		frame_system::CheckGenesis::<Runtime>::new(),
		frame_system::CheckEra::<Runtime>::from(sp_runtime::generic::Era::Immortal),
		frame_system::CheckNonce::<Runtime>::from(n),
		frame_system::CheckWeight::<Runtime>::new(),
		pallet_maintenance_mode::MaintenanceChecker::<Runtime>::new(),
		pallet_transaction_payment::ChargeTransactionPayment::<Runtime>::from(tip),
	)
}
/// Is the transaction valid, and taken; both have to be the same.
pub fn send(e: Env2, c: RuntimeCall) -> Result<bool, String> {
	let (v, o) = match e {
		Env2::Signed(who) | Env2::Tip(who, _) => {
			let tip = if let Env2::Tip(_, t) = e { t } else { 0 };
			let x = sp_runtime::generic::CheckedExtrinsic { signed: Some((at(p(who)), extra(nonce(p(who)), tip))), function: c.clone() };
			let (info, len) = (c.get_dispatch_info(), c.encode().len() + 100);
			let v = peek(|| Applyable::validate::<NoUnsigned>(&x, External, &info, len)).is_ok();
			shim::ext::begin();
			let o = x.apply::<NoUnsigned>(&info, len).is_ok();
			if o {
				shim::ext::commit()
			} else {
				shim::ext::rollback()
			}
			(v, o)
		},
		Env2::Raw => {
			let v = peek(|| Executive::validate_transaction(External, xt(c.clone()), Default::default())).is_ok();
			(v, Executive::apply_extrinsic(xt(c)).is_ok())
		},
	};
	req!(v == o, "pool-differs: valid {v}, taken {o}");
	Ok(o)
}
#[derive(Clone, Copy)]
pub enum Env2 {
	Signed(usize),
	Tip(usize, u128),
	Raw,
}
fn check(r: &R) -> Result<u32, String> {
	let mut n = 0;
	let marks = || (bal(XRP, user(0)), bal(ROOT, user(0)));
	for (env, who, f) in
		[(Env::Signed, 0, 1), (Env::Signed, 1, 1), (Env::Xrpl, 0, 1), (Env::Xrpl, 1, 1), (Env::Xrpl, ED, 2), (Env::Doughnut, 1, 1)]
	{
		for w in [Wrap::Bare, Wrap::Proxy, Wrap::Token, Wrap::TokenProxy, Wrap::Batch] {
			// only those with a futurepass have the XRP ledger's transactions go through one
			if env == Env::Xrpl && who == 1 && matches!(w, Wrap::Proxy | Wrap::TokenProxy) {
				continue;
			}
			for l in [Leaf::Asset, Leaf::Root, Leaf::Sudo, Leaf::Mode] {
				if matches!(l, Leaf::Sudo | Leaf::Mode) && w != Wrap::Bare {
					continue;
				}
				n += 1;
				let (c, mut chain) = wrap(w, f, l);
				let accepted = r.accepts(who, chain[0]);
				let now = System::block_number();
				let (e, c) = match env {
					Env::Signed => (Env2::Signed(who), c),
					Env::Xrpl => {
						chain.push(("xrpl", "transact"));
						(Env2::Raw, crate::xrpl::make(who, c, nonce(p(who)), now + 5, 0, crate::xrpl::Twist::None))
					},
					Env::Doughnut => {
						chain.push(("doughnut", "transact"));
						(Env2::Raw, crate::doughnut::make(DOUGHNUTS[0], c, nonce(p(who)), 0, crate::doughnut::Twist::None))
					},
				};
				let works = match l {
					Leaf::Sudo | Leaf::Mode => false,
					_ => env != Env::Doughnut || w != Wrap::Batch,
				};
				let want = accepted && works && !chain.iter().any(|c| r.paused(*c));
				let what = format!("{env:?} {w:?} {l:?} by {who}");
				let (took, did) = peek(|| -> Result<_, String> {
					let m = marks();
					let took = send(e, c)?;
					Ok((took, marks() != m))
				})
				.map_err(|e| format!("{e}: {what}"))?;
				req!(took == accepted, "accepts: {what}: taken {took}, should be {accepted}");
				req!(did == want, "does: {what}: done {did}, should be {want}");
			}
		}
	}
	// the EVM: by the runner, as Ethereum transactions get there
	for who in [0, 1, ED] {
		for to in [0x77, 0x78] {
			for pref in [false, true] {
				n += 1;
				contract(h(to), |_| done(vec![]));
				let data = if pref {
					input("callWithFeePreferences(address,address,bytes)", &[V::A(erc20(TOKEN)), V::A(h(to)), V::S(vec![])])
				} else {
					vec![]
				};
				let target = if pref { 1211 } else { to };
				let want = !r.on && !r.accounts.contains(&who) && !r.targets.contains(&to) && !r.targets.contains(&target);
				let (mut did, h0) = (false, shim::ext::state_hash());
				peek(|| {
					let x = <Runtime as pallet_evm::Config>::Runner::call(
						p(who),
						h(target),
						data.clone(),
						U256::from(DROP),
						50_000,
						Some(U256::from(30 * DROP)),
						None,
						None,
						vec![],
						true,
						true,
						None,
						None,
						<Runtime as pallet_evm::Config>::config(),
					);
					did = x.map_or(false, |i| i.exit_reason.is_succeed());
					// a failed one is undone by those who ask the runner
					if !did {
						return;
					}
				});
				req!(h0 == shim::ext::state_hash(), "peek");
				req!(did == want, "evm: {who} calls {to:x}, by preferences {pref}: done {did}, should be {want}");
				n += 1;
				let call: RuntimeCall = pallet_evm::Call::call {
					source: p(who),
					target: h(target),
					input: data,
					value: U256::from(DROP),
					gas_limit: 50_000,
					max_fee_per_gas: U256::from(30 * DROP),
					max_priority_fee_per_gas: None,
					nonce: None,
					access_list: vec![],
				}
				.into();
				let chain = ("evm", "call");
				let accepted = r.accepts(who, chain);
				let m = bal(XRP, h(to));
				let (took, did) = peek(|| send(Env2::Signed(who), call).map(|t| (t, bal(XRP, h(to)) > m)))?;
				req!(took == accepted, "accepts: evm by {who}: taken {took}, should be {accepted}");
				let want = want && accepted && !r.paused(chain);
				req!(did == want, "evm-call: {who} calls {to:x}, by preferences {pref}: done {did}, should be {want}");
			}
		}
		n += 1;
		let did = peek(|| {
			<Runtime as pallet_evm::Config>::Runner::create(
				p(who),
				vec![1],
				U256::zero(),
				50_000,
				Some(U256::from(30 * DROP)),
				None,
				None,
				vec![],
				true,
				true,
				None,
				None,
				<Runtime as pallet_evm::Config>::config(),
			)
			.is_ok()
		});
		let want = !r.on && !r.accounts.contains(&who);
		req!(did == want, "evm-create: by {who}: done {did}, should be {want}");
	}
	Ok(n)
}
pub struct S;
impl Spec for S {
	type R = R;
	type Op = Op;
	fn init(&self, _: usize) -> R {
		world();
		dispatch(root(), pallet_doughnut::Call::update_whitelisted_holders { holder: at(p(1)), add: true }).unwrap();
		let _ = bake(DOUGHNUTS[0]);
		R::default()
	}
	fn ops(&self, r: &R) -> Vec<Op> {
		let mut v = vec![];
		let by = None;
		v.push(Op::Mode { by, on: !r.on });
		v.push(Op::Mode { by: Some(0), on: !r.on });
		for who in [0, 1, ED] {
			v.push(Op::Account { by, who, on: !r.accounts.contains(&who) });
		}
		v.push(Op::Account { by: Some(1), who: 1, on: !r.accounts.contains(&1) });
		for to in TARGETS {
			v.push(Op::Target { by, to, on: !r.targets.contains(&to) });
		}
		v.push(Op::Target { by: Some(0), to: 0x77, on: !r.targets.contains(&0x77) });
		for i in 0..CALLS.len() {
			let (a, b) = CALLS[i];
			let on = !r.calls.contains(&(a.to_lowercase(), b.to_lowercase()));
			v.push(Op::Call { by, i, on });
			if i == 0 {
				v.push(Op::Call { by: Some(0), i, on });
			}
		}
		for i in 0..PALLETS.len() {
			let on = !r.pallets.contains(&PALLETS[i].to_lowercase());
			v.push(Op::Pallet { by, i, on });
			if i == 0 {
				v.push(Op::Pallet { by: Some(0), i, on });
			}
		}
		v
	}
	fn step(&self, r: &mut R, op: &Op) -> Step {
		use pallet_maintenance_mode::Call as M;
		let h0 = shim::ext::state_hash();
		let name = |s: &str| -> frame_support::BoundedVec<u8, _> {
			// one which is no text
			if s == "\u{e9}" { vec![0xff] } else { s.as_bytes().to_vec() }.try_into().unwrap()
		};
		let good = |a: &str| !a.is_empty() && a != "\u{e9}" && !UNBLOCKABLE.contains(&&*a.to_lowercase());
		let mut m = r.clone();
		fn set<T: Ord>(s: &mut BTreeSet<T>, x: T, on: bool) {
			if on {
				s.insert(x);
			} else {
				s.remove(&x);
			}
		}
		let (by, ok, c): (Option<usize>, bool, RuntimeCall) = match op {
			Op::Mode { by, on } => {
				m.on = *on;
				(*by, true, M::enable_maintenance_mode { enabled: *on }.into())
			},
			Op::Account { by, who, on } => {
				set(&mut m.accounts, *who, *on);
				(*by, true, M::block_account { account: at(p(*who)), blocked: *on }.into())
			},
			Op::Target { by, to, on } => {
				set(&mut m.targets, *to, *on);
				(*by, true, M::block_evm_target { target_address: h(*to), blocked: *on }.into())
			},
			Op::Call { by, i, on } => {
				let (a, b) = CALLS[*i];
				set(&mut m.calls, (a.to_lowercase(), b.to_lowercase()), *on);
				(*by, good(a) && !b.is_empty(), M::block_call { pallet_name: name(a), call_name: name(b), blocked: *on }.into())
			},
			Op::Pallet { by, i, on } => {
				let a = PALLETS[*i];
				set(&mut m.pallets, a.to_lowercase(), *on);
				(*by, good(a), M::block_pallet { pallet_name: name(a), blocked: *on }.into())
			},
		};
		let ok = ok && by.is_none();
		let o = c.dispatch(by.map_or(root(), |i| signed(p(i))));
		req!(o.is_ok() == ok, "governs: {op:?}: {o:?}, should be {ok}");
		if ok {
			*r = m;
		} else {
			req!(shim::ext::state_hash() == h0, "refused-but-changed: {op:?}");
		}
		// refused: the same state as before
		let n = if ok { check(r)? } else { 0 };
		Ok(format!("{} {ok} {n}", kind(op)))
	}
	fn canon(&self, r: &R) -> u64 {
		use std::hash::{Hash, Hasher};
		let mut h = std::collections::hash_map::DefaultHasher::new();
		r.hash(&mut h);
		h.finish()
	}
}
pub fn run(ctx: &mut Ctx) {
	ctx.assume("Ethereum transactions reach the EVM's runner; their own validation (pallet-ethereum) is not modelled");
	ctx.note("every state is probed with some 100 transactions: 6 signers and ways of signing, 5 ways of wrapping, EVM calls");
	let t = ctx.thorough();
	ctx.bfs("what governance stops", &S, depth(if t { 3 } else { 2 }));
}
