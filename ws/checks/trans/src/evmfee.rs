//! T04: what EVM transactions cost, and whom.
use crate::people::*;
use explore::*;
use frame_support::traits::Currency;
use pallet_evm::FeeCalculator;
use seed_pallet_common::FeeConfig;
use pallet_evm::Runner as _;
use rt::{sim::*, *};
use sp_core::{H160, U256};
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum To {
	/// an account without code
	Plain,
	/// an account that does not exist
	New,
	/// a contract that reverts
	Revert,
	/// a precompile's view
	View,
	/// a token's transfer by precompile
	Token,
}
#[derive(Clone, Copy, Debug)]
enum Purse {
	Rich,
	/// all that it can cost at most, and so much more
	Just(i64),
}
#[derive(Clone, Copy, Debug)]
struct Case {
	base: u128,
	max: Option<U256>,
	prio: Option<u128>,
	gas: u64,
	value: u128,
	to: To,
	purse: Purse,
	author: bool,
}
fn up(x: U256) -> U256 {
	x / U256::from(DROP) + U256::from(!(x % U256::from(DROP)).is_zero() as u8)
}
type Run = <Runtime as pallet_evm::Config>::Runner;
fn pot() -> H160 {
	pallet_tx_fee_pot::Pallet::<Runtime>::account_id().into()
}
const ME: usize = 2;
fn setup() {
	thread_local! { static BASE: shim::ext::State = {
		world();
		pallet_session::Validators::<Runtime>::put(vec![at(user(7))]);
		shim::ext::snapshot()
	} }
	BASE.with(shim::ext::restore)
}
fn run_one(c: Case) -> Result<String, String> {
	let me = p(ME);
	dispatch(root(), pallet_fee_control::Call::set_evm_base_fee { value: c.base.into() }).unwrap();
	if c.author {
		fund(XRP, user(7), 5);
	}
	let (to, data) = match c.to {
		To::Plain => (user(1), vec![]),
		To::New => (h(0x9999_9999), vec![]),
		To::Revert => (h(0x5000), vec![]),
		To::View => (erc20(TOKEN), input("totalSupply()", &[])),
		To::Token => (erc20(TOKEN), input("transfer(address,uint256)", &[V::A(user(1)), n(7u64)])),
	};
	if c.to == To::Revert {
		contract(to, |_| reverted());
	}
	let base = U256::from(c.base);
	let price = match (c.max, c.prio) {
		(Some(m), Some(p)) => m.min(base + U256::from(p)),
		(Some(m), None) => m,
		_ => base,
	};
	let hold = price.saturating_mul(c.gas.into());
	let most = c.max.unwrap_or_default().saturating_mul(c.gas.into()).max(hold).saturating_add(c.value.into());
	if let Purse::Just(d) = c.purse {
		let want = (up(most).min(U256::from(RICH / 2)).low_u128() as i64 + d).max(0) as u128;
		let have = bal(XRP, me);
		if have > want {
			dispatch(
				signed(me),
				pallet_assets_ext::Call::transfer { asset_id: XRP, destination: at(user(0)), amount: have - want, keep_alive: false },
			)
			.unwrap();
		}
	}
	let b0 = bal(XRP, me);
	let basic = EVM::account_basic(&me).0.balance;
	req!(basic == U256::from(b0) * U256::from(DROP), "shown: the EVM shows {basic} to an account of {b0} drops");
	let (pot0, fees0) = (bal(XRP, pot()), pallet_tx_fee_pot::Pallet::<Runtime>::era_pot_balance());
	let (t0, a0, s0, tok0, n0) = (bal(XRP, to), bal(XRP, user(7)), supply(XRP), bal(TOKEN, user(1)), nonce(me));
	let h0 = shim::ext::state_hash();
	let r = Run::call(
		me,
		to,
		data,
		c.value.into(),
		c.gas,
		c.max,
		c.prio.map(Into::into),
		None,
		vec![],
		true,
		true,
		None,
		None,
		<Runtime as pallet_evm::Config>::config(),
	);
	let can = price >= base && most <= U256::from(b0) * U256::from(DROP);
	let Ok(info) = r else {
		req!(!can, "refused: {c:?}: with {b0} drops, needs {most} wei at {price}");
		req!(shim::ext::state_hash() == h0, "refused-but-changed: {c:?}");
		return Ok("refused".into());
	};
	req!(can, "accepted: {c:?}: with {b0} drops, needs {most} wei at {price}");
	let used = info.used_gas.effective;
	let moved = if info.exit_reason.is_succeed() { up(c.value.into()).low_u128() } else { 0 };
	req!(bal(XRP, to) - t0 == moved, "value: {c:?}: {} moved, not {moved}", bal(XRP, to) - t0);
	req!(nonce(me) == n0 + 1, "nonce: {c:?}");
	let token = bal(TOKEN, user(1)) - tok0;
	req!(token == if c.to == To::Token && info.exit_reason.is_succeed() { 7 } else { 0 }, "effect: {c:?}: {token}");
	let paid = U256::from(b0 - bal(XRP, me) - moved);
	let cost = price * used;
	let bottom = cost / U256::from(DROP);
	req!(paid >= bottom && paid <= bottom + 1, "price: {c:?}: paid {paid} drops for {cost} wei");
	req!(paid <= up(hold), "price-max: {c:?}: paid {paid}");
	let got = U256::from(bal(XRP, pot()) - pot0);
	let floor = base * used / U256::from(DROP);
	req!(got <= paid && (got == paid || (got >= floor && got <= floor + 1)), "pot: {c:?}: got {got} of {paid}; base fee {floor}");
	let noted = U256::from(pallet_tx_fee_pot::Pallet::<Runtime>::era_pot_balance() - fees0);
	req!(noted == got, "noted: {c:?}: {noted} noted, {got} paid in");
	let tip = U256::from(bal(XRP, user(7)) - a0);
	req!(tip == paid - got, "tip: {c:?}: the author got {tip} of {}", paid - got);
	let burnt = U256::from(s0 - supply(XRP));
	req!(burnt.is_zero(), "supply: {c:?}: {burnt} burnt");
	Ok(format!("{:?} {}", c.to, info.exit_reason.is_succeed()))
}
fn cases(wide: bool) -> Vec<Case> {
	let mut v = vec![];
	let bases: &[u128] = if wide {
		&[0, 1, DROP - 1, DROP, DROP + 1, 15_000_000_000_000, 7_500_000_000_007, 33 * DROP + DROP / 2]
	} else {
		&[0, 1, DROP, 7_500_000_000_007]
	};
	let values: &[u128] = if wide { &[0, 1, DROP - 1, DROP, DROP + 1, 5 * DROP + 3, u128::MAX] } else { &[0, 1, 5 * DROP + 3] };
	let gases: &[u64] = if wide { &[0, 1, 20_999, 21_000, 21_001, 26_001, 100_000, 1_000_000] } else { &[1, 21_000, 100_000] };
	for base in bases {
		let prios = [None, Some(0), Some(1), Some(DROP / 2), Some(3 * DROP)];
		for prio in prios {
			let mut maxes: Vec<Option<U256>> = vec![None];
			let b = U256::from(*base);
			for m in [b.saturating_sub(1.into()), b, b + 1, b + prio.unwrap_or(0), b * 2 + prio.unwrap_or(9), U256::MAX / 1_000_000, U256::from(3) << 130] {
				if !maxes.contains(&Some(m)) {
					maxes.push(Some(m));
				}
			}
			for max in maxes {
				for gas in gases {
					for value in values {
						for to in [To::Plain, To::New, To::Revert, To::View, To::Token] {
							if !wide && to == To::View && *value > 0 {
								continue;
							}
							for (purse, author) in
								[(Purse::Rich, true), (Purse::Rich, false), (Purse::Just(0), true), (Purse::Just(-1), true), (Purse::Just(1), false)]
							{
								if !wide && author == matches!(to, To::Plain | To::Revert) && matches!(purse, Purse::Rich) {
									continue;
								}
								v.push(Case { base: *base, max, prio, gas: *gas, value: *value, to, purse, author });
							}
						}
					}
				}
			}
		}
	}
	v
}
type Xrp = <Runtime as pallet_evm::Config>::Currency;
/// The currency of the EVM counts in wei and moves whole drops, never fewer than asked for.
fn currency(held: u128, v: u128, op: u8) -> Result<String, String> {
	use frame_support::traits::{tokens::WithdrawReasons, ExistenceRequirement::AllowDeath};
	let (a, b) = (p(0), user(1));
	let have = bal(XRP, a);
	if held < have {
		fund(XRP, user(0), 1);
		dispatch(signed(a), pallet_assets_ext::Call::transfer { asset_id: XRP, destination: at(user(0)), amount: have - held, keep_alive: false }).unwrap();
	} else {
		fund(XRP, a, held - have);
	}
	let drops = up(v.into()).low_u128();
	let (a0, b0, s0) = (bal(XRP, a), bal(XRP, b), supply(XRP));
	req!(a0 == held, "setup: {a0} {held}");
	let h0 = shim::ext::state_hash();
	let ok = match op {
		0 => {
			let r = call(|| Xrp::transfer(&at(a), &at(b), v, AllowDeath)).is_ok();
			req!(r == (drops <= held), "transfer: of {v} wei by one of {held} drops: {r}");
			if r {
				req!(bal(XRP, a) == a0 - drops && bal(XRP, b) == b0 + drops && supply(XRP) == s0, "transfer-moved: {v} wei, {held}");
			}
			r
		},
		1 => {
			let r = Xrp::withdraw(&at(a), v, WithdrawReasons::FEE, AllowDeath);
			let ok = r.is_ok();
			req!(ok == (drops <= held), "withdraw: of {v} wei by one of {held} drops: {ok}");
			drop(r);
			if ok {
				req!(bal(XRP, a) == a0 - drops && supply(XRP) == s0 - drops, "withdrawn: {v} wei, {held}");
			}
			ok
		},
		2 => {
			drop(Xrp::deposit_creating(&at(b), v));
			req!(bal(XRP, b) == b0 + drops && supply(XRP) == s0 + drops, "deposited: {v} wei");
			true
		},
		_ => {
			let ok = Xrp::deposit_into_existing(&at(a), v).is_ok();
			if held > 0 {
				req!(ok, "deposit refused: {v} wei, {held}");
			}
			if ok {
				req!(bal(XRP, a) == a0 + drops && supply(XRP) == s0 + drops, "deposited-existing: {v} wei");
			}
			ok
		},
	};
	if !ok {
		req!(shim::ext::state_hash() == h0, "refused-but-changed: {op} of {v} wei by one of {held}");
	}
	Ok(format!("{op} {ok}"))
}
/// Fees are set by root alone, and are what was set
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
enum Set {
	Base(Option<usize>, u128),
	Weight(Option<usize>, u32),
	Length(Option<usize>, u128),
}
struct Control;
impl Spec for Control {
	type R = (u128, u32, u128);
	type Op = Set;
	fn init(&self, _: usize) -> Self::R {
		world();
		let d = pallet_fee_control::Data::<Runtime>::get();
		(d.evm_base_fee_per_gas.low_u128(), d.weight_multiplier.deconstruct(), d.length_multiplier)
	}
	fn ops(&self, _: &Self::R) -> Vec<Set> {
		let mut v = vec![];
		for by in [None, Some(0), Some(1)] {
			v.extend([0, 1, 9 * DROP].map(|x| Set::Base(by, x)));
			v.extend([0, 1, 125, 1_000_000_000].map(|x| Set::Weight(by, x)));
			v.extend([0, 350, 7777].map(|x| Set::Length(by, x)));
		}
		v
	}
	fn step(&self, r: &mut Self::R, op: &Set) -> Step {
		let h0 = shim::ext::state_hash();
		let o = |by: &Option<usize>| by.map_or(root(), |i| signed(p(i)));
		System::reset_events();
		let (by, done) = match op {
			Set::Base(by, x) => (by, dispatch(o(by), pallet_fee_control::Call::set_evm_base_fee { value: (*x).into() })),
			Set::Weight(by, x) => (by, dispatch(o(by), pallet_fee_control::Call::set_weight_multiplier { value: sp_runtime::Perbill::from_parts(*x) })),
			Set::Length(by, x) => (by, dispatch(o(by), pallet_fee_control::Call::set_length_multiplier { value: *x })),
		};
		req!(done.is_ok() == by.is_none(), "authority: {op:?}: {done:?}");
		if done.is_err() {
			req!(shim::ext::state_hash() == h0, "refused-but-changed: {op:?}");
		} else {
			match op {
				Set::Base(_, x) => r.0 = *x,
				Set::Weight(_, x) => r.1 = *x,
				Set::Length(_, x) => r.2 = *x,
			}
		}
		let shown = <Runtime as pallet_evm::Config>::FeeCalculator::min_gas_price().0;
		req!(shown == U256::from(r.0), "base-fee: {shown} charged, {} set", r.0);
		let used = <Runtime as pallet_fee_proxy::Config>::EVMBaseFeeProvider::evm_base_fee_per_gas();
		req!(used == U256::from(r.0), "base-fee-proxy: {used} used, {} set", r.0);
		// a transfer by signed extrinsic, and what it costs
		let c: RuntimeCall = crate::xrpl::pay(5);
		let what = peek(|| -> Step {
			let (b0, t0) = (bal(XRP, p(1)), bal(XRP, pot()));
			// as 'send' measures it
			let len = codec::Encode::encode(&c).len() + 100;
			let info = frame_support::dispatch::GetDispatchInfo::get_dispatch_info(&c);
			let f = crate::xrpl::fee(&info, len, 0);
			let took = crate::maint::send(crate::maint::Env2::Signed(1), c.clone())?;
			req!(took == (f <= RICH), "payable: {f} at {r:?}: {took}");
			if took {
				let paid = b0 - bal(XRP, p(1));
				let got = bal(XRP, pot()) - t0;
				req!(got.abs_diff(f) <= 1, "fee: {got} at {r:?}, should be {f}");
				// the transfer itself may be one too many
				req!(paid == got + 5 || paid == got, "fee-paid: {paid}, {got}");
			}
			Ok(String::new())
		});
		what?;
		Ok(format!("{} {}", done.is_ok(), by.is_none()))
	}
}
pub fn run(ctx: &mut Ctx) {
	ctx.assume("gas and the order of charging, calling and refunding are those of the stack runner of frontier, without an interpreter");
	ctx.note("every case starts anew from the runtime's genesis with a set base fee, author, purse and target");
	let t = ctx.thorough();
	ctx.enumerate("EVM calls", cases(t).into_iter(), |c: &Case| {
		setup();
		run_one(*c)
	});
	let mut v = vec![];
	for held in [0, 1, 2, 999, RICH, 1 << 70] {
		for w in [0, 1, DROP - 1, DROP, DROP + 1, 2 * DROP, 2 * DROP + 1, 999 * DROP, RICH * DROP - 1, RICH * DROP, RICH * DROP + 1, 1 << 110, u128::MAX] {
			for op in 0..4 {
				v.push((held, w, op));
			}
		}
	}
	ctx.enumerate("the EVM's currency", v.into_iter(), |(a, b, c)| {
		setup();
		currency(*a, *b, *c)
	});
	ctx.bfs("fee settings", &Control, depth(if t { 4 } else { 2 }));
}
