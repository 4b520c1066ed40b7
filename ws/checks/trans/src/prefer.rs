//! T05: fees paid in tokens: by whom, in what, how much, and nothing else changed.
use crate::maint::{send, Env2};
use crate::people::*;
use crate::xrpl::{bump, fee, pay, proxy};
use codec::Encode;
use explore::*;
use frame_support::dispatch::{GetDispatchInfo, PostDispatchInfo};
use pallet_evm::Runner as _;
use pallet_transaction_payment::OnChargeTransaction;
use rt::{sim::*, *};
use sp_core::{H160, U256};
use sp_runtime::transaction_validity::TransactionValidityError;
type Plain = <Runtime as pallet_fee_proxy::Config>::OnChargeTransaction;
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum Gas {
	Usual,
	/// no more than the base fee
	Bare,
	TooLow,
	/// more than 2^128 drops
	Huge,
	/// more than 2^256 wei
	Over,
	Prio,
	None,
}
impl Gas {
	/// gas limit, most and tip per gas
	fn of(self) -> (u64, U256, Option<U256>) {
		let b = <Runtime as pallet_fee_proxy::Config>::EVMBaseFeeProvider::evm_base_fee_per_gas();
		match self {
			Gas::Usual => (40_000, b * 2, None),
			Gas::Bare => (30_001, b, None),
			Gas::TooLow => (30_000, b.saturating_sub(1.into()), None),
			Gas::Huge => (30_000, U256::one() << 200, None),
			Gas::Over => (u64::MAX, U256::MAX, None),
			Gas::Prio => (30_003, b * 3 + 7, Some(b / 3 + 1)),
			Gas::None => (0, b, Some(1.into())),
		}
	}
	/// what to have ready at least and at most, in drops; none if it cannot be
	fn drops(self) -> Option<(u128, u128)> {
		let b = <Runtime as pallet_fee_proxy::Config>::EVMBaseFeeProvider::evm_base_fee_per_gas();
		let (gas, max, prio) = self.of();
		let least = U256::from(gas).checked_mul(b.checked_add(prio.unwrap_or_default())?)?;
		let most = U256::from(gas).checked_mul(max)?;
		let up = |x: U256| {
			let d = x / U256::from(DROP) + U256::from(!(x % U256::from(DROP)).is_zero() as u8);
			u128::try_from(d).unwrap_or(u128::MAX)
		};
		(least <= most).then_some((up(least), up(most)))
	}
}
use seed_pallet_common::FeeConfig;
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum I {
	Pay,
	Remark,
	Fails,
	Proxy(u8),
	Evm(Gas),
	ProxyEvm(u8, Gas),
	Nested,
	Batch,
}
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum Max {
	Rich,
	Exact,
	Less,
	Zero,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
enum Op {
	Fee { who: usize, pay: Option<(AssetId, Max)>, call: I, tip: u128 },
	/// leave an account with so much
	Leave(usize, AssetId, u128),
	/// leave a futurepass with so much
	LeaveFp(u8, AssetId, u128),
	Base(u128),
	Thin,
}
fn evm_call(source: H160, g: Gas) -> RuntimeCall {
	let (gas_limit, max_fee_per_gas, max_priority_fee_per_gas) = g.of();
	pallet_evm::Call::call {
		source,
		target: user(1),
		input: vec![],
		value: U256::from(5 * DROP),
		gas_limit,
		max_fee_per_gas,
		max_priority_fee_per_gas,
		nonce: None,
		access_list: vec![],
	}
	.into()
}
fn real(i: I, who: usize) -> RuntimeCall {
	match i {
		I::Pay => pay(5),
		I::Remark => frame_system::Call::remark { remark: vec![1; 40] }.into(),
		I::Fails => pay(RICH * 9),
		I::Proxy(f) => proxy(f, pay(11)),
		I::Evm(g) => evm_call(p(who), g),
		I::ProxyEvm(f, g) => proxy(f, evm_call(fp(f as u128), g)),
		I::Nested => crate::xrpl::with_token(TOKEN, RICH, pay(3)),
		I::Batch => pallet_utility::Call::batch { calls: vec![proxy(1, pay(3)), pay(4)] }.into(),
	}
}
fn acts(who: usize, f: u8) -> bool {
	match f {
		1 => who < 2,
		2 => who == ED,
		_ => false,
	}
}
fn pot() -> H160 {
	pallet_tx_fee_pot::Pallet::<Runtime>::account_id().into()
}
fn leave(a: H160, asset: AssetId, n: u128) {
	let have = bal(asset, a);
	if have > n {
		do_it(a, pallet_assets_ext::Call::transfer { asset_id: asset, destination: at(user(0)), amount: have - n, keep_alive: false })
	} else {
		fund(asset, a, n - have);
	}
}
struct Signed(bool);
impl Spec for Signed {
	type R = ();
	type Op = Op;
	fn init(&self, _: usize) {
		world();
	}
	fn ops(&self, _: &()) -> Vec<Op> {
		let mut v = vec![];
		let mut calls = vec![I::Pay, I::Remark, I::Fails, I::Proxy(1), I::Proxy(2), I::Nested, I::Batch];
		let gs = [Gas::Usual, Gas::Bare, Gas::TooLow, Gas::Huge, Gas::Over, Gas::Prio, Gas::None];
		calls.extend(gs.map(I::Evm));
		calls.extend(gs.map(|g| I::ProxyEvm(1, g)));
		let mut pays = vec![None];
		for m in [Max::Rich, Max::Exact, Max::Less, Max::Zero] {
			pays.push(Some((TOKEN, m)));
		}
		pays.extend([JUNK, XRP, ROOT, 77].map(|a| Some((a, Max::Rich))));
		let whos: &[usize] = if self.0 { &[0, 1, 2, ED] } else { &[0, 1, 2] };
		for who in whos {
			for call in &calls {
				for pay in &pays {
					if *call == I::Nested && pay.is_none() {
						continue;
					}
					for tip in if self.0 { &[0u128, 9][..] } else { &[9][..] } {
						v.push(Op::Fee { who: *who, pay: *pay, call: *call, tip: *tip });
					}
				}
			}
		}
		for asset in [XRP, TOKEN] {
			for n in [0, 1, 40_000] {
				v.push(Op::Leave(1, asset, n));
				v.push(Op::LeaveFp(1, asset, n));
			}
		}
		v.push(Op::Base(1));
		v.push(Op::Base(DROP / 3));
		v.push(Op::Thin);
		v
	}
	fn step(&self, _: &mut (), op: &Op) -> Step {
		let (who, pref, i, tip) = match op {
			Op::Leave(i, a, n) => {
				leave(p(*i), *a, *n);
				return Ok("leave".into());
			},
			Op::LeaveFp(i, a, n) => {
				leave(fp(*i as u128), *a, *n);
				return Ok("leave".into());
			},
			Op::Base(v) => {
				dispatch(root(), pallet_fee_control::Call::set_evm_base_fee { value: (*v).into() }).unwrap();
				return Ok("base".into());
			},
			Op::Thin => {
				fund(TOKEN, user(1), RICH / 2);
				do_it(
					user(1),
					pallet_dex::Call::swap_with_exact_supply { amount_in: RICH / 2, amount_out_min: 1, path: vec![TOKEN, XRP], to: None, deadline: None },
				);
				return Ok("thin".into());
			},
			Op::Fee { who, pay, call, tip } => (*who, *pay, *call, *tip),
		};
		let h0 = shim::ext::state_hash();
		let inner = real(i, who);
		let a = p(who);
		let payer = match i {
			I::Proxy(f) | I::ProxyEvm(f, _) if acts(who, f) => fp(f as u128),
			_ => a,
		};
		let build = |max: u128| match pref {
			None => inner.clone(),
			Some((asset, _)) => crate::xrpl::with_token(asset, max, inner.clone()),
		};
		// the limit is encoded in as many bytes whatever it is
		let sized = build(0);
		let (info, len) = (sized.get_dispatch_info(), sized.encode().len() + 100);
		let f = pallet_transaction_payment::Pallet::<Runtime>::compute_fee(len as u32, &info, tip);
		req!(f.abs_diff(fee(&info, len, tip)) <= 1, "fee: {op:?}: {f}");
		req!(
			info.weight.ref_time() >= inner.get_dispatch_info().weight.ref_time(),
			"underweight: {op:?}: less weight than the call within"
		);
		// what has to be there, in drops
		let mut need = f;
		if let I::Evm(g) | I::ProxyEvm(_, g) = i {
			need = need.saturating_add(g.drops().map_or(0, |d| d.1));
		}
		if bal(XRP, payer) < 1 {
			need = need.saturating_add(1);
		}
		let quote = |asset| peek(|| Dex::get_amounts_in(need, &[asset, XRP])).ok().map(|v| v[0]);
		let max = match pref {
			None => 0,
			Some((_, Max::Rich)) => RICH,
			Some((_, Max::Zero)) => 0,
			Some((asset, Max::Exact)) => quote(asset).unwrap_or(5),
			Some((asset, Max::Less)) => quote(asset).unwrap_or(5) - 1,
		};
		let t = build(max);
		let mut did = Err(String::new());
		let mut paid = 0;
		let want = peek(|| {
			bump(a);
			if let Some((asset, _)) = pref {
				let b = bal(asset, payer);
				dispatch(
					signed(payer),
					pallet_dex::Call::swap_with_exact_target {
						amount_out: need,
						amount_in_max: max,
						path: vec![asset, XRP],
						to: None,
						deadline: None,
					},
				)
				.ok()?;
				paid = b - bal(asset, payer);
			}
			let li = <Plain as OnChargeTransaction<Runtime>>::withdraw_fee(&at(payer), &inner, &info, f, tip).ok()?;
			did = match pref {
				Some((XRP, _)) => Err("not a token".into()),
				Some(_) if i == I::Nested => Err("nested".into()),
				_ => dispatch(signed(a), inner.clone()),
			};
			<Plain as OnChargeTransaction<Runtime>>::correct_and_deposit_fee(&at(a), &info, &PostDispatchInfo::default(), f, tip, li).ok()?;
			Some(shim::ext::state_hash())
		});
		if want.is_some() {
			req!(paid <= max, "setup: {op:?}: {paid} of at most {max}");
		}
		let (s0, p0) = (supply(XRP), bal(XRP, pot()));
		let other = [p(0), p(1), p(2), p(ED), fp(1), fp(2)].into_iter().filter(|x| *x != payer).map(|x| (x, bal(TOKEN, x))).collect::<Vec<_>>();
		System::reset_events();
		let took = send(Env2::Tip(who, tip), t).map_err(|e| format!("{e}: {op:?}"))?;
		req!(took == want.is_some(), "taken: {op:?}: {took}, to be taken {} at {f}, needing {need}, for at most {max}", want.is_some());
		if !took {
			req!(shim::ext::state_hash() == h0, "refused-but-changed: {op:?}");
			return Ok(format!("{} refused", kind(&i)));
		}
		frame_system::BlockWeight::<Runtime>::kill();
		req!(Some(shim::ext::state_hash()) == want, "effect: {op:?}: not that of the payer's swap, fee and the call ({did:?})");
		req!(supply(XRP) == s0, "supply: {op:?}");
		if !matches!(i, I::Evm(_) | I::ProxyEvm(..)) {
			req!(bal(XRP, pot()) - p0 == f, "pot: {op:?}: {} of {f}", bal(XRP, pot()) - p0);
		}
		for (x, b) in other {
			req!(bal(TOKEN, x) == b, "others-pay: {op:?}: {x:?}");
		}
		let said = System::events().into_iter().any(|e| {
			matches!(e.event, RuntimeEvent::FeeProxy(pallet_fee_proxy::Event::CallWithFeePreferences { who, payment_asset, max_payment })
				if who == at(a) && Some(payment_asset) == pref.map(|x| x.0) && max_payment == max)
		});
		req!(said == (pref.is_some() && did.is_ok()), "event: {op:?}: {did:?}");
		Ok(format!("{} {}", kind(&i), did.is_ok()))
	}
}
#[derive(Clone, Copy, Debug)]
struct Eth {
	asset: H160,
	old: bool,
	target: H160,
	what: u8,
	twist: u8,
	gas: Gas,
	value: u128,
	xrp: u128,
	/// tokens: rich, exactly enough, one less, none
	tokens: u8,
	base: u128,
}
fn bytes(c: &Eth) -> Vec<u8> {
	let inner = match c.what {
		0 => vec![],
		1 => input("transfer(address,uint256)", &[V::A(user(1)), n(7u64)]),
		_ => vec![1, 2, 3],
	};
	let mut v = if c.old {
		input(
			"callWithFeePreferences(address,uint128,address,bytes)",
			&[V::A(c.asset), n(3u64), V::A(c.target), V::S(inner)],
		)
	} else {
		input("callWithFeePreferences(address,address,bytes)", &[V::A(c.asset), V::A(c.target), V::S(inner)])
	};
	match c.twist {
		1 => v.truncate(3),
		2 => v.clear(),
		3 => v.truncate(4 + 64),
		4 => v[0] ^= 1,
		5 => {
			let n = v.len() - 1;
			v[n.min(if c.old { 4 + 127 } else { 4 + 95 })] = 0xff
		},
		6 => {
			for b in v.iter_mut().skip(if c.old { 4 + 96 } else { 4 + 64 }).take(32) {
				*b = 0xff
			}
		},
		_ => {},
	}
	v
}
fn eth(c: &Eth) -> Result<String, String> {
	const ME: usize = 2;
	let me = p(ME);
	thread_local! { static BASE: shim::ext::State = {
		world();
		shim::ext::snapshot()
	} }
	BASE.with(shim::ext::restore);
	dispatch(root(), pallet_fee_control::Call::set_evm_base_fee { value: c.base.into() }).unwrap();
	contract(h(0x5000), |_| reverted());
	leave(me, XRP, c.xrp);
	let asset = [TOKEN, JUNK, XRP, 77].into_iter().find(|a| erc20(*a) == c.asset);
	let drops = c.gas.drops();
	let quote = asset.and_then(|a| Dex::get_amounts_in(drops?.1, &[a, XRP]).ok()).map(|v| v[0]);
	let tokens = match (c.tokens, quote) {
		(0, _) => RICH,
		(1, Some(q)) if q <= RICH => q,
		(2, Some(q)) if q <= RICH && q > 0 => q - 1,
		_ => 0,
	};
	leave(me, TOKEN, tokens);
	let (gas, max, prio) = c.gas.of();
	let formed = c.twist == 0;
	let data = bytes(c);
	let inner: Vec<u8> = match c.what {
		0 => vec![],
		1 => input("transfer(address,uint256)", &[V::A(user(1)), n(7u64)]),
		_ => vec![1, 2, 3],
	};
	let affordable = formed && quote.is_some_and(|q| bal(asset.unwrap(), me) >= q);
	// the check of Ethereum transactions
	let eth_tx = |gas_limit: U256, action| ethereum_stub::Tx {
		chain_id: 0,
		nonce: 0.into(),
		gas_price: max,
		max_priority_fee_per_gas: prio.unwrap_or_default(),
		max_fee_per_gas: max,
		gas_limit,
		action,
		value: c.value.into(),
		input: data.clone(),
	};
	let to = TransactionAction::Call(h(1211));
	type Answer = Option<Result<(), TransactionValidityError>>;
	let h0 = shim::ext::state_hash();
	let ask = |t, action| -> Answer { ethereum_asset_check(&me, t, action) };
	if let Some(r) = ask(EthereumTransaction::EIP1559(eth_tx(gas.into(), to)), to) {
		req!(r.is_ok() == affordable, "checked: {c:?}: {r:?}, affordable {affordable} at {quote:?}");
		for g in [U256::from(u64::MAX) + 1, (U256::one() << 64) + gas, U256::one() << 130, U256::MAX] {
			let r = ask(EthereumTransaction::EIP1559(eth_tx(g, to)), to).unwrap();
			req!(r.is_err() || max.is_zero(), "checked-gas: {c:?}: a gas limit of {g} is taken");
		}
		for t in [EthereumTransaction::Legacy(eth_tx(gas.into(), to)), EthereumTransaction::EIP2930(eth_tx(gas.into(), to))] {
			req!(ask(t, to).unwrap().is_err(), "checked-kind: {c:?}: not a transaction of EIP1559");
		}
		for other in [TransactionAction::Call(user(1)), TransactionAction::Create] {
			let t = EthereumTransaction::Legacy(eth_tx(gas.into(), other));
			req!(ask(t, other).unwrap().is_ok(), "checked-other: {c:?}: {other:?} has no preferences");
		}
	}
	req!(shim::ext::state_hash() == h0, "checked-but-changed: {c:?}");
	// what is to happen: the swap, then the call itself
	let fin = drops.map(|(least, most)| if most - least == 1 { most } else { least });
	let mut reason = None;
	let mut want = None;
	if let (true, Some(a), Some(q)) = (formed, asset, quote) {
		want = peek(|| {
			dispatch(
				signed(me),
				pallet_dex::Call::swap_with_exact_supply {
					amount_in: q,
					amount_out_min: fin.unwrap(),
					path: vec![a, XRP],
					to: None,
					deadline: None,
				},
			)
			.ok()?;
			let o = pallet_evm::runner::stack::Runner::<Runtime>::call(
				me,
				c.target,
				inner.clone(),
				c.value.into(),
				gas,
				Some(max),
				prio,
				None,
				vec![],
				true,
				true,
				None,
				None,
				<Runtime as pallet_evm::Config>::config(),
			)
			.ok()?;
			reason = Some(o.exit_reason.is_succeed());
			Some(shim::ext::state_hash())
		});
	}
	let s0 = (supply(XRP), supply(TOKEN));
	let o = dispatch(
		signed(me),
		pallet_evm::Call::call {
			source: me,
			target: h(1211),
			input: data.clone(),
			value: c.value.into(),
			gas_limit: gas,
			max_fee_per_gas: max,
			max_priority_fee_per_gas: prio,
			nonce: None,
			access_list: vec![],
		},
	);
	if want.is_none() {
		req!(o.is_err(), "accepted: {c:?}");
		req!(shim::ext::state_hash() == h0, "refused-but-changed: {c:?}: {o:?}");
		return Ok(format!("refused {} {}", formed, c.gas == Gas::Usual));
	}
	req!(affordable, "setup: {c:?}");
	req!(o.is_ok(), "refused: {c:?}: {o:?}");
	req!(Some(shim::ext::state_hash()) == want, "effect: {c:?}: not that of the swap and the call");
	req!((supply(XRP), supply(TOKEN)) == s0, "supply: {c:?}");
	Ok(format!("done {reason:?}"))
}
fn eths(wide: bool) -> Vec<Eth> {
	let mut v = vec![];
	let mut bad = erc20(TOKEN);
	bad.0[0] = 0xcd;
	for asset in [erc20(TOKEN), erc20(JUNK), erc20(XRP), erc20(77), erc721(TOKEN), bad, H160::zero()] {
		for old in [false, true] {
			for twist in 0..7 {
				for gas in [Gas::Usual, Gas::Bare, Gas::TooLow, Gas::Huge, Gas::Over, Gas::Prio, Gas::None] {
					if !wide && (asset != erc20(TOKEN) || twist > 0) && !matches!(gas, Gas::Usual | Gas::Huge) {
						continue;
					}
					for (target, what) in
						[(user(1), 0), (user(1), 2), (erc20(TOKEN), 1), (erc20(TOKEN), 2), (h(0x5000), 0), (h(1211), 0), (h(1211), 1)]
					{
						if twist > 0 && target != user(1) {
							continue;
						}
						for value in [0, 5 * DROP + 3] {
							for xrp in [RICH, 0, 5, 500_000] {
								for tokens in 0..4 {
									for base in [7_500_000_000_000, 1, DROP / 3 + 1] {
										if !wide && base == 1 && xrp == 5 {
											continue;
										}
										v.push(Eth { asset, old, target, what, twist, gas, value, xrp, tokens, base });
									}
								}
							}
						}
					}
				}
			}
		}
	}
	v
}
/// An account has to hold what its EVM transaction can cost, unless tokens are to pay for it.
fn balance(t: &(Option<u64>, U256, Option<U256>, Option<U256>, U256, U256)) -> Result<String, String> {
	use fp_evm::{Account, CheckEvmTransaction, CheckEvmTransactionInput, HandleTxValidation as H};
	let (to, gas_limit, gas_price, max, value, have) = *t;
	let c = CheckEvmTransaction {
		transaction: CheckEvmTransactionInput { to: to.map(h), gas_limit, gas_price, max_fee_per_gas: max, value },
		_m: Default::default(),
	};
	let r = <rt::impls::HandleTxValidation<pallet_evm::Error<Runtime>> as H<pallet_evm::Error<Runtime>>>::with_balance_for(
		&c,
		&Account { nonce: 0.into(), balance: have },
	);
	let plain = <() as H<pallet_evm::Error<Runtime>>>::with_balance_for(&c, &Account { nonce: 0.into(), balance: have });
	let want = to == Some(1211) || plain.is_ok();
	req!(r.is_ok() == want, "balance: {t:?}: {} for {want}", r.is_ok());
	Ok(want.to_string())
}
pub fn run(ctx: &mut Ctx) {
	ctx.assume("what a token swap costs and gives is the exchange's matter (D01 to D04)");
	ctx.note("every transaction's state is compared with that of the swap, the fee and the call made one after another");
	let t = ctx.thorough();
	ctx.bfs("signed extrinsics", &Signed(t), depth(2));
	if t {
		ctx.bfs("longer histories", &Signed(false), depth(3));
	}
	ctx.enumerate("EVM calls", eths(t).into_iter(), eth);
	let mut v = vec![];
	let big = [U256::zero(), U256::one(), U256::from(1000), U256::from(21_001), U256::MAX];
	for to in [None, Some(1211), Some(1210), Some(0x77)] {
		for g in big {
			for price in [None, Some(U256::from(3)), Some(U256::MAX)] {
				for max in [None, Some(U256::zero()), Some(U256::from(5))] {
					for value in big {
						for have in big {
							v.push((to, g, price, max, value, have));
						}
					}
				}
			}
		}
	}
	ctx.enumerate("what an account has to hold", v.into_iter(), balance);
}
