//! R06: what the runtime's interfaces answer to a node's clients is what the chain would do.
use explore::*;
use rt::{api::*, sim::*, *};
use seed_pallet_common::NFTExt;
use sp_application_crypto::ByteArray;
use sp_core::{H160, H256, U256};
const A: AssetId = 100;
#[derive(Clone, Debug, Hash)]
pub enum Op {
	Give { token: u32, to: usize },
	Burn { token: u32 },
	Mint { to: usize, count: u32 },
	Uri(u8),
	Swap { path: u8, amount: u128 },
	Remove { share: u128 },
	Halt(bool),
	Send { asset: AssetId, from: usize, to: usize, all: bool, keep: bool },
	Offer { who: usize, asset: AssetId },
	Notaries { keys: u8, mask: u16, id: u64 },
	Nonce { who: usize },
	Gas(u64),
	Code { at: u64, slot: u64, value: u64 },
}
#[derive(Clone, Debug, Hash)]
pub struct W {
	coll: u32,
	sft: u32,
	uri: [String; 2],
	keys: Vec<u8>,
	door: Vec<u8>,
	id: u64,
	nonces: [u32; 3],
	gas: Option<u64>,
	code: Option<(u64, u64, u64)>,
}
fn key(i: u8) -> EthBridgeId {
	let mut b = [2; 33];
	b[1..].copy_from_slice(&[i + 1; 32]);
	EthBridgeId::from_slice(&b).unwrap()
}
fn path(i: u8) -> Vec<AssetId> {
	match i {
		0 => vec![A, XRP],
		1 => vec![XRP, A],
		2 => vec![ROOT, A, XRP],
		3 => vec![XRP, A, ROOT],
		4 => vec![ROOT, XRP],
		5 => vec![A],
		6 => vec![],
		_ => vec![A, XRP, A],
	}
}
pub struct S {
	pub part: u8,
}
fn send(asset: AssetId, from: H160, to: H160, amount: u128, keep_alive: bool) -> Result<(), String> {
	dispatch(signed(from), pallet_assets_ext::Call::transfer { asset_id: asset, destination: at(to), amount, keep_alive })
}
fn held(w: &W, who: usize) -> Vec<u32> {
	(0..20).filter(|i| Nft::get_token_owner(&(w.coll, *i)) == Some(acc(who))).collect()
}
impl Spec for S {
	type R = W;
	type Op = Op;
	fn init(&self, _: usize) -> W {
		genesis(3, 1_000_000);
		let c = pallet_assets_ext::Call::create_asset {
			name: b"A".to_vec(),
			symbol: b"A".to_vec(),
			decimals: 6,
			min_balance: Some(7),
			owner: None,
		};
		dispatch(signed(user(0)), c).unwrap();
		for i in 0..3 {
			fund(A, user(i), 900_000);
		}
		for (x, y) in [(A, XRP), (ROOT, A)] {
			let c = pallet_dex::Call::add_liquidity {
				token_a: x,
				token_b: y,
				amount_a_desired: 30_000,
				amount_b_desired: 70_000,
				amount_a_min: 1,
				amount_b_min: 1,
				to: None,
				deadline: None,
			};
			dispatch(signed(user(0)), c).unwrap();
		}
		let scheme = |s: &str| seed_primitives::MetadataScheme::try_from(s.as_bytes()).unwrap();
		let c = pallet_nft::Call::create_collection {
			name: b"n".to_vec().try_into().unwrap(),
			initial_issuance: 5,
			max_issuance: None,
			token_owner: None,
			metadata_scheme: scheme("https://n/"),
			royalties_schedule: None,
			cross_chain_compatibility: Default::default(),
		};
		dispatch(signed(user(0)), c).unwrap();
		let coll = pallet_nft::CollectionInfo::<Runtime>::iter().next().unwrap().0;
		let c = pallet_sft::Call::create_collection {
			collection_name: b"s".to_vec().try_into().unwrap(),
			collection_owner: None,
			metadata_scheme: scheme("https://s/"),
			royalties_schedule: None,
		};
		dispatch(signed(user(0)), c).unwrap();
		let sft = pallet_sft::SftCollectionInfo::<Runtime>::iter().next().unwrap().0;
		W {
			coll,
			sft,
			uri: ["https://n/".into(), "https://s/".into()],
			keys: vec![],
			door: vec![],
			id: 0,
			nonces: [0; 3],
			gas: None,
			code: None,
		}
	}
	fn ops(&self, _: &W) -> Vec<Op> {
		let mut r = vec![];
		match self.part {
			0 => {
				for token in [0, 2, 4] {
					for to in 0..3 {
						r.push(Op::Give { token, to });
					}
					r.push(Op::Burn { token });
				}
				for to in 0..2 {
					r.push(Op::Mint { to, count: 2 });
				}
				r.extend([0, 1, 2].map(Op::Uri));
			},
			1 => {
				for p in 0..4 {
					for amount in [1, 999, 50_000] {
						r.push(Op::Swap { path: p, amount });
					}
				}
				for share in [1000, 44_825, 45_825] {
					r.push(Op::Remove { share });
				}
				r.extend([true, false].map(Op::Halt));
			},
			2 => {
				for asset in [ROOT, XRP, A] {
					for (from, to) in [(0, 1), (1, 2), (2, 2)] {
						for all in [false, true] {
							for keep in [false, true] {
								r.push(Op::Send { asset, from, to, all, keep });
							}
						}
					}
					r.push(Op::Offer { who: 1, asset });
				}
				r.push(Op::Nonce { who: 1 });
			},
			_ => {
				for keys in [0, 1, 2, 5, 10] {
					for mask in [0, 1, 0b10110, 0x3ff, 0x3fe] {
						r.push(Op::Notaries { keys, mask, id: 3 + mask as u64 });
					}
				}
				for who in 0..3 {
					r.push(Op::Nonce { who });
				}
				r.extend([0, 1, 15_000_000_000_000, u64::MAX].map(Op::Gas));
				for (at, slot, value) in [(1, 0, 7), (2, 1, 8), (2, u64::MAX, 9)] {
					r.push(Op::Code { at, slot, value });
				}
			},
		}
		r
	}
	fn step(&self, w: &mut W, op: &Op) -> Step {
		let ok = match op {
			Op::Give { token, to } => {
				let from = Nft::get_token_owner(&(w.coll, *token)).unwrap_or(acc(0));
				let c = pallet_nft::Call::transfer {
					collection_id: w.coll,
					serial_numbers: vec![*token].try_into().unwrap(),
					new_owner: acc(*to),
				};
				dispatch(RuntimeOrigin::signed(from), c)
			},
			Op::Burn { token } => {
				let from = Nft::get_token_owner(&(w.coll, *token)).unwrap_or(acc(0));
				dispatch(RuntimeOrigin::signed(from), pallet_nft::Call::burn { token_id: (w.coll, *token) })
			},
			Op::Mint { to, count } => {
				let c = pallet_nft::Call::mint { collection_id: w.coll, quantity: *count, token_owner: Some(acc(*to)) };
				dispatch(signed(user(0)), c)
			},
			Op::Uri(i) => {
				let u = ["https://other.example/a?b=", "", "ipfs://x/"][*i as usize].to_string();
				let b = u.as_bytes().to_vec();
				let c: RuntimeCall = if *i == 2 {
					pallet_sft::Call::set_base_uri { collection_id: w.sft, metadata_scheme: b.try_into().map(seed_primitives::MetadataScheme).unwrap() }.into()
				} else {
					pallet_nft::Call::set_base_uri { collection_id: w.coll, base_uri: b }.into()
				};
				let r = dispatch(signed(user(0)), c);
				if r.is_ok() {
					w.uri[(*i == 2) as usize] = u;
				}
				r
			},
			Op::Swap { path: p, amount } => {
				let c = pallet_dex::Call::swap_with_exact_supply {
					amount_in: *amount,
					amount_out_min: 0,
					path: path(*p),
					to: None,
					deadline: None,
				};
				dispatch(signed(user(1)), c)
			},
			Op::Remove { share } => {
				let c = pallet_dex::Call::remove_liquidity {
					token_a: A,
					token_b: XRP,
					liquidity: *share,
					amount_a_min: 0,
					amount_b_min: 0,
					to: None,
					deadline: None,
				};
				dispatch(signed(user(0)), c)
			},
			Op::Halt(on) => {
				let (token_a, token_b) = (XRP, A);
				if *on {
					dispatch(root(), pallet_dex::Call::disable_trading_pair { token_a, token_b })
				} else {
					dispatch(root(), pallet_dex::Call::reenable_trading_pair { token_a, token_b })
				}
			},
			Op::Send { asset, from, to, all, keep } => {
				let x = AssetsExtApi::free_balance(*asset, acc(*from), *keep).parse::<u128>().unwrap();
				let x = if *all { x } else { x / 3 };
				send(*asset, user(*from), user(*to), x, *keep)
			},
			Op::Offer { who, asset } => {
				let c = pallet_marketplace::Call::make_simple_offer {
					token_id: (w.coll, 1),
					amount: 1234,
					asset_id: *asset,
					marketplace_id: None,
				};
				dispatch(signed(user(*who)), c)
			},
			Op::Notaries { keys, mask, id } => {
				w.keys = (0..*keys).collect();
				w.id = *id;
				let l: Vec<_> = w.keys.iter().map(|i| key(*i)).collect();
				pallet_ethy::NotaryKeys::<Runtime>::put(frame_support::WeakBoundedVec::force_from(l, None));
				pallet_ethy::NotarySetId::<Runtime>::put(*id);
				let c = pallet_ethy::Call::set_xrpl_door_signers {
					new_signers: (0..10u8).map(|i| (key(i), mask >> i & 1 == 1)).collect(),
				};
				w.door = w.keys.iter().copied().filter(|i| mask >> i & 1 == 1).take(8).collect();
				dispatch(root(), c)
			},
			Op::Nonce { who } => {
				System::inc_account_nonce(acc(*who));
				w.nonces[*who] += 1;
				Ok(())
			},
			Op::Gas(x) => {
				w.gas = Some(*x);
				dispatch(root(), pallet_fee_control::Call::set_evm_base_fee { value: U256::from(*x) })
			},
			Op::Code { at, slot, value } => {
				EVM::create_account(h(*at), vec![*value as u8]);
				let big = |x: u64| H256::from_low_u64_be(x);
				pallet_evm::AccountStorages::<Runtime>::insert(h(*at), big(*slot), big(*value));
				w.code = Some((*at, *slot, *value));
				Ok(())
			},
		};
		Ok(format!("{} {}", kind(op), ok.is_ok()))
	}
	fn invariant(&self, w: &W) -> Check {
		match self.part {
			0 => tokens(w),
			1 => trades(),
			2 => balances(),
			_ => rest(w),
		}
	}
}
fn tokens(w: &W) -> Check {
	for who in 0..3 {
		let all = held(w, who);
		for limit in [1, 2, 3, 100, u16::MAX] {
			let (mut cursor, mut got) = (0, vec![]);
			for _ in 0..30 {
				let (next, total, part) = NftApi::owned_tokens(w.coll, acc(who), cursor, limit);
				req!(total as usize == all.len(), "owned: {total} tokens in all, {all:?} are held");
				req!(part.len() <= limit as usize, "owned: {} tokens where {limit} were asked for", part.len());
				got.extend(part);
				if next == 0 {
					break;
				}
				cursor = next;
			}
			req!(got == all, "owned: with a limit of {limit} {got:?} are found, {all:?} are held");
		}
		for cursor in 0..8 {
			let (_, _, part) = NftApi::owned_tokens(w.coll, acc(who), cursor, 100);
			let want: Vec<u32> = all.iter().copied().filter(|i| *i >= cursor).collect();
			req!(part == want, "owned: from {cursor} {part:?}, not {want:?}");
		}
		req!(NftApi::owned_tokens(w.coll + 1, acc(who), 0, 10).2.is_empty(), "owned: of a collection that is none");
	}
	for i in [0u32, 4, 9, 10, u32::MAX] {
		let want = [0, 1].map(|c| format!("{}{i}", w.uri[c]).into_bytes());
		let got = [NftApi::token_uri((w.coll, i)), SftApi::token_uri((w.sft, i))];
		req!(got == want, "uri: of token {i} {got:?}");
	}
	req!(NftApi::token_uri((w.coll + 9, 0)).is_empty() && SftApi::token_uri((w.sft + 9, 0)).is_empty(), "uri: of no collection");
	Ok(())
}
fn trades() -> Check {
	let b = |p: &[AssetId]| (bal(p[0], user(1)), bal(*p.last().unwrap(), user(1)));
	for (x, y) in [(A, XRP), (XRP, A), (A, ROOT), (ROOT, A), (XRP, ROOT)] {
		let pool: H160 = pallet_dex::types::TradingPair::new(x, y).pool_address::<AccountId>().into();
		let lp = pallet_dex::TradingPairLPToken::<Runtime>::get(pallet_dex::types::TradingPair::new(x, y));
		let want = if lp.is_some() { (bal(x, pool), bal(y, pool)) } else { (0, 0) };
		let got = DexApi::get_liquidity(x, y);
		req!(got == want, "liquidity: of {x} and {y} {got:?}, the pool has {want:?}");
		req!(DexApi::get_lp_token_id(x, y).ok() == lp, "shares: of {x} and {y}");
		let on = pallet_dex::TradingPairStatuses::<Runtime>::get(pallet_dex::types::TradingPair::new(x, y));
		req!(DexApi::get_trading_pair_status(x, y) == on, "status: of {x} and {y}");
	}
	for p in 0..8 {
		let l = path(p);
		for amount in [0, 1, 2, 333, 29_999, 70_000, 400_000, u128::MAX] {
			let out = DexApi::get_amounts_out(amount, l.clone());
			let did = peek(|| {
				let c = pallet_dex::Call::swap_with_exact_supply {
					amount_in: amount,
					amount_out_min: 0,
					path: l.clone(),
					to: None,
					deadline: None,
				};
				let x = (!l.is_empty()).then(|| b(&l));
				dispatch(signed(user(1)), c).ok().map(|_| {
					let (x, y) = (x.unwrap(), b(&l));
					(x.0.wrapping_sub(y.0), y.1.wrapping_sub(x.1))
				})
			});
			if let Some((i, o)) = did {
				let Ok(v) = &out else { return Err(format!("amounts-out: no answer for {amount} along {l:?}, which goes through")) };
				req!(v.len() == l.len(), "amounts-out: {v:?} for {l:?}");
				if l[0] != *l.last().unwrap() {
					req!((v[0], *v.last().unwrap()) == (i, o), "amounts-out: {v:?} for {amount} along {l:?}, which gives {i} for {o}");
				}
			}
			let inn = DexApi::get_amounts_in(amount, l.clone());
			let did = peek(|| {
				let c = pallet_dex::Call::swap_with_exact_target {
					amount_out: amount,
					amount_in_max: u128::MAX,
					path: l.clone(),
					to: None,
					deadline: None,
				};
				let x = (!l.is_empty()).then(|| b(&l));
				dispatch(signed(user(1)), c).ok().map(|_| {
					let (x, y) = (x.unwrap(), b(&l));
					(x.0.wrapping_sub(y.0), y.1.wrapping_sub(x.1))
				})
			});
			if let Some((i, o)) = did {
				let Ok(v) = &inn else { return Err(format!("amounts-in: no answer for {amount} along {l:?}, which goes through")) };
				req!(v.len() == l.len(), "amounts-in: {v:?} for {l:?}");
				if l[0] != *l.last().unwrap() {
					req!((v[0], *v.last().unwrap()) == (i, o), "amounts-in: {v:?} for {amount} along {l:?}, which gives {i} for {o}");
				}
			}
		}
	}
	Ok(())
}
fn balances() -> Check {
	for asset in [ROOT, XRP, A] {
		for who in 0..3 {
			for keep in [true, false] {
				let t = AssetsExtApi::free_balance(asset, acc(who), keep);
				let Ok(x) = t.parse::<u128>() else { return Err(format!("free-balance: {t:?} is no number")) };
				let to = user((who + 1) % 3);
				let send = |x| peek(|| send(asset, user(who), to, x, keep).is_ok());
				// the receiver has some, so that only the sender matters
				let minimum = if asset == A { 7 } else { 1 };
				if x >= minimum.max(1) || x > 0 && bal(asset, user((who + 1) % 3)) > 0 {
					req!(send(x), "free-balance: {x} of {asset} of {who} (keep alive: {keep}) cannot be sent");
				}
				req!(!send(x + 1), "free-balance: more than {x} of {asset} of {who} (keep alive: {keep}) can be sent");
			}
		}
	}
	for who in 0..3 {
		let wei = EthereumRuntimeRPCApi::account_basic(user(who)).balance;
		let free = U256::from(AssetsExtApi::free_balance(XRP, acc(who), false).parse::<u128>().unwrap());
		req!(wei == free * U256::from(1_000_000_000_000u64), "evm-balance: {wei} with {free} drops");
	}
	Ok(())
}
fn rest(w: &W) -> Check {
	let set = EthyApi::validator_set();
	let keys: Vec<_> = w.keys.iter().map(|i| key(*i)).collect();
	req!(set.validators == keys && set.id == w.id, "validators: {set:?}");
	let n = keys.len() as u32;
	// two thirds are needed, as the runtime is configured
	let least = <Runtime as pallet_ethy::Config>::NotarizationThreshold::get().mul_ceil(n);
	req!(set.proof_threshold == least, "validators: threshold {} of {n}", set.proof_threshold);
	let door = EthyApi::xrpl_signers();
	let keys: Vec<_> = w.door.iter().map(|i| key(*i)).collect();
	req!(door.validators == keys && door.id == w.id, "door: {door:?}");
	req!(door.proof_threshold == (keys.len() as u32).saturating_sub(1), "door: threshold {}", door.proof_threshold);
	for who in 0..3 {
		let n = AccountNonceApi::account_nonce(acc(who));
		req!(n == w.nonces[who], "nonce: {n}");
		let n = EthereumRuntimeRPCApi::account_basic(user(who)).nonce;
		req!(n == U256::from(w.nonces[who]), "nonce: of the EVM {n}");
	}
	if let Some(g) = w.gas {
		req!(EthereumRuntimeRPCApi::gas_price() == U256::from(g), "gas-price: {}", EthereumRuntimeRPCApi::gas_price());
	}
	if let Some((at, slot, value)) = w.code {
		req!(EthereumRuntimeRPCApi::account_code_at(h(at)) == vec![value as u8], "code: of {at}");
		let s = EthereumRuntimeRPCApi::storage_at(h(at), U256::from(slot));
		req!(s == H256::from_low_u64_be(value), "storage: of {at} {s:?}");
	}
	Ok(())
}
pub fn run(ctx: &mut Ctx) {
	let d = ctx.pick(4, 5);
	ctx.bfs("tokens", &S { part: 0 }, depth(d));
	ctx.bfs("trades", &S { part: 1 }, depth(d - 1));
	ctx.bfs("balances", &S { part: 2 }, depth(d - 1));
	ctx.bfs("validators, nonces, EVM", &S { part: 3 }, depth(d - 1));
	let v: Vec<u128> = vec![0, 1, 2, 3, 999, 1000, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 1 << 127, u128::MAX - 1, u128::MAX];
	let mut all = vec![];
	for a in &v {
		for b in &v {
			all.extend(v.iter().map(|c| (*a, *b, *c)));
		}
	}
	ctx.enumerate("quotes", all.into_iter(), |(a, x, y): &(u128, u128, u128)| {
		let got = DexApi::quote(*a, *x, *y).ok();
		let q = U256::from(*a) * U256::from(*y);
		let want = if *a == 0 || *x == 0 || *y == 0 { None } else { u128::try_from(q / U256::from(*x)).ok() };
		req!(got == want, "quote: of {a} at {x} to {y} is {got:?}, not {want:?}");
		Ok(format!("{}", got.is_some()))
	});
	ctx.note("the interfaces are those of impl_runtime_apis! in the chain's runtime, taken out by rt's build script");
}
