//! Every function of the chain's precompiles: valid arguments, alternatives, and what it amounts to.
use pallet_marketplace::types::{ListingTokens, NftListing, SftListing};
use rt::{sim::*, *};
use sp_core::{H160, U256};
use sp_runtime::{BoundedVec, Permill};
pub const NFT: u64 = 1721;
pub const SFT: u64 = 1731;
pub const PEG: u64 = 1939;
pub const DEX: u64 = 56797;
pub const REG: u64 = 65535;
pub const MKT: u64 = 1741;
pub const A: AssetId = 100;
pub const FUN: u64 = 1_000_000_000;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
	View,
	Act,
	Pay,
}
pub enum Out_ {
	Bytes(Vec<u8>),
	/// the amounts of a swap along this path, paid by the first and received by the second
	Swap(Vec<AssetId>, H160, H160),
	/// the amounts by which these balances change
	Moved(Vec<(AssetId, H160)>),
	/// the new pool shares of this pair, after those
	Shares(Vec<(AssetId, H160)>, H160),
	/// the collection that came to be: its address and number
	New(u8),
	/// the identifier the state's counter had
	Any,
}
pub enum Want {
	No,
	Skip,
	Do(Vec<(RuntimeOrigin, RuntimeCall)>, Out_),
	View(Vec<u8>),
}
pub type Eqv = fn(&W, H160, &[V], U256) -> Want;
pub struct F {
	pub to: H160,
	pub sig: &'static str,
	pub kind: Kind,
	pub from: H160,
	pub good: Vec<V>,
	pub value: U256,
	/// per argument, what else to try
	pub alts: Vec<Vec<V>>,
	pub values: Vec<U256>,
	pub eqv: Option<Eqv>,
}
#[derive(Clone, Debug, Hash, Default)]
pub struct W {
	pub coll: u32,
	/// from Ethereum
	pub bridged: u32,
	pub sft: u32,
	pub fp: H160,
	pub lp: AssetId,
	pub sale: u128,
	pub auction: u128,
	pub sft_sale: u128,
	pub private: u128,
	pub with_bid: u128,
	pub offer: u64,
	pub offer_listed: u64,
}
pub fn a(v: &V) -> H160 {
	match v {
		V::A(a) => *a,
		_ => panic!(),
	}
}
pub fn u(v: &V) -> U256 {
	match v {
		V::U(a) => *a,
		_ => panic!(),
	}
}
pub fn s(v: &V) -> Vec<u8> {
	match v {
		V::S(a) => a.clone(),
		_ => panic!(),
	}
}
pub fn l(v: &V) -> Vec<V> {
	match v {
		V::L(a) => a.clone(),
		_ => panic!(),
	}
}
fn u128_(v: &V) -> Option<u128> {
	(u(v) <= U256::from(u128::MAX)).then(|| u(v).as_u128())
}
fn u32_(v: &V) -> Option<u32> {
	(u(v) <= U256::from(u32::MAX)).then(|| u(v).as_u32())
}
fn u64_(v: &V) -> Option<u64> {
	(u(v) <= U256::from(u64::MAX)).then(|| u(v).as_u64())
}
pub fn id_of(prefix: u8, x: H160) -> Option<u32> {
	let b = x.as_bytes();
	(b[..4] == [prefix; 4]).then(|| u32::from_be_bytes(b[4..8].try_into().unwrap()))
}
fn asset(v: &V) -> Option<AssetId> {
	id_of(0xcc, a(v))
}
fn some(x: H160) -> Option<AccountId> {
	(!x.is_zero()).then(|| at(x))
}
fn path(v: &V) -> Option<Vec<AssetId>> {
	l(v).iter().map(asset).collect()
}
fn serials(v: &V) -> Option<BoundedVec<u32, MaxTokens>> {
	BoundedVec::try_from(l(v).iter().map(u32_).collect::<Option<Vec<_>>>()?).ok()
}
type MaxTokens = <Runtime as pallet_marketplace::Config>::MaxTokensPerListing;
fn one(o: H160, c: impl Into<RuntimeCall>, out: Out_) -> Want {
	Want::Do(vec![(signed(o), c.into())], out)
}
macro_rules! some {
	($e: expr) => {
		match $e {
			Some(x) => x,
			None => return Want::No,
		}
	};
}
fn who(i: usize) -> H160 {
	user(i)
}
fn big() -> Vec<V> {
	vec![n(0), n(1), V::U(U256::from(u128::MAX) + 1), V::U(U256::MAX)]
}
fn ids(x: &[u64]) -> V {
	V::L(x.iter().map(|i| n(*i)).collect())
}
/// the world: pools, sales, offers, a futurepass
pub fn world() -> W {
	genesis(4, FUN as u128 * 1000);
	fund(VTX, user(0), 1000);
	crate::hook::deploy();
	pallet_marketplace::NextMarketplaceId::<Runtime>::put(1);
	pallet_marketplace::NextListingId::<Runtime>::put(1);
	pallet_marketplace::NextOfferId::<Runtime>::put(1);
	let mut w = W::default();
	let go = |o: H160, c: RuntimeCall| {
		let t = format!("{c:?}");
		dispatch(signed(o), c).unwrap_or_else(|e| panic!("setting up: {t}: {e}"))
	};
	use pallet_marketplace::Call as M;
	go(
		who(0),
		pallet_assets_ext::Call::create_asset {
			name: b"A".to_vec(),
			symbol: b"A".to_vec(),
			decimals: 6,
			min_balance: None,
			owner: None,
		}
		.into(),
	);
	for i in 0..4 {
		fund(A, who(i), FUN as u128);
	}
	for (x, y) in [(A, XRP), (A, ROOT)] {
		go(
			who(0),
			pallet_dex::Call::add_liquidity {
				token_a: x,
				token_b: y,
				amount_a_desired: 400_000,
				amount_b_desired: 900_000,
				amount_a_min: 1,
				amount_b_min: 1,
				to: None,
				deadline: None,
			}
			.into(),
		);
	}
	w.lp = pallet_dex::Pallet::<Runtime>::get_lp_token_id(A, XRP).unwrap();
	w.coll = crate::erc721::create(who(0), "N", 10, None);
	w.bridged = crate::erc721::create(who(0), "B", 10, None);
	w.sft = crate::erc1155::create(who(0));
	for i in 0..2u32 {
		go(
			who(0),
			pallet_sft::Call::create_token {
				collection_id: w.sft,
				token_name: b"t".to_vec().try_into().unwrap(),
				initial_issuance: 20 + i as u128,
				max_issuance: None,
				token_owner: None,
			}
			.into(),
		);
	}
	for i in 0..2 {
		go(
			who(2 + i),
			M::register_marketplace { marketplace_account: None, entitlement: Permill::from_percent(5 + i as u32) }.into(),
		);
	}
	let nft = |x: &[u32]| ListingTokens::Nft(NftListing { collection_id: w.coll, serial_numbers: x.to_vec().try_into().unwrap() });
	let sft = |x: &[(u32, u128)]| ListingTokens::Sft(SftListing { collection_id: w.sft, serial_numbers: x.to_vec().try_into().unwrap() });
	let sell = |t, buyer, m| M::sell {
		tokens: t,
		buyer,
		payment_asset: XRP,
		fixed_price: 1000,
		duration: Some(500),
		marketplace_id: m,
	};
	let auction =
		|t, m| M::auction { tokens: t, payment_asset: XRP, reserve_price: 500, duration: Some(300), marketplace_id: m };
	let next = || pallet_marketplace::NextListingId::<Runtime>::get();
	w.sale = next();
	go(who(0), sell(nft(&[0, 1]), None, Some(1)).into());
	w.private = next();
	go(who(0), sell(nft(&[2]), Some(at(who(1))), None).into());
	w.sft_sale = next();
	go(who(0), sell(sft(&[(0, 5)]), None, Some(2)).into());
	w.auction = next();
	go(who(0), auction(nft(&[3]), Some(1)).into());
	w.with_bid = next();
	go(who(0), auction(sft(&[(1, 3)]), None).into());
	go(who(1), M::bid { listing_id: w.with_bid, amount: 600 }.into());
	let offer = |t, m| M::make_simple_offer { token_id: (w.coll, t), amount: 70, asset_id: XRP, marketplace_id: m };
	w.offer = pallet_marketplace::NextOfferId::<Runtime>::get();
	go(who(1), offer(4, Some(1)).into());
	w.offer_listed = pallet_marketplace::NextOfferId::<Runtime>::get();
	go(who(1), offer(2, None).into());
	go(who(0), pallet_futurepass::Call::create { account: at(who(0)) }.into());
	assert!(tx(who(0), erc20(A), "approve(address,uint256)", &[V::A(who(1)), n(1000)]).ok());
	w.fp = pallet_futurepass::Holders::<Runtime>::get(at(who(0))).unwrap().into();
	fund(XRP, w.fp, 1000);
	// the pegs
	let by_root = |c: RuntimeCall| dispatch(root(), c).unwrap();
	by_root(pallet_erc20_peg::Call::activate_withdrawals { activate: true }.into());
	by_root(pallet_erc20_peg::Call::activate_withdrawals_delay { activate: true }.into());
	pallet_erc20_peg::AssetIdToErc20::<Runtime>::insert(A, h(0xa));
	pallet_erc20_peg::AssetIdToErc20::<Runtime>::insert(ROOT, h(0xb));
	by_root(pallet_erc20_peg::Call::set_payment_delay { asset_id: ROOT, min_balance: 100, delay: 10 }.into());
	pallet_nft::CollectionInfo::<Runtime>::mutate(w.bridged, |c| c.as_mut().unwrap().origin_chain = seed_primitives::OriginChain::Ethereum);
	pallet_nft_peg::RootNftToErc721::<Runtime>::insert(w.bridged, h(0xc));
	w
}
pub fn all(w: &W) -> Vec<F> {
	let mut r = vec![];
	let mut f = |to: H160, sig: &'static str, kind: Kind, from: usize, good: Vec<V>| {
		r.push(F { to, sig, kind, from: who(from), good, value: U256::zero(), alts: vec![], values: vec![], eqv: None })
	};
	use Kind::*;
	let (p0, p1, p2) = (V::A(who(0)), V::A(who(1)), V::A(who(2)));
	let t = erc20(A);
	for (x, g) in [
		("totalSupply()", vec![]),
		("balanceOf(address)", vec![p0.clone()]),
		("allowance(address,address)", vec![p0.clone(), p1.clone()]),
		("name()", vec![]),
		("symbol()", vec![]),
		("decimals()", vec![]),
	] {
		f(t, x, View, 0, g);
	}
	f(t, "transfer(address,uint256)", Act, 0, vec![p1.clone(), n(5)]);
	f(t, "approve(address,uint256)", Act, 0, vec![p1.clone(), n(5)]);
	f(t, "transferFrom(address,address,uint256)", Act, 0, vec![p0.clone(), p1.clone(), n(5)]);
	let c = erc721(w.coll);
	for (x, g) in [
		("balanceOf(address)", vec![p0.clone()]),
		("ownerOf(uint256)", vec![n(5)]),
		("getApproved(uint256)", vec![n(5)]),
		("isApprovedForAll(address,address)", vec![p0.clone(), p1.clone()]),
		("name()", vec![]),
		("symbol()", vec![]),
		("tokenURI(uint256)", vec![n(5)]),
		("owner()", vec![]),
		("totalSupply()", vec![]),
		("ownedTokens(address,uint16,uint32)", vec![p0.clone(), n(3), n(0)]),
		("supportsInterface(bytes4)", vec![V::U(U256::from(0x80ac58cdu64) << 224)]),
	] {
		f(c, x, View, 0, g);
	}
	for (x, g) in [
		("transferFrom(address,address,uint256)", vec![p0.clone(), p1.clone(), n(5)]),
		("safeTransferFrom(address,address,uint256)", vec![p0.clone(), p1.clone(), n(5)]),
		("safeTransferFrom(address,address,uint256,bytes)", vec![p0.clone(), p1.clone(), n(5), V::S(vec![7])]),
		("approve(address,uint256)", vec![p1.clone(), n(5)]),
		("setApprovalForAll(address,bool)", vec![p1.clone(), V::B(true)]),
		("renounceOwnership()", vec![]),
		("transferOwnership(address)", vec![p1.clone()]),
		("burn(uint256)", vec![n(5)]),
		("mint(address,uint32)", vec![p1.clone(), n(2)]),
		("setMaxSupply(uint32)", vec![n(100)]),
		("setBaseURI(bytes)", vec![V::S(b"https://c.d/".to_vec())]),
		("togglePublicMint(bool)", vec![V::B(true)]),
		("setMintFee(address,uint128)", vec![V::A(erc20(XRP)), n(3)]),
		("enableXls20Compatibility()", vec![]),
		("onERC721Received(address,address,uint256,bytes)", vec![p0.clone(), p1.clone(), n(1), V::S(vec![1])]),
		("reRequestXls20Mint(uint32[])", vec![ids(&[5])]),
	] {
		f(c, x, Act, 0, g);
	}
	let c = erc1155(w.sft);
	for (x, g) in [
		("balanceOf(address,uint256)", vec![p0.clone(), n(0)]),
		("balanceOfBatch(address[],uint256[])", vec![V::L(vec![p0.clone()]), ids(&[0])]),
		("isApprovedForAll(address,address)", vec![p0.clone(), p1.clone()]),
		("totalSupply(uint256)", vec![n(0)]),
		("exists(uint256)", vec![n(0)]),
		("uri(uint256)", vec![n(0)]),
		("owner()", vec![]),
	] {
		f(c, x, View, 0, g);
	}
	for (x, g) in [
		(
			"onERC1155Received(address,address,uint256,uint256,bytes)",
			vec![p0.clone(), p1.clone(), n(1), n(1), V::S(vec![1])],
		),
		(
			"onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)",
			vec![p0.clone(), p1.clone(), ids(&[1]), ids(&[1]), V::S(vec![1])],
		),
		("setApprovalForAll(address,bool)", vec![p1.clone(), V::B(true)]),
		(
			"safeTransferFrom(address,address,uint256,uint256,bytes)",
			vec![p0.clone(), p1.clone(), n(0), n(1), V::S(vec![])],
		),
		(
			"safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)",
			vec![p0.clone(), p1.clone(), ids(&[0, 1]), ids(&[1, 2]), V::S(vec![1])],
		),
		("burn(address,uint256,uint256)", vec![p0.clone(), n(0), n(1)]),
		("burnBatch(address,uint256[],uint256[])", vec![p0.clone(), ids(&[0]), ids(&[1])]),
		("renounceOwnership()", vec![]),
		("transferOwnership(address)", vec![p1.clone()]),
		("createToken(bytes,uint128,uint128,address)", vec![V::S(b"z".to_vec()), n(3), n(9), p1.clone()]),
		("mint(address,uint256,uint256)", vec![p1.clone(), n(0), n(4)]),
		("mintBatch(address,uint256[],uint256[])", vec![p1.clone(), ids(&[0]), ids(&[4])]),
		("setMaxSupply(uint256,uint32)", vec![n(0), n(99)]),
		("setBaseURI(bytes)", vec![V::S(b"https://c.d/".to_vec())]),
		("togglePublicMint(uint256,bool)", vec![n(0), V::B(true)]),
		("setMintFee(uint256,address,uint128)", vec![n(0), V::A(erc20(XRP)), n(3)]),
	] {
		f(c, x, Act, 0, g);
	}
	let c = w.fp;
	f(c, "delegateType(address)", View, 0, vec![p0.clone()]);
	f(c, "owner()", View, 0, vec![]);
	f(c, "", Pay, 0, vec![]);
	f(c, "proxyCall(uint8,address,uint256,bytes)", Pay, 0, vec![
		n(1),
		V::A(erc20(XRP)),
		n(0),
		V::S(input("transfer(address,uint256)", &[p1.clone(), n(5)])),
	]);
	f(c, "unregisterDelegate(address)", Act, 0, vec![p1.clone()]);
	f(
		c,
		"registerDelegateWithSignature(address,uint8,uint32,bytes)",
		Act,
		0,
		vec![p1.clone(), n(1), n(1000), V::S(vec![0; 65])],
	);
	f(c, "renounceOwnership()", Act, 0, vec![]);
	f(c, "transferOwnership(address)", Act, 0, vec![p1.clone()]);
	drop(f);
	let out_of = [V::A(erc20(77)), V::A(erc721(A)), V::A(H160::zero())];
	let mut g = |to: u64, sig: &'static str, kind: Kind, good: Vec<V>, alts: Vec<Vec<V>>, eqv: Eqv| {
		assert!(good.len() == alts.len(), "{sig}");
		r.push(F { to: h(to), sig, kind, from: who(0), good, value: if kind == Kind::Pay { U256::from(3000) } else { U256::zero() }, alts, values: vec![U256::zero()], eqv: Some(eqv) })
	};
	// the futurepass registrar
	g(REG, "futurepassOf(address)", View, vec![p0.clone()], vec![vec![p1.clone()]], |_, _, v, _| {
		let f = pallet_futurepass::Holders::<Runtime>::get(at(a(&v[0]))).map(H160::from).unwrap_or_default();
		Want::View(enc(&[V::A(f)]))
	});
	g(REG, "create(address)", Act, vec![p1.clone()], vec![vec![p0.clone(), p2.clone(), V::A(h(0x777))]], |_, c, v, _| {
		let next = pallet_futurepass::NextFuturepassId::<Runtime>::get();
		let mut b = [0xff; 20];
		b[4..].copy_from_slice(&next.to_be_bytes());
		one(c, pallet_futurepass::Call::create { account: at(a(&v[0])) }, Out_::Bytes(enc(&[V::A(H160(b))])))
	});
	// collections
	let name = vec![V::S(vec![]), V::S(vec![b'n'; 51]), V::S(vec![0xff, 0xfe])];
	let uri = V::S(b"https://x.y/".to_vec());
	let uris = vec![V::S(b"ethereum://0x0123456789012345678901234567890123456789".to_vec()), V::S(b"none".to_vec()), V::S(vec![])];
	let people = vec![V::L(vec![]), V::L(vec![p1.clone(), p2.clone()]), V::L(vec![p1.clone(); 9])];
	let shares = vec![V::L(vec![]), V::L(vec![n(600_000), n(400_001)]), V::L(vec![n(20_000), n(0)]), V::L(vec![n(1); 9])];
	fn royalties(who: &V, how: &V) -> Result<Option<seed_primitives::RoyaltiesSchedule<AccountId>>, ()> {
		let (p, q) = (l(who), l(how));
		if p.len() != q.len() || p.len() > 8 {
			return Err(());
		}
		if p.is_empty() {
			return Ok(None);
		}
		let e: Vec<_> =
			p.iter().zip(&q).map(|(p, q)| (at(a(p)), Permill::from_parts(u32_(q).unwrap_or(u32::MAX)))).collect();
		Ok(Some(seed_primitives::RoyaltiesSchedule { entitlements: e.try_into().map_err(|_| ())? }))
	}
	g(
		NFT,
		"initializeCollection(address,bytes,uint32,bytes,address[],uint32[])",
		Act,
		vec![p1.clone(), V::S(b"n".to_vec()), n(9), uri.clone(), V::L(vec![p1.clone()]), ids(&[5000])],
		vec![
			vec![p0.clone()],
			name.clone(),
			vec![n(0), n(u32::MAX), n(1u64 << 32)],
			uris.clone(),
			people.clone(),
			shares.clone(),
		],
		|_, _, v, _| {
			let m = some!(u32_(&v[2]));
			let c = pallet_nft::Call::create_collection {
				name: some!(s(&v[1]).try_into().ok()),
				initial_issuance: 0,
				max_issuance: (m > 0).then_some(m),
				token_owner: None,
				metadata_scheme: some!(seed_primitives::MetadataScheme::try_from(s(&v[3]).as_slice()).ok()),
				royalties_schedule: some!(royalties(&v[4], &v[5]).ok()),
				cross_chain_compatibility: Default::default(),
			};
			one(a(&v[0]), c, Out_::New(0xaa))
		},
	);
	g(
		SFT,
		"initializeCollection(address,bytes,bytes,address[],uint32[])",
		Act,
		vec![p1.clone(), V::S(b"n".to_vec()), uri.clone(), V::L(vec![p1.clone()]), ids(&[5000])],
		vec![vec![p0.clone()], name, uris, people, shares],
		|_, c, v, _| {
			let x = pallet_sft::Call::create_collection {
				collection_name: some!(s(&v[1]).try_into().ok()),
				collection_owner: Some(at(a(&v[0]))),
				metadata_scheme: some!(seed_primitives::MetadataScheme::try_from(s(&v[2]).as_slice()).ok()),
				royalties_schedule: some!(royalties(&v[3], &v[4]).ok()),
			};
			one(c, x, Out_::New(0xbb))
		},
	);
	// the pegs
	g(
		PEG,
		"erc20Withdraw(address,address,uint128)",
		Act,
		vec![p1.clone(), V::A(erc20(A)), n(7)],
		vec![
			vec![V::A(h(0x99))],
			vec![V::A(erc20(ROOT)), V::A(erc20(XRP)), out_of[1].clone()],
			[big(), vec![n(99), n(100), n(FUN)]].concat(),
		],
		|_, c, v, _| {
			let (i, x) = (some!(asset(&v[1])), some!(u128_(&v[2])));
			if i == ROOT && x >= 100 {
				// delayed withdrawals are not for contracts
				return Want::No;
			}
			let id = pallet_ethy::NextEventProofId::<Runtime>::get();
			one(
				c,
				pallet_erc20_peg::Call::withdraw { asset_id: i, amount: x, beneficiary: a(&v[0]) },
				Out_::Bytes(enc(&[n(id)])),
			)
		},
	);
	let (bv, cv) = (V::A(erc721(w.bridged)), V::A(erc721(w.coll)));
	g(
		PEG,
		"erc721Withdraw(address,address[],uint32[][])",
		Act,
		vec![p1.clone(), V::L(vec![bv.clone()]), V::L(vec![ids(&[5, 6])])],
		vec![
			vec![V::A(h(0x99))],
			vec![V::L(vec![V::A(erc1155(w.sft))]), V::L(vec![V::A(erc721(w.coll + 77))]), V::L(vec![bv.clone(), bv.clone()])],
			vec![
				V::L(vec![ids(&[0])]),
				V::L(vec![ids(&[5]), ids(&[7])]),
				V::L(vec![ids(&[5, 5])]),
				V::L(vec![ids(&[1 << 32])]),
				V::L(vec![ids(&[(1 << 32) + 5])]),
			],
		],
		|_, c, v, _| {
			let cs: Option<Vec<u32>> = l(&v[1]).iter().map(|x| id_of(0xaa, a(x))).collect();
			let ss: Option<Vec<BoundedVec<u32, _>>> = l(&v[2])
				.iter()
				.map(|x| BoundedVec::try_from(l(x).iter().map(u32_).collect::<Option<Vec<_>>>()?).ok())
				.collect();
			let id = pallet_ethy::NextEventProofId::<Runtime>::get();
			one(
				c,
				pallet_nft_peg::Call::withdraw {
					collection_ids: some!(some!(cs).try_into().ok()),
					serial_numbers: some!(some!(ss).try_into().ok()),
					destination: a(&v[0]),
				},
				Out_::Bytes(enc(&[n(id)])),
			)
		},
	);
	// the exchange
	let dl = vec![n(0), n(1), n(u32::MAX), n(1u64 << 32)];
	let toks = |x: &[AssetId]| V::L(x.iter().map(|i| V::A(erc20(*i))).collect());
	let paths = vec![toks(&[A, ROOT]), toks(&[XRP, A, ROOT]), toks(&[XRP]), toks(&[XRP, ROOT]), V::L(vec![V::A(erc20(A)), V::A(erc721(XRP))])];
	let amounts = vec![n(0), n(1), n(FUN * 999), V::U(U256::from(u128::MAX) + 1)];
	fn bn(v: &V) -> Option<Option<u32>> {
		u32_(v).map(Some)
	}
	fn add(c: H160, x: Option<AssetId>, y: Option<AssetId>, m: [Option<u128>; 4], to: &V, d: &V) -> Want {
		one(
			c,
			pallet_dex::Call::add_liquidity {
				token_a: some!(x),
				token_b: some!(y),
				amount_a_desired: some!(m[0]),
				amount_b_desired: some!(m[1]),
				amount_a_min: some!(m[2]),
				amount_b_min: some!(m[3]),
				to: Some(at(a(to))),
				deadline: some!(bn(d)),
			},
			Out_::Shares(vec![(x.unwrap(), c), (y.unwrap(), c)], a(to)),
		)
	}
	fn remove(c: H160, x: Option<AssetId>, y: Option<AssetId>, m: [Option<u128>; 3], to: &V, d: &V) -> Want {
		one(
			c,
			pallet_dex::Call::remove_liquidity {
				token_a: some!(x),
				token_b: some!(y),
				liquidity: some!(m[0]),
				amount_a_min: some!(m[1]),
				amount_b_min: some!(m[2]),
				to: Some(at(a(to))),
				deadline: some!(bn(d)),
			},
			Out_::Moved(vec![(x.unwrap(), a(to)), (y.unwrap(), a(to))]),
		)
	}
	fn swap(c: H160, exact_in: bool, x: Option<u128>, y: Option<u128>, p: &V, to: &V, d: &V) -> Want {
		let p = some!(path(p));
		let out = Out_::Swap(p.clone(), c, a(to));
		let (to, deadline) = (Some(at(a(to))), some!(bn(d)));
		if exact_in {
			one(
				c,
				pallet_dex::Call::swap_with_exact_supply { amount_in: some!(x), amount_out_min: some!(y), path: p, to, deadline },
				out,
			)
		} else {
			one(
				c,
				pallet_dex::Call::swap_with_exact_target { amount_out: some!(x), amount_in_max: some!(y), path: p, to, deadline },
				out,
			)
		}
	}
	g(
		DEX,
		"addLiquidity(address,address,uint256,uint256,uint256,uint256,address,uint256)",
		Act,
		vec![V::A(erc20(A)), V::A(erc20(XRP)), n(400), n(900), n(1), n(1), p2.clone(), n(500)],
		vec![
			vec![V::A(erc20(ROOT)), out_of[1].clone()],
			vec![V::A(erc20(ROOT)), out_of[1].clone()],
			vec![n(1000), amounts[3].clone()],
			vec![n(100), amounts[3].clone()],
			vec![n(401)],
			vec![n(901)],
			vec![p0.clone()],
			dl.clone(),
		],
		|_, c, v, _| {
			let m = [2, 3, 4, 5].map(|i: usize| u128_(&v[i]));
			add(c, asset(&v[0]), asset(&v[1]), m, &v[6], &v[7])
		},
	);
	g(
		DEX,
		"removeLiquidity(address,address,uint256,uint256,uint256,address,uint256)",
		Act,
		vec![V::A(erc20(A)), V::A(erc20(XRP)), n(400), n(1), n(2), p2.clone(), n(500)],
		vec![
			vec![V::A(erc20(ROOT)), out_of[1].clone()],
			vec![V::A(erc20(A)), V::A(erc20(ROOT))],
			amounts.clone(),
			vec![n(300)],
			vec![n(700)],
			vec![p0.clone()],
			dl.clone(),
		],
		|_, c, v, _| {
			let m = [2, 3, 4].map(|i: usize| u128_(&v[i]));
			remove(c, asset(&v[0]), asset(&v[1]), m, &v[5], &v[6])
		},
	);
	g(
		DEX,
		"removeLiquidityETH(address,uint256,uint256,uint256,address,uint256)",
		Act,
		vec![V::A(erc20(A)), n(400), n(1), n(2), p2.clone(), n(500)],
		vec![
			vec![V::A(erc20(ROOT)), V::A(erc20(XRP)), out_of[1].clone()],
			amounts.clone(),
			vec![n(300)],
			vec![n(700)],
			vec![p0.clone()],
			dl.clone(),
		],
		|_, c, v, _| {
			let m = [1, 2, 3].map(|i: usize| u128_(&v[i]));
			remove(c, asset(&v[0]), Some(XRP), m, &v[4], &v[5])
		},
	);
	let eth_in = [toks(&[XRP, A]), toks(&[A, XRP])];
	for (i, sig) in [
		"swapExactTokensForTokens(uint256,uint256,address[],address,uint256)",
		"swapTokensForExactTokens(uint256,uint256,address[],address,uint256)",
		"swapExactTokensForETH(uint256,uint256,address[],address,uint256)",
		"swapTokensForExactETH(uint256,uint256,address[],address,uint256)",
	]
	.into_iter()
	.enumerate()
	{
		let ps = if i < 2 { [paths.clone(), vec![toks(&[XRP, A])]].concat() } else { vec![toks(&[ROOT, A, XRP]), toks(&[XRP])] };
		g(
			DEX,
			sig,
			Act,
			vec![n(300), if i % 2 == 0 { n(2) } else { n(3000) }, toks(&[A, XRP]), p2.clone(), n(500)],
			vec![amounts.clone(), [amounts.clone(), vec![n(200)]].concat(), ps, vec![p0.clone()], dl.clone()],
			if i % 2 == 0 {
				|_, c, v, _| swap(c, true, u128_(&v[0]), u128_(&v[1]), &v[2], &v[3], &v[4])
			} else {
				|_, c, v, _| swap(c, false, u128_(&v[0]), u128_(&v[1]), &v[2], &v[3], &v[4])
			},
		);
	}
	g(
		DEX,
		"quote(uint256,uint256,uint256)",
		View,
		vec![n(10), n(100), n(333)],
		vec![amounts.clone(), amounts.clone(), amounts.clone()],
		|_, _, v, _| {
			let (x, p, q) = (u(&v[0]), some!(u128_(&v[1])), some!(u128_(&v[2])));
			if x.is_zero() || p == 0 || q == 0 {
				return Want::No;
			}
			Want::View(enc(&[V::U(some!(x.checked_mul(q.into())) / p)]))
		},
	);
	g(
		DEX,
		"getAmountOut(uint256,uint256,uint256)",
		View,
		vec![n(10), n(100), n(333)],
		vec![amounts.clone(), amounts.clone(), amounts.clone()],
		|_, _, v, _| {
			let (x, p, q) = (some!(u128_(&v[0])), some!(u128_(&v[1])), some!(u128_(&v[2])));
			match pallet_dex::Pallet::<Runtime>::get_amount_out(x, p, q) {
				Ok(r) => Want::View(enc(&[n(r)])),
				Err(_) => Want::No,
			}
		},
	);
	g(
		DEX,
		"getAmountIn(uint256,uint256,uint256)",
		View,
		vec![n(10), n(100), n(333)],
		vec![amounts.clone(), amounts.clone(), amounts.clone()],
		|_, _, v, _| {
			let (x, p, q) = (some!(u128_(&v[0])), some!(u128_(&v[1])), some!(u128_(&v[2])));
			match pallet_dex::Pallet::<Runtime>::get_amount_in(x, p, q) {
				Ok(r) => Want::View(enc(&[n(r)])),
				Err(_) => Want::No,
			}
		},
	);
	let all_paths = [paths.clone(), eth_in.to_vec()].concat();
	g(DEX, "getAmountsOut(uint256,address[])", View, vec![n(300), toks(&[A, XRP])], vec![amounts.clone(), all_paths.clone()], |_, _, v, _| {
		match pallet_dex::Pallet::<Runtime>::get_amounts_out(some!(u128_(&v[0])), &some!(path(&v[1]))) {
			Ok(r) => Want::View(enc(&[V::L(r.into_iter().map(n).collect())])),
			Err(_) => Want::No,
		}
	});
	g(DEX, "getAmountsIn(uint256,address[])", View, vec![n(300), toks(&[A, XRP])], vec![amounts.clone(), all_paths], |_, _, v, _| {
		match pallet_dex::Pallet::<Runtime>::get_amounts_in(some!(u128_(&v[0])), &some!(path(&v[1]))) {
			Ok(r) => Want::View(enc(&[V::L(r.into_iter().map(n).collect())])),
			Err(_) => Want::No,
		}
	});
	// the marketplace
	use pallet_marketplace::Call as M;
	let mk = vec![n(0), n(2), n(9), n(1u64 << 32), n((1u64 << 32) + 1)];
	let price = vec![n(0), n(1), V::U(U256::from(u128::MAX)), V::U(U256::from(u128::MAX) + 1)];
	let dur = vec![n(0), n(1), n(u32::MAX), n(1u64 << 32), n((1u64 << 32) + 5)];
	let tokens = vec![ids(&[0]), ids(&[5]), ids(&[5, 5]), ids(&[]), ids(&[99]), ids(&[1 << 32]), ids(&[(1 << 32) + 5])];
	let colls = vec![V::A(erc1155(w.sft)), V::A(erc721(w.coll + 99)), V::A(erc20(w.coll))];
	let assets = vec![V::A(erc20(A)), V::A(erc20(999)), V::A(erc721(XRP))];
	let buyers = vec![p1.clone(), p0.clone()];
	fn mid(v: &V) -> Option<Option<u32>> {
		u32_(v).map(|x| (x > 0).then_some(x))
	}
	fn next() -> Out_ {
		Out_::Bytes(enc(&[n(pallet_marketplace::NextListingId::<Runtime>::get())]))
	}
	fn dur_(v: &V) -> Option<Option<u32>> {
		mid(v)
	}
	fn sell_nft(_: &W, c: H160, v: &[V], _: U256) -> Want {
		one(
			c,
			M::sell_nft {
				collection_id: some!(id_of(0xaa, a(&v[0]))),
				serial_numbers: some!(serials(&v[1])),
				buyer: some(a(&v[2])),
				payment_asset: some!(asset(&v[3])),
				fixed_price: some!(u128_(&v[4])),
				duration: some!(dur_(&v[5])),
				marketplace_id: some!(mid(&v[6])),
			},
			next(),
		)
	}
	fn sft_tokens(coll: &V, i: &V, q: &V) -> Option<ListingTokens<Runtime>> {
		let (i, q) = (l(i), l(q));
		if i.len() != q.len() {
			return None;
		}
		let x: Option<Vec<(u32, u128)>> = i.iter().zip(&q).map(|(i, q)| Some((u32_(i)?, u128_(q)?))).collect();
		Some(ListingTokens::Sft(SftListing { collection_id: id_of(0xbb, a(coll))?, serial_numbers: x?.try_into().ok()? }))
	}
	fn auction_nft(_: &W, c: H160, v: &[V], _: U256) -> Want {
		let m = some!(u32_(&v[5]));
		if m == 0 {
			return Want::Skip;
		}
		one(
			c,
			M::auction_nft {
				collection_id: some!(id_of(0xaa, a(&v[0]))),
				serial_numbers: some!(serials(&v[1])),
				payment_asset: some!(asset(&v[2])),
				reserve_price: some!(u128_(&v[3])),
				duration: some!(dur_(&v[4])),
				marketplace_id: Some(m),
			},
			Out_::Any,
		)
	}
	fn offer(_: &W, c: H160, v: &[V], _: U256) -> Want {
		let m = match u32_(&v[4]) {
			Some(x) => x,
			None => return Want::Skip,
		};
		one(
			c,
			M::make_simple_offer {
				token_id: (some!(id_of(0xaa, a(&v[0]))), some!(u32_(&v[1]))),
				amount: some!(u128_(&v[2])),
				asset_id: some!(asset(&v[3])),
				marketplace_id: Some(m),
			},
			Out_::Bytes(enc(&[n(pallet_marketplace::NextOfferId::<Runtime>::get())])),
		)
	}
	g(
		MKT,
		"registerMarketplace(address,uint256)",
		Act,
		vec![p1.clone(), n(10_000)],
		vec![vec![V::A(H160::zero()), p2.clone()], vec![n(0), n(1_000_000), n(1u64 << 32)]],
		|_, c, v, _| {
			let id = pallet_marketplace::NextMarketplaceId::<Runtime>::get();
			one(
				c,
				M::register_marketplace { marketplace_account: some(a(&v[0])), entitlement: Permill::from_parts(some!(u32_(&v[1]))) },
				Out_::Bytes(enc(&[n(id)])),
			)
		},
	);
	for sig in [
		"sellNft(address,uint256[],address,address,uint256,uint256,uint32)",
		"sellNftWithMarketplaceId(address,uint256[],address,address,uint256,uint256,uint32)",
	] {
		g(
			MKT,
			sig,
			Act,
			vec![cv.clone(), ids(&[5, 6]), V::A(H160::zero()), V::A(erc20(XRP)), n(50), n(20), n(1)],
			vec![colls.clone(), tokens.clone(), buyers.clone(), assets.clone(), price.clone(), dur.clone(), mk.clone()],
			sell_nft,
		);
	}
	let sv = V::A(erc1155(w.sft));
	let qty = vec![ids(&[1]), ids(&[5, 0]), ids(&[1, 200]), V::L(vec![n(1), V::U(U256::from(u128::MAX) + 2)])];
	let stok = vec![ids(&[0]), ids(&[0, 0]), ids(&[0, 7]), ids(&[0, (1 << 32) + 1])];
	g(
		MKT,
		"sellSft(address,uint256[],uint256[],address,address,uint256,uint256,uint32)",
		Act,
		vec![sv.clone(), ids(&[0, 1]), ids(&[3, 4]), V::A(H160::zero()), V::A(erc20(XRP)), n(50), n(20), n(1)],
		vec![
			vec![cv.clone()],
			stok.clone(),
			qty.clone(),
			buyers.clone(),
			assets.clone(),
			price.clone(),
			dur.clone(),
			mk.clone(),
		],
		|_, c, v, _| {
			one(
				c,
				M::sell {
					tokens: some!(sft_tokens(&v[0], &v[1], &v[2])),
					buyer: some(a(&v[3])),
					payment_asset: some!(asset(&v[4])),
					fixed_price: some!(u128_(&v[5])),
					duration: some!(dur_(&v[6])),
					marketplace_id: some!(mid(&v[7])),
				},
				next(),
			)
		},
	);
	for sig in [
		"auctionNft(address,uint256[],address,uint256,uint256,uint32)",
		"auctionNftWithMarketplaceId(address,uint256[],address,uint256,uint256,uint32)",
	] {
		g(
			MKT,
			sig,
			Act,
			vec![cv.clone(), ids(&[5, 6]), V::A(erc20(XRP)), n(50), n(20), n(1)],
			vec![colls.clone(), tokens.clone(), assets.clone(), price.clone(), dur.clone(), mk.clone()],
			auction_nft,
		);
	}
	g(
		MKT,
		"auctionSft(address,uint256[],uint256[],address,uint256,uint256,uint32)",
		Act,
		vec![sv, ids(&[0, 1]), ids(&[3, 4]), V::A(erc20(XRP)), n(50), n(20), n(1)],
		vec![vec![cv.clone()], stok, qty, assets.clone(), price.clone(), dur, mk.clone()],
		|_, c, v, _| {
			let m = some!(u32_(&v[6]));
			if m == 0 {
				return Want::Skip;
			}
			one(
				c,
				M::auction {
					tokens: some!(sft_tokens(&v[0], &v[1], &v[2])),
					payment_asset: some!(asset(&v[3])),
					reserve_price: some!(u128_(&v[4])),
					duration: some!(dur_(&v[5])),
					marketplace_id: Some(m),
				},
				Out_::Any,
			)
		},
	);
	let x = 1u128 << 64;
	let ls: Vec<V> = (0..7u128).map(n).chain([n(w.sale + x), V::U(U256::from(w.sale) + (U256::one() << 128))]).collect();
	let os: Vec<V> = (0..4u64).map(n).chain([V::U(U256::from(w.offer) + (U256::one() << 64)), V::U(U256::MAX)]).collect();
	g(MKT, "updateFixedPrice(uint128,uint256)", Act, vec![n(w.sale), n(60)], vec![ls.clone(), price.clone()], |_, c, v, _| {
		one(c, M::update_fixed_price { listing_id: some!(u128_(&v[0])), new_price: some!(u128_(&v[1])) }, Out_::Bytes(vec![]))
	});
	g(MKT, "buy(uint128)", Act, vec![n(w.sale)], vec![ls.clone()], |_, c, v, _| {
		one(c, M::buy { listing_id: some!(u128_(&v[0])) }, Out_::Bytes(vec![]))
	});
	g(
		MKT,
		"bid(uint128,uint256)",
		Act,
		vec![n(w.auction), n(700)],
		vec![ls.clone(), [price, vec![n(499), n(500), n(600), n(660)]].concat()],
		|_, c, v, _| one(c, M::bid { listing_id: some!(u128_(&v[0])), amount: some!(u128_(&v[1])) }, Out_::Bytes(vec![])),
	);
	g(MKT, "cancelSale(uint128)", Act, vec![n(w.sale)], vec![ls.clone()], |_, c, v, _| {
		one(c, M::cancel_sale { listing_id: some!(u128_(&v[0])) }, Out_::Bytes(vec![]))
	});
	for sig in
		["makeSimpleOffer(address,uint32,uint256,address,uint32)", "makeSimpleOfferWithMarketplaceId(address,uint32,uint256,address,uint32)"]
	{
		g(
			MKT,
			sig,
			Act,
			vec![cv.clone(), n(5), n(30), V::A(erc20(XRP)), n(1)],
			vec![
				colls.clone(),
				vec![n(0), n(3), n(99), n((1u64 << 32) + 5)],
				[big(), vec![n(FUN * 1000), n(FUN * 1001)]].concat(),
				assets.clone(),
				mk.clone(),
			],
			offer,
		);
	}
	g(MKT, "cancelOffer(uint64)", Act, vec![n(w.offer)], vec![os.clone()], |_, c, v, _| {
		one(c, M::cancel_offer { offer_id: some!(u64_(&v[0])) }, Out_::Bytes(vec![]))
	});
	g(MKT, "acceptOffer(uint64)", Act, vec![n(w.offer)], vec![os.clone()], |_, c, v, _| {
		one(c, M::accept_offer { offer_id: some!(u64_(&v[0])) }, Out_::Bytes(vec![]))
	});
	g(MKT, "getMarketplaceAccount(uint32)", View, vec![n(1)], vec![mk], |_, _, v, _| {
		let m = some!(pallet_marketplace::RegisteredMarketplaces::<Runtime>::get(some!(u32_(&v[0]))));
		Want::View(enc(&[V::A(m.account.into())]))
	});
	g(MKT, "getListingFromId(uint128)", View, vec![n(w.sale)], vec![ls], |_, _, v, _| {
		use pallet_marketplace::types::Listing;
		let x = some!(pallet_marketplace::Listings::<Runtime>::get(some!(u128_(&v[0]))));
		let (what, tokens, price, asset) = match x {
			Listing::FixedPrice(x) => ("fixed_price_listing_for_nft", x.tokens, x.fixed_price, x.payment_asset),
			Listing::Auction(x) => ("auction_listing_for_nft", x.tokens, x.reserve_price, x.payment_asset),
		};
		let (c, ids) = match tokens {
			ListingTokens::Nft(t) => (t.collection_id, t.serial_numbers.to_vec()),
			ListingTokens::Sft(t) => (t.collection_id, t.serial_numbers.iter().map(|x| x.0).collect()),
		};
		Want::View(enc(&[V::S(what.as_bytes().to_vec()), n(c), V::L(ids.into_iter().map(n).collect()), n(price), n(asset)]))
	});
	g(MKT, "getOfferFromId(uint64)", View, vec![n(w.offer)], vec![os], |_, _, v, _| {
		let x = some!(pallet_marketplace::Offers::<Runtime>::get(some!(u64_(&v[0]))));
		let pallet_marketplace::types::OfferType::Simple(x) = x;
		Want::View(enc(&[n(x.token_id.0), n(x.token_id.1), n(x.amount), V::A(x.buyer.into())]))
	});
	// the exchange's functions that take XRP
	for (sig, good, exact_in) in [
		("addLiquidityETH(address,uint256,uint256,uint256,address,uint256)", vec![V::A(erc20(A)), n(400), n(1), n(1), p2.clone(), n(500)], None),
		("swapExactETHForTokens(uint256,address[],address,uint256)", vec![n(2), eth_in[0].clone(), p2.clone(), n(500)], Some(true)),
		("swapETHForExactTokens(uint256,address[],address,uint256)", vec![n(300), eth_in[0].clone(), p2.clone(), n(500)], Some(false)),
	] {
		let k = good.len();
		g(DEX, sig, Pay, good, vec![vec![]; k], match exact_in {
			None => |_, _, _, _| Want::Skip,
			_ => |_, _, _, _| Want::Skip,
		});
	}
	// those called by somebody else
	for f in r.iter_mut() {
		if ["buy(uint128)", "bid(uint128,uint256)"].contains(&f.sig) || f.sig.starts_with("makeSimpleOffer") || f.sig.starts_with("cancelOffer") {
			f.from = who(1);
		}
		if f.to == erc20(A) && f.sig.starts_with("transferFrom") {
			f.from = who(1);
		}
	}
	r
}
