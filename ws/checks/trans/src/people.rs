//! Accounts whose keys are known: 0..=2 secp256k1, 3 ed25519. Their futurepasses, assets and pool.
use rt::{sim::*, *};
use shim::secp;
use sp_core::H160;
use std::sync::OnceLock;
pub const ED: usize = 3;
pub const PEOPLE: usize = 4;
pub const RICH: u128 = 1_000_000_000;
pub const TOKEN: AssetId = 1124;
pub const JUNK: AssetId = 2148;
pub fn secret(i: usize) -> [u8; 32] {
	let mut s = [0; 32];
	s[31] = i as u8 + 1;
	s
}
pub fn keccak(b: &[u8]) -> [u8; 32] {
	sp_io::hashing::keccak_256(b)
}
/// The key as the XRP ledger writes it
pub fn key(i: usize) -> Vec<u8> {
	static K: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
	K.get_or_init(|| {
		(0..PEOPLE)
			.map(|i| {
				if i == ED {
					use sp_core::Pair;
					let mut v = vec![0xED];
					v.extend(sp_core::ed25519::Pair::from_seed(&secret(i)).public().0);
					v
				} else {
					secp::compress(&secp::public(&secret(i)).unwrap()).to_vec()
				}
			})
			.collect()
	})[i]
		.clone()
}
pub fn p(i: usize) -> H160 {
	static A: OnceLock<Vec<H160>> = OnceLock::new();
	A.get_or_init(|| {
		(0..PEOPLE)
			.map(|i| {
				if i == ED {
					H160::from_slice(&keccak(&key(i)[1..])[12..])
				} else {
					let u = secp::uncompressed(&secp::public(&secret(i)).unwrap());
					H160::from_slice(&keccak(&u[1..])[12..])
				}
			})
			.collect()
	})[i]
}
pub fn fp(i: u128) -> H160 {
	let mut b = [0xff; 20];
	b[4..].copy_from_slice(&i.to_be_bytes());
	H160(b)
}
pub fn own_fp(a: H160) -> Option<H160> {
	pallet_futurepass::Holders::<Runtime>::get(at(a)).map(|x| x.into())
}
pub fn nonce(a: H160) -> u32 {
	System::account_nonce(at(a))
}
pub fn do_it(a: H160, c: impl Into<RuntimeCall>) {
	let c = c.into();
	let t = format!("{c:?}");
	dispatch(signed(a), c).unwrap_or_else(|e| panic!("setting up: {t}: {e}"))
}
/// 0 owns the first futurepass, of which 1 is a delegate; 3 owns the second; 1 and 2 have none.
pub fn world() {
	genesis(0, 0);
	for i in 0..PEOPLE {
		fund(ROOT, p(i), RICH);
		fund(XRP, p(i), RICH);
	}
	for i in 0..2 {
		fund(ROOT, user(i), RICH);
		fund(XRP, user(i), RICH);
	}
	for i in [0, ED] {
		do_it(p(i), pallet_futurepass::Call::create { account: at(p(i)) });
	}
	let f = own_fp(p(0)).unwrap();
	use pallet_futurepass::ProxyProvider;
	rt::impls::ProxyPalletProvider::add_delegate(&at(p(0)), &at(f), &at(p(1)), &1).unwrap();
	for f in [fp(1), fp(2)] {
		fund(XRP, f, RICH);
		fund(ROOT, f, RICH);
	}
	assert_eq!(own_fp(p(0)), Some(fp(1)));
	assert_eq!(own_fp(p(ED)), Some(fp(2)));
	for _ in 0..2 {
		do_it(
			user(0),
			pallet_assets_ext::Call::create_asset { name: b"A".to_vec(), symbol: b"A".to_vec(), decimals: 6, min_balance: None, owner: None },
		);
	}
	for i in (0..PEOPLE).map(p).chain([user(0), user(1), fp(1), fp(2)]) {
		fund(TOKEN, i, RICH);
	}
	do_it(
		user(0),
		pallet_dex::Call::add_liquidity {
			token_a: TOKEN,
			token_b: XRP,
			amount_a_desired: RICH / 2,
			amount_b_desired: RICH / 4,
			amount_a_min: 1,
			amount_b_min: 1,
			to: None,
			deadline: None,
		},
	);
}
