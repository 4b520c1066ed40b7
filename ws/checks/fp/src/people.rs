//! Accounts whose keys are known, and the state of futurepasses as stored.
use rt::{impls::ProxyType, sim::*, *};
use shim::secp;
use sp_core::H160;
use std::sync::OnceLock;
pub const PEOPLE: usize = 5;
fn secret(i: usize) -> [u8; 32] {
	let mut s = [0; 32];
	s[31] = i as u8 + 1;
	s
}
pub fn all() -> &'static Vec<H160> {
	static A: OnceLock<Vec<H160>> = OnceLock::new();
	A.get_or_init(|| {
		(0..PEOPLE)
			.map(|i| {
				let p = secp::uncompressed(&secp::public(&secret(i)).unwrap());
				let b: &[u8] = p.as_ref();
				H160::from_slice(&sp_io::hashing::keccak_256(&b[b.len() - 64..])[12..])
			})
			.collect()
	})
}
pub fn p(i: usize) -> H160 {
	all()[i]
}
pub fn fp(i: u128) -> H160 {
	let mut b = [0xff; 20];
	b[4..].copy_from_slice(&i.to_be_bytes());
	H160(b)
}
fn keccak(b: &[u8]) -> [u8; 32] {
	sp_io::hashing::keccak_256(b)
}
/// Consent of `who` to become a delegate, as a wallet signs it.
pub fn consent(who: usize, fp: H160, delegate: H160, typ: u8, deadline: u32) -> [u8; 65] {
	type Key = (usize, H160, H160, u8, u32);
	thread_local! { static SEEN: std::cell::RefCell<std::collections::HashMap<Key, [u8; 65]>> = Default::default(); }
	let k = (who, fp, delegate, typ, deadline);
	if let Some(s) = SEEN.with(|m| m.borrow().get(&k).copied()) {
		return s;
	}
	let mut m = fp.as_bytes().to_vec();
	m.extend(delegate.as_bytes());
	m.push(typ);
	m.extend(deadline.to_be_bytes());
	let text: String = keccak(&m).iter().map(|b| format!("{b:02x}")).collect();
	let mut t = b"\x19Ethereum Signed Message:\n".to_vec();
	t.extend(text.len().to_string().bytes());
	t.extend(text.bytes());
	let s = secp::sign(&secret(who), &keccak(&t));
	SEEN.with(|x| x.borrow_mut().insert(k, s));
	s
}
pub fn free(a: H160) -> u128 {
	pallet_balances::Pallet::<Runtime>::free_balance(at(a))
}
pub fn held(a: H160) -> u128 {
	pallet_balances::Pallet::<Runtime>::reserved_balance(at(a))
}
pub fn holders() -> Vec<(H160, H160)> {
	let mut v: Vec<(H160, H160)> = pallet_futurepass::Holders::<Runtime>::iter().map(|(a, b)| (a.into(), b.into())).collect();
	v.sort();
	v
}
/// every proxy of every account, with the deposit
pub fn proxies() -> Vec<(H160, Vec<(H160, ProxyType)>, u128)> {
	let mut v: Vec<_> = pallet_proxy::Proxies::<Runtime>::iter()
		.map(|(a, (l, d))| {
			(H160::from(a), l.iter().map(|x| (x.delegate.into(), x.proxy_type)).collect::<Vec<(H160, ProxyType)>>(), d)
		})
		.collect();
	v.sort_by_key(|x| x.0);
	v
}
