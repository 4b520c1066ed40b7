//! Straightforward secp256k1 (affine/Jacobian) ECDSA: enough for sign, verify and recover on test keys.
use crate::hashing::sha2_256;
use crate::num::Uint;
use crate::num::{U256, U512};
fn p() -> U256 {
	Uint([0xFFFFFFFEFFFFFC2F, u64::MAX, u64::MAX, u64::MAX])
}
pub fn n() -> U256 {
	Uint([0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, u64::MAX])
}
fn g() -> (U256, U256) {
	(
		Uint([0x59F2815B16F81798, 0x029BFCDB2DCE28D9, 0x55A06295CE870B07, 0x79BE667EF9DCBBAC]),
		Uint([0x9C47D08FFB10D4B8, 0xFD17B448A6855419, 0x5DA4FBFC0E1108A8, 0x483ADA7726A3C465]),
	)
}
fn add(a: U256, b: U256, m: U256) -> U256 {
	let (r, c) = a.overflowing_add(b);
	if c || r >= m {
		r.wrapping_sub(m)
	} else {
		r
	}
}
fn sub(a: U256, b: U256, m: U256) -> U256 {
	if a >= b {
		a - b
	} else {
		a.wrapping_add(m).wrapping_sub(b)
	}
}
fn mul(a: U256, b: U256, m: U256) -> U256 {
	let r = a.full_mul(b);
	if m == p() {
		// p = 2^256 - c
		let c = 0x1000003D1u64;
		let fold = |x: U512| -> U512 {
			let hi = Uint([x.0[4], x.0[5], x.0[6], x.0[7]]);
			let lo = Uint([x.0[0], x.0[1], x.0[2], x.0[3]]);
			U512::from(lo) + U512::from(hi) * U512::from(c)
		};
		let mut x = fold(fold(r));
		if x.0[4] != 0 {
			x = fold(x);
		}
		let mut y = Uint([x.0[0], x.0[1], x.0[2], x.0[3]]);
		while y >= m {
			y = y - m;
		}
		return y;
	}
	U256::try_from(r % U512::from(m)).unwrap()
}
fn pow(b: U256, e: U256, m: U256) -> U256 {
	let mut r = U256::one();
	for i in (0..e.bits()).rev() {
		r = mul(r, r, m);
		if e.bit(i) {
			r = mul(r, b, m);
		}
	}
	r
}
fn inv(a: U256, m: U256) -> U256 {
	pow(a, m - U256::from(2u8), m)
}
/// Jacobian point; z = 0 is infinity
#[derive(Clone, Copy)]
struct J(U256, U256, U256);
fn dbl(a: J) -> J {
	let m = p();
	if a.2.is_zero() || a.1.is_zero() {
		return J(U256::one(), U256::one(), U256::zero());
	}
	let yy = mul(a.1, a.1, m);
	let s0 = mul(a.0, yy, m);
	let s = add(add(s0, s0, m), add(s0, s0, m), m);
	let xx = mul(a.0, a.0, m);
	let mm = add(add(xx, xx, m), xx, m);
	let x = sub(mul(mm, mm, m), add(s, s, m), m);
	let y4 = mul(yy, yy, m);
	let y8 = {
		let t2 = add(y4, y4, m);
		let t4 = add(t2, t2, m);
		add(t4, t4, m)
	};
	let y = sub(mul(mm, sub(s, x, m), m), y8, m);
	let z = mul(add(a.1, a.1, m), a.2, m);
	J(x, y, z)
}
fn addp(a: J, b: J) -> J {
	let m = p();
	if a.2.is_zero() {
		return b;
	}
	if b.2.is_zero() {
		return a;
	}
	let z1 = mul(a.2, a.2, m);
	let z2 = mul(b.2, b.2, m);
	let u1 = mul(a.0, z2, m);
	let u2 = mul(b.0, z1, m);
	let s1 = mul(a.1, mul(z2, b.2, m), m);
	let s2 = mul(b.1, mul(z1, a.2, m), m);
	if u1 == u2 {
		if s1 != s2 {
			return J(U256::one(), U256::one(), U256::zero());
		}
		return dbl(a);
	}
	let h = sub(u2, u1, m);
	let r = sub(s2, s1, m);
	let h2 = mul(h, h, m);
	let h3 = mul(h, h2, m);
	let u1h2 = mul(u1, h2, m);
	let x = sub(sub(mul(r, r, m), h3, m), add(u1h2, u1h2, m), m);
	let y = sub(mul(r, sub(u1h2, x, m), m), mul(s1, h3, m), m);
	let z = mul(h, mul(a.2, b.2, m), m);
	J(x, y, z)
}
fn mulp(pt: (U256, U256), k: U256) -> J {
	let b = J(pt.0, pt.1, U256::one());
	let mut r = J(U256::one(), U256::one(), U256::zero());
	for i in (0..k.bits()).rev() {
		r = dbl(r);
		if k.bit(i) {
			r = addp(r, b);
		}
	}
	r
}
fn affine(a: J) -> Option<(U256, U256)> {
	if a.2.is_zero() {
		return None;
	}
	let m = p();
	let zi = inv(a.2, m);
	let z2 = mul(zi, zi, m);
	Some((mul(a.0, z2, m), mul(a.1, mul(z2, zi, m), m)))
}
pub type Point = (U256, U256);
fn lift(x: U256, odd: bool) -> Option<Point> {
	let m = p();
	if x >= m {
		return None;
	}
	let y2 = add(mul(mul(x, x, m), x, m), U256::from(7u8), m);
	let y = pow(y2, (m.wrapping_add(U256::one())) >> 2, m);
	if mul(y, y, m) != y2 {
		return None;
	}
	Some((x, if y.bit(0) == odd { y } else { sub(U256::zero(), y, m) }))
}
pub fn parse_compressed(b: &[u8; 33]) -> Option<Point> {
	if b[0] != 2 && b[0] != 3 {
		return None;
	}
	memo((1, b.to_vec(), [0; 32], None), || lift(U256::from_big_endian(&b[1..]), b[0] == 3))
}
pub fn parse_uncompressed(b: &[u8; 65]) -> Option<Point> {
	if b[0] != 4 {
		return None;
	}
	let (x, y) = (U256::from_big_endian(&b[1..33]), U256::from_big_endian(&b[33..]));
	lift(x, y.bit(0)).filter(|q| q.1 == y)
}
pub fn compress(q: &Point) -> [u8; 33] {
	let mut r = [0; 33];
	r[0] = if q.1.bit(0) { 3 } else { 2 };
	q.0.to_big_endian(&mut r[1..]);
	r
}
pub fn uncompressed(q: &Point) -> [u8; 65] {
	let mut r = [0; 65];
	r[0] = 4;
	q.0.to_big_endian(&mut r[1..33]);
	q.1.to_big_endian(&mut r[33..]);
	r
}
pub fn public(sk: &[u8; 32]) -> Option<Point> {
	let k = U256::from_big_endian(sk);
	if k.is_zero() || k >= n() {
		return None;
	}
	affine(mulp(g(), k))
}
/// Deterministic nonce (hash based), low-s normalised; returns r||s||v
pub fn sign(sk: &[u8; 32], msg: &[u8; 32]) -> [u8; 65] {
	let d = U256::from_big_endian(sk);
	let z = U256::from_big_endian(msg) % n();
	let mut ctr = 0u8;
	loop {
		let mut pre = sk.to_vec();
		pre.extend_from_slice(msg);
		pre.push(ctr);
		ctr += 1;
		let k = U256::from_big_endian(&sha2_256(&pre)) % n();
		if k.is_zero() {
			continue;
		}
		let (rx, ry) = affine(mulp(g(), k)).unwrap();
		let r = rx % n();
		if r.is_zero() || rx >= n() {
			continue;
		}
		let mut s = mul(inv(k, n()), add(z, mul(r, d, n()), n()), n());
		if s.is_zero() {
			continue;
		}
		let mut v = ry.bit(0) as u8;
		if s > (n() >> 1) {
			s = n() - s;
			v ^= 1;
		}
		let mut out = [0; 65];
		r.to_big_endian(&mut out[..32]);
		s.to_big_endian(&mut out[32..64]);
		out[64] = v;
		return out;
	}
}
pub fn recover(sig: &[u8; 65], msg: &[u8; 32]) -> Option<Point> {
	memo((0, sig.to_vec(), *msg, None), || recover_now(sig, msg))
}
type Key = (u8, Vec<u8>, [u8; 32], Option<Point>);
/// Remembered per thread: an exploration asks the same many times.
fn memo(k: Key, f: impl FnOnce() -> Option<Point>) -> Option<Point> {
	use std::{cell::RefCell, collections::HashMap};
	thread_local! { static SEEN: RefCell<HashMap<Key, Option<Point>>> = Default::default(); }
	if let Some(v) = SEEN.with(|m| m.borrow().get(&k).copied()) {
		return v;
	}
	let v = f();
	SEEN.with(|m| {
		let mut m = m.borrow_mut();
		if m.len() > 20_000 {
			m.clear();
		}
		m.insert(k, v);
	});
	v
}
fn recover_now(sig: &[u8; 65], msg: &[u8; 32]) -> Option<Point> {
	let rid = if sig[64] >= 27 { sig[64] - 27 } else { sig[64] };
	if rid > 3 {
		return None;
	}
	let r = U256::from_big_endian(&sig[..32]);
	let s = U256::from_big_endian(&sig[32..64]);
	if r.is_zero() || s.is_zero() || r >= n() || s >= n() {
		return None;
	}
	let x = if rid & 2 != 0 { r.checked_add(n())? } else { r };
	let rp = lift(x, rid & 1 == 1)?;
	let z = U256::from_big_endian(msg) % n();
	let ri = inv(r, n());
	let u1 = sub(U256::zero(), mul(z, ri, n()), n());
	let u2 = mul(s, ri, n());
	affine(addp(mulp(g(), u1), mulp(rp, u2)))
}
/// (r,s) verification against a public key; overflowing or zero components fail.
pub fn verify(sig_rs: &[u8], msg: &[u8; 32], q: &Point) -> bool {
	memo((1, sig_rs.to_vec(), *msg, Some(*q)), || verify_now(sig_rs, msg, q).then_some(*q)).is_some()
}
fn verify_now(sig_rs: &[u8], msg: &[u8; 32], q: &Point) -> bool {
	let r = U256::from_big_endian(&sig_rs[..32]);
	let s = U256::from_big_endian(&sig_rs[32..64]);
	if r.is_zero() || s.is_zero() || r >= n() || s >= n() {
		return false;
	}
	let z = U256::from_big_endian(msg) % n();
	let w = inv(s, n());
	match affine(addp(mulp(g(), mul(z, w, n())), mulp(*q, mul(r, w, n())))) {
		Some((x, _)) => x % n() == r,
		None => false,
	}
}
#[cfg(test)]
mod tests {
	use super::*;
	#[test]
	fn vectors() {
		let mut sk = [0u8; 32];
		sk[31] = 1;
		assert_eq!(
			hex::encode(compress(&public(&sk).unwrap())),
			"0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
		);
		sk[31] = 2;
		assert_eq!(
			hex::encode(compress(&public(&sk).unwrap())),
			"02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5"
		);
		for i in 1..20u8 {
			sk[0] = i;
			let m = sha2_256(&[i]);
			let s = sign(&sk, &m);
			let q = public(&sk).unwrap();
			assert_eq!(recover(&s, &m), Some(q));
			assert!(verify(&s[..64], &m, &q));
			let mut m2 = m;
			m2[0] ^= 1;
			assert!(!verify(&s[..64], &m2, &q));
		}
	}
}
