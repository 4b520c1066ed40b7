//! Primitive types and shared arithmetic.
use codec::{Decode, Encode};
use explore::*;
use seed_pallet_common::utils::*;
use seed_primitives::{ethy::*, *};
use shim::secp;
use sp_core::{ecdsa, ed25519, Pair, H160, U256};
use sp_io::hashing::*;
use sp_runtime::{
	traits::{Convert, IdentifyAccount, Verify},
	BoundedVec, Permill,
};

fn u(x: u128) -> U256 {
	U256::from(x)
}
fn arithmetic(c: &mut Ctx) {
	// ids: the packed id must be an injection of (index, parachain)
	let chains: Vec<u32> = if c.thorough() { vec![0, 1, 2, 100, 511, 512, 1000, 1022, 1023, 1024, 1025, 2048, u32::MAX] } else { vec![0, 1, 100, 1023, 1024, u32::MAX] };
	let top = 1u32 << 22;
	let big = [(1 << 22) + 1, (1 << 22) + 100, 1 << 23, (1 << 32) - 2, (1 << 32) - 1u64].map(|x| x as u32);
	c.enumerate("unique ids", chains.iter().flat_map(|p| (0..1025u32).map(move |k| (*p, k))), |(p, k)| {
		// block k of 4096 indices; block 1024 holds values beyond the 22 bit range
		let range: Vec<u32> = if *k < 1024 { (k * 4096..(k + 1) * 4096).collect() } else { big.to_vec() };
		for i in range {
			let r = next_asset_uuid(i, *p);
			let want = (i + 0 < top - 1 && *p < 1024).then(|| i * 1024 + *p);
			req!(r == want, "ids: index {i} of parachain {p} gives {r:?}, expected {want:?}");
			if let Some(x) = r {
				req!(x >> 10 == i && x & 1023 == *p, "ids: {x} does not name index {i} of parachain {p}");
			}
		}
		Ok("ok".into())
	});
	// decimals
	let mut vals: Vec<u128> = (0..c.pick(2000, 20000)).collect();
	for e in 0..39u32 {
		if let Some(p) = 10u128.checked_pow(e) {
			for k in [1u128, 2, 5, 9] {
				for d in [-2i128, -1, 0, 1, 2] {
					if let Some(x) = p.checked_mul(k) {
						vals.push(x.wrapping_add(d as u128));
					}
				}
			}
		}
	}
	for b in 0..128 {
		vals.push(1 << b);
		vals.push((1u128 << b) - 1);
		vals.push(!0 << b);
	}
	let dom: Vec<(u128, u8)> = vals.iter().flat_map(|v| (0..=18u8).map(move |d| (*v, d))).collect();
	c.enumerate("decimals", dom.into_iter(), |(v, d)| {
		let unit = 10u128.pow(18 - *d as u32);
		let down = scale_wei_to_correct_decimals(u(*v), *d);
		// the smallest amount that is worth at least the wei value
		let want = v / unit + (v % unit != 0) as u128;
		req!(down == want, "decimals: {v} wei at {d} decimals is {down}, expected {want}");
		if let Some(up) = v.checked_mul(unit) {
			let r = scale_decimals_to_wei(u(*v), *d);
			req!(r == up, "decimals: {v} at {d} decimals is {r} wei, expected {up}");
			req!(scale_wei_to_correct_decimals(u(r), *d) == *v, "decimals: {v} at {d} decimals does not survive the round trip");
		}
		Ok((if v % unit == 0 { "exact" } else { "rounded up" }).into())
	});
	// royalties: every list of up to six shares from a boundary alphabet
	let shares = [0u32, 1, 250_000, 333_333, 500_000, 999_999, 1_000_000];
	let maxlen = c.pick(5u32, 7);
	let dom = (0..=maxlen).flat_map(|n| (0..7u64.pow(n)).map(move |k| (n, k)));
	c.enumerate("royalties", dom, |(n, k)| {
		let mut x = *k;
		let l: Vec<u32> = (0..*n)
			.map(|_| {
				let s = shares[(x % 7) as usize];
				x /= 7;
				s
			})
			.collect();
		let Ok(entitlements) = BoundedVec::try_from(l.iter().enumerate().map(|(i, p)| (i as u32, Permill::from_parts(*p))).collect::<Vec<_>>()) else {
			return Ok("does not fit".into());
		};
		let r = RoyaltiesSchedule { entitlements };
		let sum: u64 = l.iter().map(|x| *x as u64).sum();
		let ok = *n >= 1 && *n <= MAX_ENTITLEMENTS && sum <= 1_000_000;
		req!(r.validate() == ok, "royalties: {l:?} accepted {}, expected {ok}", r.validate());
		let t = r.calculate_total_entitlement().deconstruct() as u64;
		req!(t == if ok { sum } else { 0 }, "royalties: {l:?} total {t}");
		Ok(format!("{ok}"))
	});
	// metadata URIs
	let mut serials: Vec<u32> = (0..1200).collect();
	for e in 1..10 {
		for d in [-1i64, 0, 1] {
			serials.push((10i64.pow(e) + d) as u32);
		}
	}
	serials.extend([u32::MAX, u32::MAX - 1, 1 << 31]);
	let bases: Vec<Vec<u8>> = vec![b"".to_vec(), b"https://a.b/c/".to_vec(), b"ipfs://Qm?id=".to_vec(), "http://é/".as_bytes().to_vec(), vec![b'x'; 200], b"1".to_vec()];
	let dom: Vec<(usize, u32)> = (0..bases.len()).flat_map(|b| serials.iter().map(move |s| (b, *s))).collect();
	c.enumerate("token URIs", dom.into_iter(), |(b, s)| {
		let m = MetadataScheme::try_from(bases[*b].as_slice()).map_err(|e| format!("uri: base refused {e}"))?;
		let mut want = bases[*b].clone();
		want.extend(s.to_string().bytes());
		req!(m.construct_token_uri(*s) == want, "uri: of serial {s} on base {b} is wrong");
		Ok("ok".into())
	});
	c.enumerate("URI length", (0..300usize).chain(995..1005), |n| {
		let r = MetadataScheme::try_from(vec![b'a'; *n].as_slice());
		req!(r.is_ok() == (*n <= 200), "uri: a base of {n} bytes accepted {}", r.is_ok());
		req!(r.map_or(true, |m| m.0.len() == *n), "uri: a base of {n} bytes was cut");
		Ok("ok".into())
	});
}

const SEEDS: usize = 4;
fn pair(i: usize) -> ecdsa::Pair {
	ecdsa::Pair::from_seed(&keccak_256(&[i as u8, 7]))
}
/// Ethereum address of a key, from the definition.
fn address(i: usize) -> [u8; 20] {
	let q = secp::uncompressed(&secp::public(&keccak_256(&[i as u8, 7])).unwrap());
	keccak_256(&q[1..])[12..].try_into().unwrap()
}
fn msgs() -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = [0usize, 1, 9, 10, 31, 32, 33, 99, 100, 101, 256, 257, 1000].iter().map(|n| (0..*n).map(|k| (k * 37 % 251) as u8).collect()).collect();
	v.push(b"hello world".to_vec());
	v.push(vec![0xff; 40]);
	v.push(b"\x19Ethereum Signed Message:\n3abc".to_vec());
	v
}
fn personal(m: &[u8]) -> Vec<u8> {
	let mut v = vec![0x19];
	v.extend(b"Ethereum Signed Message:\n");
	v.extend(format!("{}", m.len()).bytes());
	v.extend(m);
	v
}
const SCHEMES: usize = 9;
/// Digests a wallet might sign; the first three are the accepted ones.
fn digest(s: usize, m: &[u8]) -> [u8; 32] {
	match s {
		0 => keccak_256(m),
		1 => keccak_256(&personal(m)),
		2 => keccak_256(&personal(&blake2_256(m))),
		3 => blake2_256(m),
		4 => keccak_256(&blake2_256(m)),
		5 => keccak_256(&personal(&keccak_256(m))),
		6 => keccak_256(&[b"\x19Ethereum Signed Message:\n".as_slice(), m].concat()),
		7 => sha2_256(m),
		_ => keccak_256(&[m, &[0]].concat()),
	}
}
fn signatures(c: &mut Ctx) {
	let ms = msgs();
	let keys = c.pick(2, SEEDS);
	let mut dom = vec![];
	for k in 0..keys {
		for m in 0..ms.len() {
			for s in 0..SCHEMES {
				for claim in 0..keys + 1 {
					dom.push((k, m, s, claim));
				}
			}
		}
	}
	c.enumerate("schemes", dom.into_iter(), |(k, m, s, claim)| {
		let sig = EthereumSignature(pair(*k).sign_prehashed(&digest(*s, &ms[*m])));
		let who = AccountId20(if *claim == keys { [0; 20] } else { address(*claim) });
		let got = sig.verify(ms[*m].as_slice(), &who);
		let want = *s < 3 && k == claim;
		req!(got == want, "signature: key {k} message {m} scheme {s} claimed by {claim}: accepted {got}");
		Ok(format!("{got}"))
	});
	// a signature for one message is not one for another
	let n = ms.len();
	let full = c.thorough();
	c.enumerate("message substitution", (0..n).flat_map(|a| (0..n).map(move |b| (a, b))), |(a, b)| {
		for s in 0..3 {
			if !full && s != (a + b) % 3 {
				continue;
			}
			let sig = EthereumSignature(pair(0).sign_prehashed(&digest(s, &ms[*a])));
			let got = sig.verify(ms[*b].as_slice(), &AccountId20(address(0)));
			req!(got == (a == b), "signature: over message {a} accepted for message {b} (scheme {s})");
		}
		Ok("ok".into())
	});
	// every one-bit change of r or s, every recovery byte
	let bits = c.pick(16usize, 1);
	c.enumerate("tampering", (0..512usize).step_by(bits).map(|b| (false, b)).chain((0..256).map(|v| (true, v))), |(v, b)| {
		for s in 0..3 {
			let d = digest(s, &ms[5]);
			let good = pair(1).sign_prehashed(&d);
			let mut raw = good.0;
			if *v {
				raw[64] = *b as u8;
			} else {
				raw[b / 8] ^= 1 << (b % 8);
			}
			// an altered recovery byte that still denotes the same point is the same signature
			let same = *v && secp::recover(&raw, &d).map_or(false, |q| keccak_256(&secp::uncompressed(&q)[1..])[12..] == address(1));
			let got = EthereumSignature(ecdsa::Signature(raw)).verify(ms[5].as_slice(), &AccountId20(address(1)));
			req!(got == same, "signature: altered ({v},{b}) accepted {got}");
			req!(verify_signature(&raw, &d, &AccountId20(address(1))) == same, "signature: altered ({v},{b}) recovered");
		}
		Ok("ok".into())
	});
	c.enumerate("degenerate", 0..8u8, |k| {
		let mut raw = [0u8; 65];
		match k {
			0 => {},
			1 => raw = [0xff; 65],
			2 => raw[31] = 1,
			3 => raw[63] = 1,
			4 => raw[..32].copy_from_slice(&[0xff; 32]),
			5 => {
				raw[31] = 1;
				raw[63] = 1;
			},
			6 => raw[64] = 27,
			_ => raw[64] = 28,
		}
		for claim in [[0u8; 20], address(0)] {
			req!(!EthereumSignature(ecdsa::Signature(raw)).verify(b"x".as_slice(), &AccountId20(claim)), "signature: degenerate {k} accepted");
		}
		Ok("ok".into())
	});
	// accounts
	c.enumerate("accounts", 0..c.pick(8usize, 64), |k| {
		let p = pair(*k).public();
		let want = AccountId20(address(*k));
		let a: AccountId20 = EthereumSigner::from(p).into_account();
		req!(a == want, "account: of key {k} is {a:?}, expected {want:?}");
		req!(AccountId20::try_from(p) == Ok(want), "account: of key {k} by conversion");
		req!(EthyEcdsaToEthereum::convert(p.0.as_slice()) == want.0, "account: of validator key {k}");
		let id: crypto::AuthorityId = p.into();
		req!(EthyEcdsaToPublicKey::convert(id) == p.0, "account: public key {k} changed");
		let x = shim::hashing::ripemd160(&sha2_256(&p.0));
		req!(EthyEcdsaToXRPLAccountId::convert(p.0.as_slice()) == x, "account: XRPL account of validator key {k}");
		// conversions keep every byte
		let h: H160 = want.into();
		req!(h.0 == want.0 && AccountId20::from(h) == want && AccountId20::from(want.0) == want && <[u8; 20]>::from(want) == want.0, "account: bytes of key {k} changed");
		req!(AccountId20::decode(&mut &want.encode()[..]) == Ok(want) && want.encode() == want.0, "account: encoding of key {k}");
		let hex: String = want.0.iter().map(|b| format!("{b:02x}")).collect();
		req!(format!("{want:?}").trim_start_matches("0x") == hex, "account: printed as {want:?}");
		let ed = ed25519::Public::from_raw(keccak_256(&[*k as u8]));
		req!(AccountId20::try_from(ed).map(|a| a.0.to_vec()) == Ok(keccak_256(&ed.0)[12..].to_vec()), "account: of ed25519 key {k}");
		Ok("ok".into())
	});
	// malformed public keys never map to a real account
	c.enumerate("malformed keys", 0..256usize, |b| {
		let mut k = pair(0).public().0.to_vec();
		k[0] = *b as u8;
		let ok = *b == 2 || *b == 3;
		req!((EthyEcdsaToEthereum::convert(&k) != [0; 20]) == ok, "key: prefix {b:#x} converted");
		req!((EthyEcdsaToXRPLAccountId::convert(&k) != [0; 20]) == ok, "key: prefix {b:#x} converted to XRPL");
		for n in [0usize, 1, 32, 34] {
			k.resize(n, 0);
			req!(EthyEcdsaToEthereum::convert(&k) == [0; 20], "key: {n} bytes converted");
		}
		Ok("ok".into())
	});
}

fn sigof(k: u8) -> crypto::AuthoritySignature {
	ecdsa::Signature::from_raw([k; 65]).into()
}
fn proofs(c: &mut Ctx) {
	let nmax = c.pick(6u32, 8);
	// every assignment of {absent, blank, signed} to validators, expanded to every size
	let dom = (0..=nmax).flat_map(|n| (0..3u32.pow(n)).map(move |k| (n, k)));
	c.enumerate("expansion", dom, |(n, k)| {
		let mut x = *k;
		let st: Vec<u32> = (0..*n)
			.map(|_| {
				let s = x % 3;
				x /= 3;
				s
			})
			.collect();
		let signatures: Vec<_> = st.iter().enumerate().filter(|(_, s)| **s > 0).map(|(i, s)| (i as u32, sigof(if *s == 2 { i as u8 + 1 } else { 0 }))).collect();
		let p = EventProof { digest: [1; 32], event_id: 3, validator_set_id: 4, signatures: signatures.clone(), block: [2; 32] };
		req!(p.signature_count() == st.iter().filter(|s| **s == 2).count(), "proof: {st:?} counts {} signatures", p.signature_count());
		for size in 0..=*n as usize + 2 {
			let e = p.expanded_signatures(size);
			req!(e.len() == size, "proof: expanded to {} entries of {size}", e.len());
			for (i, s) in e.iter().enumerate() {
				let want = if st.get(i) == Some(&2) { sigof(i as u8 + 1) } else { sigof(0) };
				req!(*s == want, "proof: validator {i}'s slot of {size} holds the wrong signature ({st:?})");
			}
		}
		// the stored form survives, with its version tag
		let v = VersionedEventProof::V1(p.clone());
		let b = v.encode();
		req!(b[0] == 1 && VersionedEventProof::decode(&mut &b[..]) == Ok(v), "proof: stored form changed");
		Ok(format!("{} signatures", p.signature_count()))
	});
	// order of arrival does not matter
	c.enumerate("permutations", 0..120u32, |k| {
		let mut l: Vec<u32> = vec![0, 1, 2, 3, 4];
		let mut x = *k as usize;
		let mut perm = vec![];
		for n in (1..=5).rev() {
			perm.push(l.remove(x % n));
			x /= n;
		}
		let p = EventProof { digest: [1; 32], event_id: 3, validator_set_id: 4, signatures: perm.iter().map(|i| (*i, sigof(*i as u8 + 1))).collect(), block: [2; 32] };
		for size in 5..8 {
			for (i, s) in p.expanded_signatures(size).iter().enumerate() {
				req!(*s == if i < 5 { sigof(i as u8 + 1) } else { sigof(0) }, "proof: arrival order {perm:?} misplaces validator {i}");
			}
		}
		Ok("ok".into())
	});
	c.enumerate("validator sets", (0..=6usize).flat_map(|n| (0..8usize).map(move |k| (n, k))), |(n, k)| {
		let keys: Vec<crypto::AuthorityId> = (0..*n).map(|i| pair(i).public().into()).collect();
		let s = ValidatorSet::new(keys.clone(), 9, 2);
		req!(s.validators == keys && s.id == 9 && s.proof_threshold == 2 && s.is_empty() == (*n == 0), "validators: set of {n} changed");
		let got = s.authority_index(&pair(*k).public().into());
		req!(got == (k < n).then_some(*k), "validators: key {k} of {n} has index {got:?}");
		Ok("ok".into())
	});
	c.enumerate("chain ids and logs", 0..3u8, |k| {
		req!(u8::from(EthyChainId::Ethereum) == 1 && u8::from(EthyChainId::Xrpl) == 2, "chain id: changed");
		let s = ValidatorSet::new((0..2).map(|i| pair(i).public().into()).collect::<Vec<crypto::AuthorityId>>(), 5, 2);
		let l: ConsensusLog<crypto::AuthorityId> = match k {
			0 => ConsensusLog::AuthoritiesChange(s),
			1 => ConsensusLog::OnDisabled(3),
			_ => ConsensusLog::OpaqueSigningRequest { chain_id: EthyChainId::Xrpl, event_proof_id: 8, data: vec![1, 2, 3] },
		};
		let b = l.encode();
		req!(b[0] == k + 1, "log: kind {k} has tag {}", b[0]);
		req!(ConsensusLog::<crypto::AuthorityId>::decode(&mut &b[..]).map(|x| x.encode()) == Ok(b.clone()), "log: kind {k} does not survive storage");
		Ok("ok".into())
	});
}
fn main() {
	explore::main(&[("P02", arithmetic), ("P03", signatures), ("P04", proofs)]);
}
