//! Real hash functions (blake2b, twox, keccak, sha2, ripemd160) used by storage keys and pallets.
use sha3::Digest;

const IV: [u64; 8] = [
	0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
	[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
	[14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
	[11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
	[7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
	[9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
	[2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
	[12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
	[13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
	[6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
	[10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
#[inline(always)]
fn g(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
	v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
	v[d] = (v[d] ^ v[a]).rotate_right(32);
	v[c] = v[c].wrapping_add(v[d]);
	v[b] = (v[b] ^ v[c]).rotate_right(24);
	v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
	v[d] = (v[d] ^ v[a]).rotate_right(16);
	v[c] = v[c].wrapping_add(v[d]);
	v[b] = (v[b] ^ v[c]).rotate_right(63);
}
fn compress(h: &mut [u64; 8], block: &[u8; 128], t: u128, last: bool) {
	let mut m = [0u64; 16];
	for i in 0..16 {
		m[i] = u64::from_le_bytes(block[i * 8..i * 8 + 8].try_into().unwrap());
	}
	let mut v = [0u64; 16];
	v[..8].copy_from_slice(h);
	v[8..].copy_from_slice(&IV);
	v[12] ^= t as u64;
	v[13] ^= (t >> 64) as u64;
	if last {
		v[14] = !v[14];
	}
	for r in 0..12 {
		let s = &SIGMA[r % 10];
		g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
		g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
		g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
		g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
		g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
		g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
		g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
		g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
	}
	for i in 0..8 {
		h[i] ^= v[i] ^ v[i + 8];
	}
}
pub fn blake2b(data: &[u8], out: &mut [u8]) {
	let n = out.len();
	let mut h = IV;
	h[0] ^= 0x0101_0000 ^ (n as u64);
	let mut t: u128 = 0;
	let mut chunks = data.chunks(128).peekable();
	if data.is_empty() {
		compress(&mut h, &[0u8; 128], 0, true);
	}
	while let Some(c) = chunks.next() {
		let mut b = [0u8; 128];
		b[..c.len()].copy_from_slice(c);
		t += c.len() as u128;
		compress(&mut h, &b, t, chunks.peek().is_none());
	}
	let mut full = [0u8; 64];
	for i in 0..8 {
		full[i * 8..i * 8 + 8].copy_from_slice(&h[i].to_le_bytes());
	}
	out.copy_from_slice(&full[..n]);
}
pub fn blake2_128(d: &[u8]) -> [u8; 16] {
	let mut o = [0u8; 16];
	blake2b(d, &mut o);
	o
}
pub fn blake2_256(d: &[u8]) -> [u8; 32] {
	let mut o = [0u8; 32];
	blake2b(d, &mut o);
	o
}
pub fn blake2_512(d: &[u8]) -> [u8; 64] {
	let mut o = [0u8; 64];
	blake2b(d, &mut o);
	o
}
pub fn twox_64(d: &[u8]) -> [u8; 8] {
	xxhash_rust::xxh64::xxh64(d, 0).to_le_bytes()
}
pub fn twox_128(d: &[u8]) -> [u8; 16] {
	let mut o = [0u8; 16];
	for i in 0..2 {
		o[i * 8..i * 8 + 8].copy_from_slice(&xxhash_rust::xxh64::xxh64(d, i as u64).to_le_bytes());
	}
	o
}
pub fn twox_256(d: &[u8]) -> [u8; 32] {
	let mut o = [0u8; 32];
	for i in 0..4 {
		o[i * 8..i * 8 + 8].copy_from_slice(&xxhash_rust::xxh64::xxh64(d, i as u64).to_le_bytes());
	}
	o
}
pub fn keccak_256(d: &[u8]) -> [u8; 32] {
	sha3::Keccak256::digest(d).into()
}
pub fn keccak_512(d: &[u8]) -> [u8; 64] {
	sha3::Keccak512::digest(d).into()
}
pub fn sha2_256(d: &[u8]) -> [u8; 32] {
	use sha2::Digest as _;
	sha2::Sha256::digest(d).into()
}
pub fn sha2_512_half(d: &[u8]) -> [u8; 32] {
	use sha2::Digest;
	sha2::Sha512::digest(d)[..32].try_into().unwrap()
}
pub fn ripemd160(data: &[u8]) -> [u8; 20] {
	const R1: [usize; 80] = [
		0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3,
		10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0,
		5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13,
	];
	const R2: [usize; 80] = [
		5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15,
		5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15,
		10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11,
	];
	const S1: [u32; 80] = [
		11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
		11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
		9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
	];
	const S2: [u32; 80] = [
		8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
		9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
		8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
	];
	const K1: [u32; 5] = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
	const K2: [u32; 5] = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
	fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
		match j / 16 {
			0 => x ^ y ^ z,
			1 => (x & y) | (!x & z),
			2 => (x | !y) ^ z,
			3 => (x & z) | (y & !z),
			_ => x ^ (y | !z),
		}
	}
	let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
	let mut msg = data.to_vec();
	msg.push(0x80);
	while msg.len() % 64 != 56 {
		msg.push(0);
	}
	msg.extend_from_slice(&((data.len() as u64) * 8).to_le_bytes());
	for c in msg.chunks(64) {
		let x: Vec<u32> = c.chunks(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect();
		let (mut a, mut b, mut cc, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
		let (mut a2, mut b2, mut c2, mut d2, mut e2) = (h[0], h[1], h[2], h[3], h[4]);
		for j in 0..80 {
			let t = a
				.wrapping_add(f(j, b, cc, d))
				.wrapping_add(x[R1[j]])
				.wrapping_add(K1[j / 16])
				.rotate_left(S1[j])
				.wrapping_add(e);
			a = e;
			e = d;
			d = cc.rotate_left(10);
			cc = b;
			b = t;
			let t = a2
				.wrapping_add(f(79 - j, b2, c2, d2))
				.wrapping_add(x[R2[j]])
				.wrapping_add(K2[j / 16])
				.rotate_left(S2[j])
				.wrapping_add(e2);
			a2 = e2;
			e2 = d2;
			d2 = c2.rotate_left(10);
			c2 = b2;
			b2 = t;
		}
		let t = h[1].wrapping_add(cc).wrapping_add(d2);
		h[1] = h[2].wrapping_add(d).wrapping_add(e2);
		h[2] = h[3].wrapping_add(e).wrapping_add(a2);
		h[3] = h[4].wrapping_add(a).wrapping_add(b2);
		h[4] = h[0].wrapping_add(b).wrapping_add(c2);
		h[0] = t;
	}
	let mut o = [0u8; 20];
	for i in 0..5 {
		o[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_le_bytes());
	}
	o
}
#[cfg(test)]
mod tests {
	use super::*;
	#[test]
	fn vectors() {
		assert_eq!(hex::encode(blake2_256(b"")), "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8");
		assert_eq!(hex::encode(blake2_512(b"abc")), "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbc4925ab92386edd4009923");
		assert_eq!(hex::encode(ripemd160(b"abc")), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc");
		assert_eq!(hex::encode(ripemd160(b"")), "9c1185a5c5e9fc54612808977ee8f548b2258d31");
		assert_eq!(hex::encode(twox_128(b"System")), "26aa394eea5630e07c48ae0c9558cef7");
		assert_eq!(hex::encode(keccak_256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
	}
}
