//! Small stand-ins: sp-api, sp-application-crypto, sp-keystore, sp-staking, ethabi, ethereum-types,
//! libsecp256k1, ripemd, rustc-hex, impl-serde.
pub mod sp_api {
	pub use shim::macros::decl_runtime_apis;
	pub use shim::sp_runtime::traits::{Block as BlockT, Header as HeaderT};
	/// A call into the runtime that could not be made (missing state, missing api, trap).
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum ApiError {
		StateBackendIsNotTrie,
		UnknownBlock(String),
		Application(String),
	}
	impl core::fmt::Display for ApiError {
		fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
			write!(f, "{self:?}")
		}
	}
	impl std::error::Error for ApiError {}
	pub struct ApiRef<'a, T>(T, core::marker::PhantomData<&'a ()>);
	impl<'a, T> From<T> for ApiRef<'a, T> {
		fn from(t: T) -> Self {
			Self(t, core::marker::PhantomData)
		}
	}
	impl<'a, T> core::ops::Deref for ApiRef<'a, T> {
		type Target = T;
		fn deref(&self) -> &T {
			&self.0
		}
	}
	pub trait ProvideRuntimeApi<B> {
		type Api;
		fn runtime_api(&self) -> ApiRef<'_, Self::Api>;
	}
}
#[macro_export]
macro_rules! app_crypto_shim {
	($m:ident, $id:expr) => {
		pub use __app::*;
		mod __app {
		use super::*;
		use shim::codec::{Decode, Encode, MaxEncodedLen};
		#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, Debug)]
		pub struct Public(pub shim::sp_core::$m::Public);
		#[derive(Clone, PartialEq, Eq, Hash, Encode, Decode, MaxEncodedLen, Debug)]
		pub struct Signature(pub shim::sp_core::$m::Signature);
		#[derive(Clone)]
		pub struct Pair(pub shim::sp_core::$m::Pair);
		impl AsRef<[u8]> for Public { fn as_ref(&self) -> &[u8] { self.0.as_ref() } }
		impl AsRef<shim::sp_core::$m::Public> for Public { fn as_ref(&self) -> &shim::sp_core::$m::Public { &self.0 } }
		impl AsRef<shim::sp_core::$m::Signature> for Signature { fn as_ref(&self) -> &shim::sp_core::$m::Signature { &self.0 } }
		impl AsMut<[u8]> for Public { fn as_mut(&mut self) -> &mut [u8] { self.0.as_mut() } }
		impl AsRef<[u8]> for Signature { fn as_ref(&self) -> &[u8] { self.0.as_ref() } }
		impl core::ops::Deref for Signature { type Target = [u8]; fn deref(&self) -> &[u8] { self.0.as_ref() } }
		impl<'a> TryFrom<&'a [u8]> for Public { type Error = (); fn try_from(b: &'a [u8]) -> Result<Self, ()> { shim::sp_core::$m::Public::try_from(b).map(Self) } }
		impl<'a> TryFrom<&'a [u8]> for Signature { type Error = (); fn try_from(b: &'a [u8]) -> Result<Self, ()> { shim::sp_core::$m::Signature::try_from(b).map(Self) } }
		impl TryFrom<Vec<u8>> for Signature { type Error = (); fn try_from(b: Vec<u8>) -> Result<Self, ()> { Self::try_from(&b[..]) } }
		impl shim::sp_core::crypto::ByteArray for Public { const LEN: usize = <shim::sp_core::$m::Public as shim::sp_core::crypto::ByteArray>::LEN; }
		impl From<shim::sp_core::$m::Public> for Public { fn from(x: shim::sp_core::$m::Public) -> Self { Self(x) } }
		impl From<Public> for shim::sp_core::$m::Public { fn from(x: Public) -> Self { x.0 } }
		impl From<shim::sp_core::$m::Signature> for Signature { fn from(x: shim::sp_core::$m::Signature) -> Self { Self(x) } }
		impl From<Signature> for shim::sp_core::$m::Signature { fn from(x: Signature) -> Self { x.0 } }
		impl From<shim::sp_core::$m::Pair> for Pair { fn from(x: shim::sp_core::$m::Pair) -> Self { Self(x) } }
		impl core::fmt::Display for Public { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { core::fmt::Display::fmt(&self.0, f) } }
		impl serde::Serialize for Public { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
		impl<'de> serde::Deserialize<'de> for Public { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { serde::Deserialize::deserialize(d).map(Self) } }
		impl Pair {
			pub fn seed(&self) -> [u8; 32] { self.0.seed() }
		}
		impl shim::sp_core::Pair for Pair {
			type Public = Public;
			type Signature = Signature;
			fn from_seed(s: &[u8; 32]) -> Self { Pair(<shim::sp_core::$m::Pair as shim::sp_core::Pair>::from_seed(s)) }
			fn sign(&self, m: &[u8]) -> Signature { Signature(self.0.sign(m)) }
			fn verify<M: AsRef<[u8]>>(s: &Signature, m: M, p: &Public) -> bool { <shim::sp_core::$m::Pair as shim::sp_core::Pair>::verify(&s.0, m, &p.0) }
			fn public(&self) -> Public { Public(self.0.public()) }
			fn to_raw_vec(&self) -> Vec<u8> { self.0.to_raw_vec() }
		}
		impl shim::sp_runtime::RuntimeAppPublic for Public {
			const ID: shim::sp_runtime::KeyTypeId = $id;
			type Signature = Signature;
			fn all() -> Vec<Self> {
				$crate::misc::keys(Self::ID).iter().map(|s| Public(<shim::sp_core::$m::Pair as shim::sp_core::Pair>::from_seed(s).public())).collect()
			}
			fn generate_pair(seed: Option<Vec<u8>>) -> Self {
				let s: [u8; 32] = match seed { Some(s) => shim::hashing::blake2_256(&s), None => shim::next_random_bytes() };
				$crate::misc::insert_key(Self::ID, s);
				Public(<shim::sp_core::$m::Pair as shim::sp_core::Pair>::from_seed(&s).public())
			}
			fn sign<M: AsRef<[u8]>>(&self, m: &M) -> Option<Signature> {
				$crate::misc::keys(Self::ID).iter().map(|s| <shim::sp_core::$m::Pair as shim::sp_core::Pair>::from_seed(s)).find(|p| p.public() == self.0).map(|p| Signature(p.sign(m.as_ref())))
			}
			fn verify<M: AsRef<[u8]>>(&self, m: &M, s: &Signature) -> bool {
				<shim::sp_core::$m::Pair as shim::sp_core::Pair>::verify(&s.0, m.as_ref(), &self.0)
			}
			fn to_raw_vec(&self) -> Vec<u8> { shim::sp_core::crypto::ByteArray::to_raw_vec(self) }
		}
		use shim::sp_core::Pair as _;
		}
	};
}
use shim::sp_runtime::KeyTypeId;
use std::cell::RefCell;
thread_local! { static KEYS: RefCell<Vec<(KeyTypeId, [u8; 32])>> = Default::default(); }
pub fn keys(id: KeyTypeId) -> Vec<[u8; 32]> {
	KEYS.with(|k| k.borrow().iter().filter(|x| x.0 == id).map(|x| x.1).collect())
}
pub fn insert_key(id: KeyTypeId, s: [u8; 32]) {
	KEYS.with(|k| k.borrow_mut().push((id, s)))
}
pub fn clear_keys() {
	KEYS.with(|k| k.borrow_mut().clear())
}
pub mod sp_application_crypto {
	pub use crate::app_crypto_shim as app_crypto;
	pub use shim::sp_core::crypto::ByteArray;
	pub use shim::sp_core::{ecdsa, ed25519, sr25519, Pair};
	pub use shim::sp_runtime::{BoundToRuntimeAppPublic, KeyTypeId, RuntimeAppPublic};
	#[macro_export]
	macro_rules! with_pair_shim { ($($t:tt)*) => { $($t)* } }
	pub use crate::with_pair_shim as with_pair;
}
pub mod sp_consensus_babe {
	pub type AuthorityId = shim::sp_core::ed25519::Public;
}
pub mod sp_keystore {
	use shim::sp_runtime::KeyTypeId;
	/// The keystore is thread-local (see `keys`); these are handles to it.
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum Error {
		KeyNotSupported(KeyTypeId),
		ValidationError(String),
		Unavailable,
		Other(String),
	}
	impl core::fmt::Display for Error {
		fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
			write!(f, "{self:?}")
		}
	}
	pub type KeystorePtr = std::sync::Arc<dyn Keystore>;
	pub trait Keystore: Send + Sync {
		fn has_keys(&self, keys: &[(Vec<u8>, KeyTypeId)]) -> bool {
			let _ = keys;
			false
		}
		fn ecdsa_sign_prehashed(&self, id: KeyTypeId, public: &shim::sp_core::ecdsa::Public, msg: &[u8; 32]) -> Result<Option<shim::sp_core::ecdsa::Signature>, Error> {
			let _ = (id, public, msg);
			Ok(None)
		}
		fn ecdsa_generate_new(&self, id: KeyTypeId, seed: Option<&str>) -> Result<shim::sp_core::ecdsa::Public, ()>;
		fn ecdsa_public_keys(&self, id: KeyTypeId) -> Vec<shim::sp_core::ecdsa::Public>;
	}
	pub struct KeystoreExt<T>(pub T);
	pub mod testing {
		pub struct MemoryKeystore;
		impl MemoryKeystore {
			pub fn new() -> Self {
				MemoryKeystore
			}
		}
		impl super::Keystore for MemoryKeystore {
			fn ecdsa_generate_new(&self, id: super::KeyTypeId, seed: Option<&str>) -> Result<shim::sp_core::ecdsa::Public, ()> {
				use shim::sp_core::Pair;
				let s = match seed {
					Some(s) => shim::hashing::blake2_256(s.as_bytes()),
					None => shim::next_random_bytes(),
				};
				crate::misc::insert_key(id, s);
				Ok(shim::sp_core::ecdsa::Pair::from_seed(&s).public())
			}
			fn ecdsa_public_keys(&self, id: super::KeyTypeId) -> Vec<shim::sp_core::ecdsa::Public> {
				use shim::sp_core::Pair;
				crate::misc::keys(id).iter().map(|s| shim::sp_core::ecdsa::Pair::from_seed(s).public()).collect()
			}
		}
	}
}
pub mod sp_staking {
	pub type EraIndex = u32;
	pub type SessionIndex = u32;
	pub mod currency_to_vote {
		pub struct SaturatingCurrencyToVote;
		pub struct U128CurrencyToVote;
	}
}
pub mod ethabi {
	use shim::num::{H160, U256};
	pub type Address = H160;
	pub type Uint = U256;
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum ParamType {
		Address,
		Bytes,
		Int(usize),
		Uint(usize),
		Bool,
		String,
		Array(Box<ParamType>),
		FixedBytes(usize),
		FixedArray(Box<ParamType>, usize),
		Tuple(Vec<ParamType>),
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum Token {
		Address(H160),
		FixedBytes(Vec<u8>),
		Bytes(Vec<u8>),
		Int(U256),
		Uint(U256),
		Bool(bool),
		String(String),
		FixedArray(Vec<Token>),
		Array(Vec<Token>),
		Tuple(Vec<Token>),
	}
	impl Token {
		fn dynamic(&self) -> bool {
			match self {
				Token::Bytes(_) | Token::String(_) | Token::Array(_) => true,
				Token::FixedArray(t) | Token::Tuple(t) => t.iter().any(|t| t.dynamic()),
				_ => false,
			}
		}
		pub fn into_uint(self) -> Option<U256> {
			match self {
				Token::Uint(u) => Some(u),
				_ => None,
			}
		}
		pub fn into_address(self) -> Option<H160> {
			match self {
				Token::Address(u) => Some(u),
				_ => None,
			}
		}
		pub fn into_bytes(self) -> Option<Vec<u8>> {
			match self {
				Token::Bytes(u) => Some(u),
				_ => None,
			}
		}
	}
	fn word(u: U256) -> Vec<u8> {
		let mut b = vec![0; 32];
		u.to_big_endian(&mut b);
		b
	}
	fn padded(b: &[u8]) -> Vec<u8> {
		let mut r = b.to_vec();
		while r.len() % 32 != 0 {
			r.push(0);
		}
		r
	}
	fn enc(t: &Token) -> Vec<u8> {
		match t {
			Token::Address(a) => {
				let mut r = vec![0; 12];
				r.extend(a.0);
				r
			},
			Token::Int(u) | Token::Uint(u) => word(*u),
			Token::Bool(b) => word((*b as u64).into()),
			Token::FixedBytes(b) => padded(b),
			Token::Bytes(b) => [word(b.len().into()), padded(b)].concat(),
			Token::String(b) => [word(b.len().into()), padded(b.as_bytes())].concat(),
			Token::Array(v) => [word(v.len().into()), encode(v)].concat(),
			Token::FixedArray(v) | Token::Tuple(v) => encode(v),
		}
	}
	pub fn encode(ts: &[Token]) -> Vec<u8> {
		let parts: Vec<(bool, Vec<u8>)> = ts.iter().map(|t| (t.dynamic(), enc(t))).collect();
		let head: usize = parts.iter().map(|(d, b)| if *d { 32 } else { b.len() }).sum();
		let (mut h, mut tail) = (vec![], vec![]);
		for (d, b) in parts {
			if d {
				h.extend(word((head + tail.len()).into()));
				tail.extend(b);
			} else {
				h.extend(b);
			}
		}
		h.extend(tail);
		h
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum Error {
		InvalidData,
	}
	pub fn short_signature(name: &str, _p: &[ParamType]) -> [u8; 4] {
		shim::hashing::keccak_256(name.as_bytes())[..4].try_into().unwrap()
	}
	fn dyn_ty(p: &ParamType) -> bool {
		match p {
			ParamType::Bytes | ParamType::String | ParamType::Array(_) => true,
			ParamType::FixedArray(t, _) => dyn_ty(t),
			ParamType::Tuple(t) => t.iter().any(dyn_ty),
			_ => false,
		}
	}
	fn peek(d: &[u8], o: usize, n: usize) -> Result<&[u8], Error> {
		d.get(o..o.checked_add(n).ok_or(Error::InvalidData)?).ok_or(Error::InvalidData)
	}
	fn us(d: &[u8], o: usize) -> Result<usize, Error> {
		let w = peek(d, o, 32)?;
		if w[..28].iter().any(|x| *x != 0) {
			return Err(Error::InvalidData);
		}
		Ok(u32::from_be_bytes(w[28..].try_into().unwrap()) as usize)
	}
	fn dec(p: &ParamType, d: &[u8], o: usize) -> Result<(Token, usize), Error> {
		Ok(match p {
			ParamType::Address => (Token::Address(H160::from_slice(&peek(d, o, 32)?[12..])), o + 32),
			ParamType::Uint(_) => (Token::Uint(U256::from_big_endian(peek(d, o, 32)?)), o + 32),
			ParamType::Int(_) => (Token::Int(U256::from_big_endian(peek(d, o, 32)?)), o + 32),
			ParamType::Bool => {
				let w = peek(d, o, 32)?;
				if w[..31].iter().any(|x| *x != 0) {
					return Err(Error::InvalidData);
				}
				(Token::Bool(w[31] == 1), o + 32)
			},
			ParamType::FixedBytes(n) => (Token::FixedBytes(peek(d, o, *n)?.to_vec()), o + 32),
			ParamType::Bytes | ParamType::String => {
				let off = us(d, o)?;
				let len = us(d, off)?;
				let b = peek(d, off + 32, len)?.to_vec();
				(if *p == ParamType::Bytes { Token::Bytes(b) } else { Token::String(String::from_utf8_lossy(&b).to_string()) }, o + 32)
			},
			ParamType::Array(t) => {
				let off = us(d, o)?;
				let len = us(d, off)?;
				let tail = &d[off + 32..];
				let mut v = vec![];
				let mut oo = 0;
				for _ in 0..len {
					let (t, n) = dec(t, tail, oo)?;
					oo = n;
					v.push(t);
				}
				(Token::Array(v), o + 32)
			},
			ParamType::FixedArray(..) | ParamType::Tuple(_) => {
				let ts: Vec<ParamType> = match p {
					ParamType::FixedArray(t, n) => vec![(**t).clone(); *n],
					ParamType::Tuple(t) => t.clone(),
					_ => unreachable!(),
				};
				let dynamic = dyn_ty(p);
				let (tail, mut oo) = if dynamic { (&d[us(d, o)?.min(d.len())..], 0) } else { (d, o) };
				let mut v = vec![];
				for t in &ts {
					let (t, n) = dec(t, tail, oo)?;
					oo = n;
					v.push(t);
				}
				let t = if matches!(p, ParamType::Tuple(_)) { Token::Tuple(v) } else { Token::FixedArray(v) };
				(t, if dynamic { o + 32 } else { oo })
			},
		})
	}
	pub fn decode(ps: &[ParamType], d: &[u8]) -> Result<Vec<Token>, Error> {
		if !ps.is_empty() && d.is_empty() {
			return Err(Error::InvalidData);
		}
		let mut o = 0;
		let mut r = vec![];
		for p in ps {
			let (t, n) = dec(p, d, o)?;
			o = n;
			r.push(t);
		}
		Ok(r)
	}
}
pub mod ethereum_types {
	pub use shim::num::{Bloom, H128, H160, H256, H264, H512, H520, U128, U256, U512, U64};
	pub type Address = H160;
	pub trait BigEndianHash {
		type Uint;
		fn from_uint(v: &Self::Uint) -> Self;
		fn into_uint(&self) -> Self::Uint;
	}
	impl BigEndianHash for H256 {
		type Uint = U256;
		fn from_uint(v: &U256) -> Self {
			let mut b = [0; 32];
			v.to_big_endian(&mut b);
			H256(b)
		}
		fn into_uint(&self) -> U256 {
			U256::from_big_endian(&self.0)
		}
	}
}
pub mod ripemd {
	pub use sha2::digest::Digest;
	use sha2::digest::{consts::U20, FixedOutput, HashMarker, Output, OutputSizeUser, Update};
	#[derive(Clone, Default)]
	pub struct Ripemd160(Vec<u8>);
	impl HashMarker for Ripemd160 {}
	impl OutputSizeUser for Ripemd160 {
		type OutputSize = U20;
	}
	impl Update for Ripemd160 {
		fn update(&mut self, d: &[u8]) {
			self.0.extend_from_slice(d)
		}
	}
	impl FixedOutput for Ripemd160 {
		fn finalize_into(self, out: &mut Output<Self>) {
			out.copy_from_slice(&shim::hashing::ripemd160(&self.0))
		}
	}
}
pub mod rustc_hex {
	pub trait ToHex {
		fn to_hex<T: std::iter::FromIterator<char>>(&self) -> T;
	}
	impl<X: AsRef<[u8]> + ?Sized> ToHex for X {
		fn to_hex<T: std::iter::FromIterator<char>>(&self) -> T {
			let s: String = self.as_ref().iter().map(|b| format!("{:02x}", b)).collect();
			s.chars().collect()
		}
	}
}
pub mod impl_serde {
	#[macro_export]
	macro_rules! impl_fixed_hash_serde_shim {
		($t:ident, $n:expr) => {
			impl serde::Serialize for $t {
				fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
					s.serialize_str(&shim::num::fmt_0x(&self.0))
				}
			}
			impl<'de> serde::Deserialize<'de> for $t {
				fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
					let s = <String as serde::Deserialize>::deserialize(d)?;
					let b = shim::num::parse_0x(&s).ok_or_else(|| serde::de::Error::custom("invalid hex"))?;
					let a: [u8; $n] = b.try_into().map_err(|_| serde::de::Error::custom("length"))?;
					Ok($t(a))
				}
			}
		};
	}
	pub use crate::impl_fixed_hash_serde_shim as impl_fixed_hash_serde;
}
pub mod libsecp256k1 {
	use shim::secp;
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum Error {
		InvalidSignature,
		InvalidPublicKey,
		InvalidInputLength,
		InvalidMessage,
	}
	pub enum PublicKeyFormat {
		Compressed,
		Full,
		Raw,
	}
	#[derive(Clone)]
	pub struct PublicKey(secp::Point);
	impl PublicKey {
		pub fn parse_slice(b: &[u8], f: Option<PublicKeyFormat>) -> Result<Self, Error> {
			match (b.len(), f) {
				(33, None) | (33, Some(PublicKeyFormat::Compressed)) => Self::parse_compressed(b.try_into().unwrap()),
				(65, None) | (65, Some(PublicKeyFormat::Full)) => Self::parse(b.try_into().unwrap()),
				_ => Err(Error::InvalidInputLength),
			}
		}
		pub fn parse(b: &[u8; 65]) -> Result<Self, Error> {
			secp::parse_uncompressed(b).map(PublicKey).ok_or(Error::InvalidPublicKey)
		}
		pub fn parse_compressed(b: &[u8; 33]) -> Result<Self, Error> {
			secp::parse_compressed(b).map(PublicKey).ok_or(Error::InvalidPublicKey)
		}
		pub fn serialize(&self) -> [u8; 65] {
			secp::uncompressed(&self.0)
		}
		pub fn serialize_compressed(&self) -> [u8; 33] {
			secp::compress(&self.0)
		}
	}
	#[derive(Clone, Debug)]
	pub struct Message(pub [u8; 32]);
	impl Message {
		pub fn parse(p: &[u8; 32]) -> Self {
			Message(*p)
		}
	}
	#[derive(Clone, Debug)]
	pub struct Signature(pub [u8; 64]);
	pub struct SignatureArray(Vec<u8>);
	impl AsRef<[u8]> for SignatureArray {
		fn as_ref(&self) -> &[u8] {
			&self.0
		}
	}
	impl Signature {
		pub fn parse_standard(p: &[u8; 64]) -> Result<Self, Error> {
			let n = secp::n();
			if shim::num::U256::from_big_endian(&p[..32]) >= n || shim::num::U256::from_big_endian(&p[32..]) >= n {
				return Err(Error::InvalidSignature);
			}
			Ok(Signature(*p))
		}
		pub fn parse_standard_slice(p: &[u8]) -> Result<Self, Error> {
			Self::parse_standard(p.try_into().map_err(|_| Error::InvalidInputLength)?)
		}
		pub fn normalize_s(&mut self) {
			let s = shim::num::U256::from_big_endian(&self.0[32..]);
			if s > (secp::n() >> 1) {
				(secp::n() - s).to_big_endian(&mut self.0[32..]);
			}
		}
		pub fn serialize(&self) -> [u8; 64] {
			self.0
		}
		pub fn serialize_der(&self) -> SignatureArray {
			let int = |b: &[u8]| {
				let z = b.iter().take_while(|x| **x == 0).count().min(31);
				let mut v = b[z..].to_vec();
				if v[0] & 0x80 != 0 {
					v.insert(0, 0);
				}
				let mut o = vec![2, v.len() as u8];
				o.extend(v);
				o
			};
			let (r, s) = (int(&self.0[..32]), int(&self.0[32..]));
			let mut o = vec![0x30, (r.len() + s.len()) as u8];
			o.extend(r);
			o.extend(s);
			SignatureArray(o)
		}
		pub fn parse_der(p: &[u8]) -> Result<Self, Error> {
			let e = Error::InvalidSignature;
			if p.len() < 8 || p[0] != 0x30 || p[1] as usize != p.len() - 2 {
				return Err(e);
			}
			let int = |b: &[u8]| -> Result<([u8; 32], usize), Error> {
				if b.len() < 3 || b[0] != 2 {
					return Err(e);
				}
				let n = b[1] as usize;
				if n == 0 || b.len() < 2 + n {
					return Err(e);
				}
				let mut v = &b[2..2 + n];
				if v[0] & 0x80 != 0 || (n > 1 && v[0] == 0 && v[1] & 0x80 == 0) {
					return Err(e);
				}
				if v[0] == 0 {
					v = &v[1..];
				}
				if v.len() > 32 {
					return Err(e);
				}
				let mut o = [0; 32];
				o[32 - v.len()..].copy_from_slice(v);
				Ok((o, 2 + n))
			};
			let (r, n) = int(&p[2..])?;
			let (s, m) = int(&p[2 + n..])?;
			if 2 + n + m != p.len() {
				return Err(e);
			}
			let mut o = [0; 64];
			o[..32].copy_from_slice(&r);
			o[32..].copy_from_slice(&s);
			Ok(Signature(o))
		}
	}
	pub fn verify(m: &Message, s: &Signature, p: &PublicKey) -> bool {
		secp::verify(&s.0, &m.0, &p.0)
	}
}
