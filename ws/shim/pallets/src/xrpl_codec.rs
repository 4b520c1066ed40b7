//! XRPL binary transaction format (https://xrpl.org/docs/references/protocol/binary-format), as far as
//! the bridge needs it: the API of the `xrpl-codec` crate with an implementation from the specification.
use shim::sp_core::hashing::{sha2_256, sha2_512_half};
pub mod traits {
	pub trait BinarySerialize {
		fn binary_serialize(&self, for_signing: bool) -> Vec<u8>;
	}
}
pub mod field {
	#[derive(Clone, Debug, PartialEq)]
	pub struct Amount(pub crate::xrpl_codec::types::AmountType);
}
pub mod types {
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct AccountIdType(pub [u8; 20]);
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum CurrencyCodeType {
		Standard([u8; 3]),
		NonStandard([u8; 20]),
	}
	impl CurrencyCodeType {
		pub fn is_valid(&self) -> bool {
			match self {
				Self::Standard(c) => c != b"XRP" && c.iter().all(|x| x.is_ascii_alphanumeric() || b"?!@#$%^&*<>(){}[]|".contains(x)),
				Self::NonStandard(c) => c[0] != 0,
			}
		}
		pub fn bytes(&self) -> [u8; 20] {
			match self {
				Self::Standard(c) => {
					let mut b = [0; 20];
					b[12..15].copy_from_slice(c);
					b
				},
				Self::NonStandard(c) => *c,
			}
		}
	}
	/// Normalised: mantissa zero or within 10^15..10^16, exponent within -96..=80.
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct IssuedValueType {
		pub mantissa: i64,
		pub exponent: i8,
	}
	impl IssuedValueType {
		pub fn zero() -> Self {
			Self { mantissa: 0, exponent: 0 }
		}
		pub fn from_mantissa_exponent(mantissa: i64, exponent: i8) -> Result<Self, &'static str> {
			if mantissa == 0 {
				return Ok(Self::zero());
			}
			let (mut m, mut e) = (mantissa as i128, exponent as i32);
			while m.abs() < 1_000_000_000_000_000 {
				m *= 10;
				e -= 1;
			}
			while m.abs() > 9_999_999_999_999_999 {
				m /= 10;
				e += 1;
			}
			if e > 80 {
				return Err("value overflow");
			}
			if e < -96 {
				return Ok(Self::zero());
			}
			Ok(Self { mantissa: m as i64, exponent: e as i8 })
		}
		pub fn bytes(&self) -> [u8; 8] {
			if self.mantissa == 0 {
				return 0x8000_0000_0000_0000u64.to_be_bytes();
			}
			let sign = if self.mantissa > 0 { 1u64 << 62 } else { 0 };
			(1u64 << 63 | sign | ((self.exponent as i32 + 97) as u64) << 54 | self.mantissa.unsigned_abs()).to_be_bytes()
		}
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct IssuedAmountType {
		pub value: IssuedValueType,
		pub currency: CurrencyCodeType,
		pub issuer: AccountIdType,
	}
	impl IssuedAmountType {
		pub fn from_issued_value(value: IssuedValueType, currency: CurrencyCodeType, issuer: AccountIdType) -> Result<Self, &'static str> {
			if !currency.is_valid() {
				return Err("invalid currency code");
			}
			Ok(Self { value, currency, issuer })
		}
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum AmountType {
		Issued(IssuedAmountType),
		Drops(u64),
	}
	impl AmountType {
		pub fn bytes(&self) -> Vec<u8> {
			match self {
				Self::Drops(d) => (1u64 << 62 | d).to_be_bytes().to_vec(),
				Self::Issued(i) => [&i.value.bytes()[..], &i.currency.bytes(), &i.issuer.0].concat(),
			}
		}
	}
}
pub mod utils {
	/// SHA512-half of what an account of a multi-signature signs.
	pub fn digest_for_multi_signing(tx: &[u8], account: [u8; 20]) -> [u8; 32] {
		super::sha2_512_half(&[&[0x53, 0x4d, 0x54, 0x00], tx, &account[..]].concat())
	}
	pub fn digest_for_multi_signing_pre(tx: &[u8], public_key: [u8; 33]) -> [u8; 32] {
		digest_for_multi_signing(tx, account_id(public_key))
	}
	pub fn account_id(public_key: [u8; 33]) -> [u8; 20] {
		super::ripemd160(&super::sha2_256(&public_key))
	}
}
fn ripemd160(x: &[u8]) -> [u8; 20] {
	shim::hashing::ripemd160(x)
}
/// Fields by (type, field) code, in canonical order.
#[derive(Clone, Debug)]
pub struct Tx(Vec<((u8, u8), Vec<u8>)>);
impl Tx {
	fn new(ty: u16, account: [u8; 20], seq: u32, ticket: u32, fee: u64, source_tag: u32, key: Option<[u8; 33]>) -> Self {
		Tx(vec![])
			.u16(2, ty)
			.u32(2, 0)
			.u32(3, source_tag)
			.u32(4, seq)
			.u32(41, ticket)
			.amount(8, types::AmountType::Drops(fee))
			.blob(7, 3, key.map(|k| k.to_vec()).unwrap_or_default())
			.blob(8, 1, account.to_vec())
	}
	fn put(mut self, ty: u8, f: u8, v: Vec<u8>) -> Self {
		self.0.push(((ty, f), v));
		self
	}
	fn u16(self, f: u8, v: u16) -> Self {
		self.put(1, f, v.to_be_bytes().to_vec())
	}
	fn u32(self, f: u8, v: u32) -> Self {
		self.put(2, f, v.to_be_bytes().to_vec())
	}
	fn amount(self, f: u8, v: types::AmountType) -> Self {
		self.put(6, f, v.bytes())
	}
	fn blob(self, ty: u8, f: u8, v: Vec<u8>) -> Self {
		self.put(ty, f, [vec![v.len() as u8], v].concat())
	}
	fn flags(mut self, v: u32) -> Self {
		self.0.retain(|x| x.0 != (2, 2));
		self.u32(2, v)
	}
	fn bytes(&self, signing: bool) -> Vec<u8> {
		let mut f = self.0.clone();
		f.sort();
		let mut out = if signing { vec![] } else { vec![] };
		for ((ty, c), v) in f {
			out.extend(header(ty, c));
			out.extend(v);
		}
		out
	}
}
fn header(ty: u8, c: u8) -> Vec<u8> {
	match (ty < 16, c < 16) {
		(true, true) => vec![ty << 4 | c],
		(true, false) => vec![ty << 4, c],
		(false, true) => vec![c, ty],
		(false, false) => vec![0, ty, c],
	}
}
pub mod transaction {
	use super::{field::Amount, header, traits::BinarySerialize, types::AmountType, Tx};
	macro_rules! tx {
		($n:ident) => {
			#[derive(Clone, Debug)]
			pub struct $n(Tx);
			impl BinarySerialize for $n {
				fn binary_serialize(&self, for_signing: bool) -> Vec<u8> {
					self.0.bytes(for_signing)
				}
			}
		};
	}
	tx!(Payment);
	tx!(PaymentWithDestinationTag);
	tx!(PaymentAltCurrency);
	tx!(PaymentAltCurrencyWithDestinationTag);
	tx!(SignerListSet);
	tx!(NFTokenAcceptOffer);
	tx!(NFTokenCreateOffer);
	impl Payment {
		pub fn new(account: [u8; 20], destination: [u8; 20], amount: u64, nonce: u32, ticket: u32, fee: u64, source_tag: u32, key: Option<[u8; 33]>) -> Self {
			Self(Tx::new(0, account, nonce, ticket, fee, source_tag, key).amount(1, AmountType::Drops(amount)).blob(8, 3, destination.to_vec()))
		}
	}
	impl PaymentWithDestinationTag {
		pub fn new(account: [u8; 20], destination: [u8; 20], amount: u64, nonce: u32, ticket: u32, fee: u64, source_tag: u32, tag: u32, key: Option<[u8; 33]>) -> Self {
			Self(Tx::new(0, account, nonce, ticket, fee, source_tag, key).amount(1, AmountType::Drops(amount)).blob(8, 3, destination.to_vec()).u32(14, tag))
		}
	}
	impl PaymentAltCurrency {
		pub fn new(account: [u8; 20], destination: [u8; 20], amount: Amount, nonce: u32, ticket: u32, fee: u64, source_tag: u32, key: Option<[u8; 33]>) -> Self {
			Self(Tx::new(0, account, nonce, ticket, fee, source_tag, key).amount(1, amount.0).blob(8, 3, destination.to_vec()))
		}
	}
	impl PaymentAltCurrencyWithDestinationTag {
		pub fn new(account: [u8; 20], destination: [u8; 20], amount: Amount, nonce: u32, ticket: u32, fee: u64, source_tag: u32, tag: u32, key: Option<[u8; 33]>) -> Self {
			Self(Tx::new(0, account, nonce, ticket, fee, source_tag, key).amount(1, amount.0).blob(8, 3, destination.to_vec()).u32(14, tag))
		}
	}
	impl SignerListSet {
		pub fn new(account: [u8; 20], fee: u64, nonce: u32, ticket: u32, quorum: u32, entries: Vec<([u8; 20], u16)>, source_tag: u32, key: Option<[u8; 33]>) -> Self {
			let mut entries = entries;
			entries.sort();
			let mut list = vec![];
			for (who, weight) in entries {
				list.extend(header(14, 11));
				list.extend(header(1, 3));
				list.extend(weight.to_be_bytes());
				list.extend(header(8, 1));
				list.push(20);
				list.extend(who);
				list.push(0xe1);
			}
			list.push(0xf1);
			Self(Tx::new(12, account, nonce, ticket, fee, source_tag, key).u32(35, quorum).put(15, 4, list))
		}
	}
	impl NFTokenAcceptOffer {
		pub fn new(account: [u8; 20], sell_offer: [u8; 32], nonce: u32, ticket: u32, fee: u64, source_tag: u32, key: Option<[u8; 33]>) -> Self {
			Self(Tx::new(29, account, nonce, ticket, fee, source_tag, key).put(5, 29, sell_offer.to_vec()))
		}
	}
	impl NFTokenCreateOffer {
		pub fn new(account: [u8; 20], destination: [u8; 20], nftoken_id: [u8; 32], amount: u64, nonce: u32, ticket: u32, fee: u64, source_tag: u32, key: Option<[u8; 33]>) -> Self {
			Self(Tx::new(27, account, nonce, ticket, fee, source_tag, key).flags(1).put(5, 10, nftoken_id.to_vec()).amount(1, AmountType::Drops(amount)).blob(8, 3, destination.to_vec()))
		}
	}
}
