//! Stand-in for the XRPL SDK types pallet-xrpl re-serialises for signature verification.
pub mod types {
	pub use super::*;
	#[derive(Clone, Debug, Default, PartialEq)]
	pub struct TransactionCommon {
		pub account: AccountId,
		pub account_txn_id: Option<Hash256>,
		pub memos: Vec<Memo>,
		pub signing_pub_key: Option<Blob>,
	}
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Blob(pub Vec<u8>);
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Hash256(pub [u8; 32]);
#[derive(Clone, Debug, Default, PartialEq)]
pub struct AccountId(pub [u8; 20]);
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Memo {
	pub memo_data: Blob,
	pub memo_type: Blob,
	pub memo_format: Option<Blob>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Error(pub &'static str);
impl Blob {
	pub fn from_hex(s: &str) -> Result<Self, Error> {
		hex::decode(s).map(Blob).map_err(|_| Error("hex"))
	}
}
impl Hash256 {
	pub fn from_hex(s: &str) -> Result<Self, Error> {
		let v = hex::decode(s).map_err(|_| Error("hex"))?;
		v.try_into().map(Hash256).map_err(|_| Error("length"))
	}
}
const ALPHABET: &[u8; 58] = b"rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz";
pub fn base58check_encode(version: u8, payload: &[u8]) -> String {
	use sha2::Digest;
	let mut v = vec![version];
	v.extend_from_slice(payload);
	let h = sha2::Sha256::digest(sha2::Sha256::digest(&v));
	v.extend_from_slice(&h[..4]);
	let zeros = v.iter().take_while(|b| **b == 0).count();
	let mut digits: Vec<u8> = vec![];
	for b in v {
		let mut carry = b as u32;
		for d in digits.iter_mut() {
			carry += (*d as u32) << 8;
			*d = (carry % 58) as u8;
			carry /= 58;
		}
		while carry > 0 {
			digits.push((carry % 58) as u8);
			carry /= 58;
		}
	}
	let mut s: Vec<u8> = vec![ALPHABET[0]; zeros];
	s.extend(digits.iter().rev().map(|d| ALPHABET[*d as usize]));
	String::from_utf8(s).unwrap()
}
pub fn base58check_decode(s: &str) -> Option<(u8, Vec<u8>)> {
	use sha2::Digest;
	let zeros = s.bytes().take_while(|b| *b == ALPHABET[0]).count();
	let mut bytes: Vec<u8> = vec![];
	for c in s.bytes() {
		let mut carry = ALPHABET.iter().position(|a| *a == c)? as u32;
		for b in bytes.iter_mut() {
			carry += (*b as u32) * 58;
			*b = carry as u8;
			carry >>= 8;
		}
		while carry > 0 {
			bytes.push(carry as u8);
			carry >>= 8;
		}
	}
	let mut v = vec![0u8; zeros];
	v.extend(bytes.iter().rev());
	if v.len() < 5 {
		return None;
	}
	let (body, sum) = v.split_at(v.len() - 4);
	let h = sha2::Sha256::digest(sha2::Sha256::digest(body));
	(h[..4] == *sum).then(|| (body[0], body[1..].to_vec()))
}
impl AccountId {
	pub fn from_address(s: &str) -> Result<Self, Error> {
		let (v, b) = base58check_decode(s).ok_or(Error("address"))?;
		if v != 0 {
			return Err(Error("version"));
		}
		b.try_into().map(AccountId).map_err(|_| Error("length"))
	}
}
pub mod serialize {
	use crate::xrpl_binary_codec::serializer::Serializer;
	pub trait Serialize {
		fn serialize(&self, s: &mut Serializer) -> Result<(), super::Error>;
	}
	impl Serialize for super::types::TransactionCommon {
		fn serialize(&self, s: &mut Serializer) -> Result<(), super::Error> {
			// canonical order: type code, then field code
			if let Some(h) = &self.account_txn_id {
				s.push(0x59, &h.0);
			}
			if let Some(k) = &self.signing_pub_key {
				s.push_vl(0x73, &k.0);
			}
			s.push_vl(0x81, &self.account.0);
			if !self.memos.is_empty() {
				s.raw(&[0xF9]);
				for m in &self.memos {
					s.raw(&[0xEA]);
					s.push_vl(0x7C, &m.memo_type.0);
					s.push_vl(0x7D, &m.memo_data.0);
					if let Some(f) = &m.memo_format {
						s.push_vl(0x7E, &f.0);
					}
					s.raw(&[0xE1]);
				}
				s.raw(&[0xF1]);
			}
			Ok(())
		}
	}
}
