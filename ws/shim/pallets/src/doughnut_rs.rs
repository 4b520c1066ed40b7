//! Stand-in for `doughnut-rs` (trn flavour): signed, time-limited delegation tokens with module/
//! method permissions ("toppings") and argument constraints ("pacts"). The byte layout is SCALE
//! here (the real one is bit-packed); what the pallet relies on - decode(encode(x)) = x, the
//! signature covering every field but itself, holder/expiry/not-before validation, topping lookup
//! by domain and constraint evaluation - is kept.
use shim::codec::{Decode, Encode, Error as CodecError, Input};
pub mod pact {
	pub mod types {
		use shim::codec::{Decode, Encode};
		#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
		pub struct Numeric(pub u64);
		#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
		pub struct StringLike(pub Vec<u8>);
		#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
		pub enum PactType {
			Numeric(Numeric),
			StringLike(StringLike),
		}
	}
	use shim::codec::{Decode, Encode};
	use types::*;
	/// One clause over the call's arguments. All clauses of a constraint list must hold.
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub enum Op {
		Eq,
		Gt,
		Gte,
		Lt,
		Lte,
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub struct Clause {
		pub arg: u8,
		pub op: Op,
		pub value: PactType,
	}
	impl Clause {
		pub fn holds(&self, args: &[PactType]) -> bool {
			match (args.get(self.arg as usize), &self.value) {
				(Some(PactType::Numeric(a)), PactType::Numeric(b)) => match self.op {
					Op::Eq => a.0 == b.0,
					Op::Gt => a.0 > b.0,
					Op::Gte => a.0 >= b.0,
					Op::Lt => a.0 < b.0,
					Op::Lte => a.0 <= b.0,
				},
				(Some(PactType::StringLike(a)), PactType::StringLike(b)) => self.op == Op::Eq && a == b,
				_ => false,
			}
		}
	}
}
pub mod error {
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum VerifyError {
		UnsupportedVersion,
		Invalid,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum ValidationError {
		Expired,
		HolderIdentityMismatched,
		Premature,
		ConversionFailed,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum SigningError {
		Invalid,
	}
}
pub mod traits {
	use super::error::*;
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	#[repr(u8)]
	pub enum FeeMode {
		ISSUER = 0,
		HOLDER = 1,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	#[repr(u16)]
	pub enum PayloadVersion {
		V0 = 0,
		V1 = 1,
	}
	pub trait DoughnutApi {
		fn holder(&self) -> [u8; 33];
		fn issuer(&self) -> [u8; 33];
		fn fee_payer(&self) -> [u8; 33];
		fn validate<N: TryInto<u32>>(&self, who: [u8; 33], now: N) -> Result<(), ValidationError>;
		fn get_topping(&self, domain: &str) -> Option<&[u8]>;
	}
	pub trait DoughnutVerify {
		fn verify(&self) -> Result<(), VerifyError>;
	}
	pub trait Signing {
		fn sign_ecdsa(&mut self, key: &[u8; 32]) -> Result<[u8; 65], SigningError>;
		fn sign_eip191(&mut self, key: &[u8; 32]) -> Result<[u8; 65], SigningError>;
	}
}
pub mod signature {
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	#[repr(u8)]
	pub enum SignatureVersion {
		SR25519 = 0,
		ED25519 = 1,
		ECDSA = 2,
		EIP191 = 3,
	}
	pub mod crypto {
		use super::super::error::*;
		use shim::secp;
		fn hash(version: u8, msg: &[u8]) -> Option<[u8; 32]> {
			match version {
				2 => Some(shim::sp_io::hashing::keccak_256(msg)),
				3 => {
					let mut v = format!("\x19Ethereum Signed Message:\n{}", msg.len()).into_bytes();
					v.extend_from_slice(msg);
					Some(shim::sp_io::hashing::keccak_256(&v))
				},
				_ => None,
			}
		}
		pub fn verify_signature(version: u8, sig: &[u8], signer: &[u8], msg: &[u8]) -> Result<(), VerifyError> {
			let h = hash(version, msg).ok_or(VerifyError::UnsupportedVersion)?;
			let sig: [u8; 65] = sig.try_into().map_err(|_| VerifyError::Invalid)?;
			match secp::recover(&sig, &h) {
				Some(p) if secp::compress(&p)[..] == *signer => Ok(()),
				_ => Err(VerifyError::Invalid),
			}
		}
		pub fn sign_ecdsa(key: &[u8; 32], msg: &[u8]) -> Result<[u8; 65], SigningError> {
			Ok(secp::sign(key, &hash(2, msg).unwrap()))
		}
		pub fn sign_eip191(key: &[u8; 32], msg: &[u8]) -> Result<[u8; 65], SigningError> {
			Ok(secp::sign(key, &hash(3, msg).unwrap()))
		}
	}
}
pub mod doughnut {
	use super::*;
	use error::*;
	use traits::*;
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub struct DoughnutV0 {
		pub issuer: [u8; 32],
		pub holder: [u8; 32],
		pub toppings: Vec<(String, Vec<u8>)>,
		pub expiry: u32,
		pub not_before: u32,
		pub payload_version: u16,
		pub signature_version: u8,
		pub signature: shim::sp_core::H512,
	}
	#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
	pub struct DoughnutV1 {
		pub issuer: [u8; 33],
		pub holder: [u8; 33],
		pub fee_mode: u8,
		pub toppings: Vec<(String, Vec<u8>)>,
		pub expiry: u32,
		pub not_before: u32,
		pub payload_version: u16,
		pub signature_version: u8,
		pub signature: [u8; 65],
	}
	impl DoughnutV1 {
		pub fn payload(&self) -> Vec<u8> {
			(self.issuer, self.holder, self.fee_mode, &self.toppings, self.expiry, self.not_before, self.payload_version, self.signature_version).encode()
		}
	}
	impl DoughnutApi for DoughnutV1 {
		fn holder(&self) -> [u8; 33] {
			self.holder
		}
		fn issuer(&self) -> [u8; 33] {
			self.issuer
		}
		fn fee_payer(&self) -> [u8; 33] {
			if self.fee_mode == FeeMode::ISSUER as u8 {
				self.issuer
			} else {
				self.holder
			}
		}
		fn validate<N: TryInto<u32>>(&self, who: [u8; 33], now: N) -> Result<(), ValidationError> {
			if who != self.holder {
				return Err(ValidationError::HolderIdentityMismatched);
			}
			let now = now.try_into().map_err(|_| ValidationError::ConversionFailed)?;
			if now < self.not_before {
				return Err(ValidationError::Premature);
			}
			if now >= self.expiry {
				return Err(ValidationError::Expired);
			}
			Ok(())
		}
		fn get_topping(&self, domain: &str) -> Option<&[u8]> {
			self.toppings.iter().find(|(d, _)| d == domain).map(|(_, p)| &p[..])
		}
	}
	impl DoughnutVerify for DoughnutV1 {
		fn verify(&self) -> Result<(), VerifyError> {
			signature::crypto::verify_signature(self.signature_version, &self.signature, &self.issuer, &self.payload())
		}
	}
	impl Signing for DoughnutV1 {
		fn sign_ecdsa(&mut self, key: &[u8; 32]) -> Result<[u8; 65], SigningError> {
			self.signature_version = signature::SignatureVersion::ECDSA as u8;
			self.signature = signature::crypto::sign_ecdsa(key, &self.payload())?;
			Ok(self.signature)
		}
		fn sign_eip191(&mut self, key: &[u8; 32]) -> Result<[u8; 65], SigningError> {
			self.signature_version = signature::SignatureVersion::EIP191 as u8;
			self.signature = signature::crypto::sign_eip191(key, &self.payload())?;
			Ok(self.signature)
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum Doughnut {
		V0(DoughnutV0),
		V1(DoughnutV1),
	}
	impl Doughnut {
		pub fn encode(&self) -> Vec<u8> {
			match self {
				Doughnut::V0(d) => (0u16, d).encode(),
				Doughnut::V1(d) => (1u16, d).encode(),
			}
		}
		pub fn decode(input: &mut &[u8]) -> Result<Self, CodecError> {
			match u16::decode(input)? {
				0 => Ok(Doughnut::V0(Decode::decode(input)?)),
				1 => Ok(Doughnut::V1(Decode::decode(input)?)),
				_ => Err("unsupported version".into()),
			}
		}
	}
	pub mod topping {
		use shim::codec::{Decode, Encode};
		pub mod method {
			use super::*;
			#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
			pub struct Method {
				pub name: String,
				pub block_cooldown: Option<u32>,
				pub constraints: Option<Vec<u8>>,
			}
		}
		pub mod module {
			use super::*;
			#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
			pub struct Module {
				pub name: String,
				pub block_cooldown: Option<u32>,
				pub methods: Vec<super::method::Method>,
			}
		}
	}
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Topping {
	pub modules: Vec<doughnut::topping::module::Module>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ToppingError {
	Permission,
	Constraint,
}
impl Topping {
	/// Exact names take precedence over the `*` wildcard.
	pub fn validate_module(&self, module: &str, method: &str, args: &[pact::types::PactType]) -> Result<(), ToppingError> {
		let m = self
			.modules
			.iter()
			.find(|m| m.name == module)
			.or_else(|| self.modules.iter().find(|m| m.name == "*"))
			.ok_or(ToppingError::Permission)?;
		let f = m
			.methods
			.iter()
			.find(|f| f.name == method)
			.or_else(|| m.methods.iter().find(|f| f.name == "*"))
			.ok_or(ToppingError::Permission)?;
		if let Some(c) = &f.constraints {
			let clauses = Vec::<pact::Clause>::decode(&mut &c[..]).map_err(|_| ToppingError::Constraint)?;
			if !clauses.iter().all(|c| c.holds(args)) {
				return Err(ToppingError::Constraint);
			}
		}
		Ok(())
	}
}
