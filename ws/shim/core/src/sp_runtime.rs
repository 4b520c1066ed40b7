//! sp-runtime stand-in.
pub use crate::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
use crate::codec::*;
pub use crate::sp_arithmetic::{
	self, traits::SaturatedConversion, traits::Saturating, ArithmeticError, FixedPointNumber, FixedPointOperand, FixedU128, PerThing,
	PerU16, Perbill, Percent, Permill, Perquintill, Rounding,
};
pub use crate::sp_core::crypto::{key_types, KeyTypeId};
pub use crate::sp_core::storage::Storage;
pub use crate::sp_core::{AccountId32, RuntimeDebug};
pub use serde;
pub type ConsensusEngineId = [u8; 4];
pub type Justification = (ConsensusEngineId, Vec<u8>);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum StateVersion {
	V0,
	V1,
}
pub type TryRuntimeError = DispatchError;
pub trait BuildStorage {
	fn build_storage(&self) -> Result<Storage, String> {
		let mut s = Default::default();
		self.assimilate_storage(&mut s)?;
		Ok(s)
	}
	fn assimilate_storage(&self, s: &mut Storage) -> Result<(), String>;
}
impl BuildStorage for () {
	fn assimilate_storage(&self, _: &mut Storage) -> Result<(), String> {
		Ok(())
	}
}
impl BuildStorage for Storage {
	fn assimilate_storage(&self, s: &mut Storage) -> Result<(), String> {
		s.top.extend(self.top.iter().map(|(k, v)| (k.clone(), v.clone())));
		Ok(())
	}
}
pub const MAX_MODULE_ERROR_ENCODED_SIZE: usize = 4;
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; 4],
	#[codec(skip)]
	#[serde(skip_deserializing)]
	pub message: Option<&'static str>,
}
impl PartialEq for ModuleError {
	fn eq(&self, o: &Self) -> bool {
		self.index == o.index && self.error == o.error
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, PartialEq, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum DispatchError {
	Other(
		#[codec(skip)]
		#[serde(skip_deserializing)]
		&'static str,
	),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl DispatchError {
	pub fn stripped(self) -> Self {
		match self {
			DispatchError::Module(m) => DispatchError::Module(ModuleError { message: None, ..m }),
			x => x,
		}
	}
}
pub type DispatchResult = Result<(), DispatchError>;
pub type DispatchOutcome = Result<(), DispatchError>;
pub type ApplyExtrinsicResult = Result<DispatchOutcome, transaction_validity::TransactionValidityError>;
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug)]
pub struct DispatchErrorWithPostInfo<Info>
where
	Info: Eq + PartialEq + Clone + Copy + Encode + Decode,
{
	pub post_info: Info,
	pub error: DispatchError,
}
impl<T, E> From<E> for DispatchErrorWithPostInfo<T>
where
	T: Eq + PartialEq + Clone + Copy + Encode + Decode + Default,
	E: Into<DispatchError>,
{
	fn from(e: E) -> Self {
		Self { post_info: Default::default(), error: e.into() }
	}
}
impl From<&'static str> for DispatchError {
	fn from(e: &'static str) -> Self {
		Self::Other(e)
	}
}
impl From<traits::LookupError> for DispatchError {
	fn from(_: traits::LookupError) -> Self {
		Self::CannotLookup
	}
}
impl From<traits::BadOrigin> for DispatchError {
	fn from(_: traits::BadOrigin) -> Self {
		Self::BadOrigin
	}
}
impl From<TokenError> for DispatchError {
	fn from(e: TokenError) -> Self {
		Self::Token(e)
	}
}
impl From<ArithmeticError> for DispatchError {
	fn from(e: ArithmeticError) -> Self {
		Self::Arithmetic(e)
	}
}
impl From<TransactionalError> for DispatchError {
	fn from(e: TransactionalError) -> Self {
		Self::Transactional(e)
	}
}
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		match e {
			DispatchError::Other(m) => m,
			DispatchError::CannotLookup => "Cannot lookup",
			DispatchError::BadOrigin => "Bad origin",
			DispatchError::Module(m) => m.message.unwrap_or("Unknown module error"),
			DispatchError::ConsumerRemaining => "Consumer remaining",
			DispatchError::NoProviders => "No providers",
			DispatchError::TooManyConsumers => "Too many consumers",
			DispatchError::Token(e) => e.into(),
			DispatchError::Arithmetic(e) => e.into(),
			_ => "Other dispatch error",
		}
	}
}
impl From<TokenError> for &'static str {
	fn from(e: TokenError) -> &'static str {
		match e {
			TokenError::FundsUnavailable => "Funds are unavailable",
			TokenError::OnlyProvider => "Account that must exist would die",
			TokenError::BelowMinimum => "Account cannot exist with the funds that would be given",
			TokenError::CannotCreate => "Account cannot be created",
			TokenError::UnknownAsset => "The asset in question is unknown",
			TokenError::Frozen => "Funds exist but are frozen",
			TokenError::Unsupported => "Operation is not supported by the asset",
			TokenError::CannotCreateHold => "Account cannot be created for recording amount on hold",
			TokenError::NotExpendable => "Account that is desired to remain would die",
			TokenError::Blocked => "Account cannot receive the assets",
		}
	}
}
impl core::fmt::Display for DispatchError {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		f.write_str((*self).into())
	}
}
pub trait RuntimeAppPublic: Sized {
	const ID: KeyTypeId;
	type Signature: crate::codec::Codec + crate::codec::EncodeLike + core::fmt::Debug + Eq + PartialEq + Clone;
	fn all() -> Vec<Self>;
	fn generate_pair(seed: Option<Vec<u8>>) -> Self;
	fn sign<M: AsRef<[u8]>>(&self, m: &M) -> Option<Self::Signature>;
	fn verify<M: AsRef<[u8]>>(&self, m: &M, s: &Self::Signature) -> bool;
	fn to_raw_vec(&self) -> Vec<u8>;
}
pub trait BoundToRuntimeAppPublic {
	type Public;
}
#[macro_export]
macro_rules! impl_opaque_keys_stub {
	($($t:tt)*) => {};
}
pub use crate::impl_opaque_keys_stub as impl_opaque_keys;
#[macro_export]
macro_rules! sp_runtime_print { ($($t:tt)*) => {} }
pub fn print<T>(_: T) {}
#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, Default)]
pub struct OpaqueExtrinsic(pub Vec<u8>);
impl OpaqueExtrinsic {
	pub fn from_bytes(mut b: &[u8]) -> Result<Self, Error> {
		Self::decode(&mut b)
	}
}
impl traits::Extrinsic for OpaqueExtrinsic {
	type Call = ();
	type SignaturePayload = ();
}
#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, MaxEncodedLen)]
pub enum MultiSignature {
	Ed25519(crate::sp_core::ed25519::Signature),
	Sr25519(crate::sp_core::sr25519::Signature),
	Ecdsa(crate::sp_core::ecdsa::Signature),
}
pub mod offchain {
	pub use crate::sp_core::offchain::*;
	#[macro_use]
	pub mod http {
		use crate::sp_core::offchain::Timestamp;
		#[derive(Clone, Debug, PartialEq, Eq)]
		pub enum Error {
			DeadlineReached,
			IoError,
			Unknown,
		}
		#[derive(Clone, Debug)]
		pub enum Method {
			Get,
			Post,
		}
		#[derive(Clone, Debug)]
		pub struct Request<'a, T = Vec<Vec<u8>>> {
			pub url: &'a str,
			body: T,
		}
		impl<'a, T: AsRef<[u8]>> Request<'a, Vec<T>> {
			pub fn post(url: &'a str, body: Vec<T>) -> Self {
				Request { url, body }
			}
			pub fn deadline(self, _: Timestamp) -> Self {
				self
			}
			pub fn add_header(self, _: &str, _: &str) -> Self {
				self
			}
			pub fn send(self) -> Result<PendingRequest, ()> {
				let body: Vec<u8> = self.body.iter().flat_map(|x| x.as_ref().to_vec()).collect();
				let url = self.url.to_string();
				Ok(PendingRequest { response: HANDLER.with(|h| h.borrow().as_ref().map(|f| f(&url, &body))) })
			}
		}
		impl<'a> Request<'a, Vec<&'static [u8]>> {
			pub fn get(url: &'a str) -> Self {
				Request { url, body: vec![] }
			}
		}
		pub type HandlerFn = Box<dyn Fn(&str, &[u8]) -> Result<(u16, Vec<u8>), Error>>;
		thread_local! { pub static HANDLER: std::cell::RefCell<Option<HandlerFn>> = Default::default(); }
		#[derive(Debug)]
		pub struct PendingRequest {
			response: Option<Result<(u16, Vec<u8>), Error>>,
		}
		impl PendingRequest {
			pub fn wait(self) -> Result<Response, Error> {
				match self.response {
					None => Err(Error::IoError),
					Some(Err(e)) => Err(e),
					Some(Ok((code, b))) => Ok(Response { code, b }),
				}
			}
			pub fn try_wait(self, _: impl Into<Option<Timestamp>>) -> Result<Result<Response, Error>, PendingRequest> {
				match self.response {
					Some(Err(Error::DeadlineReached)) => Err(PendingRequest { response: self.response }),
					_ => Ok(self.wait()),
				}
			}
		}
		#[derive(Debug)]
		pub struct Response {
			pub code: u16,
			b: Vec<u8>,
		}
		impl Response {
			pub fn body(&self) -> std::vec::IntoIter<u8> {
				self.b.clone().into_iter()
			}
		}
	}
	pub mod storage_lock {}
}
pub mod transaction_validity {
	use crate::codec::*;
	pub type TransactionPriority = u64;
	pub type TransactionLongevity = u64;
	pub type TransactionTag = Vec<u8>;
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug)]
	pub enum InvalidTransaction {
		Call,
		Payment,
		Future,
		Stale,
		BadProof,
		AncientBirthBlock,
		ExhaustsResources,
		Custom(u8),
		BadMandatory,
		MandatoryValidation,
		BadSigner,
	}
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug)]
	pub enum UnknownTransaction {
		CannotLookup,
		NoUnsignedValidator,
		Custom(u8),
	}
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug)]
	pub enum TransactionValidityError {
		Invalid(InvalidTransaction),
		Unknown(UnknownTransaction),
	}
	impl TransactionValidityError {
		pub fn exhausted_resources(&self) -> bool {
			matches!(self, Self::Invalid(InvalidTransaction::ExhaustsResources))
		}
	}
	impl From<InvalidTransaction> for TransactionValidityError {
		fn from(e: InvalidTransaction) -> Self {
			Self::Invalid(e)
		}
	}
	impl From<UnknownTransaction> for TransactionValidityError {
		fn from(e: UnknownTransaction) -> Self {
			Self::Unknown(e)
		}
	}
	impl From<InvalidTransaction> for TransactionValidity {
		fn from(e: InvalidTransaction) -> Self {
			Err(e.into())
		}
	}
	impl From<UnknownTransaction> for TransactionValidity {
		fn from(e: UnknownTransaction) -> Self {
			Err(e.into())
		}
	}
	impl From<InvalidTransaction> for &'static str {
		fn from(_: InvalidTransaction) -> &'static str {
			"invalid transaction"
		}
	}
	pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
	#[derive(Clone, Copy, PartialEq, Eq, Encode, Decode, Debug)]
	pub enum TransactionSource {
		InBlock,
		Local,
		External,
	}
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Debug)]
	pub struct ValidTransaction {
		pub priority: u64,
		pub requires: Vec<Vec<u8>>,
		pub provides: Vec<Vec<u8>>,
		pub longevity: u64,
		pub propagate: bool,
	}
	impl Default for ValidTransaction {
		fn default() -> Self {
			Self { priority: 0, requires: vec![], provides: vec![], longevity: u64::MAX, propagate: true }
		}
	}
	impl ValidTransaction {
		pub fn with_tag_prefix(p: &'static str) -> ValidTransactionBuilder {
			ValidTransactionBuilder { prefix: Some(p), validity: Default::default() }
		}
		pub fn combine_with(mut self, mut o: ValidTransaction) -> Self {
			self.priority = self.priority.saturating_add(o.priority);
			self.requires.append(&mut o.requires);
			self.provides.append(&mut o.provides);
			self.longevity = self.longevity.min(o.longevity);
			self.propagate = self.propagate && o.propagate;
			self
		}
	}
	#[derive(Default, Clone, Debug)]
	pub struct ValidTransactionBuilder {
		prefix: Option<&'static str>,
		validity: ValidTransaction,
	}
	impl ValidTransactionBuilder {
		pub fn priority(mut self, p: u64) -> Self {
			self.validity.priority = p;
			self
		}
		pub fn longevity(mut self, p: u64) -> Self {
			self.validity.longevity = p;
			self
		}
		pub fn propagate(mut self, p: bool) -> Self {
			self.validity.propagate = p;
			self
		}
		fn tag<T: Encode>(&self, t: T) -> Vec<u8> {
			match self.prefix {
				Some(p) => (p, t).encode(),
				None => t.encode(),
			}
		}
		pub fn and_requires<T: Encode>(mut self, t: T) -> Self {
			let t = self.tag(t);
			self.validity.requires.push(t);
			self
		}
		pub fn and_provides<T: Encode>(mut self, t: T) -> Self {
			let t = self.tag(t);
			self.validity.provides.push(t);
			self
		}
		pub fn combine_with(mut self, v: ValidTransaction) -> Self {
			self.validity = core::mem::take(&mut self.validity).combine_with(v);
			self
		}
		pub fn build(self) -> TransactionValidity {
			Ok(self.validity)
		}
	}
	impl From<ValidTransactionBuilder> for TransactionValidity {
		fn from(b: ValidTransactionBuilder) -> Self {
			b.build()
		}
	}
}
pub mod traits {
	pub use crate::bounded::{ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get};
	use super::transaction_validity::*;
	use crate::codec::*;
	
	pub use crate::sp_arithmetic::traits::*;
	use core::fmt::{Debug, Display};
	pub use crate::sp_core::crypto::TypeId as TypeIdTrait;
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct BadOrigin;
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct LookupError;
	impl From<LookupError> for &'static str {
		fn from(_: LookupError) -> &'static str {
			"Can not lookup"
		}
	}
	impl From<BadOrigin> for &'static str {
		fn from(_: BadOrigin) -> &'static str {
			"Bad origin"
		}
	}
	impl From<LookupError> for TransactionValidityError {
		fn from(_: LookupError) -> Self {
			UnknownTransaction::CannotLookup.into()
		}
	}
	pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
	impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
	pub trait MaybeSerialize {}
	impl<T> MaybeSerialize for T {}
	pub trait MaybeSerializeDeserialize {}
	impl<T> MaybeSerializeDeserialize for T {}
	pub trait MaybeDisplay: Display {}
	impl<T: Display> MaybeDisplay for T {}
	pub trait MaybeHash {}
	impl<T> MaybeHash for T {}
	pub trait MaybeFromStr {}
	impl<T> MaybeFromStr for T {}
	pub trait MaybeConst {}
	pub trait MaybeEquivalence<A, B> {
		fn convert(a: &A) -> Option<B>;
		fn convert_back(b: &B) -> Option<A>;
	}
	pub trait Convert<A, B> {
		fn convert(a: A) -> B;
	}
	impl<A, B: Default> Convert<A, B> for () {
		fn convert(_: A) -> B {
			Default::default()
		}
	}
	pub struct Identity;
	impl<T> Convert<T, T> for Identity {
		fn convert(t: T) -> T {
			t
		}
	}
	pub struct ConvertInto;
	impl<A: Into<B>, B> Convert<A, B> for ConvertInto {
		fn convert(a: A) -> B {
			a.into()
		}
	}
	pub trait StaticLookup {
		type Source: Codec + Clone + PartialEq + Debug;
		type Target;
		fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
		fn unlookup(t: Self::Target) -> Self::Source;
	}
	pub struct IdentityLookup<T>(core::marker::PhantomData<T>);
	impl<T: Codec + Clone + PartialEq + Debug> StaticLookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(x: T) -> Result<T, LookupError> {
			Ok(x)
		}
		fn unlookup(x: T) -> T {
			x
		}
	}
	impl<T> Lookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(&self, x: T) -> Result<T, LookupError> {
			Ok(x)
		}
	}
	pub struct AccountIdLookup<A, I>(core::marker::PhantomData<(A, I)>);
	pub trait Lookup {
		type Source;
		type Target;
		fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
	}
	pub trait IdentifyAccount {
		type AccountId;
		fn into_account(self) -> Self::AccountId;
	}
	pub trait Lazy<T: ?Sized> {
		fn get(&mut self) -> &T;
	}
	impl<'a> Lazy<[u8]> for &'a [u8] {
		fn get(&mut self) -> &[u8] {
			self
		}
	}
	pub trait Verify {
		type Signer: IdentifyAccount;
		fn verify<L: Lazy<[u8]>>(&self, msg: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool;
	}
	impl IdentifyAccount for crate::sp_core::ecdsa::Public {
		type AccountId = Self;
		fn into_account(self) -> Self {
			self
		}
	}
	impl IdentifyAccount for crate::sp_core::ed25519::Public {
		type AccountId = Self;
		fn into_account(self) -> Self {
			self
		}
	}
	impl Verify for crate::sp_core::ed25519::Signature {
		type Signer = crate::sp_core::ed25519::Public;
		fn verify<L: Lazy<[u8]>>(&self, mut msg: L, signer: &crate::sp_core::ed25519::Public) -> bool {
			<crate::sp_core::ed25519::Pair as crate::sp_core::Pair>::verify(self, msg.get(), signer)
		}
	}
	pub trait Hash: 'static + Debug + Clone + Eq + PartialEq {
		type Output: Member + Debug + core::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + Copy + Default + Codec + EncodeLike + MaxEncodedLen + Ord + From<crate::num::H256> + Into<crate::num::H256>;
		fn hash(s: &[u8]) -> Self::Output;
		fn hash_of<S: Encode>(s: &S) -> Self::Output {
			Encode::using_encoded(s, Self::hash)
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug)]
	pub struct BlakeTwo256;
	impl Hash for BlakeTwo256 {
		type Output = crate::num::H256;
		fn hash(s: &[u8]) -> crate::num::H256 {
			crate::num::H256(crate::hashing::blake2_256(s))
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug)]
	pub struct Keccak256;
	impl Hash for Keccak256 {
		type Output = crate::num::H256;
		fn hash(s: &[u8]) -> crate::num::H256 {
			crate::num::H256(crate::hashing::keccak_256(s))
		}
	}
	pub trait CheckEqual {
		fn check_equal(&self, o: &Self);
	}
	pub trait SimpleBitOps: Sized {}
	impl<T> SimpleBitOps for T {}
	pub trait MaybeDebug: Debug {}
	impl<T: Debug> MaybeDebug for T {}
	pub trait Header: Clone + Send + Sync + Codec + Eq + Debug + 'static {
		type Number: Member + Debug + core::hash::Hash + Copy + Display + AtLeast32BitUnsigned + Codec + EncodeLike + MaxEncodedLen + Default + core::str::FromStr + From<u32> + Into<crate::num::U256>;
		type Hash: Member + core::hash::Hash + Copy + Default + Codec + EncodeLike + AsRef<[u8]> + MaxEncodedLen + Ord;
		type Hashing: Hash<Output = Self::Hash>;
		fn new(n: Self::Number, er: Self::Hash, sr: Self::Hash, ph: Self::Hash, d: super::generic::Digest) -> Self;
		fn number(&self) -> &Self::Number;
		fn parent_hash(&self) -> &Self::Hash;
		fn digest(&self) -> &super::generic::Digest;
		fn hash(&self) -> Self::Hash {
			<Self::Hashing as Hash>::hash_of(self)
		}
	}
	pub trait HeaderProvider {
		type HeaderT: Header;
	}
	pub trait Extrinsic: Sized {
		type Call;
		type SignaturePayload;
		fn is_signed(&self) -> Option<bool> {
			None
		}
		fn new(_: Self::Call, _: Option<Self::SignaturePayload>) -> Option<Self> {
			None
		}
	}
	pub trait ExtrinsicMetadata {}
	pub trait Block: HeaderProvider<HeaderT = <Self as Block>::Header> + Clone + Send + Sync + Codec + Eq + Debug + 'static {
		type Extrinsic: Member + Codec;
		type Header: Header<Hash = Self::Hash>;
		type Hash: Member + core::hash::Hash + Copy + Default + Codec + AsRef<[u8]> + Ord;
		fn header(&self) -> &Self::Header;
		fn extrinsics(&self) -> &[Self::Extrinsic];
		fn hash(&self) -> Self::Hash {
			<Self::Header as Header>::hash(self.header())
		}
	}
	pub type NumberFor<B> = <<B as Block>::Header as Header>::Number;
	pub type HashFor<B> = <B as Block>::Hash;
	pub trait BlockNumber {}
	pub trait BlockNumberProvider {
		type BlockNumber;
		fn current_block_number() -> Self::BlockNumber;
	}
	pub trait DispatchableBound {}
	pub trait Dispatchable {
		type RuntimeOrigin: Debug;
		type Config;
		type Info;
		type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Debug;
		fn dispatch(self, o: Self::RuntimeOrigin) -> super::DispatchResultWithInfo<Self::PostInfo>;
	}
	pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
	pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
	impl Dispatchable for () {
		type RuntimeOrigin = ();
		type Config = ();
		type Info = ();
		type PostInfo = ();
		fn dispatch(self, _: ()) -> super::DispatchResultWithInfo<()> {
			panic!("This implementation should not be used for actual dispatch.")
		}
	}
	pub trait SignedExtension: Codec + Debug + Sync + Send + Clone + Eq + PartialEq {
		const IDENTIFIER: &'static str;
		type AccountId;
		type Call: Dispatchable;
		type AdditionalSigned: Encode;
		type Pre;
		fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
		fn validate(&self, _w: &Self::AccountId, _c: &Self::Call, _i: &DispatchInfoOf<Self::Call>, _l: usize) -> TransactionValidity {
			Ok(Default::default())
		}
		fn pre_dispatch(self, w: &Self::AccountId, c: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<Self::Pre, TransactionValidityError>;
		fn validate_unsigned(_c: &Self::Call, _i: &DispatchInfoOf<Self::Call>, _l: usize) -> TransactionValidity {
			Ok(Default::default())
		}
		fn pre_dispatch_unsigned(c: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<(), TransactionValidityError> {
			Self::validate_unsigned(c, i, l).map(|_| ())
		}
		fn post_dispatch(_pre: Option<Self::Pre>, _i: &DispatchInfoOf<Self::Call>, _p: &PostDispatchInfoOf<Self::Call>, _l: usize, _r: &super::DispatchResult) -> Result<(), TransactionValidityError> {
			Ok(())
		}
	}
	macro_rules! tuple_se { ($($i:ident $n:tt),*) => {
		impl<AccountId, Call: Dispatchable, $($i: SignedExtension<AccountId = AccountId, Call = Call>),*> SignedExtension for ($($i,)*) {
			const IDENTIFIER: &'static str = "You should call `identifier()`!";
			type AccountId = AccountId;
			type Call = Call;
			type AdditionalSigned = ($($i::AdditionalSigned,)*);
			type Pre = ($($i::Pre,)*);
			fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError> { Ok(($(self.$n.additional_signed()?,)*)) }
			fn validate(&self, w: &AccountId, c: &Call, i: &DispatchInfoOf<Call>, l: usize) -> TransactionValidity {
				let v = ValidTransaction::default();
				$(let v = v.combine_with(self.$n.validate(w, c, i, l)?);)*
				Ok(v)
			}
			fn pre_dispatch(self, w: &AccountId, c: &Call, i: &DispatchInfoOf<Call>, l: usize) -> Result<Self::Pre, TransactionValidityError> { Ok(($(self.$n.pre_dispatch(w, c, i, l)?,)*)) }
			fn post_dispatch(pre: Option<Self::Pre>, i: &DispatchInfoOf<Call>, p: &PostDispatchInfoOf<Call>, l: usize, r: &crate::sp_runtime::DispatchResult) -> Result<(), TransactionValidityError> {
				match pre { Some(pre) => { $($i::post_dispatch(Some(pre.$n), i, p, l, r)?;)* } None => { $($i::post_dispatch(None, i, p, l, r)?;)* } }
				Ok(())
			}
		}
	}}
	tuple_se!(A 0);
	tuple_se!(A 0, B 1);
	tuple_se!(A 0, B 1, C 2);
	tuple_se!(A 0, B 1, C 2, D 3);
	tuple_se!(A 0, B 1, C 2, D 3, E 4);
	tuple_se!(A 0, B 1, C 2, D 3, E 4, F 5);
	tuple_se!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
	tuple_se!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
	tuple_se!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, J 8);
	pub trait Applyable: Sized + Send + Sync {
		type Call: Dispatchable;
		fn validate<V: ValidateUnsigned<Call = Self::Call>>(&self, s: TransactionSource, i: &DispatchInfoOf<Self::Call>, l: usize) -> TransactionValidity;
		fn apply<V: ValidateUnsigned<Call = Self::Call>>(self, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<super::DispatchResultWithInfo<PostDispatchInfoOf<Self::Call>>, TransactionValidityError>;
	}
	pub trait GetRuntimeBlockType {
		type RuntimeBlock;
	}
	pub trait Checkable<C>: Sized {
		type Checked;
		fn check(self, c: &C) -> Result<Self::Checked, TransactionValidityError>;
	}
	pub trait ValidateUnsigned {
		type Call;
		fn pre_dispatch(c: &Self::Call) -> Result<(), TransactionValidityError> {
			Self::validate_unsigned(TransactionSource::InBlock, c).map(|_| ()).map_err(Into::into)
		}
		fn validate_unsigned(s: TransactionSource, c: &Self::Call) -> TransactionValidity;
	}
	pub trait OpaqueKeys: Clone {
		type KeyTypeIdProviders;
	}
	pub trait AppVerify {}
	pub struct TrailingZeroInput<'a>(pub &'a [u8]);
	impl<'a> TrailingZeroInput<'a> {
		pub fn new(d: &'a [u8]) -> Self {
			Self(d)
		}
		pub fn zeroes() -> Self {
			Self(&[])
		}
	}
	impl<'a> Input for TrailingZeroInput<'a> {
		fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
			Ok(None)
		}
		fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
			let n = into.len().min(self.0.len());
			into[..n].copy_from_slice(&self.0[..n]);
			for b in &mut into[n..] {
				*b = 0;
			}
			self.0 = &self.0[n..];
			Ok(())
		}
	}
	/// Account derivation: `TYPE_ID ++ id ++ sub`, zero padded / truncated to the account width.
	pub trait AccountIdConversion<AccountId>: Sized {
		fn into_account_truncating(&self) -> AccountId {
			self.into_sub_account_truncating(())
		}
		fn try_into_account(&self) -> Option<AccountId> {
			self.try_into_sub_account(())
		}
		fn try_from_account(a: &AccountId) -> Option<Self> {
			Self::try_from_sub_account::<()>(a).map(|x| x.0)
		}
		fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
		fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<AccountId>;
		fn try_from_sub_account<S: Decode>(x: &AccountId) -> Option<(Self, S)>;
	}
	impl<T: Encode + Decode, Id: Encode + Decode + crate::sp_core::crypto::TypeId> AccountIdConversion<T> for Id {
		fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> T {
			(Id::TYPE_ID, self, sub).using_encoded(|b| T::decode(&mut TrailingZeroInput(b)).expect("All byte sequences are valid `AccountIds`; qed"))
		}
		fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<T> {
			let e = (Id::TYPE_ID, self, sub).encode();
			if e.len() > T::encode(&T::decode(&mut TrailingZeroInput(&[])).ok()?).len() {
				return None;
			}
			T::decode(&mut TrailingZeroInput(&e)).ok()
		}
		fn try_from_sub_account<S: Decode>(x: &T) -> Option<(Self, S)> {
			x.using_encoded(|d| {
				if d.len() < 4 || d[0..4] != Id::TYPE_ID {
					return None;
				}
				let mut c = &d[4..];
				let r = Decode::decode(&mut c).ok()?;
				if c.iter().all(|x| *x == 0) {
					Some(r)
				} else {
					None
				}
			})
		}
	}
	pub trait ModifyExt {}
	pub trait Printable {
		fn print(&self);
	}
	pub trait StaticLookupStub {}
	pub trait TryConvert<A, B> {
		fn try_convert(a: A) -> Result<B, A>;
	}
	pub trait Accumulate {}
	pub trait Morph<A> {
		type Outcome;
		fn morph(a: A) -> Self::Outcome;
	}
}
pub mod generic {
	use super::traits::{self, *};
	use super::transaction_validity::*;
	use crate::codec::*;
	use crate::num::H256;
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, Default)]
	pub struct Digest {
		pub logs: Vec<DigestItem>,
	}
	impl Digest {
		pub fn logs(&self) -> &[DigestItem] {
			&self.logs
		}
		pub fn push(&mut self, i: DigestItem) {
			self.logs.push(i)
		}
		pub fn pop(&mut self) -> Option<DigestItem> {
			self.logs.pop()
		}
		pub fn convert_first<T, F: Fn(&DigestItem) -> Option<T>>(&self, p: F) -> Option<T> {
			self.logs.iter().find_map(p)
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug)]
	pub enum DigestItem {
		PreRuntime([u8; 4], Vec<u8>),
		Consensus([u8; 4], Vec<u8>),
		Seal([u8; 4], Vec<u8>),
		Other(Vec<u8>),
		RuntimeEnvironmentUpdated,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum OpaqueDigestItemId<'a> {
		PreRuntime(&'a [u8; 4]),
		Consensus(&'a [u8; 4]),
		Seal(&'a [u8; 4]),
		Other,
	}
	impl DigestItem {
		pub fn as_consensus(&self) -> Option<([u8; 4], &[u8])> {
			match self {
				DigestItem::Consensus(a, b) => Some((*a, b)),
				_ => None,
			}
		}
		pub fn as_pre_runtime(&self) -> Option<([u8; 4], &[u8])> {
			match self {
				DigestItem::PreRuntime(a, b) => Some((*a, b)),
				_ => None,
			}
		}
		pub fn try_to<T: Decode>(&self, id: OpaqueDigestItemId) -> Option<T> {
			let mut d: &[u8] = match (id, self) {
				(OpaqueDigestItemId::Consensus(w), DigestItem::Consensus(v, s)) if v == w => s,
				(OpaqueDigestItemId::Seal(w), DigestItem::Seal(v, s)) if v == w => s,
				(OpaqueDigestItemId::PreRuntime(w), DigestItem::PreRuntime(v, s)) if v == w => s,
				(OpaqueDigestItemId::Other, DigestItem::Other(s)) => s,
				_ => return None,
			};
			T::decode(&mut d).ok()
		}
	}
	impl Encode for DigestItem {
		fn encode_to<W: Output + ?Sized>(&self, w: &mut W) {
			match self {
				DigestItem::Other(v) => (0u8, v).encode_to(w),
				DigestItem::Consensus(a, v) => (4u8, a, v).encode_to(w),
				DigestItem::Seal(a, v) => (5u8, a, v).encode_to(w),
				DigestItem::PreRuntime(a, v) => (6u8, a, v).encode_to(w),
				DigestItem::RuntimeEnvironmentUpdated => 8u8.encode_to(w),
			}
		}
	}
	impl EncodeLike for DigestItem {}
	impl Decode for DigestItem {
		fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
			Ok(match i.read_byte()? {
				0 => DigestItem::Other(Decode::decode(i)?),
				4 => {
					let (a, b) = Decode::decode(i)?;
					DigestItem::Consensus(a, b)
				},
				5 => {
					let (a, b) = Decode::decode(i)?;
					DigestItem::Seal(a, b)
				},
				6 => {
					let (a, b) = Decode::decode(i)?;
					DigestItem::PreRuntime(a, b)
				},
				8 => DigestItem::RuntimeEnvironmentUpdated,
				_ => return Err("bad digest item".into()),
			})
		}
	}
	#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug)]
	pub struct Header<N: Copy + Into<crate::num::U256>, H: traits::Hash> {
		pub parent_hash: H::Output,
		#[codec(compact)]
		pub number: N,
		pub state_root: H::Output,
		pub extrinsics_root: H::Output,
		pub digest: Digest,
	}
	impl<N, H> traits::Header for Header<N, H>
	where
		N: Member + core::hash::Hash + Copy + core::fmt::Display + AtLeast32BitUnsigned + Codec + EncodeLike + MaxEncodedLen + Default + core::str::FromStr + From<u32> + Into<crate::num::U256> + HasCompact,
		H: traits::Hash + Send + Sync,
		Self: Codec,
	{
		type Number = N;
		type Hash = H::Output;
		type Hashing = H;
		fn new(number: N, er: H::Output, sr: H::Output, parent_hash: H::Output, digest: Digest) -> Self {
			Self { number, extrinsics_root: er, state_root: sr, parent_hash, digest }
		}
		fn number(&self) -> &N {
			&self.number
		}
		fn parent_hash(&self) -> &H::Output {
			&self.parent_hash
		}
		fn digest(&self) -> &Digest {
			&self.digest
		}
	}
	#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug)]
	pub struct Block<H, X> {
		pub header: H,
		pub extrinsics: Vec<X>,
	}
	impl<H: traits::Header, X> HeaderProvider for Block<H, X> {
		type HeaderT = H;
	}
	impl<H: traits::Header, X: Member + Codec> traits::Block for Block<H, X> {
		type Extrinsic = X;
		type Header = H;
		type Hash = H::Hash;
		fn header(&self) -> &H {
			&self.header
		}
		fn extrinsics(&self) -> &[X] {
			&self.extrinsics
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)]
	pub struct SignedBlock<B> {
		pub block: B,
	}
	#[derive(PartialEq, Eq, Clone, Copy, Debug)]
	pub enum BlockId<B: traits::Block> {
		Hash(B::Hash),
		Number(NumberFor<B>),
	}
	#[derive(PartialEq, Eq, Clone, Copy, Debug)]
	pub enum Era {
		Immortal,
		Mortal(u64, u64),
	}
	impl Era {
		pub fn immortal() -> Self {
			Era::Immortal
		}
		pub fn mortal(period: u64, current: u64) -> Self {
			let period = period.checked_next_power_of_two().unwrap_or(1 << 16).clamp(4, 1 << 16);
			let phase = current % period;
			let q = (period >> 12).max(1);
			Era::Mortal(period, phase / q * q)
		}
		pub fn birth(self, current: u64) -> u64 {
			match self {
				Era::Immortal => 0,
				Era::Mortal(p, ph) => (current.max(ph) - ph) / p * p + ph,
			}
		}
	}
	impl Encode for Era {
		fn encode_to<W: Output + ?Sized>(&self, w: &mut W) {
			match self {
				Era::Immortal => w.push_byte(0),
				Era::Mortal(p, ph) => {
					let q = (*p >> 12).max(1);
					let e = (p.trailing_zeros() - 1).max(1).min(15) as u16 | ((ph / q) << 4) as u16;
					e.encode_to(w)
				},
			}
		}
	}
	impl EncodeLike for Era {}
	impl Decode for Era {
		fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
			let f = i.read_byte()?;
			if f == 0 {
				return Ok(Era::Immortal);
			}
			let e = f as u64 + ((i.read_byte()? as u64) << 8);
			let p = 2 << (e % (1 << 4));
			let q = (p >> 12u64).max(1);
			let ph = (e >> 4) * q;
			if p >= 4 && ph < p {
				Ok(Era::Mortal(p, ph))
			} else {
				Err("Invalid period and phase".into())
			}
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug)]
	pub struct CheckedExtrinsic<AccountId, Call, Extra> {
		pub signed: Option<(AccountId, Extra)>,
		pub function: Call,
	}
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)]
	pub struct UncheckedExtrinsic<Address, Call, Signature, Extra> {
		pub signature: Option<(Address, Signature, Extra)>,
		pub function: Call,
	}
	impl<Address, Call, Signature, Extra> UncheckedExtrinsic<Address, Call, Signature, Extra> {
		pub fn new_signed(function: Call, a: Address, s: Signature, e: Extra) -> Self {
			Self { signature: Some((a, s, e)), function }
		}
		pub fn new_unsigned(function: Call) -> Self {
			Self { signature: None, function }
		}
	}
	impl<Address, Call, Signature, Extra> traits::Extrinsic for UncheckedExtrinsic<Address, Call, Signature, Extra> {
		type Call = Call;
		type SignaturePayload = (Address, Signature, Extra);
		fn is_signed(&self) -> Option<bool> {
			Some(self.signature.is_some())
		}
		fn new(function: Call, s: Option<Self::SignaturePayload>) -> Option<Self> {
			Some(Self { signature: s, function })
		}
	}
	pub struct SignedPayload<Call, Extra: SignedExtension>((Call, Extra, Extra::AdditionalSigned));
	impl<Call: Encode, Extra: SignedExtension> SignedPayload<Call, Extra> {
		pub fn new(c: Call, e: Extra) -> Result<Self, TransactionValidityError> {
			let a = e.additional_signed()?;
			Ok(Self((c, e, a)))
		}
		pub fn from_raw(c: Call, e: Extra, a: Extra::AdditionalSigned) -> Self {
			Self((c, e, a))
		}
		pub fn deconstruct(self) -> (Call, Extra, Extra::AdditionalSigned) {
			self.0
		}
	}
	impl<Call: Encode, Extra: SignedExtension> Encode for SignedPayload<Call, Extra> {
		fn encode_to<W: Output + ?Sized>(&self, w: &mut W) {
			let p = self.0.encode();
			if p.len() > 256 {
				crate::hashing::blake2_256(&p)[..].iter().for_each(|b| w.push_byte(*b))
			} else {
				w.write(&p)
			}
		}
	}
	impl<AccountId, Call, Extra, Origin> traits::Applyable for CheckedExtrinsic<AccountId, Call, Extra>
	where
		AccountId: Member + core::fmt::Display,
		Call: Member + Dispatchable<RuntimeOrigin = Origin>,
		Extra: SignedExtension<AccountId = AccountId, Call = Call>,
		Origin: From<Option<AccountId>>,
	{
		type Call = Call;
		fn validate<U: ValidateUnsigned<Call = Call>>(&self, s: TransactionSource, i: &DispatchInfoOf<Call>, l: usize) -> TransactionValidity {
			if let Some((ref id, ref e)) = self.signed {
				Extra::validate(e, id, &self.function, i, l)
			} else {
				let v = Extra::validate_unsigned(&self.function, i, l)?;
				let u = U::validate_unsigned(s, &self.function)?;
				Ok(v.combine_with(u))
			}
		}
		fn apply<U: ValidateUnsigned<Call = Call>>(self, i: &DispatchInfoOf<Call>, l: usize) -> Result<crate::sp_runtime::DispatchResultWithInfo<PostDispatchInfoOf<Call>>, TransactionValidityError> {
			let (who, pre) = if let Some((id, e)) = self.signed {
				let pre = Extra::pre_dispatch(e, &id, &self.function, i, l)?;
				(Some(id), Some(pre))
			} else {
				Extra::pre_dispatch_unsigned(&self.function, i, l)?;
				U::pre_dispatch(&self.function)?;
				(None, None)
			};
			let res = self.function.dispatch(Origin::from(who));
			let post = match res {
				Ok(p) => p,
				Err(e) => e.post_info,
			};
			Extra::post_dispatch(pre, i, &post, l, &res.as_ref().map(|_| ()).map_err(|e| e.error))?;
			Ok(res)
		}
	}
	const _: Option<H256> = None;
}
pub mod testing {
	pub use crate::num::H256;
	pub type Header = super::generic::Header<u64, super::traits::BlakeTwo256>;
	pub type Digest = super::generic::Digest;
	pub type Block<Xt> = super::generic::Block<Header, Xt>;
	use crate::codec::*;
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)]
	pub struct TestXt<Call, Extra> {
		pub signature: Option<(u64, Extra)>,
		pub call: Call,
	}
	impl<Call, Extra> TestXt<Call, Extra> {
		pub fn new(call: Call, signature: Option<(u64, Extra)>) -> Self {
			Self { call, signature }
		}
	}
	impl<Call: Codec + Sync + Send, Extra> super::traits::Extrinsic for TestXt<Call, Extra> {
		type Call = Call;
		type SignaturePayload = (u64, Extra);
		fn is_signed(&self) -> Option<bool> {
			Some(self.signature.is_some())
		}
		fn new(c: Call, s: Option<Self::SignaturePayload>) -> Option<Self> {
			Some(TestXt { signature: s, call: c })
		}
	}
	pub type MockCallU64 = u64;
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, MaxEncodedLen, Default, serde::Serialize, serde::Deserialize)]
	pub struct UintAuthorityId(pub u64);
	impl From<u64> for UintAuthorityId { fn from(x: u64) -> Self { UintAuthorityId(x) } }
}
