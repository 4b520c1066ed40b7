//! fp-self-contained: calls that carry their own proof of origin.
use crate::prelude::*;
use shim::sp_runtime::traits::{DispatchInfoOf, Dispatchable, PostDispatchInfoOf};
use shim::sp_runtime::transaction_validity::{TransactionValidity, TransactionValidityError};
pub trait SelfContainedCall: Dispatchable {
	type SignedInfo;
	fn is_self_contained(&self) -> bool;
	fn check_self_contained(&self) -> Option<Result<Self::SignedInfo, TransactionValidityError>>;
	fn validate_self_contained(&self, info: &Self::SignedInfo, dispatch_info: &DispatchInfoOf<Self>, len: usize) -> Option<TransactionValidity>;
	fn pre_dispatch_self_contained(
		&self,
		info: &Self::SignedInfo,
		dispatch_info: &DispatchInfoOf<Self>,
		len: usize,
	) -> Option<Result<(), TransactionValidityError>>;
	fn apply_self_contained(
		self,
		info: Self::SignedInfo,
		dispatch_info: &DispatchInfoOf<Self>,
		len: usize,
	) -> Option<shim::sp_runtime::DispatchResultWithInfo<PostDispatchInfoOf<Self>>>;
}
pub use shim::sp_runtime::generic::{CheckedExtrinsic, UncheckedExtrinsic};
