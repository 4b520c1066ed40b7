//! The part of frame-executive + fp-self-contained the repository's tests and this harness use:
//! validating and applying self-contained extrinsics. A refused extrinsic leaves no trace, as
//! the block builder discards it.
use crate::fp_self_contained::*;
use crate::prelude::*;
use shim::sp_runtime::transaction_validity::*;
pub struct Executive<T, B, C, U, P>(PhantomData<(T, B, C, U, P)>);
impl<T, H, Addr, Call, Sig, Extra, C, U, P> Executive<T, shim::sp_runtime::generic::Block<H, UncheckedExtrinsic<Addr, Call, Sig, Extra>>, C, U, P>
where
	T: frame_system::Config,
	UncheckedExtrinsic<Addr, Call, Sig, Extra>: Encode,
	Call: SelfContainedCall<Info = DispatchInfo, PostInfo = PostDispatchInfo> + GetDispatchInfo,
{
	pub fn validate_transaction(_s: TransactionSource, xt: UncheckedExtrinsic<Addr, Call, Sig, Extra>, _h: T::Hash) -> TransactionValidity {
		let len = xt.encode().len();
		shim::ext::begin();
		let r = (|| {
			if xt.signature.is_some() || !xt.function.is_self_contained() {
				return Err(InvalidTransaction::Call.into());
			}
			let info = xt.function.check_self_contained().ok_or(TransactionValidityError::Invalid(InvalidTransaction::BadProof))??;
			xt.function
				.validate_self_contained(&info, &xt.function.get_dispatch_info(), len)
				.ok_or(TransactionValidityError::Invalid(InvalidTransaction::BadProof))?
		})();
		shim::ext::rollback();
		r
	}
	pub fn apply_extrinsic(xt: UncheckedExtrinsic<Addr, Call, Sig, Extra>) -> Result<Result<(), DispatchError>, TransactionValidityError> {
		let len = xt.encode().len();
		shim::ext::begin();
		let r = (|| {
			if xt.signature.is_some() || !xt.function.is_self_contained() {
				return Err(InvalidTransaction::Call.into());
			}
			let info = xt.function.check_self_contained().ok_or(TransactionValidityError::Invalid(InvalidTransaction::BadProof))??;
			let di = xt.function.get_dispatch_info();
			xt.function
				.pre_dispatch_self_contained(&info, &di, len)
				.ok_or(TransactionValidityError::Invalid(InvalidTransaction::BadProof))??;
			let res = xt
				.function
				.apply_self_contained(info, &di, len)
				.ok_or(TransactionValidityError::Invalid(InvalidTransaction::BadProof))?;
			Ok(res.map(|_| ()).map_err(|e| e.error))
		})();
		if r.is_ok() {
			shim::ext::commit()
		} else {
			shim::ext::rollback()
		}
		r
	}
}
