//! pallet-utility: batches.
pub use pallet::*;
pub trait WeightInfo {}
impl WeightInfo for () {}
#[shim::frame_support::pallet]
pub mod pallet {
	use crate::prelude::*;
	use shim::sp_runtime::traits::Dispatchable;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter
			+ Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo>
			+ GetDispatchInfo
			+ From<frame_system::Call<Self>>
			+ IsSubType<Call<Self>>
			+ IsType<<Self as frame_system::Config>::RuntimeCall>;
		type PalletsOrigin;
		type WeightInfo: super::WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		BatchInterrupted { index: u32, error: DispatchError },
		BatchCompleted,
		BatchCompletedWithErrors,
		ItemCompleted,
		ItemFailed { error: DispatchError },
	}
	#[pallet::error]
	pub enum Error<T> {
		TooManyCalls,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(calls.iter().map(|c| c.get_dispatch_info().weight).fold(Weight::zero(), |a, b| a.saturating_add(b)))]
		pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResult {
			if ensure_none(origin.clone()).is_ok() {
				return Err(shim::sp_runtime::traits::BadOrigin.into());
			}
			for (i, c) in calls.into_iter().enumerate() {
				if let Err(e) = c.dispatch(origin.clone()) {
					Self::deposit_event(Event::BatchInterrupted { index: i as u32, error: e.error });
					return Ok(());
				}
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(calls.iter().map(|c| c.get_dispatch_info().weight).fold(Weight::zero(), |a, b| a.saturating_add(b)))]
		pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResult {
			if ensure_none(origin.clone()).is_ok() {
				return Err(shim::sp_runtime::traits::BadOrigin.into());
			}
			for c in calls {
				c.dispatch(origin.clone()).map_err(|e| e.error)?;
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			Ok(())
		}
	}
}
