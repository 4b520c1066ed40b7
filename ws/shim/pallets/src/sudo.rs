//! pallet-sudo (key holder dispatches as root).
pub use pallet::*;
pub trait WeightInfo {}
impl WeightInfo for () {}
#[shim::frame_support::pallet]
pub mod pallet {
	use crate::prelude::*;
	use shim::sp_runtime::traits::Dispatchable;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + GetDispatchInfo;
		type WeightInfo: super::WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Key<T: Config> = StorageValue<_, T::AccountId, OptionQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Sudid { sudo_result: DispatchResult },
	}
	#[pallet::error]
	pub enum Error<T> {
		RequireSudo,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(call.get_dispatch_info().weight)]
		pub fn sudo(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let sender = ensure_signed(origin)?;
			ensure!(Key::<T>::get().map_or(false, |k| sender == k), Error::<T>::RequireSudo);
			let res = call.dispatch(frame_system::RawOrigin::Root.into());
			Self::deposit_event(Event::Sudid { sudo_result: res.map(|_| ()).map_err(|e| e.error) });
			Ok(Pays::No.into())
		}
	}
}
