//! The slice of pallet-session the runtime reads.
pub use pallet::*;
#[shim::frame_support::pallet]
pub mod pallet {
	use crate::prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type ValidatorId: Parameter + Member + MaxEncodedLen;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Validators<T: Config> = StorageValue<_, Vec<T::ValidatorId>, ValueQuery>;
	#[pallet::storage]
	pub type CurrentIndex<T: Config> = StorageValue<_, u32, ValueQuery>;
	impl<T: Config> Pallet<T> {
		pub fn validators() -> Vec<T::ValidatorId> {
			Validators::<T>::get()
		}
		pub fn current_index() -> u32 {
			CurrentIndex::<T>::get()
		}
	}
}
