//! pallet-im-online: present by name only (its calls may not be blocked by maintenance mode)
pub use pallet::*;
#[shim::frame_support::pallet]
pub mod pallet {
	use crate::prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn heartbeat(origin: OriginFor<T>) -> DispatchResult {
			ensure_none(origin)?;
			Ok(())
		}
	}
}
