pub use pallet::*;
pub trait WeightInfo {}
impl WeightInfo for () {}
pub mod weights {
	pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
	impl<T> super::WeightInfo for SubstrateWeight<T> {}
}
#[shim::frame_support::pallet]
pub mod pallet {
	use crate::prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Moment: Parameter + HasCompact + Default + AtLeast32BitUnsigned + Copy + MaxEncodedLen + Into<u64>;
		type OnTimestampSet: OnTimestampSet<Self::Moment>;
		type MinimumPeriod: Get<Self::Moment>;
		type WeightInfo: super::WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	#[pallet::getter(fn now)]
	pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight((Weight::zero(), DispatchClass::Mandatory))]
		pub fn set(origin: OriginFor<T>, #[pallet::compact] now: T::Moment) -> DispatchResult {
			ensure_none(origin)?;
			Now::<T>::put(now);
			T::OnTimestampSet::on_timestamp_set(now);
			Ok(())
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn get() -> T::Moment {
		Self::now()
	}
	pub fn set_timestamp(now: T::Moment) {
		Now::<T>::put(now)
	}
}
impl<T: Config> shim::frame_support::traits::Time for Pallet<T> {
	type Moment = T::Moment;
	fn now() -> T::Moment {
		Self::get()
	}
}
impl<T: Config> shim::frame_support::traits::UnixTime for Pallet<T> {
	fn now() -> core::time::Duration {
		core::time::Duration::from_millis(Self::get().into())
	}
}
