//! Scheduler pallet: agenda per block, executed in priority order at `on_initialize`.
pub use pallet::*;
pub trait WeightInfo {}
impl WeightInfo for () {}
#[shim::frame_support::pallet]
pub mod pallet {
	use crate::prelude::*;
	use shim::sp_runtime::traits::Dispatchable;
	#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug)]
	pub struct Scheduled<C, O> {
		pub priority: u8,
		pub call: C,
		pub origin: O,
	}
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeOrigin: OriginTrait<PalletsOrigin = Self::PalletsOrigin> + From<Self::PalletsOrigin> + IsType<<Self as frame_system::Config>::RuntimeOrigin>;
		type PalletsOrigin: From<RawOrigin<Self::AccountId>> + Codec + Clone + Eq + core::fmt::Debug;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = <Self as Config>::RuntimeOrigin>;
		type MaximumWeight: Get<Weight>;
		type ScheduleOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
		type MaxScheduledPerBlock: Get<u32>;
		type OriginPrivilegeCmp;
		type WeightInfo: super::WeightInfo;
		type Preimages;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Agenda<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, Vec<Option<Scheduled<<T as Config>::RuntimeCall, T::PalletsOrigin>>>, ValueQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Scheduled { when: BlockNumberFor<T>, index: u32 },
		Canceled { when: BlockNumberFor<T>, index: u32 },
		Dispatched { task: (BlockNumberFor<T>, u32), id: Option<[u8; 32]>, result: DispatchResult },
	}
	#[pallet::error]
	pub enum Error<T> {
		FailedToSchedule,
		NotFound,
		TargetBlockNumberInPast,
		RescheduleNoChange,
		Named,
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
		fn on_initialize(now: BlockNumberFor<T>) -> Weight {
			let agenda = Agenda::<T>::take(now);
			let mut tasks: Vec<(u32, Scheduled<_, _>)> = agenda.into_iter().enumerate().filter_map(|(i, s)| s.map(|s| (i as u32, s))).collect();
			tasks.sort_by_key(|(i, s)| (s.priority, *i));
			for (i, s) in tasks {
				let origin: <T as Config>::RuntimeOrigin = s.origin.into();
				let r = s.call.dispatch(origin).map(|_| ()).map_err(|e| e.error);
				Self::deposit_event(Event::Dispatched { task: (now, i), id: None, result: r });
			}
			Weight::zero()
		}
	}
	impl<T: Config> shim::frame_support::traits::schedule::Anon<BlockNumberFor<T>, <T as Config>::RuntimeCall, T::PalletsOrigin> for Pallet<T> {
		type Address = (BlockNumberFor<T>, u32);
		fn schedule(
			when: schedule::DispatchTime<BlockNumberFor<T>>,
			_period: Option<schedule::Period<BlockNumberFor<T>>>,
			priority: u8,
			origin: T::PalletsOrigin,
			call: <T as Config>::RuntimeCall,
		) -> Result<Self::Address, DispatchError> {
			let now = frame_system::Pallet::<T>::block_number();
			let when = match when {
				schedule::DispatchTime::At(x) => x,
				schedule::DispatchTime::After(x) => now + x + One::one(),
			};
			if when <= now {
				return Err(Error::<T>::TargetBlockNumberInPast.into());
			}
			let index = Agenda::<T>::try_mutate(when, |a| -> Result<u32, DispatchError> {
				if a.len() as u32 >= T::MaxScheduledPerBlock::get() {
					return Err(DispatchError::Exhausted);
				}
				a.push(Some(Scheduled { priority, call, origin }));
				Ok(a.len() as u32 - 1)
			})?;
			Self::deposit_event(Event::Scheduled { when, index });
			Ok((when, index))
		}
		fn cancel((when, index): Self::Address) -> Result<(), ()> {
			Agenda::<T>::try_mutate(when, |a| match a.get_mut(index as usize) {
				Some(s @ Some(_)) => {
					*s = None;
					Ok(())
				},
				_ => Err(()),
			})
		}
	}
}
