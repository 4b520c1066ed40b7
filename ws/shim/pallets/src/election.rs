//! the one associated type the runtime takes from the election pallet
use crate::prelude::*;
pub trait Config: frame_system::Config {
	type Currency: ReservableCurrency<Self::AccountId>;
}
