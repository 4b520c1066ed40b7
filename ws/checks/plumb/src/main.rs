//! Exploration of what holds the chain's parts together: routing, addresses, eras, upgrades.
pub use frame_support::weights::Weight;
use rt::*;
mod address;
mod api;
mod era;
mod router;
mod steps;
mod upgrade;
#[path = "/repo/runtime/src/migrations/mod.rs"]
mod migrations;
fn main() {
	explore::main(&[
		("R01", router::run),
		("R02", era::run),
		("R03", address::run),
		("R04", upgrade::run),
		("R05", steps::run),
		("R06", api::run),
	]);
}
