//! Exploration of futurepasses: the real pallet and precompile in the runtime's configuration.
mod acts;
mod pass;
mod people;
mod subcall;
fn main() {
	explore::main(&[("F01", pass::run), ("F02", acts::run), ("F03", subcall::run)]);
}
