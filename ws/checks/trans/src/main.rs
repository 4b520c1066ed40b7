//! Exploration of the transactions the chain takes: how they are authorised, paid for and stopped.
mod doughnut;
mod evmfee;
mod prefer;
mod maint;
mod people;
mod xrpl;
fn main() {
	explore::main(&[("T01", xrpl::run), ("T02", doughnut::run), ("T03", maint::run), ("T04", evmfee::run), ("T05", prefer::run)]);
}
