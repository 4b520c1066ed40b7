//! Exploration of the token precompiles as the chain's runtime installs them: calls go through the
//! EVM's executor and the runtime's own precompile set into the real pallets.
mod abi;
mod erc1155;
mod erc20;
mod erc721;
mod hook;
mod route;
mod catalog;
mod reenter;
fn main() {
	explore::main(&[("V01", erc20::run), ("V02", erc721::run), ("V03", erc1155::run), ("V04", route::run), ("V05", route::equiv), ("V06", abi::run), ("V07", reenter::run)]);
}
