//! Receiver contracts: what they answer, and a record of how they were asked.
use rt::{sim::*, *};
use sp_core::{H160, H256, U256};
use std::cell::RefCell;
pub const RECEIVERS: [&str; 8] = ["accepts", "wrong", "short", "empty", "reverts", "reenters", "long", "fails"];
pub fn receiver(i: usize) -> H160 {
	h(0x2000_0000 + i as u64)
}
#[derive(Clone, Debug, PartialEq)]
pub struct Asked {
	pub who: H160,
	pub sender: H160,
	pub value: U256,
	pub input: Vec<u8>,
	pub is_static: bool,
	pub logs_state: u128,
}
thread_local! {
	static ASKED: RefCell<Vec<Asked>> = RefCell::new(vec![]);
	static ANSWER: RefCell<Vec<u8>> = RefCell::new(vec![]);
	static REENTER: RefCell<Option<(H160, Vec<u8>)>> = RefCell::new(None);
}
/// What has been asked since the last time.
pub fn asked() -> Vec<Asked> {
	ASKED.with(|a| std::mem::take(&mut *a.borrow_mut()))
}
pub fn magic(sig: &str) -> Vec<u8> {
	let mut b = sel(sig).to_vec();
	b.resize(32, 0);
	b
}
/// Installs the receivers' behaviour for the calls to come: the accepted answer, and what is called back.
pub fn arm(answer: Vec<u8>, reenter: Option<(H160, Vec<u8>)>) {
	let _ = asked();
	ANSWER.with(|a| *a.borrow_mut() = answer);
	REENTER.with(|a| *a.borrow_mut() = reenter);
	for i in 0..RECEIVERS.len() {
		script(
			receiver(i),
			Some(std::rc::Rc::new(move |x: &mut dyn PrecompileHandle| {
				let c = x.context().clone();
				ASKED.with(|a| {
					a.borrow_mut().push(Asked {
						who: c.address,
						sender: c.caller,
						value: c.apparent_value,
						input: x.input().to_vec(),
						is_static: x.is_static(),
						logs_state: shim::ext::state_hash(),
					})
				});
				let ok = ANSWER.with(|a| a.borrow().clone());
				match RECEIVERS[i] {
					"accepts" => done(ok),
					"wrong" => {
						let mut b = ok;
						b[3] ^= 1;
						done(b)
					},
					"short" => done(ok[..3].to_vec()),
					"empty" => done(vec![]),
					"reverts" => reverted(),
					// the execution itself failed, whatever is in the output
					"fails" => (fp_evm::ExitError::OutOfGas.into(), ok),
					"long" => {
						let mut b = ok;
						b.extend([7; 40]);
						done(b)
					},
					_ => {
						if let Some((to, data)) = REENTER.with(|r| r.borrow().clone()) {
							let me = c.address;
							let ctx = Context { address: to, caller: me, apparent_value: U256::zero() };
							let _ = x.call(to, None, data, None, false, &ctx);
						}
						done(ok)
					},
				}
			})),
		);
	}
}
/// Code for all of them.
pub fn deploy() {
	for i in 0..RECEIVERS.len() {
		EVM::create_account(receiver(i), vec![0x60]);
	}
}
pub fn accepts(i: usize) -> bool {
	matches!(RECEIVERS[i], "accepts" | "long" | "reenters")
}
pub fn topic(sig: &str) -> H256 {
	H256(sp_io::hashing::keccak_256(sig.as_bytes()))
}
