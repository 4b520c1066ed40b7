//! R02: when a session is the last of its era, and who the author of a block is.
use explore::*;
use rt::{
	impls::{EthereumFindAuthor, StakingSessionTracker},
	sim::*,
	*,
};
use frame_support::traits::FindAuthor;
use pallet_staking::{ActiveEraInfo, Forcing};
use seed_pallet_common::FinalSessionTracker;
use sp_core::H160;
#[derive(Clone, Debug)]
struct Case {
	active: Option<u32>,
	/// first sessions of this and the following eras
	starts: Vec<(u32, u32)>,
	session: u32,
	force: Forcing,
}
fn last(c: &Case) -> Step {
	System::set_block_number(1);
	if let Some(index) = c.active {
		pallet_staking::ActiveEra::<Runtime>::put(ActiveEraInfo { index, start: None });
	}
	for (e, s) in &c.starts {
		pallet_staking::ErasStartSessionIndex::<Runtime>::insert(e, s);
	}
	pallet_session::CurrentIndex::<Runtime>::put(c.session);
	pallet_staking::ForceEra::<Runtime>::put(c.force);
	let h0 = shim::ext::state_hash();
	let got = StakingSessionTracker::is_active_session_final();
	req!(shim::ext::state_hash() == h0, "changed: {c:?}");
	let first = c.starts.iter().find(|x| x.0 == c.active.unwrap_or(0)).map(|x| x.1 as u64);
	let natural = first.map_or(false, |f| c.session as u64 == f + constants::SESSIONS_PER_ERA as u64 - 1);
	let want = natural || matches!(c.force, Forcing::ForceNew | Forcing::ForceAlways);
	req!(got == want, "final: {got} in {c:?}");
	Ok(format!("{natural} {:?}", c.force))
}
struct Index<const N: u32>;
impl<const N: u32> FindAuthor<u32> for Index<N> {
	fn find_author<'a, I>(_: I) -> Option<u32>
	where
		I: 'a + IntoIterator<Item = (sp_runtime::ConsensusEngineId, &'a [u8])>,
	{
		(N < u32::MAX).then_some(N)
	}
}
fn author(c: &(usize, u32)) -> Step {
	let all: Vec<AccountId> = (0..c.0).map(|i| acc(40 + i)).collect();
	pallet_session::Validators::<Runtime>::put(all.clone());
	let none = || std::iter::empty::<(sp_runtime::ConsensusEngineId, &[u8])>();
	let got = match c.1 {
		0 => EthereumFindAuthor::<Index<0>>::find_author(none()),
		1 => EthereumFindAuthor::<Index<1>>::find_author(none()),
		2 => EthereumFindAuthor::<Index<2>>::find_author(none()),
		3 => EthereumFindAuthor::<Index<3>>::find_author(none()),
		255 => EthereumFindAuthor::<Index<255>>::find_author(none()),
		256 => EthereumFindAuthor::<Index<256>>::find_author(none()),
		257 => EthereumFindAuthor::<Index<257>>::find_author(none()),
		65536 => EthereumFindAuthor::<Index<65536>>::find_author(none()),
		_ => EthereumFindAuthor::<Index<{ u32::MAX }>>::find_author(none()),
	};
	let want: Option<H160> = all.get(c.1 as usize).map(|x| (*x).into());
	req!(got == want, "author: {c:?}: {got:?} - not {want:?}");
	Ok(format!("{}", want.is_some()))
}
pub fn run(ctx: &mut Ctx) {
	let n = constants::SESSIONS_PER_ERA;
	let mut v = vec![];
	let forces = [Forcing::NotForcing, Forcing::ForceNew, Forcing::ForceNone, Forcing::ForceAlways];
	for active in [None, Some(0), Some(1), Some(2), Some(255), Some(256), Some(70_000)] {
		let a: u32 = active.unwrap_or(0);
		for first in [0, 1, n, 3 * n + 1, 254, 65_530, 4_000_000_000] {
			for starts in [
				vec![],
				vec![(a, first)],
				vec![(a, first), (a + 1, first + n)],
				vec![(a + 1, first)],
				vec![(a.saturating_sub(1), first), (a, first + n)],
				vec![(a, first), (a + 1, first + n + 2)],
				vec![(0, first + 2 * n), (a, first)],
			] {
				let mut starts = starts;
				starts.reverse();
				starts.sort_by_key(|x| x.0);
				starts.dedup_by_key(|x| x.0);
				for session in (first.saturating_sub(2)..first + 4 * n + 2).chain([0, n - 1, u32::MAX]) {
					for force in forces {
						v.push(Case { active, starts: starts.clone(), session, force });
					}
				}
			}
		}
	}
	ctx.enumerate("final session", v.into_iter(), last);
	let mut a = vec![];
	for k in [0, 1, 2, 3, 4, 256, 257, 300] {
		for i in [0, 1, 2, 3, 255, 256, 257, 65_536, u32::MAX] {
			a.push((k, i));
		}
	}
	ctx.enumerate("author", a.into_iter(), author);
}
