//! R05: migrations that take more than a block.
use codec::{Decode, Encode};
use explore::*;
use frame_support::{traits::Hooks, weights::Weight};
use pallet_migration::{MigrationStatus, WeightInfo};
use seed_pallet_common::test_prelude::*;
use seed_primitives::migration::{MigrationStep, MigrationStepResult};
construct_runtime!(
	pub enum Test {
		System: frame_system,
		Assets: pallet_assets,
		Balances: pallet_balances,
		Migration: pallet_migration,
	}
);
impl_frame_system_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_balance_config!(Test);
/// The world the migration lives in, kept in the state under plain keys.
fn get<T: Decode + Default>(k: &str) -> T {
	shim::ext::get(k.as_bytes()).and_then(|b| T::decode(&mut &b[..]).ok()).unwrap_or_default()
}
fn put<T: Encode>(k: &str, v: T) {
	shim::ext::set(k.as_bytes(), &v.encode())
}
const BASE: (u64, u64) = (200_000_000, 10);
/// No step takes more than this.
const STEP: (u64, u64) = (40_000_000, 30);
/// What the step of an entry takes, and what finding the end takes.
fn cost(i: u8) -> (u64, u64) {
	[STEP, (40_000_000, 3), (7_000_000, 30), STEP][i as usize % 4]
}
const END: (u64, u64) = (5_000_000, 5);
fn w(x: (u64, u64)) -> Weight {
	Weight::from_parts(x.0, x.1)
}
fn sum(a: (u64, u64), b: (u64, u64)) -> (u64, u64) {
	(a.0.saturating_add(b.0), a.1.saturating_add(b.1))
}
fn fits(a: (u64, u64), b: (u64, u64)) -> bool {
	a.0 <= b.0 && a.1 <= b.1
}
pub struct Entries;
impl MigrationStep for Entries {
	const TARGET_VERSION: u16 = 0;
	fn version_check() -> bool {
		get::<u16>("version") == get::<u16>("target")
	}
	fn on_complete() {
		put("version", get::<u16>("target"));
		put("completed", get::<u32>("completed") + 1);
	}
	fn max_step_weight() -> Weight {
		w(STEP)
	}
	/// Keys name the migration they are of, so that a key of another one is noticed.
	fn step(last: Option<Vec<u8>>) -> MigrationStepResult {
		let target = get::<u16>("target") as u8;
		let i = match last.as_deref() {
			None => 0,
			Some([t, i]) if *t == target => i + 1,
			_ => 200,
		};
		let mut done: Vec<u8> = get("done");
		done.push(i);
		put("done", done);
		if i < get::<u8>("entries") {
			MigrationStepResult::continue_step(w(cost(i)), vec![target, i])
		} else {
			MigrationStepResult::finish_step(w(END))
		}
	}
}
parameter_types! {
	pub MaxMigrationWeight: Weight = w(get("cap"));
}
pub struct Weights;
impl WeightInfo for Weights {
	fn migrate() -> Weight {
		w(BASE)
	}
	fn current_migration_step() -> Weight {
		w(STEP)
	}
	fn enable_migration() -> Weight {
		Weight::zero()
	}
	fn set_block_delay() -> Weight {
		Weight::zero()
	}
	fn set_block_limit() -> Weight {
		Weight::zero()
	}
}
impl pallet_migration::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type CurrentMigration = Entries;
	type MaxMigrationWeight = MaxMigrationWeight;
	type WeightInfo = Weights;
}
type W = (u64, u64);
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
	/// A new version of the chain, with no migration to do or one of so many entries
	Upgrade(Option<u8>),
	/// A new version that comes with the same migration
	Same,
	/// The end of a block that leaves so much weight
	Idle(W),
	Enable(bool, bool),
	Delay(bool, Option<u32>),
	Limit(bool, u32),
}
#[derive(Clone, Debug, Hash, Default, PartialEq)]
pub struct M {
	target: u16,
	version: u16,
	entries: u8,
	/// steps done of the running migration
	running: Option<u32>,
	completed: bool,
	ends: u32,
	/// entries handled by the present migration
	done: Vec<u8>,
	enabled: bool,
	delay: Option<u32>,
	limit: u32,
	block: u32,
	cap: W,
}
struct S {
	caps: Vec<W>,
	idle: Vec<W>,
}
fn signed(root: bool) -> RuntimeOrigin {
	if root {
		RuntimeOrigin::root()
	} else {
		RuntimeOrigin::signed(create_account(1))
	}
}
fn call(f: impl FnOnce() -> DispatchResult) -> bool {
	frame_support::storage::with_storage_layer(f).is_ok()
}
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		self.caps.len()
	}
	fn init(&self, i: usize) -> M {
		System::set_block_number(1);
		put("cap", self.caps[i]);
		M { limit: 100, block: 1, cap: self.caps[i], ..Default::default() }
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut v: Vec<Op> = self.idle.iter().map(|x| Op::Idle(*x)).collect();
		v.push(Op::Upgrade(None));
		if m.running.is_some() {
			v.push(Op::Same);
		} else {
			v.extend([0, 1, 4].map(|n| Op::Upgrade(Some(n))));
		}
		v.extend([true, false].map(|e| Op::Enable(true, e)).into_iter().filter(|x| *x != Op::Enable(true, m.enabled)));
		v.push(Op::Enable(false, !m.enabled));
		for d in [None, Some(2), Some(3)] {
			if d != m.delay {
				v.push(Op::Delay(true, d));
			}
		}
		v.extend([Op::Delay(true, Some(0)), Op::Delay(true, Some(1)), Op::Delay(false, Some(2)), Op::Delay(false, None)]);
		for l in [0, 1, 2, 100] {
			if l != m.limit {
				v.push(Op::Limit(true, l));
			}
		}
		v.push(Op::Limit(false, 2));
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		System::set_block_number(m.block as _);
		System::reset_events();
		let h0 = shim::ext::state_hash();
		let before = m.clone();
		match op {
			Op::Upgrade(n) => {
				m.target = m.version + u16::from(n.is_some());
				m.entries = n.unwrap_or(0);
				put("target", m.target);
				put("entries", m.entries);
				put::<Vec<u8>>("done", vec![]);
				m.done.clear();
				Migration::on_runtime_upgrade();
				m.running = n.map(|_| 0);
				m.completed = false;
			},
			Op::Same => {
				Migration::on_runtime_upgrade();
				req!(shim::ext::state_hash() == h0, "restarted: {op:?} while a migration runs");
			},
			Op::Idle(rest) => {
				let used = Migration::on_idle(m.block as _, w(*rest));
				m.block += 1;
				req!(fits((used.ref_time(), used.proof_size()), *rest), "weight: {op:?} used {used:?} of what was left, {m:?}");
				let limit = (rest.0.min(m.cap.0), rest.1.min(m.cap.1));
				let due = m.delay.map_or(true, |d| before.block % d == 0);
				if let (Some(done), true, true) = (m.running, m.enabled, due) {
					let mut total = BASE;
					let mut steps = 0;
					while fits(sum(total, STEP), limit) && steps < m.limit {
						let i = m.done.len() as u8;
						m.done.push(i);
						steps += 1;
						if i < m.entries {
							total = sum(total, cost(i));
						} else {
							total = sum(total, END);
							m.running = None;
							m.completed = true;
							m.version = m.target;
							m.ends += 1;
							break;
						}
					}
					if m.running.is_some() {
						m.running = Some(done + steps);
					}
					if steps > 0 {
						req!((used.ref_time(), used.proof_size()) == total, "reported: {op:?} reports {used:?}, not {total:?}");
						req!(fits(total, m.cap), "cap: {op:?} used {used:?}");
					}
					let ended: Vec<u32> = System::events()
						.into_iter()
						.filter_map(|e| match e.event {
							RuntimeEvent::Migration(pallet_migration::Event::MigrationComplete { items_migrated }) => Some(items_migrated),
							_ => None,
						})
						.collect();
					let want: Vec<u32> = if m.running.is_none() { vec![done + steps] } else { vec![] };
					req!(ended == want, "ended: {op:?} reports {ended:?} - not {want:?}");
				}
			},
			Op::Enable(root, e) => {
				let ok = call(|| Migration::enable_migration(signed(*root), *e));
				req!(ok == *root, "set: {op:?}: {ok}");
				if ok {
					m.enabled = *e;
				}
			},
			Op::Delay(root, d) => {
				let ok = call(|| Migration::set_block_delay(signed(*root), *d));
				req!(ok == (*root && d.map_or(true, |d| d > 1)), "set: {op:?}: {ok}");
				if ok {
					m.delay = *d;
				}
			},
			Op::Limit(root, l) => {
				let ok = call(|| Migration::set_block_limit(signed(*root), *l));
				req!(ok == (*root && *l > 0), "set: {op:?}: {ok}");
				if ok {
					m.limit = *l;
				}
			},
		}
		let mut same = before.clone();
		same.block = m.block;
		if same == *m && !matches!(op, Op::Same | Op::Upgrade(_)) {
			// no matter how it notes that there was nothing to do
			req!(get::<Vec<u8>>("done") == m.done && get::<u32>("completed") == m.ends, "changed: {op:?} has no effect");
		}
		let done: Vec<u8> = get("done");
		req!(done == m.done, "steps: {op:?} leads to steps for {done:?} - not {:?}", m.done);
		req!(get::<u32>("completed") == m.ends, "completed: {op:?}: {} times, not {}", get::<u32>("completed"), m.ends);
		let status = pallet_migration::Status::<Test>::get();
		let want = match m.running {
			Some(steps_done) => MigrationStatus::InProgress { steps_done },
			None if m.completed => MigrationStatus::Completed,
			None => MigrationStatus::NoMigrationInProgress,
		};
		req!(status == want, "status: {op:?} leads to {status:?}, not {want:?}");
		let free = <Migration as seed_pallet_common::Migrator>::ensure_migrated().is_ok();
		req!(free == m.running.is_none(), "guard: {op:?} leads to {free} with {status:?}");
		let set = (
			pallet_migration::MigrationEnabled::<Test>::get(),
			pallet_migration::BlockDelay::<Test>::get(),
			pallet_migration::BlockLimit::<Test>::get(),
		);
		req!(set == (m.enabled, m.delay, m.limit), "settings: {op:?} leads to {set:?}");
		Ok(kind(op))
	}
}
fn kind(op: &Op) -> String {
	rt::sim::kind(op)
}
mod guard {
	//! Nothing of XLS-20 is touched while its data is on the way.
	use super::Step;
	use explore::*;
	use pallet_migration::MigrationStatus;
	use rt::{sim::*, *};
	use seed_pallet_common::Xls20Ext;
	#[derive(Clone, Debug)]
	pub struct Case {
		pub status: u8,
		pub act: u8,
		pub who: usize,
	}
	/// Flags (transferable), fee, issuer, taxon and sequence.
	fn id(seq: u8) -> [u8; 32] {
		let mut b = [0u8; 32];
		b[1] = 8;
		b[4..24].copy_from_slice(&[7; 20]);
		b[31] = seq;
		b
	}
	pub fn guarded(c: &Case) -> Step {
		genesis(7, 1_000_000);
		let coll = pallet_nft::Pallet::<Runtime>::next_collection_uuid().unwrap();
		use pallet_xls20::Call as X;
		dispatch(root(), X::set_relayer { relayer: acc(5) }).unwrap();
		dispatch(
			signed(user(1)),
			pallet_nft::Call::create_collection {
				name: b"n".to_vec().try_into().unwrap(),
				initial_issuance: 0,
				max_issuance: None,
				token_owner: None,
				metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://a.b/".as_slice()).unwrap(),
				royalties_schedule: None,
				cross_chain_compatibility: seed_primitives::CrossChainCompatibility { xrpl: true },
			},
		)
		.unwrap();
		dispatch(signed(user(1)), pallet_nft::Call::mint { collection_id: coll, quantity: 2, token_owner: None }).unwrap();
		let serials = |v: Vec<u32>| v.try_into().unwrap();
		let told = |s: u32, t: u8| X::fulfill_xls20_mint { collection_id: coll, token_mappings: vec![(s, id(t))].try_into().unwrap() };
		dispatch(signed(user(5)), told(0, 1)).unwrap();
		pallet_migration::Status::<Runtime>::put(match c.status {
			0 => MigrationStatus::NoMigrationInProgress,
			1 => MigrationStatus::InProgress { steps_done: 0 },
			2 => MigrationStatus::InProgress { steps_done: 9 },
			_ => MigrationStatus::Completed,
		});
		let free = !(1..3).contains(&c.status);
		let h0 = shim::ext::state_hash();
		let (ok, right) = match c.act {
			0 => (dispatch(signed(user(c.who)), X::re_request_xls20_mint { collection_id: coll, serial_numbers: serials(vec![1]) }).is_ok(), c.who == 1),
			1 => (dispatch(signed(user(c.who)), told(1, 2)).is_ok(), c.who == 5),
			2 => (<Xls20 as Xls20Ext>::deposit_xls20_token(&acc(c.who), id(3)).is_ok(), true),
			_ => (<Xls20 as Xls20Ext>::get_xls20_token_id((coll, 0)) == Some(id(1)), true),
		};
		req!(ok == (right && free), "guarded: {c:?}: {ok}");
		if !ok {
			req!(shim::ext::state_hash() == h0, "changed: {c:?} is refused");
		}
		Ok(format!("{} {ok}", c.act))
	}
}
pub fn run(ctx: &mut Ctx) {
	let one = sum(BASE, STEP);
	let two = sum(one, STEP);
	let mut idle = vec![
		(u64::MAX, u64::MAX),
		one,
		(one.0 - 1, u64::MAX),
		(u64::MAX, one.1 - 1),
		two,
		(two.0 - 1, u64::MAX),
		(u64::MAX, two.1 - 1),
		(BASE.0 + 1, BASE.1 + 1),
		(0, u64::MAX),
	];
	let caps = vec![(u64::MAX, u64::MAX), two, (two.0 + 7_000_000, two.1 - 3), (one.0, one.1 + 1000), (one.0 - 1, one.1 * 2)];
	if ctx.thorough() {
		idle.extend([(one.0 + 7_000_000, one.1 + 30), (two.0 + 39_999_999, two.1 + 29), (0, 0), BASE]);
	}
	let d = ctx.pick(9, 14);
	ctx.bfs("blocks", &S { caps, idle }, depth(d));
	let mut v = vec![];
	for status in 0..4 {
		for act in 0..4 {
			for who in [0, 1, 5] {
				v.push(guard::Case { status, act, who });
			}
		}
	}
	ctx.enumerate("guarded", v.into_iter(), guard::guarded);
}
