//! Claims of Ethereum events: submission, challenge, votes, delivery; the bonds that go with them.
use crate::*;
use frame_support::traits::fungibles::{Inspect, Mutate};
use pallet_ethy::*;
use std::collections::{BTreeMap, BTreeSet};
const PEOPLE: usize = 4;
#[derive(Clone, Debug, Hash, PartialEq)]
struct Claim {
	variant: u8,
	due: u64,
	/// 0 pending, 1 challenged, 2 proven
	status: u8,
	challenger: Option<usize>,
	votes: BTreeMap<usize, bool>,
}
#[derive(Clone, Debug, Hash)]
struct M {
	now: u64,
	period: u64,
	relayer: Option<usize>,
	bond: [bool; PEOPLE],
	free: [Balance; PEOPLE],
	keys: Vec<usize>,
	claims: BTreeMap<u64, Claim>,
	/// every id ever delivered, in order of delivery
	routed: Vec<u64>,
	cleared: BTreeSet<u64>,
	/// claims that once were scheduled for a block (also those since proven false)
	slots: BTreeMap<u64, Vec<u64>>,
}
#[derive(Clone, Debug)]
enum Op {
	Submit { who: usize, id: u64, variant: u8 },
	Missing { who: usize, id: u64, variant: u8 },
	Clear { lo: u64, hi: u64 },
	Challenge { who: usize, id: u64 },
	Vote { id: u64, key: usize, valid: bool },
	Block,
	Relayer(usize),
	Bond(usize),
	Unbond(usize),
	Period(u64),
	Keys(Vec<usize>),
}
fn source(id: u64) -> H160 {
	H160::from_low_u64_be(0x500 + id % 2)
}
fn dest(v: u8) -> H160 {
	H160::from_low_u64_be(0x900 + v as u64)
}
fn data(id: u64, v: u8) -> Vec<u8> {
	vec![v, id as u8, 77]
}
fn tx(id: u64, v: u8) -> H256 {
	H256::from_low_u64_be(id * 16 + v as u64)
}
pub fn word(x: u128) -> Vec<u8> {
	let mut w = vec![0u8; 16];
	w.extend(x.to_be_bytes());
	w
}
pub fn addr(a: H160) -> Vec<u8> {
	let mut w = vec![0u8; 12];
	w.extend(a.as_bytes());
	w
}
/// The log data of the contract's `SendMessage(messageId, source, destination, message, fee)`.
fn event(id: u64, v: u8) -> Vec<u8> {
	let d = data(id, v);
	let mut o = [word(id as u128), addr(source(id)), addr(dest(v)), word(160), word(3), word(d.len() as u128)].concat();
	o.extend(&d);
	o.resize(o.len().next_multiple_of(32), 0);
	o
}
fn exec(op: &Op) -> Result<(), String> {
	let who = |w: &usize| RuntimeOrigin::signed(acc(*w));
	match op {
		Op::Submit { who: w, id, variant } => call(|| EthBridge::submit_event(who(w), tx(*id, *variant), event(*id, *variant))),
		Op::Missing { who: w, id, variant } => call(|| EthBridge::submit_missing_event(who(w), tx(*id, *variant), event(*id, *variant))),
		Op::Clear { lo, hi } => call(|| EthBridge::remove_missing_event_id(RuntimeOrigin::root(), (*lo, *hi))),
		Op::Challenge { who: w, id } => call(|| EthBridge::submit_challenge(who(w), *id)),
		Op::Vote { id, key: k, valid } => {
			// an active authority's vote that passed `validate_unsigned`
			let idx = NotaryKeys::<Test>::get().iter().position(|x| *x == key(*k));
			let Some(idx) = idx else { return Err("not an authority".into()) };
			if EventNotarizations::<Test>::contains_key(id, key(*k)) {
				return Err("equivocation".into());
			}
			let result = if *valid { EventClaimResult::Valid } else { EventClaimResult::NoTxLogs };
			call(|| EthBridge::submit_notarization(RuntimeOrigin::none(), NotarizationPayload::Event { event_claim_id: *id, authority_index: idx as u16, result }, sig0()))
		},
		Op::Block => {
			let n = System::block_number() + 1;
			System::set_block_number(n);
			EthBridge::on_initialize(n);
			Ok(())
		},
		Op::Relayer(w) => call(|| EthBridge::set_relayer(RuntimeOrigin::root(), acc(*w))),
		Op::Bond(w) => call(|| EthBridge::deposit_relayer_bond(who(w))),
		Op::Unbond(w) => call(|| EthBridge::withdraw_relayer_bond(who(w))),
		Op::Period(p) => call(|| EthBridge::set_challenge_period(RuntimeOrigin::root(), *p)),
		Op::Keys(v) => {
			// the hand-over at the end of an era, which is the only way for the authorities to change
			EthBridge::do_finalise_authorities_change(sp_core::bounded::WeakBoundedVec::force_from(v.iter().map(|k| key(*k)).collect(), None));
			set_keys(&v.iter().map(|k| key(*k)).collect::<Vec<_>>());
			Ok(())
		},
	}
}
impl M {
	/// `Some` = must be accepted, with this effect.
	fn apply(&mut self, op: &Op) -> Option<()> {
		match op {
			Op::Submit { who, id, variant } | Op::Missing { who, id, variant } => {
				if self.relayer != Some(*who) || self.claims.contains_key(id) || self.routed.contains(id) {
					return None;
				}
				// which of the two ways is open is the implementation's choice (see `check`)
				let old = ProcessedMessageIds::<Test>::get().first().map_or(false, |f| id < f);
				let missed = MissedMessageIds::<Test>::get().contains(id);
				if matches!(op, Op::Submit { .. }) == old || (old && !missed) {
					return None;
				}
				let due = self.now + self.period;
				let s = self.slots.entry(due).or_default();
				if s.len() >= MAX_PER_BLOCK {
					return None;
				}
				s.push(*id);
				self.claims.insert(*id, Claim { variant: *variant, due, status: 0, challenger: None, votes: Default::default() });
			},
			Op::Clear { lo, hi } => self.cleared.extend(*lo..=*hi),
			Op::Challenge { who, id } => {
				let n = self.claims.values().filter(|c| c.status == 1).count();
				let c = self.claims.get_mut(id)?;
				if c.status != 0 || n >= MAX_CHALLENGES || self.free[*who] < CHALLENGE_BOND {
					return None;
				}
				self.free[*who] -= CHALLENGE_BOND;
				c.status = 1;
				c.challenger = Some(*who);
			},
			Op::Vote { id, key, valid } => {
				let c = self.claims.get_mut(id)?;
				if c.status != 1 || !self.keys.contains(key) || c.votes.contains_key(key) {
					return None;
				}
				c.votes.insert(*key, *valid);
				let n = self.keys.len();
				let yay = self.keys.iter().filter(|k| c.votes.get(k) == Some(&true)).count();
				let nay = self.keys.iter().filter(|k| c.votes.get(k) == Some(&false)).count();
				if reaches(yay, n) {
					c.status = 2;
					c.votes.clear();
					let ch = c.challenger.take().unwrap();
					self.free[self.relayer.unwrap_or(ch)] += CHALLENGE_BOND;
				} else if !reaches(n - nay, n) {
					let c = self.claims.remove(id).unwrap();
					let ch = c.challenger.unwrap();
					self.free[ch] += CHALLENGE_BOND;
					if let Some(r) = self.relayer.take() {
						self.bond[r] = false;
						self.free[ch] += RELAYER_BOND;
					}
				}
			},
			Op::Block => {
				self.now += 1;
				let ids = self.slots.remove(&self.now).unwrap_or_default();
				for id in ids {
					let Some(c) = self.claims.get_mut(&id) else { continue };
					if c.due != self.now {
						continue; // scheduled here under an earlier, refuted claim
					}
					if c.status == 1 {
						c.due = self.now + self.period;
						self.slots.entry(c.due).or_default().push(id);
					} else {
						self.claims.remove(&id);
						self.routed.push(id);
					}
				}
			},
			Op::Relayer(w) => {
				if !self.bond[*w] {
					return None;
				}
				self.relayer = Some(*w);
			},
			Op::Bond(w) => {
				if self.bond[*w] || self.free[*w] < RELAYER_BOND {
					return None;
				}
				self.free[*w] -= RELAYER_BOND;
				self.bond[*w] = true;
			},
			Op::Unbond(w) => {
				if !self.bond[*w] || self.relayer == Some(*w) {
					return None;
				}
				self.free[*w] += RELAYER_BOND;
				self.bond[*w] = false;
			},
			Op::Period(p) => self.period = *p,
			Op::Keys(v) => {
				self.keys = v.clone();
				// new authorities decide what is undecided, on their own
				self.claims.values_mut().for_each(|c| c.votes.clear());
			},
		}
		Some(())
	}
}
fn check(m: &M) -> Check {
	// claims
	let mut got: Vec<_> = PendingEventClaims::<Test>::iter().collect();
	got.sort_by_key(|x| x.0);
	let want: Vec<_> = m
		.claims
		.iter()
		.map(|(id, c)| (*id, EventClaim { tx_hash: tx(*id, c.variant), source: source(*id), destination: dest(c.variant), data: BoundedVec::truncate_from(data(*id, c.variant)) }))
		.collect();
	req!(got == want, "claims: pending claims are {got:?}, expected {want:?}");
	for (id, c) in &m.claims {
		let s = PendingClaimStatus::<Test>::get(id);
		let w = [EventClaimStatus::Pending, EventClaimStatus::Challenged, EventClaimStatus::ProvenValid][c.status as usize].clone();
		req!(s == Some(w.clone()), "claims: status of {id} is {s:?}, expected {w:?}");
		let a = ChallengerAccount::<Test>::get(id);
		req!(a == c.challenger.map(|w| (acc(w), CHALLENGE_BOND)), "bonds: challenger of {id} is {a:?}, expected {:?}", c.challenger);
	}
	req!(PendingClaimStatus::<Test>::iter().count() == m.claims.len(), "claims: a status without a claim");
	req!(ChallengerAccount::<Test>::iter().count() == m.claims.values().filter(|c| c.challenger.is_some()).count(), "bonds: a challenger without a challenge");
	let mut ch = PendingClaimChallenges::<Test>::get().into_inner();
	ch.sort();
	let w: Vec<u64> = m.claims.iter().filter(|x| x.1.status == 1).map(|x| *x.0).collect();
	req!(ch == w, "challenges: open challenges are {ch:?}, expected {w:?}");
	let votes: usize = m.claims.values().map(|c| c.votes.len()).sum();
	req!(EventNotarizations::<Test>::iter().count() == votes, "votes: votes on record differ from those cast on open challenges");
	for (id, c) in &m.claims {
		for (k, v) in &c.votes {
			let g = EventNotarizations::<Test>::get(id, key(*k)).map(|r| r == EventClaimResult::Valid);
			req!(g == Some(*v), "votes: the vote of {k} on {id} is on record as {g:?}, cast {v}");
		}
	}
	// relayer and bonds
	let r = Relayer::<Test>::get();
	req!(r == m.relayer.map(acc), "relayer: is {r:?}, expected {:?}", m.relayer);
	for w in 0..PEOPLE {
		let b = RelayerPaidBond::<Test>::get(acc(w));
		req!(b == if m.bond[w] { RELAYER_BOND } else { 0 }, "bonds: relayer bond of {w} is {b}");
		let f = AssetsExt::balance(ROOT_ASSET_ID, &acc(w));
		req!(f == m.free[w], "bonds: {w} can dispose of {f}, expected {}", m.free[w]);
	}
	let held = AssetsExt::balance(ROOT_ASSET_ID, &{
		use sp_runtime::traits::AccountIdConversion;
		<Test as pallet_assets_ext::Config>::PalletId::get().into_account_truncating()
	});
	let want = m.bond.iter().filter(|b| **b).count() as Balance * RELAYER_BOND + m.claims.values().filter(|c| c.challenger.is_some()).count() as Balance * CHALLENGE_BOND;
	req!(held == want, "bonds: {held} is locked in total, expected {want}");
	// replay protection
	let p = ProcessedMessageIds::<Test>::get().into_inner();
	let missed = MissedMessageIds::<Test>::get();
	req!(p.windows(2).all(|w| w[0] < w[1]) && missed.windows(2).all(|w| w[0] < w[1]), "replay: id lists are not ordered: {p:?} {missed:?}");
	req!(p.len() <= MAX_PROCESSED, "replay: list of processed ids too long");
	req!(p.iter().all(|i| m.routed.contains(i)), "replay: {p:?} contains ids never delivered (delivered: {:?})", m.routed);
	for id in &m.routed {
		req!(p.contains(id) || p.first().map_or(false, |f| id < f), "replay: delivered event {id} can be submitted again");
		req!(!missed.contains(id), "replay: delivered event {id} can be submitted again as missing");
	}
	if let (Some(lo), Some(hi)) = (m.routed.first(), p.first()) {
		for id in lo + 1..*hi {
			if !m.routed.contains(&id) && !m.cleared.contains(&id) {
				req!(missed.contains(&id), "lost: event {id} was never delivered and can never be");
			}
		}
	}
	req!(missed.iter().all(|i| p.first().map_or(false, |f| i < f)), "replay: an id is open to both kinds of submission");
	Ok(())
}
/// Outer error: violation; inner: the (legal) refusal.
fn lockstep(m: &mut M, op: &Op) -> Result<Result<(), String>, String> {
	let h = shim::ext::state_hash();
	let kind = kind(op);
	let mut want = m.clone();
	let ok = want.apply(op).is_some();
	let r = exec(op);
	let mut routed: Vec<(H160, H160, Vec<u8>)> = drain(ROUTED);
	if let Err(e) = &r {
		req!(shim::ext::state_hash() == h, "atomicity: refused {kind} ({e}) changed the state");
	}
	let mut exp: Vec<_> = want.routed[m.routed.len()..].iter().map(|id| (source(*id), dest(m.claims[id].variant), data(*id, m.claims[id].variant))).collect();
	match (&r, ok) {
		(Ok(()), false) => {
			return Err(format!("admission: {kind} was accepted but must be refused"))
		},
		(Err(e), true) => return Err(format!("admission: {kind} was refused with {e} but must succeed")),
		(Ok(()), true) => *m = want,
		_ => exp.clear(),
	}
	routed.sort();
	exp.sort();
	req!(routed == exp, "delivery: block {}: delivered {routed:?}, expected {exp:?}", m.now);
	// the order within one block is the order of submission
	check(m)?;
	Ok(r)
}
fn both(m: &mut M, op: Op) {
	let r = lockstep(m, &op);
	assert!(matches!(&r, Ok(Ok(()))), "setup {op:?}: {r:?}");
}
fn genesis(keys: usize, period: u64) -> M {
	System::set_block_number(1);
	let free = [60, 50, 45, 12];
	for w in 0..PEOPLE {
		AssetsExt::mint_into(ROOT_ASSET_ID, &acc(w), free[w]).unwrap();
	}
	let mut m = M {
		now: 1,
		period: 0,
		relayer: None,
		bond: Default::default(),
		free,
		keys: vec![],
		claims: Default::default(),
		routed: vec![],
		cleared: Default::default(),
		slots: Default::default(),
	};
	both(&mut m, Op::Period(period));
	both(&mut m, Op::Keys((0..keys).collect()));
	both(&mut m, Op::Bond(0));
	both(&mut m, Op::Relayer(0));
	m
}
fn deliver(m: &mut M, ids: &[u64]) {
	for id in ids {
		both(m, Op::Submit { who: 0, id: *id, variant: 1 });
		for _ in 0..m.period {
			both(m, Op::Block);
		}
	}
}
/// Every claim not under challenge is delivered when it is due (run on a copy, undone afterwards).
fn eventually(m: &M) -> Check {
	shim::ext::begin();
	let mut c = m.clone();
	let end = m.claims.values().map(|c| c.due).max().unwrap_or(0);
	let mut r = Ok(());
	while c.now < end && r.is_ok() {
		r = lockstep(&mut c, &Op::Block).map(|_| ());
	}
	shim::ext::rollback();
	r.map_err(|e| format!("{e} (while only waiting)"))
}
struct Delivery;
impl Spec for Delivery {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		5
	}
	fn init(&self, i: usize) -> M {
		let mut m = genesis(1, if i == 0 { 2 } else { 1 });
		let m2 = &mut m;
		match i {
			0 => {},
			1 => deliver(m2, &[2, 3, 5]),
			2 => {
				// pruned: 3 and 5 are missing
				deliver(m2, &[2, 4, 6, 8]);
				both(m2, Op::Period(2));
			},
			3 => {
				// a claim long postponed by an open challenge, refuted or not next
				deliver(m2, &[1, 2]);
				both(m2, Op::Period(2));
				both(m2, Op::Submit { who: 0, id: 4, variant: 1 });
				both(m2, Op::Challenge { who: 1, id: 4 });
				both(m2, Op::Block);
				both(m2, Op::Bond(2));
			},
			_ => {
				// pruned while the claim of a missing event is pending, another one resubmitted
				deliver(m2, &[2]);
				both(m2, Op::Period(4));
				both(m2, Op::Submit { who: 0, id: 3, variant: 1 });
				both(m2, Op::Period(1));
				deliver(m2, &[4, 6, 8]);
				both(m2, Op::Missing { who: 0, id: 5, variant: 2 });
				both(m2, Op::Challenge { who: 1, id: 5 });
				both(m2, Op::Bond(2));
			},
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut v = vec![];
		let top = m.routed.iter().chain(m.claims.keys()).max().cloned().unwrap_or(1);
		let r = m.relayer.unwrap_or(0);
		for id in top.saturating_sub(5)..=top + 2 {
			v.push(Op::Submit { who: r, id, variant: 1 });
			v.push(Op::Missing { who: r, id, variant: 2 });
		}
		v.push(Op::Submit { who: r, id: top + 1, variant: BAD });
		v.push(Op::Submit { who: 3, id: top + 1, variant: 1 });
		v.push(Op::Missing { who: 3, id: top.saturating_sub(1), variant: 1 });
		v.push(Op::Clear { lo: top.saturating_sub(3), hi: top.saturating_sub(1) });
		for id in m.claims.keys() {
			v.push(Op::Challenge { who: 1, id: *id });
			v.push(Op::Vote { id: *id, key: 0, valid: true });
			v.push(Op::Vote { id: *id, key: 0, valid: false });
		}
		if m.relayer.is_none() {
			v.push(Op::Relayer(2));
		}
		v.push(Op::Period(3 - m.period.min(2)));
		v.push(Op::Block);
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let r = lockstep(m, op)?;
		Ok(format!("{}: {}", kind(op), r.err().unwrap_or("ok".into())))
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)?;
		eventually(m)
	}
}
struct Settlement;
impl Spec for Settlement {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		4
	}
	fn init(&self, i: usize) -> M {
		let mut m = genesis([3, 3, 4, 6][i], 2);
		let m2 = &mut m;
		match i {
			0 => {},
			1 => {
				both(m2, Op::Submit { who: 0, id: 1, variant: 1 });
				both(m2, Op::Submit { who: 0, id: 2, variant: 1 });
				both(m2, Op::Challenge { who: 2, id: 1 });
				both(m2, Op::Challenge { who: 0, id: 2 });
			},
			2 => {
				// one claim refuted, no relayer any more, two challenges open, a bonded successor
				for id in 1..=3 {
					both(m2, Op::Submit { who: 0, id, variant: 1 });
				}
				both(m2, Op::Bond(1));
				both(m2, Op::Challenge { who: 2, id: 3 });
				both(m2, Op::Challenge { who: 2, id: 1 });
				both(m2, Op::Vote { id: 3, key: 1, valid: false });
				both(m2, Op::Vote { id: 3, key: 2, valid: false });
				both(m2, Op::Vote { id: 1, key: 2, valid: true });
				both(m2, Op::Vote { id: 1, key: 0, valid: true });
			},
			_ => {
				// many votes of a set about to shrink
				both(m2, Op::Submit { who: 0, id: 1, variant: 1 });
				both(m2, Op::Challenge { who: 1, id: 1 });
				for k in 1..4 {
					both(m2, Op::Vote { id: 1, key: k, valid: true });
				}
				both(m2, Op::Vote { id: 1, key: 5, valid: false });
			},
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut v = vec![];
		let r = m.relayer.unwrap_or(0);
		for id in [1, 2] {
			v.push(Op::Submit { who: r, id, variant: 1 });
		}
		for id in 1..4 {
			if m.claims.contains_key(&id) {
				for who in [0, 1, 2, 3] {
					v.push(Op::Challenge { who, id });
				}
				for key in 0..m.keys.len().min(4) + 1 {
					for valid in [true, false] {
						v.push(Op::Vote { id, key, valid });
					}
				}
			}
		}
		v.push(Op::Challenge { who: 1, id: 7 });
		for w in 0..3 {
			v.push(Op::Relayer(w));
			v.push(Op::Unbond(w));
			v.push(Op::Bond(w));
		}
		v.push(Op::Bond(3));
		v.push(Op::Keys(vec![0, 1, 2]));
		v.push(Op::Keys(vec![0, 4]));
		v.push(Op::Block);
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let r = lockstep(m, op)?;
		Ok(format!("{}: {}", kind(op), r.err().unwrap_or("ok".into())))
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)
	}
}
pub fn delivery(c: &mut Ctx) {
	c.assume("votes are explored after transaction validation (one per authority in office; validation itself is part of E05); the challenge period is at least one block");
	c.assume("at most two processed ids are kept, so that pruning happens within the depth; ids below the first one ever delivered are taken to predate the bridge");
	let b = c.pick(5, 7);
	c.bfs("claims and delivery", &Delivery, depth(b));
}
pub fn settlement(c: &mut Ctx) {
	c.assume("votes are explored after transaction validation (one per authority in office; validation is a part of its own)");
	crate::oracle::who_may_vote(c);
	let b = c.pick(4, 6);
	c.bfs("challenges and bonds", &Settlement, depth(b));
	// every decision of every set size: `no` votes first or last, or alternating
	let top = c.pick(30usize, 60);
	let mut cases = vec![];
	for n in 1..=top {
		for yes in 0..=n {
			for order in 0..3 {
				cases.push((n, yes, order));
			}
		}
	}
	c.enumerate("every outcome of a vote", cases.into_iter(), |x| {
		let (n, yes, order) = *x;
		let mut m = genesis(n, 3);
		both(&mut m, Op::Submit { who: 0, id: 1, variant: 1 });
		both(&mut m, Op::Challenge { who: 1, id: 1 });
		let (mut y, mut no) = (yes, n - yes);
		for k in 0..n {
			let v = match order {
				0 => y > 0,
				1 => no == 0,
				_ => no == 0 || (k % 2 == 0 && y > 0),
			};
			*(if v { &mut y } else { &mut no }) -= 1;
			let open = m.claims.get(&1).map_or(false, |c| c.status == 1);
			let r = lockstep(&mut m, &Op::Vote { id: 1, key: k, valid: v })?;
			req!(r.is_ok() == open, "votes: unexpected refusal");
		}
		let open = m.claims.get(&1).map_or(false, |c| c.status == 1);
		req!(!open, "votes: all {n} have voted ({yes} for) and the claim is still undecided");
		Ok(if m.claims.contains_key(&1) { "proven".into() } else { "refuted".into() })
	});
}
