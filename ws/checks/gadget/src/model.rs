//! What a node has to do, input by input.
use crate::node::*;
use codec::{Decode, Encode};
use explore::req;
use seed_primitives::ethy::{crypto::AuthorityId, *};
use sp_api::HeaderT as _;
use sp_core::ecdsa;
use std::{
	collections::{BTreeMap, BTreeSet},
	sync::Arc,
};
pub type R<T> = Result<T, String>;
/// Messages of requests older than this are of no interest any more.
pub const WINDOW: usize = 90;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
	/// block n is finalised, and the client says so
	Fin(usize),
	/// block n is finalised, but no notification comes
	Quiet(usize),
	/// message i arrives
	Msg(usize),
	/// the gossip engine drops what has expired
	Gc,
	/// major sync is over
	Synced,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
	Good,
	/// the other of the two signatures that are as good as each other
	HighS,
	/// signed by somebody else
	BadSig,
	/// the validator signs other data
	WrongData,
	/// the validator signs a digest that is off by one bit, the first or the last
	OffFirst,
	OffLast,
	/// cut short
	Cut,
}
#[derive(Clone, Debug)]
pub struct Message {
	pub by: usize,
	pub event: u64,
	pub kind: Kind,
	pub block: usize,
	pub bytes: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Request {
	pub block: usize,
	pub event: u64,
	pub chain: EthyChainId,
	pub data: Vec<u8>,
}
pub struct Scenario {
	pub name: String,
	pub chain: Arc<Chain>,
	pub requests: Vec<Request>,
	pub messages: Vec<Message>,
	pub start: usize,
	pub keys: Vec<usize>,
	pub syncing: bool,
	pub before: Vec<Op>,
	pub ops: Vec<Op>,
	/// state cannot be had for some blocks: only soundness is claimed
	pub faulty: bool,
}
pub fn message(by: usize, r: &Request, set_id: u64, kind: Kind) -> Message {
	let other: Vec<u8> = r.data.iter().map(|b| b ^ 0x55).collect();
	let data = if kind == Kind::WrongData { &other } else { &r.data };
	let mut d = digest_of(r.chain, data, &key(by)).unwrap();
	match kind {
		Kind::OffFirst => d[0] ^= 0x80,
		Kind::OffLast => d[31] ^= 1,
		_ => {},
	}
	let mut sig = sign(if kind == Kind::BadSig { 9 } else { by }, &d);
	if kind == Kind::HighS {
		let s = shim::num::U256::from_big_endian(&sig.0[32..64]);
		(shim::secp::n() - s).to_big_endian(&mut sig.0[32..64]);
		sig.0[64] ^= 1;
	}
	let w = Witness {
		digest: d,
		chain_id: r.chain,
		event_id: r.event,
		validator_set_id: set_id,
		authority_id: key(by),
		signature: sig.into(),
		block_number: r.block as u64,
	};
	let mut bytes = w.encode();
	if kind == Kind::Cut {
		bytes.pop();
	}
	Message { by, event: r.event, kind, block: r.block, bytes }
}
struct Meta {
	r: Request,
	set: Set,
	xrpl: Set,
}
pub struct Model<'a> {
	sc: &'a Scenario,
	known_to: usize,
	finalized: usize,
	syncing: bool,
	waiting: Vec<usize>,
	set: Set,
	meta: BTreeMap<u64, Meta>,
	/// (event, validator) whose first well signed message has come through the network
	heard: BTreeSet<(u64, usize)>,
	unverified: Vec<(u64, usize, bool)>,
	votes: BTreeMap<u64, BTreeSet<usize>>,
	pub done: BTreeSet<u64>,
	known: BTreeSet<Vec<u8>>,
	kept: Vec<(u64, usize, Vec<u8>)>,
	/// an event the model makes no claim about has come up
	pub unclaimed: bool,
	sent: Vec<Vec<u8>>,
	proofs: Vec<u64>,
	pub published: Vec<u64>,
}
fn in_set(s: &Set, k: usize) -> bool {
	s.validators.contains(&key(k))
}
impl<'a> Model<'a> {
	pub fn new(sc: &'a Scenario) -> Self {
		Model {
			sc,
			known_to: sc.start,
			finalized: sc.start,
			syncing: sc.syncing,
			waiting: vec![],
			set: Set::empty(),
			meta: Default::default(),
			heard: Default::default(),
			unverified: vec![],
			votes: Default::default(),
			done: Default::default(),
			known: Default::default(),
			kept: vec![],
			unclaimed: false,
			sent: vec![],
			proofs: vec![],
			published: vec![],
		}
	}
	/// Once two events are complete, one before all of them that comes up only then counts as past:
	/// what a node does about it is not claimed.
	fn past(&mut self, e: u64) -> bool {
		if self.done.len() > 1 && e < *self.done.first().unwrap() {
			self.unclaimed = true;
		}
		self.done.contains(&e)
	}
	fn try_proof(&mut self, e: u64) {
		let Some(m) = self.meta.get(&e) else { return };
		let (u, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut self.unverified).into_iter().partition(|x| x.0 == e);
		self.unverified = rest;
		for (_, by, good) in u {
			if good && in_set(&m.set, by) {
				self.votes.entry(e).or_default().insert(by);
			}
		}
		let v = self.votes.get(&e).cloned().unwrap_or_default();
		let (n, t, all) = match m.r.chain {
			EthyChainId::Ethereum => (v.len(), m.set.proof_threshold, &m.set),
			EthyChainId::Xrpl => (v.iter().filter(|k| in_set(&m.xrpl, **k)).count(), m.xrpl.proof_threshold, &m.xrpl),
		};
		if !all.is_empty() && n >= t as usize {
			self.done.insert(e);
			self.proofs.push(e);
			self.heard.retain(|x| x.0 != e);
		}
	}
	fn block(&mut self, n: usize) {
		let (s, x) = self.sc.chain.sets[n].clone();
		let (s, x) = (s.unwrap_or_default(), x.unwrap_or_default());
		self.set = s;
		let me = self.sc.keys.iter().filter(|k| in_set(&self.set, **k)).min_by_key(|k| self.set.authority_index(&key(**k))).copied();
		for r in self.sc.requests.iter().filter(|r| r.block == n) {
			if self.past(r.event) || (r.chain == EthyChainId::Ethereum && r.data.len() != 32) {
				continue;
			}
			self.meta.insert(r.event, Meta { r: r.clone(), set: self.set.clone(), xrpl: x.clone() });
			if let Some(me) = me {
				let m = message(me, r, self.set.id, Kind::Good);
				self.votes.entry(r.event).or_default().insert(me);
				self.remember(r.event, r.block, &m.bytes);
				self.gossip(r.event, r.block, m.bytes);
			}
			self.try_proof(r.event);
		}
	}
	fn remember(&mut self, e: u64, block: usize, b: &[u8]) {
		if self.known.insert(b.to_vec()) {
			self.kept.push((e, block, b.to_vec()));
		}
	}
	fn recent(&self, block: usize) -> bool {
		block + WINDOW >= self.finalized
	}
	fn gossip(&mut self, e: u64, block: usize, b: Vec<u8>) {
		if self.recent(block) && !self.done.contains(&e) {
			self.sent.push(b);
		}
	}
	fn blocks(&mut self, n: usize) {
		while self.known_to < n && !self.unclaimed {
			self.known_to += 1;
			self.block(self.known_to);
		}
	}
	fn msg(&mut self, m: &Message) {
		if self.known.contains(&m.bytes) || m.kind == Kind::Cut || m.kind == Kind::BadSig || !in_set(&self.set, m.by) {
			return;
		}
		if !self.heard.insert((m.event, m.by)) || !self.recent(m.block) {
			return;
		}
		self.remember(m.event, m.block, &m.bytes);
		if self.past(m.event) || self.unclaimed {
			return;
		}
		let good = matches!(m.kind, Kind::Good | Kind::HighS);
		if self.votes.get(&m.event).map_or(false, |v| v.contains(&m.by)) {
			return;
		}
		match self.meta.get(&m.event) {
			None => self.unverified.push((m.event, m.by, good)),
			Some(x) if good && in_set(&x.set, m.by) => {
				self.votes.entry(m.event).or_default().insert(m.by);
			},
			Some(_) => return,
		}
		self.gossip(m.event, m.block, m.bytes.clone());
		self.try_proof(m.event);
	}
	fn step(&mut self, op: Op) {
		match op {
			Op::Quiet(n) => self.finalized = self.finalized.max(n),
			Op::Fin(n) => {
				self.finalized = self.finalized.max(n);
				if !self.syncing {
					self.blocks(n)
				}
				// before the end of the first sync, the gadget does not listen
			},
			Op::Synced => {
				self.syncing = false;
				for n in std::mem::take(&mut self.waiting) {
					self.blocks(n)
				}
			},
			Op::Msg(i) => self.msg(&self.sc.messages[i].clone()),
			Op::Gc => {
				let (done, fin) = (self.done.clone(), self.finalized);
				let known = &mut self.known;
				self.kept.retain(|(e, block, b)| {
					let stay = !done.contains(e) && block + WINDOW >= fin;
					if !stay {
						known.remove(b);
					}
					stay
				});
			},
		}
	}
}

/// The signatures of a proof, against the set they are for.
pub fn sound(sc: &Scenario, k: &[u8], v: &[u8]) -> R<(u64, BTreeSet<usize>)> {
	let p = proof_of(v)?;
	let e = p.event_id;
	let n = sc.chain.headers.iter().position(|h| h.hash().0 == p.block);
	let Some(r) = sc.requests.iter().find(|r| r.event == e && Some(r.block) == n) else {
		return Err(format!("unasked: a proof of event {e}, block {n:?}, which nobody asked for"));
	};
	req!(k == [&b"ETHY"[..], &[if r.chain == EthyChainId::Ethereum { 1 } else { 2 }], &e.to_be_bytes()].concat(), "place: the proof of event {e} is stored at {}", k.iter().map(|b| format!("{b:02x}")).collect::<String>());
	// what cannot be had stays as it was
	let last = |f: &dyn Fn(usize) -> Option<Set>| (0..=r.block).rev().find_map(f).unwrap_or_default();
	let (s, x) = (last(&|n| sc.chain.sets[n].0.clone()), last(&|n| sc.chain.sets[n].1.clone()));
	req!(p.validator_set_id == s.id, "set: the proof of event {e} names set {}, but set {} was to sign it", p.validator_set_id, s.id);
	req!(Some(p.digest) == digest_of(r.chain, &r.data, &zero()), "digest: the proof of event {e} is of other data");
	let mut who = BTreeSet::new();
	let mut last = None;
	for (i, sig) in &p.signatures {
		req!(last < Some(*i), "order: the signatures of event {e} are not in the order of the validators");
		last = Some(*i);
		let Some(v) = s.validators.get(*i as usize) else {
			return Err(format!("index: the proof of event {e} has a signature of validator {i}, there are {}", s.validators.len()));
		};
		let d = digest_of(r.chain, &r.data, v).unwrap();
		let sg = ecdsa::Signature::try_from(&sig[..]).unwrap();
		req!(sg.recover_prehashed(&d) == Some(v.clone().into()), "signature: number {i} in the proof of event {e} is not the validator's");
		who.insert((0..12).find(|k| key(*k) == *v).unwrap());
	}
	let (n, t) = match r.chain {
		EthyChainId::Ethereum => (who.len(), s.proof_threshold),
		EthyChainId::Xrpl => (who.iter().filter(|k| in_set(&x, **k)).count(), x.proof_threshold),
	};
	req!(n >= t as usize && n > 0, "threshold: the proof of event {e} has {n} signatures that count, {t} are needed");
	Ok((e, who))
}
fn zero() -> AuthorityId {
	ecdsa::Public::try_from(&[0u8; 33][..]).unwrap().into()
}

fn same_witness(a: &[u8], b: &[u8]) -> bool {
	match (Witness::decode(&mut &a[..]), Witness::decode(&mut &b[..])) {
		(Ok(x), Ok(y)) => {
			let ok = |w: &Witness| ecdsa::Signature::try_from(&w.signature[..]).unwrap().recover_prehashed(&w.digest) == Some(w.authority_id.clone().into());
			let mut z = y.clone();
			z.signature = x.signature.clone();
			x == z && ok(&x) == ok(&y)
		},
		_ => a == b,
	}
}

/// Which part of what a node does is compared.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Look {
	/// proofs are sound
	Sound,
	/// proofs are made as soon as they can be
	Complete,
	/// what it signs and passes on
	Talk,
	/// what it keeps of the network's messages
	Gossip,
	/// what the RPC serves
	Serve,
}

pub fn execute(sc: &Scenario, ops: &[Op], look: Look) -> R<String> {
	let mut sim = Sim::new(&sc.chain, sc.start, &sc.keys, sc.syncing);
	let mut sub = sim.subscribe();
	sim.run_spawned();
	let mut m = Model::new(sc);
	let mut seen = BTreeSet::new();
	for op in sc.before.iter().chain(ops) {
		match op {
			Op::Fin(n) => sim.finalise(*n, true),
			Op::Quiet(n) => sim.finalise(*n, false),
			Op::Msg(i) => {
				sim.deliver(&sc.messages[*i].bytes);
			},
			Op::Gc => sim.net.collect_garbage(),
			Op::Synced => sim.node.syncing.store(false, std::sync::atomic::Ordering::Relaxed),
		}
		let did = sim.run()?;
		m.step(*op);
		if m.unclaimed {
			return Ok("an event before two complete ones".into());
		}
		let sent = std::mem::take(&mut m.sent);
		let proofs = std::mem::take(&mut m.proofs);
		m.published.extend(&proofs);
		let mut got = vec![];
		for (k, v) in &did.written {
			if look == Look::Sound {
				let (e, who) = sound(sc, k, v)?;
				req!(seen.insert(e), "twice: event {e} is proved once more");
				if !sc.faulty {
					let votes = m.votes.get(&e).cloned().unwrap_or_default();
					req!(who == votes, "votes: the proof of event {e} is signed by {who:?}, the votes are {votes:?}");
				}
			}
			got.push(proof_of(v)?.event_id);
		}
		match look {
			Look::Sound => {
				let told: Vec<_> = did.told.iter().map(|p| p.encode()).collect();
				req!(told == did.written.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "told: subscribers hear of other proofs than are stored");
			},
			Look::Complete if !sc.faulty => req!(got == proofs, "complete: {op:?} makes the proofs of {got:?}, it should make those of {proofs:?}"),
			Look::Talk if !sc.faulty => req!(
				did.sent.len() == sent.len() && did.sent.iter().zip(&sent).all(|(a, b)| same_witness(a, b)),
				"talk: on {op:?} the node sends {:?}, it should send {:?}",
				did.sent.iter().map(|b| Witness::decode(&mut &b[..]).map(|w| (w.event_id, w.validator_set_id, w.block_number)).ok()).collect::<Vec<_>>(),
				sent.iter().map(|b| Witness::decode(&mut &b[..]).map(|w| (w.event_id, w.validator_set_id, w.block_number)).ok()).collect::<Vec<_>>()
			),
			Look::Gossip if !sc.faulty => {
				let kept: Vec<_> = sim.net.kept.lock().iter().map(|x| x.1.clone()).collect();
				let want: Vec<_> = m.kept.iter().map(|x| x.2.clone()).collect();
				req!(
					kept.len() == want.len() && kept.iter().zip(&want).all(|(a, b)| same_witness(a, b)),
					"kept: after {op:?} the node keeps {} messages, it should keep {}",
					kept.len(),
					want.len()
				);
			},
			_ => {},
		}
	}
	if look == Look::Serve {
		sim.run_spawned();
		return crate::rpc::served(sc, &sim, &m.published, &mut sub);
	}
	Ok(format!("{} proofs", m.published.len()))
}
