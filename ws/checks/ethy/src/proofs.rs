//! Requests to sign: proofs of outgoing messages, and the announcement of a new set of authorities.
use crate::claims::{addr, word};
use crate::*;
use seed_primitives::ethy::{ConsensusLog, EthyChainId, ETHY_ENGINE_ID};
use sp_core::bounded::WeakBoundedVec;
use frame_support::traits::OneSessionHandler;
use sp_runtime::generic::DigestItem;
use std::collections::BTreeMap;
#[derive(Debug)]
enum Log {
	Change { validators: Vec<AuthorityId>, id: u64, threshold: u32 },
	Sign { chain: EthyChainId, id: u64, data: Vec<u8> },
}
/// Everything the notaries are told to do in a block.
fn logs() -> Result<Vec<Log>, String> {
	let d = frame_system::Digest::<Test>::take();
	d.logs
		.iter()
		.map(|l| match l {
			DigestItem::Consensus(e, b) if *e == ETHY_ENGINE_ID => match ConsensusLog::<AuthorityId>::decode(&mut &b[..]) {
				Ok(ConsensusLog::AuthoritiesChange(s)) => Ok(Log::Change { validators: s.validators, id: s.id, threshold: s.proof_threshold }),
				Ok(ConsensusLog::OpaqueSigningRequest { chain_id, event_proof_id, data }) => Ok(Log::Sign { chain: chain_id, id: event_proof_id, data }),
				_ => Err("log: not a known instruction".to_string()),
			},
			_ => Err("log: foreign log item".into()),
		})
		.collect()
}
#[derive(Clone, Debug, Hash, PartialEq)]
enum Req {
	Eth { source: H160, dest: H160, message: Vec<u8> },
	Xrpl(Vec<u8>),
}
impl Req {
	fn chain(&self) -> EthyChainId {
		if matches!(self, Req::Eth { .. }) {
			EthyChainId::Ethereum
		} else {
			EthyChainId::Xrpl
		}
	}
	/// what has to be signed
	fn data(&self, set: u64, id: u64) -> Vec<u8> {
		match self {
			Req::Xrpl(d) => d.clone(),
			Req::Eth { source, dest, message } => {
				let mut o = [addr(*source), addr(*dest), word(160), word(set as u128), word(id as u128), word(message.len() as u128)].concat();
				o.extend(message);
				o.resize(o.len().next_multiple_of(32), 0);
				sp_io::hashing::keccak_256(&o).to_vec()
			},
		}
	}
}
#[derive(Clone, Debug, Hash)]
struct M {
	next: u64,
	manual: bool,
	change: bool,
	set: u64,
	per_block: u8,
	queue: BTreeMap<u64, Req>,
	done: Vec<u64>,
}
#[derive(Clone, Debug)]
enum Op {
	Send { size: usize, variant: u8 },
	Sign { size: usize, variant: u8 },
	Manual(bool),
	Handover(bool),
	PerBlock(u8),
	/// idle time worth this many proofs (255: any number)
	Idle(u8),
}
fn req(op: &Op) -> Option<Req> {
	match op {
		Op::Send { size, variant } => Some(Req::Eth { source: H160::from_low_u64_be(0x70 + *variant as u64), dest: H160::from_low_u64_be(0x80), message: vec![*variant; *size] }),
		Op::Sign { size, variant } => Some(Req::Xrpl(vec![*variant; *size])),
		_ => None,
	}
}
fn check(m: &M) -> Check {
	let mut q: Vec<u64> = PendingEventProofs::<Test>::iter().map(|x| x.0).collect();
	q.sort();
	let want: Vec<u64> = m.queue.keys().cloned().collect();
	req!(q == want, "delay: delayed requests are {q:?}, expected {want:?}");
	req!(EthBridge::bridge_paused() == (m.manual || m.change), "pause: paused is {}", EthBridge::bridge_paused());
	req!(NotarySetId::<Test>::get() == m.set, "set: id is {}", NotarySetId::<Test>::get());
	Ok(())
}
struct Requests;
impl Spec for Requests {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		3
	}
	fn init(&self, i: usize) -> M {
		System::set_block_number(1);
		set_keys(&(0..3).map(key).collect::<Vec<_>>());
		let mut m = M { next: NextEventProofId::<Test>::get(), manual: false, change: false, set: NotarySetId::<Test>::get(), per_block: DelayedEventProofsPerBlock::<Test>::get(), queue: Default::default(), done: vec![] };
		let mut go = |op: Op| {
			let r = self.step(&mut m, &op);
			assert!(r.is_ok(), "setup {op:?}: {r:?}");
		};
		if i > 0 {
			go(Op::PerBlock(2));
			go(Op::Send { size: 3, variant: 1 });
			if i == 1 {
				go(Op::Manual(true));
			}
			go(Op::Handover(true));
			for v in 2..5 {
				go(Op::Send { size: 40, variant: v });
				go(Op::Sign { size: 33, variant: v });
			}
			if i == 2 {
				go(Op::Handover(false));
			}
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut v = vec![Op::Handover(!m.change), Op::Manual(!m.manual), Op::Idle(0), Op::Idle(1), Op::Idle(2), Op::Idle(255)];
		for (size, variant) in [(0, 1), (33, 2), (MAX_DATA, 3), (MAX_DATA + 1, 4)] {
			v.push(Op::Send { size, variant });
			v.push(Op::Sign { size, variant });
		}
		for n in [0, 1, 3] {
			v.push(Op::PerBlock(n));
		}
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let h = shim::ext::state_hash();
		let mut fresh = None;
		let mut allowed = 0..=0;
		let label;
		match op {
			Op::Send { size, .. } | Op::Sign { size, .. } => {
				let want = req(op).unwrap();
				let mut id = None;
				let r = call(|| {
					id = Some(match &want {
						Req::Eth { source, dest, message } => <EthBridge as EthereumBridge>::send_event(source, dest, message)?,
						Req::Xrpl(d) => <EthBridge as XrplBridgeToEthyAdapter<AuthorityId>>::sign_xrpl_transaction(d)?,
					});
					Ok(())
				});
				if *size > MAX_DATA {
					req!(r.is_err(), "request: a message of {size} bytes was accepted");
					req!(shim::ext::state_hash() == h, "atomicity: a refused request changed the state");
				} else {
					req!(r.is_ok(), "request: {op:?} was refused with {r:?}");
					let id = id.unwrap();
					req!(id >= m.next, "id: request got id {id}, ids up to {} are taken", m.next - 1);
					m.next = id + 1;
					m.queue.insert(id, want);
					if !m.manual && !m.change {
						fresh = Some(id);
						allowed = 1..=1;
					}
				}
				label = format!("{} size {size} paused {}{}", kind(op), m.manual, m.change);
			},
			Op::Manual(b) => {
				req!(EthBridge::set_bridge_paused(RuntimeOrigin::signed(acc(1)), *b).is_err(), "pause: not by root");
				req!(call(|| EthBridge::set_bridge_paused(RuntimeOrigin::root(), *b)).is_ok(), "pause: root refused");
				m.manual = *b;
				label = "manual pause".into();
			},
			Op::Handover(b) => {
				// the parts of a hand-over are explored under E04
				if *b {
					BridgePaused::<Test>::mutate(|p| p.authorities_change = true);
				} else {
					EthBridge::do_finalise_authorities_change(NotaryKeys::<Test>::get());
					let l = logs()?;
					req!(l.len() == 1, "handover: logs {l:?}");
					m.set += 1;
				}
				m.change = *b;
				label = "handover".into();
			},
			Op::PerBlock(n) => {
				req!(call(|| EthBridge::set_delayed_event_proofs_per_block(RuntimeOrigin::root(), *n)).is_ok(), "limit: root refused");
				m.per_block = *n;
				label = "limit".into();
			},
			Op::Idle(n) => {
				let one: Weight = frame_support::weights::constants::RocksDbWeight::get().reads_writes(2, 2);
				let base: Weight = frame_support::weights::constants::RocksDbWeight::get().reads(3);
				let w = match n {
					0 => Weight::zero(),
					255 => Weight::from_all(u64::MAX),
					n => base + one * (*n as u64) + Weight::from_all(1),
				};
				let used = EthBridge::on_idle(System::block_number(), w);
				req!(used.ref_time() <= w.ref_time(), "idle: used {used:?} of {w:?}");
				let most = if m.manual || m.change { 0 } else { m.queue.len().min(m.per_block as usize) };
				// nothing without time for it, as many as allowed when there is time for any number
				allowed = match n {
					0 => 0..=0,
					255 => most..=most,
					n => most.min(1)..=most.min(*n as usize),
				};
				label = format!("idle {n}");
			},
		}
		let l = logs()?;
		req!(allowed.contains(&l.len()), "emission: {op:?} with {} delayed (limit {}, paused {}{}) requested {} signatures", m.queue.len(), m.per_block, m.manual, m.change, l.len());
		for x in l.iter() {
			let Log::Sign { chain: chain_id, id: event_proof_id, data } = x else { return Err("emission: not a request to sign".into()) };
			let Some(r) = m.queue.remove(event_proof_id) else {
				return Err(format!("emission: signatures for {event_proof_id} are requested again or out of nothing (requested so far: {:?})", m.done));
			};
			m.done.push(*event_proof_id);
			req!(*chain_id == r.chain(), "emission: wrong chain");
			req!(*data == r.data(m.set, *event_proof_id), "emission: what is to be signed for {event_proof_id} is not {r:?} by set {}", m.set);
			req!(fresh.map_or(true, |f| f == *event_proof_id), "emission: an earlier request instead of the new one");
		}
		m.done.sort();
		check(m)?;
		Ok(format!("{label} -> {}", l.len()))
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)
	}
}
pub fn requests(c: &mut Ctx) {
	let b = c.pick(6, 8);
	c.bfs("requests", &Requests, depth(b));
}

// ---------------------------------------------------------------- hand-over
/// secp256k1 keys of the secrets 1, 2, 3, 4 and their well-known addresses.
const KEYS: [(&str, &str, &str); 4] = [
	("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "7e5f4552091a69125d5dfcb7b8c2659029395bdf", "751e76e8199196d454941c45d1b3a323f1433bd6"),
	("02c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5", "2b5ad5c4795c026514f8317c7a215e218dccd6cf", "06afd46bcdfd22ef94ac122aa11f241244a37ecc"),
	("02f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9", "6813eb9362372eef6200f3b1dbc3f819671cba69", "7dd65592d0ab2fe0d0257d571abf032cd9db93dc"),
	("02e493dbf1c10d80f3581e4904930b1404cc6c13900ee0758474fa94abe8c4cd13", "1eff47bc3a10a45d4b230b5d10e37751fe6aa718", "c42e7ef92fdb603af844d064faad95db9bcdfd3d"),
];
fn unhex(s: &str) -> Vec<u8> {
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn real(i: usize) -> AuthorityId {
	AuthorityId::decode(&mut &unhex(KEYS[i].0)[..]).unwrap()
}
#[derive(Clone, Debug, Hash)]
struct H {
	now: u64,
	set: u64,
	keys: Vec<usize>,
	queued: Vec<usize>,
	/// the current session is the last of its era
	last: bool,
	/// it became so only after it had begun
	forced: bool,
	door: [bool; 4],
	/// the keys the XRPL door is to be signed with
	xrpl: Vec<usize>,
	manual: bool,
	/// a set of keys announced but not in office yet, and the block it takes office (if not the end of the session)
	announced: Option<(Vec<usize>, Option<u64>)>,
	delayed: BTreeMap<u64, Req>,
	next: u64,
}
#[derive(Clone, Debug)]
enum HOp {
	Block,
	Session { queued: Vec<usize>, last: bool },
	Force,
	Door(Vec<(usize, bool)>),
	Manual(bool),
}
impl H {
	fn paused(&self) -> bool {
		self.manual || self.announced.is_some()
	}
	fn door_keys(&self, keys: &[usize]) -> Vec<usize> {
		keys.iter().filter(|k| self.door[**k]).take(MAX_XRPL).cloned().collect()
	}
}
/// What one step must make the notaries do.
#[derive(Default, Debug)]
struct Want {
	announce: Option<(Vec<usize>, u64)>,
	activate: Option<(Vec<usize>, u64)>,
	signers: Option<Vec<usize>>,
}
impl H {
	fn announce(&mut self, at: Option<u64>, w: &mut Want) {
		let keys = self.queued.clone();
		w.announce = Some((keys.clone(), self.set + 1));
		let (mut a, mut b) = (self.door_keys(&keys), self.xrpl.clone());
		a.sort();
		b.sort();
		if a != b {
			w.signers = Some(self.door_keys(&keys));
		}
		self.announced = Some((keys, at));
	}
	fn activate(&mut self, w: &mut Want) {
		let (keys, _) = self.announced.take().unwrap();
		self.set += 1;
		self.xrpl = self.door_keys(&keys);
		self.keys = keys;
		w.activate = Some((self.keys.clone(), self.set));
	}
}
fn hcheck(m: &H) -> Check {
	let ids = |v: &[usize]| v.iter().map(|k| real(*k)).collect::<Vec<_>>();
	req!(NotaryKeys::<Test>::get().into_inner() == ids(&m.keys), "authorities: in office are {:?}, expected {:?}", NotaryKeys::<Test>::get(), m.keys);
	req!(NotarySetId::<Test>::get() == m.set, "authorities: set id is {}, expected {}", NotarySetId::<Test>::get(), m.set);
	req!(NotaryXrplKeys::<Test>::get().into_inner() == ids(&m.xrpl), "door: signers are {:?}, expected {:?}", NotaryXrplKeys::<Test>::get(), m.xrpl);
	req!(EthBridge::bridge_paused() == m.paused(), "pause: paused is {}, expected {}", EthBridge::bridge_paused(), m.paused());
	let v = EthBridge::validator_set();
	let n = m.keys.len() as u32;
	req!(v.id == m.set && v.validators == ids(&m.keys) && v.proof_threshold == (66 * n).div_ceil(100), "authorities: validator set is {v:?}");
	let mut q: Vec<u64> = PendingEventProofs::<Test>::iter().map(|x| x.0).collect();
	q.sort();
	let want: Vec<u64> = m.delayed.keys().cloned().collect();
	req!(q == want, "delay: delayed requests are {q:?}, expected {want:?}");
	Ok(())
}
fn pair(x: &(AccountId, AuthorityId)) -> (&AccountId, AuthorityId) {
	(&x.0, x.1.clone())
}
struct Handover;
impl Spec for Handover {
	type R = H;
	type Op = HOp;
	fn inits(&self) -> usize {
		4
	}
	fn init(&self, i: usize) -> H {
		System::set_block_number(1);
		let _ = call(|| EthBridge::set_contract_address(RuntimeOrigin::root(), H160::from_low_u64_be(0xc0)));
		let keys = vec![0, 1, 2];
		let door = [[true, false, true, false], [false, true, true, true], [false; 4], [true; 4]][i];
		let mut m = H {
			now: 1,
			set: NotarySetId::<Test>::get(),
			keys: keys.clone(),
			queued: keys.clone(),
			last: false,
			forced: false,
			door,
			xrpl: vec![],
			manual: false,
			announced: None,
			delayed: Default::default(),
			next: NextEventProofId::<Test>::get(),
		};
		for k in 0..4 {
			XrplDoorSigners::<Test>::insert(real(k), door[k]);
		}
		let who: Vec<(AccountId, AuthorityId)> = keys.iter().map(|k| (acc(*k), real(*k))).collect();
		<EthBridge as OneSessionHandler<AccountId>>::on_genesis_session(who.iter().map(pair));
		m.xrpl = m.door_keys(&keys);
		let mut go = |op: HOp| {
			let r = self.step(&mut m, &op);
			assert!(r.is_ok(), "setup {op:?}: {r:?}");
		};
		go(HOp::Block);
		go(HOp::Block);
		let last = i != 2;
		go(HOp::Session { queued: if i == 0 { vec![1, 3] } else { vec![3, 2, 1] }, last });
		m
	}
	fn ops(&self, m: &H) -> Vec<HOp> {
		let mut v = vec![];
		if (m.now + 1) % EPOCH == 0 {
			for q in [vec![0, 1, 2], vec![2, 1, 0], vec![3, 1], vec![0, 1, 2, 3]] {
				for last in [true, false] {
					v.push(HOp::Session { queued: q.clone(), last });
				}
			}
		} else {
			v.push(HOp::Block);
		}
		if !m.last {
			v.push(HOp::Force);
		}
		v.push(HOp::Door(vec![(0, !m.door[0]), (1, !m.door[1])]));
		v.push(HOp::Door(vec![(3, !m.door[3])]));
		v.push(HOp::Manual(!m.manual));
		v
	}
	fn step(&self, m: &mut H, op: &HOp) -> Step {
		let mut w = Want::default();
		let mut label = kind(op);
		match op {
			HOp::Block | HOp::Session { .. } => {
				let n = m.now + 1;
				System::set_block_number(n);
				// order of the runtime: scheduler, session, bridge
				Scheduler::on_initialize(n);
				if let HOp::Session { queued, last } = op {
					<EthBridge as OneSessionHandler<AccountId>>::on_before_session_ending();
					set_final(*last);
					let old: Vec<(AccountId, AuthorityId)> = vec![];
					let who: Vec<(AccountId, AuthorityId)> = queued.iter().map(|k| (acc(*k), real(*k))).collect();
					<EthBridge as OneSessionHandler<AccountId>>::on_new_session(true, old.iter().map(pair), who.iter().map(pair));
				}
				EthBridge::on_initialize(n);
				// ---- the same in the model
				m.now = n;
				let due = m.announced.as_ref().map_or(false, |a| a.1 == Some(n));
				if due {
					m.activate(&mut w);
					label += " activation (forced era)";
				}
				if let HOp::Session { queued, last } = op {
					if m.last {
						if m.announced.is_some() {
							m.activate(&mut w);
							label += " activation";
						} else {
							m.announce(Some(n + DELAY), &mut w);
							label += " announcement (forced era)";
						}
					}
					m.queued = queued.clone();
					m.last = *last;
					m.forced = false;
				} else if m.last && !m.forced && n % EPOCH == EPOCH - DELAY {
					m.announce(None, &mut w);
					label += " announcement";
				}
			},
			HOp::Force => {
				set_final(true);
				m.last = true;
				m.forced = true;
			},
			HOp::Door(v) => {
				let l = v.iter().map(|(k, b)| (real(*k), *b)).collect::<Vec<_>>();
				req!(call(|| EthBridge::set_xrpl_door_signers(RuntimeOrigin::signed(acc(1)), l.clone())).is_err(), "door: not by root");
				req!(call(|| EthBridge::set_xrpl_door_signers(RuntimeOrigin::root(), l)).is_ok(), "door: root refused");
				for (k, b) in v {
					m.door[*k] = *b;
				}
				m.xrpl = m.door_keys(&m.keys);
			},
			HOp::Manual(b) => {
				req!(call(|| EthBridge::set_bridge_paused(RuntimeOrigin::root(), *b)).is_ok(), "pause: root refused");
				m.manual = *b;
			},
		}
		// what was asked of the notaries and of the XRPL side
		let l = logs()?;
		let mut announced = 0;
		let mut activated = 0;
		if let Some((keys, id)) = &w.announce {
			let mut message = [word(64), word(*id as u128), word(keys.len() as u128)].concat();
			keys.iter().for_each(|k| message.extend(addr(H160::from_slice(&unhex(KEYS[*k].1)))));
			let mut source = b"modlethybrdg".to_vec();
			source.resize(20, 0);
			let r = Req::Eth { source: H160::from_slice(&source), dest: H160::from_low_u64_be(0xc0), message };
			let proof = NotarySetProofId::<Test>::get();
			req!(proof >= m.next, "announcement: proof id {proof} was used before");
			m.next = proof + 1;
			if m.manual {
				req!(PendingEventProofs::<Test>::contains_key(proof), "announcement: lost while paused by hand");
				m.delayed.insert(proof, r);
				label += " delayed";
			} else {
				// signed by those still in office
				for x in &l {
					if let Log::Sign { chain: chain_id, id: event_proof_id, data } = x {
						req!(*chain_id == EthyChainId::Ethereum && *event_proof_id == proof, "announcement: {x:?}");
						req!(*data == r.data(m.set, proof), "announcement: the proof of set {id} with keys {keys:?}, by set {}, is not what is being signed", m.set);
						announced += 1;
					}
				}
				req!(announced == 1, "announcement: {announced} proofs are requested for the new set {keys:?}");
			}
		}
		if let Some((keys, id)) = &w.activate {
			for x in &l {
				if let Log::Change { validators, id: set, threshold } = x {
					let ks: Vec<_> = keys.iter().map(|k| real(*k)).collect();
					let n = keys.len() as u32;
					req!(*validators == ks && set == id && *threshold == (66 * n).div_ceil(100), "activation: notaries are told {x:?}, announced were {keys:?} as set {id}");
					activated += 1;
				}
			}
			req!(activated == 1, "activation: {activated} changes for {keys:?}");
		}
		req!(l.len() == announced + activated, "handover: unexpected instructions to the notaries: {l:?}");
		let s: Vec<Vec<(H160, u16)>> = drain(SIGNERS);
		let mut got = s.clone();
		got.iter_mut().for_each(|v| v.sort());
		let mut want: Vec<Vec<(H160, u16)>> = w.signers.iter().filter(|v| !v.is_empty()).map(|v| v.iter().map(|k| (H160::from_slice(&unhex(KEYS[*k].2)), 1)).collect()).collect();
		want.iter_mut().for_each(|v| v.sort());
		req!(got == want, "door: the door is asked to take signers {got:?}, expected {want:?}");
		if !want.is_empty() {
			label += " door";
		}
		hcheck(m)?;
		Ok(label)
	}
	fn invariant(&self, m: &H) -> Check {
		hcheck(m)
	}
}
pub fn handover(c: &mut Ctx) {
	c.assume("sessions of 4 blocks, the hand-over delay is one block; the session pallet is played by the driver, which calls the bridge in the order of pallet_session and runs the (modelled) scheduler");
	c.assume("an era that was announced to end with its session does end with it (it may be forced to, not kept from it)");
	let b = c.pick(13, 18);
	c.bfs("hand-over", &Handover, depth(b));
	// the list of new signers is limited whatever its length
	let lens: Vec<usize> = (0..40).chain(250..300).chain([512, 513, 520, 65536, 65540]).collect();
	c.enumerate("length of the list of signers", lens.into_iter(), |n| {
		let l: Vec<_> = (0..*n).map(|k| (key(k), true)).collect();
		let r = call(|| EthBridge::set_xrpl_door_signers(RuntimeOrigin::root(), l));
		req!(r.is_ok() == (*n < 20), "door: a list of {n} signers is answered with {r:?}");
		Ok(format!("{}", r.is_ok()))
	});
}
