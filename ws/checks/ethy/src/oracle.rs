//! What the authorities report about Ethereum: votes on challenged events, answers to `eth_call` requests.
use crate::*;
use codec::Encode as _;
use frame_support::unsigned::{TransactionSource, ValidateUnsigned};
use pallet_ethy::*;
use seed_primitives::ethy::crypto::AuthorityPair;
use sp_core::{Pair, U256};
use std::collections::BTreeMap;
const NOW: &[u8] = b"chk:now";
pub fn now() -> u64 {
	unhashed::get_or_default(NOW)
}
// ---------------------------------------------------------------- the Ethereum node
type Answer<T> = Result<Option<T>, ()>;
#[derive(Clone, Default)]
struct Chain {
	latest: Option<Answer<EthBlock>>,
	blocks: BTreeMap<u64, Answer<EthBlock>>,
	receipt: Option<Answer<TransactionReceipt>>,
	data: Option<Result<Vec<u8>, ()>>,
	/// calls made
	calls: Vec<(EthAddress, Vec<u8>, Option<u64>)>,
}
thread_local! { static CHAIN: RefCell<Chain> = Default::default(); }
fn chain(c: Chain) {
	CHAIN.with(|x| *x.borrow_mut() = c)
}
const E: BridgeRpcError = BridgeRpcError::HttpFetch;
/// The transaction every claim refers to.
fn tx() -> H256 {
	H256::from_low_u64_be(0x77)
}
pub struct Node;
impl BridgeEthereumRpcApi for Node {
	fn get_block_by_number(n: LatestOrNumber) -> Result<Option<EthBlock>, BridgeRpcError> {
		CHAIN.with(|c| match n {
			LatestOrNumber::Latest => c.borrow().latest.clone().unwrap_or(Err(())),
			LatestOrNumber::Number(n) => c.borrow().blocks.get(&n).cloned().unwrap_or(Ok(None)),
		})
		.map_err(|_| E)
	}
	fn get_transaction_receipt(h: EthHash) -> Result<Option<TransactionReceipt>, BridgeRpcError> {
		if h != tx() {
			return Ok(None);
		}
		CHAIN.with(|c| c.borrow().receipt.clone().unwrap_or(Err(()))).map_err(|_| E)
	}
	fn eth_call(target: EthAddress, input: &[u8], at: LatestOrNumber) -> Result<Vec<u8>, BridgeRpcError> {
		let at = match at {
			LatestOrNumber::Latest => None,
			LatestOrNumber::Number(n) => Some(n),
		};
		CHAIN.with(|c| {
			c.borrow_mut().calls.push((target, input.to_vec(), at));
			c.borrow().data.clone().unwrap_or(Err(()))
		})
		.map_err(|_| E)
	}
}
// ---------------------------------------------------------------- answers
const RESULTS: [CheckedEthCallResult; 7] = [
	CheckedEthCallResult::Ok([1; 32], 5, 50),
	CheckedEthCallResult::Ok([1; 32], 6, 50),
	CheckedEthCallResult::ReturnDataEmpty,
	CheckedEthCallResult::DataProviderErr,
	CheckedEthCallResult::ReturnDataExceedsLimit,
	CheckedEthCallResult::InvalidEthBlock,
	CheckedEthCallResult::InvalidTimestamp,
];
type Told = (EthCallId, Option<([u8; 32], u64, u64)>, u8);
fn told(id: u64, r: usize) -> Told {
	match RESULTS[r] {
		CheckedEthCallResult::Ok(d, b, t) => (id, Some((d, b, t)), 0),
		CheckedEthCallResult::ReturnDataExceedsLimit => (id, None, 1),
		CheckedEthCallResult::ReturnDataEmpty => (id, None, 2),
		_ => (id, None, 3),
	}
}
#[derive(Clone, Debug, Hash)]
struct M {
	keys: Vec<usize>,
	time: u64,
	next: u64,
	/// per open request: when it was made, which kind, votes
	calls: BTreeMap<u64, (u64, u8, BTreeMap<usize, usize>)>,
}
#[derive(Clone, Debug)]
enum Op {
	Ask(u8),
	Vote { id: u64, key: usize, result: usize },
	Keys(Vec<usize>),
	Wait,
}
impl M {
	fn apply(&mut self, op: &Op) -> Option<Vec<Told>> {
		let mut out = vec![];
		match op {
			Op::Ask(k) => {
				self.calls.insert(self.next, (self.time, *k, Default::default()));
				self.next += 1;
			},
			Op::Keys(v) => {
				self.keys = v.clone();
				self.calls.values_mut().for_each(|c| c.2.clear());
			},
			Op::Wait => self.time += 7,
			Op::Vote { id, key, result } => {
				let n = self.keys.len();
				let c = self.calls.get_mut(id)?;
				if !self.keys.contains(key) || c.2.contains_key(key) {
					return None;
				}
				c.2.insert(*key, *result);
				let count = |r: usize| c.2.values().filter(|x| **x == r).count();
				let rest = n - c.2.len();
				if let Some(r) = (0..RESULTS.len()).find(|r| reaches(count(*r), n)) {
					out.push(told(*id, r));
				} else if rest == 0 || !(0..RESULTS.len()).any(|r| reaches(count(r) + rest, n)) {
					// no answer the authorities agree on
					out.push((*id, None, 3));
				}
				if !out.is_empty() {
					self.calls.remove(id);
				}
			},
		}
		Some(out)
	}
}
fn ask(k: u8, id: &mut u64) {
	*id = <EthBridge as EthCallOracle>::checked_eth_call(&H160::from_low_u64_be(0xa0 + k as u64), &[k, 1, 2], 3 + k as u64, 40 + k as u64, k as u64);
}
fn acheck(m: &M) -> Check {
	let q = EthCallRequests::<Test>::get().into_inner();
	let want: Vec<u64> = m.calls.keys().cloned().collect();
	req!(q == want, "requests: open requests are {q:?}, expected {want:?}");
	req!(EthCallRequestInfo::<Test>::iter().count() == want.len(), "requests: left-over requests");
	for (id, (t, k, votes)) in &m.calls {
		let i = EthCallRequestInfo::<Test>::get(id);
		let w = CheckedEthCallRequest { input: BoundedVec::truncate_from(vec![*k, 1, 2]), target: H160::from_low_u64_be(0xa0 + *k as u64), timestamp: 3 + *k as u64, max_block_look_behind: *k as u64, try_block_number: 40 + *k as u64, check_timestamp: *t };
		req!(i.as_ref() == Some(&w), "requests: what is on record for {id} is not what was asked");
		for key_ in 0..6 {
			let g = EthCallNotarizations::<Test>::get(id, key(key_));
			req!(g == votes.get(&key_).map(|r| RESULTS[*r]), "votes: the vote of {key_} on {id} is on record as {g:?}");
		}
	}
	req!(EthCallNotarizations::<Test>::iter().count() == m.calls.values().map(|c| c.2.len()).sum::<usize>(), "votes: left-over votes");
	req!(EthCallNotarizationsAggregated::<Test>::iter().count() <= want.len(), "votes: left-over counts");
	Ok(())
}
fn astep(m: &mut M, op: &Op) -> Step {
	let h = shim::ext::state_hash();
	let mut w = m.clone();
	let want = w.apply(op);
	let r = match op {
		Op::Ask(k) => {
			let mut id = 0;
			ask(*k, &mut id);
			req!(id == m.next, "requests: id {id}, expected {}", m.next);
			Ok(())
		},
		Op::Wait => {
			unhashed::put(NOW, &w.time);
			Ok(())
		},
		Op::Keys(v) => {
			EthBridge::do_finalise_authorities_change(sp_core::bounded::WeakBoundedVec::force_from(v.iter().map(|k| key(*k)).collect(), None));
			set_keys(&v.iter().map(|k| key(*k)).collect::<Vec<_>>());
			Ok(())
		},
		Op::Vote { id, key: k, result } => {
			let idx = NotaryKeys::<Test>::get().iter().position(|x| *x == key(*k));
			match idx {
				None => Err("not an authority".into()),
				Some(_) if EthCallNotarizations::<Test>::contains_key(id, key(*k)) => Err("equivocation".into()),
				Some(i) => call(|| EthBridge::submit_notarization(RuntimeOrigin::none(), NotarizationPayload::Call { call_id: *id, authority_index: i as u16, result: RESULTS[*result] }, sig0())),
			}
		},
	};
	let got: Vec<Told> = drain(ANSWERS);
	req!(r.is_ok() == want.is_some(), "admission: {op:?} is answered with {r:?}");
	if r.is_err() {
		req!(shim::ext::state_hash() == h, "atomicity: a refused vote changed the state");
	}
	let want = want.unwrap_or_default();
	req!(got == want, "answer: after {op:?} the subscriber is told {got:?}, expected {want:?} (votes before: {:?} of {})", m.calls, m.keys.len());
	if r.is_ok() {
		*m = w;
	}
	acheck(m)?;
	Ok(format!("{} {:?} {:?}", kind(op), r.err(), want.first().map(|x| (x.1.is_some(), x.2))))
}
struct Answers;
impl Spec for Answers {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		4
	}
	fn init(&self, i: usize) -> M {
		System::set_block_number(1);
		let n = [3, 4, 5, 6][i];
		set_keys(&(0..n).map(key).collect::<Vec<_>>());
		let mut m = M { keys: (0..n).collect(), time: 0, next: NextEthCallId::<Test>::get(), calls: Default::default() };
		let mut go = |op: Op| {
			let r = astep(&mut m, &op);
			assert!(r.is_ok(), "setup {op:?}: {r:?}");
		};
		go(Op::Ask(1));
		if i > 0 {
			go(Op::Wait);
			go(Op::Ask(2));
		}
		if i == 2 {
			go(Op::Vote { id: 0, key: 1, result: 0 });
			go(Op::Vote { id: 1, key: 1, result: 3 });
			go(Op::Vote { id: 0, key: 2, result: 0 });
		}
		if i == 3 {
			go(Op::Vote { id: 0, key: 5, result: 1 });
			go(Op::Vote { id: 0, key: 4, result: 1 });
			go(Op::Vote { id: 0, key: 3, result: 1 });
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut v = vec![Op::Ask(m.next as u8 % 3), Op::Keys(vec![0, 1, 2]), Op::Keys(vec![2, 4, 0, 1]), Op::Wait];
		for id in m.calls.keys().take(2).cloned().chain([m.next]) {
			for key in 0..m.keys.len() + 1 {
				for result in if key == 0 { 0..7 } else if key % 2 == 0 { 0..2 } else { 0..3 } {
					v.push(Op::Vote { id, key, result });
				}
			}
		}
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		astep(m, op)
	}
	fn invariant(&self, m: &M) -> Check {
		acheck(m)
	}
}
// ---------------------------------------------------------------- admission of votes
fn pair(i: usize) -> AuthorityPair {
	let mut s = [0u8; 32];
	s[31] = i as u8 + 1;
	AuthorityPair::from_seed(&s)
}
fn payload(kind: usize, id: u64, index: u16, variant: usize) -> NotarizationPayload {
	if kind == 0 {
		NotarizationPayload::Call { call_id: id, authority_index: index, result: RESULTS[variant] }
	} else {
		NotarizationPayload::Event { event_claim_id: id, authority_index: index, result: [EventClaimResult::Valid, EventClaimResult::NoTxLogs][variant].clone() }
	}
}
#[derive(Clone, Debug)]
struct Adm {
	keys: Vec<usize>,
	kind: usize,
	index: u16,
	signer: usize,
	/// what is signed: 0 what is sent, 1 another result, 2 another id, 3 another index, 4 the other kind
	tamper: usize,
	/// votes on record: 0 none, 1 own vote on this id, 2 own vote of the other kind, 3 own vote on another id, 4 another authority's
	before: usize,
}
fn admission(x: &Adm) -> Result<String, String> {
	set_keys(&x.keys.iter().map(|k| pair(*k).public()).collect::<Vec<_>>());
	let id = 3u64;
	let sent = payload(x.kind, id, x.index, 0);
	let signed = match x.tamper {
		0 => sent.clone(),
		1 => payload(x.kind, id, x.index, 1),
		2 => payload(x.kind, id + 1, x.index, 0),
		3 => payload(x.kind, id, x.index.wrapping_add(1), 0),
		_ => payload(1 - x.kind, id, x.index, 0),
	};
	let signature = pair(x.signer).sign(&signed.encode());
	let owner = x.keys.get(x.index as usize).cloned();
	let vote = |kind: usize, id: u64, k: usize| {
		if kind == 0 {
			EthCallNotarizations::<Test>::insert(id, pair(k).public(), RESULTS[1]);
		} else {
			EventNotarizations::<Test>::insert(id, pair(k).public(), EventClaimResult::Valid);
		}
	};
	if let Some(o) = owner {
		match x.before {
			1 => vote(x.kind, id, o),
			2 => vote(1 - x.kind, id, o),
			3 => vote(x.kind, id + 1, o),
			4 => x.keys.iter().filter(|k| **k != o).for_each(|k| vote(x.kind, id, *k)),
			_ => {},
		}
	}
	let want = owner == Some(x.signer) && x.tamper == 0 && x.before != 1;
	let c = pallet_ethy::Call::<Test>::submit_notarization { payload: sent.clone(), signature: signature.clone() };
	let r = <EthBridge as ValidateUnsigned>::validate_unsigned(TransactionSource::External, &c);
	req!(r.is_ok() == want, "admission: {x:?} is answered with {r:?}, expected acceptance {want}");
	if let Ok(v) = r {
		// in the pool one vote only displaces the same authority's vote on the same matter
		req!(!v.provides.is_empty() && v.propagate, "admission: {v:?}");
		let tag = |kind: usize, id: u64, index: u16| {
			let p = payload(kind, id, index, 0);
			let s = pair(x.keys[index as usize]).sign(&p.encode());
			let c = pallet_ethy::Call::<Test>::submit_notarization { payload: p, signature: s };
			<EthBridge as ValidateUnsigned>::validate_unsigned(TransactionSource::External, &c).ok().map(|v| v.provides)
		};
		let other = (x.index as usize + 1) % x.keys.len();
		for (k, i, a) in [(1 - x.kind, id, x.index), (x.kind, id + 7, x.index), (x.kind, id, other as u16)] {
			if (k, i, a) != (x.kind, id, x.index) {
				req!(tag(k, i, a).map_or(true, |t| t != v.provides), "admission: votes on different matters share the tag {:?}", v.provides);
			}
		}
	}
	// not as an ordinary transaction
	for o in [RuntimeOrigin::signed(acc(0)), RuntimeOrigin::root()] {
		let r = call(|| EthBridge::submit_notarization(o.clone(), sent.clone(), signature.clone()));
		req!(r.is_err(), "admission: a vote was accepted as an ordinary transaction");
	}
	Ok(format!("{want}"))
}
pub fn who_may_vote(c: &mut Ctx) {
	// who may vote on what
	let mut cases = vec![];
	for keys in [vec![], vec![0], vec![0, 1, 2], vec![2, 0]] {
		for kind in 0..2 {
			for index in [0, 1, 2, 3, 255, 256, u16::MAX] {
				for signer in 0..4 {
					for tamper in 0..5 {
						for before in 0..5 {
							if (tamper > 0 || index > 3) && before > 1 {
								continue;
							}
							cases.push(Adm { keys: keys.clone(), kind, index, signer, tamper, before });
						}
					}
				}
			}
		}
	}
	c.enumerate("admission of votes", cases.into_iter(), admission);
}
pub fn answers(c: &mut Ctx) {
	let b = c.pick(4, 6);
	c.bfs("answers to eth_call", &Answers, depth(b));
	// every outcome of a poll
	let top = c.pick(12usize, 20);
	let mut cases = vec![];
	for n in 1..=top {
		for a in 0..=n {
			for b in 0..=n - a {
				for last in 0..3 {
					cases.push((n, a, b, last));
				}
			}
		}
	}
	c.enumerate("every outcome of a poll", cases.into_iter(), |x| {
		let (n, a, b, last) = *x;
		set_keys(&(0..n).map(key).collect::<Vec<_>>());
		let mut m = M { keys: (0..n).collect(), time: 0, next: NextEthCallId::<Test>::get(), calls: Default::default() };
		astep(&mut m, &Op::Ask(1))?;
		let mut votes: Vec<usize> = (0..n).map(|i| if i < a { 0 } else if i < a + b { 1 } else { 3 }).collect();
		votes.rotate_left([0, a, a + b][last]);
		for (k, v) in votes.iter().enumerate() {
			astep(&mut m, &Op::Vote { id: 0, key: k, result: *v })?;
		}
		req!(m.calls.is_empty(), "answer: all have voted and there is no answer");
		Ok(format!("{}", reaches(a.max(b), n)))
	});
	who_may_vote(c);
	c.enumerate("unsigned calls", 0..5u8, |k| {
		let call: pallet_ethy::Call<Test> = match k {
			0 => pallet_ethy::Call::finalise_authorities_change { next_notary_keys: sp_core::bounded::WeakBoundedVec::force_from(vec![key(1)], None) },
			1 => pallet_ethy::Call::set_bridge_paused { paused: false },
			2 => pallet_ethy::Call::set_relayer { relayer: acc(1) },
			3 => pallet_ethy::Call::submit_event { tx_hash: tx(), event: vec![] },
			_ => pallet_ethy::Call::submit_challenge { event_claim_id: 1 },
		};
		set_keys(&[key(0)]);
		let r = <EthBridge as ValidateUnsigned>::validate_unsigned(TransactionSource::External, &call);
		req!(r.is_err(), "admission: call {k} is admitted without a signature");
		Ok("refused".into())
	});
}
// ---------------------------------------------------------------- the worker
const LOCAL: usize = 1;
const ID: u64 = 6;
fn contract() -> H160 {
	H160::from_low_u64_be(0xc0)
}
fn src() -> H160 {
	H160::from_low_u64_be(0x51)
}
fn dst() -> H160 {
	H160::from_low_u64_be(0x52)
}
const MESSAGE: &[u8] = &[4, 5, 6, 7];
/// `SubmitEvent`-style log data: (id, source, destination, message)
fn logdata(id: u64, s: H160, d: H160, m: &[u8]) -> Vec<u8> {
	use crate::claims::{addr, word};
	let mut o = [word(id as u128), addr(s), addr(d), word(128), word(m.len() as u128)].concat();
	o.extend(m);
	o.resize(o.len().next_multiple_of(32), 0);
	o
}
fn eventdata(id: u64, s: H160, d: H160, m: &[u8]) -> Vec<u8> {
	use crate::claims::{addr, word};
	let mut o = [word(id as u128), addr(s), addr(d), word(160), word(0), word(m.len() as u128)].concat();
	o.extend(m);
	o.resize(o.len().next_multiple_of(32), 0);
	o
}
const SELECTOR: [u8; 32] = [0x0f, 0x88, 0x85, 0xc9, 0x65, 0x4c, 0x59, 0x01, 0xd6, 0x1d, 0x2e, 0xae, 0x1f, 0xa5, 0xd1, 0x1a, 0x67, 0xf9, 0xb8, 0xfc, 0xa7, 0x71, 0x46, 0xd5, 0x10, 0x9b, 0xc7, 0xbe, 0x00, 0xf4, 0x47, 0x2a];
/// 0 is the event claimed, the others differ from it in one respect
const LOGS: usize = 10;
fn elog(k: usize) -> Log {
	let mut l = Log { address: contract(), topics: vec![SELECTOR.into()], data: logdata(ID, src(), dst(), MESSAGE), transaction_hash: Some(tx()), ..Default::default() };
	match k {
		0 => {},
		1 => l.address = H160::from_low_u64_be(0xc1),
		2 => l.topics = vec![H256::from_low_u64_be(5)],
		3 => l.topics = vec![],
		4 => l.transaction_hash = Some(H256::from_low_u64_be(0x78)),
		5 => l.transaction_hash = None,
		6 => l.data = logdata(ID + 1, src(), dst(), MESSAGE),
		7 => l.data = logdata(ID, dst(), dst(), MESSAGE),
		8 => l.data = logdata(ID, src(), src(), MESSAGE),
		_ => l.data = logdata(ID, src(), dst(), &[4, 5, 6]),
	}
	l
}
#[derive(Clone, Debug)]
struct Ev {
	/// 0 no answer, 1 none, 2 one
	receipt: usize,
	status: Option<u64>,
	to: usize,
	logs: Vec<usize>,
	/// 0 no answer, 1 none, 2 no number, 3 a number
	latest: usize,
	/// latest block minus the block of the receipt
	ahead: i64,
	confirmations: u64,
}
fn block(number: Option<u64>, timestamp: U256) -> EthBlock {
	EthBlock { number: number.map(|n| n.into()), timestamp, ..Default::default() }
}
/// A challenged claim, and a node that is authority number 1 of 3.
fn setup() -> Result<(), String> {
	shim_pallets::misc::clear_keys();
	let _ = sp_io::offchain::take_pool();
	System::set_block_number(1);
	use frame_support::traits::fungibles::Mutate;
	for w in 0..2 {
		AssetsExt::mint_into(ROOT_ASSET_ID, &acc(w), 100).unwrap();
	}
	let ok = |r: Result<(), String>| r.map_err(|e| format!("setup: {e}"));
	ok(call(|| EthBridge::set_contract_address(RuntimeOrigin::root(), contract())))?;
	ok(call(|| EthBridge::set_challenge_period(RuntimeOrigin::root(), 10)))?;
	ok(call(|| EthBridge::deposit_relayer_bond(RuntimeOrigin::signed(acc(0)))))?;
	ok(call(|| EthBridge::set_relayer(RuntimeOrigin::root(), acc(0))))?;
	ok(call(|| EthBridge::submit_event(RuntimeOrigin::signed(acc(0)), tx(), eventdata(ID, src(), dst(), MESSAGE))))?;
	ok(call(|| EthBridge::submit_challenge(RuntimeOrigin::signed(acc(1)), ID)))?;
	set_keys(&[pair(3).public(), pair(LOCAL).public(), pair(2).public()]);
	local(&[LOCAL]);
	Ok(())
}
fn local(k: &[usize]) {
	shim_pallets::misc::clear_keys();
	for k in k {
		let mut s = [0u8; 32];
		s[31] = *k as u8 + 1;
		shim_pallets::misc::insert_key(<AuthorityId as sp_runtime::RuntimeAppPublic>::ID, s);
	}
}
/// Run the worker; the votes it sent, all of which must be admissible.
fn work() -> Result<Vec<NotarizationPayload>, String> {
	EthBridge::offchain_worker(System::block_number());
	let mut out = vec![];
	for t in sp_io::offchain::take_pool() {
		let x = Extrinsic::decode(&mut &t[..]).map_err(|_| "worker: transaction does not decode")?;
		req!(x.signature.is_none(), "worker: a signed transaction");
		let RuntimeCall::EthBridge(c) = x.call else { return Err("worker: foreign call".into()) };
		let r = <EthBridge as ValidateUnsigned>::validate_unsigned(TransactionSource::Local, &c);
		req!(r.is_ok(), "worker: its vote is not admissible: {r:?}");
		let pallet_ethy::Call::submit_notarization { payload, signature } = c else { return Err("worker: not a vote".into()) };
		req!(call(|| EthBridge::submit_notarization(RuntimeOrigin::none(), payload.clone(), signature.clone())).is_ok(), "worker: its vote is refused");
		out.push(payload);
	}
	Ok(out)
}
fn event_case(x: &Ev) -> Result<String, String> {
	setup()?;
	let at = 20u64;
	call(|| EthBridge::set_event_block_confirmations(RuntimeOrigin::root(), x.confirmations)).map_err(|e| format!("setup: {e}"))?;
	let latest = (at as i64 + x.ahead) as u64;
	let receipt = TransactionReceipt {
		block_number: at.into(),
		status: x.status.map(|s| s.into()),
		to: [Some(src()), None, Some(dst()), Some(contract())][x.to],
		logs: x.logs.iter().map(|k| elog(*k)).collect(),
		transaction_hash: tx(),
		..Default::default()
	};
	chain(Chain {
		receipt: Some([Err(()), Ok(None), Ok(Some(receipt))][x.receipt].clone()),
		latest: Some([Err(()), Ok(None), Ok(Some(block(None, 1.into()))), Ok(Some(block(Some(latest), 1.into())))][x.latest].clone()),
		..Default::default()
	});
	let number = if x.latest == 3 { latest } else { 0 };
	let want = x.receipt == 2 && x.status.map_or(false, |s| s != 0) && x.to == 0 && x.logs.contains(&0) && x.latest >= 2 && number.saturating_sub(at) >= x.confirmations;
	let v = work()?;
	req!(v.len() == 1, "worker: {} votes on one open challenge", v.len());
	let NotarizationPayload::Event { event_claim_id, authority_index, result } = &v[0] else { return Err("worker: a vote on a call".into()) };
	req!(*event_claim_id == ID && *authority_index == 1, "worker: vote {:?}", v[0]);
	req!((*result == EventClaimResult::Valid) == want, "worker: votes {result:?} for {x:?}");
	// and not again
	req!(work()?.is_empty(), "worker: votes twice");
	Ok(format!("{result:?}"))
}
#[derive(Clone, Debug)]
struct Cl {
	/// 0 no answer, 1 none, 2 one
	latest: usize,
	number: Option<u64>,
	time: usize,
	try_block: u64,
	behind: u64,
	delay: u64,
	/// 0 no answer, 1 none, 2 one
	target: usize,
	data: Option<usize>,
}
const ASKED: u64 = 1000;
fn call_case(x: &Cl) -> Result<String, String> {
	shim_pallets::misc::clear_keys();
	let _ = sp_io::offchain::take_pool();
	System::set_block_number(1);
	set_keys(&[pair(3).public(), pair(LOCAL).public(), pair(2).public()]);
	local(&[0, LOCAL]);
	unhashed::put(NOW, &5000u64);
	let to = H160::from_low_u64_be(0xaa);
	let id = <EthBridge as EthCallOracle>::checked_eth_call(&to, &[9, 8, 7], ASKED, x.try_block, x.behind);
	unhashed::put(NOW, &(5000 + x.delay));
	let time: U256 = [U256::from(ASKED - 1), U256::from(ASKED), U256::from(ASKED + 50), U256::from(u64::MAX - 1), U256::from(u64::MAX), U256::from(u64::MAX) + 5, U256::MAX][x.time];
	let ret: Option<Result<Vec<u8>, ()>> = Some(x.data.map(|n| (0..n).map(|i| i as u8 + 1).collect()).ok_or(()));
	let mut blocks = BTreeMap::new();
	blocks.insert(x.try_block, [Err(()), Ok(None), Ok(Some(block(Some(x.try_block), 777.into())))][x.target].clone());
	chain(Chain { latest: Some([Err(()), Ok(None), Ok(Some(block(x.number, time)))][x.latest].clone()), blocks, data: ret, ..Default::default() });
	// ---- expected
	enum W {
		Err,
		Block,
		Time,
		Call(u64, u64),
	}
	let t = if time > u64::MAX.into() { u64::MAX } else { time.as_u64() };
	let w = if x.latest < 2 {
		W::Err
	} else if t == u64::MAX || t < ASKED {
		W::Time
	} else {
		match x.number {
			None | Some(0) | Some(u64::MAX) => W::Block,
			Some(n) => {
				let oldest = n as i128 - x.behind as i128 - (x.delay / 12) as i128;
				if (x.try_block as i128) < n as i128 && x.try_block as i128 >= oldest {
					if x.target == 2 {
						W::Call(x.try_block, 777)
					} else {
						W::Err
					}
				} else {
					W::Call(n, t)
				}
			},
		}
	};
	let v = work()?;
	req!(v.len() == 1, "worker: {} votes on one open request", v.len());
	let NotarizationPayload::Call { call_id, authority_index, result } = &v[0] else { return Err("worker: a vote on an event".into()) };
	req!(*call_id == id && *authority_index == 1, "worker: vote {:?}", v[0]);
	let calls = CHAIN.with(|c| c.borrow().calls.clone());
	let want = match w {
		W::Err => CheckedEthCallResult::DataProviderErr,
		W::Time => CheckedEthCallResult::InvalidTimestamp,
		W::Block => CheckedEthCallResult::InvalidEthBlock,
		W::Call(b, t) => {
			req!(calls == vec![(to, vec![9, 8, 7], Some(b))], "worker: calls made are {calls:x?}, expected one at block {b} for {x:?}");
			match x.data {
				None => CheckedEthCallResult::DataProviderErr,
				Some(0) => CheckedEthCallResult::ReturnDataEmpty,
				Some(32) => CheckedEthCallResult::Ok(core::array::from_fn(|i| i as u8 + 1), b, t),
				_ => CheckedEthCallResult::ReturnDataExceedsLimit,
			}
		},
	};
	req!(*result == want, "worker: reports {result:?} for {x:?}, expected {want:?}");
	req!(work()?.is_empty(), "worker: votes twice");
	Ok(format!("{result:?}").chars().take(12).collect())
}
/// When a node may vote at all.
#[derive(Clone, Debug)]
struct Gate {
	manual: bool,
	change: bool,
	local: Vec<usize>,
	keys: Vec<usize>,
	stashes: u32,
	challenged: bool,
	asked: bool,
}
fn gate_case(x: &Gate) -> Result<String, String> {
	setup()?;
	let good = TransactionReceipt { block_number: 20.into(), status: Some(1.into()), to: Some(src()), logs: vec![elog(0)], transaction_hash: tx(), ..Default::default() };
	chain(Chain { receipt: Some(Ok(Some(good))), latest: Some(Ok(Some(block(Some(99), 5000.into())))), data: Some(Ok(vec![1; 32])), ..Default::default() });
	if !x.challenged {
		PendingClaimChallenges::<Test>::kill();
	}
	if x.asked {
		<EthBridge as EthCallOracle>::checked_eth_call(&src(), &[9], 10, 0, 0);
	}
	BridgePaused::<Test>::mutate(|p| {
		p.manual_pause = x.manual;
		p.authorities_change = x.change;
	});
	set_keys(&x.keys.iter().map(|k| pair(*k).public()).collect::<Vec<_>>());
	unhashed::put(STASHES, &x.stashes);
	local(&x.local);
	let active = x.local.iter().find(|k| x.keys.contains(k)).cloned();
	let enough = x.stashes > 0 && (100 * x.keys.len()) as u32 / x.stashes >= 66;
	let v = work()?;
	let events = v.iter().filter(|p| matches!(p, NotarizationPayload::Event { .. })).count();
	let calls = v.len() - events;
	let may = active.is_some() && enough;
	req!(events == (may && x.challenged && !x.manual && !x.change) as usize, "gate: {events} votes on events for {x:?}");
	req!(calls <= (may && x.asked) as usize, "gate: {calls} votes on calls for {x:?}");
	req!(calls == 1 || !(may && x.asked) || x.manual || x.change, "gate: no vote on a call for {x:?}");
	for p in &v {
		let i = p.authority_index() as usize;
		req!(x.keys.get(i).map_or(false, |k| x.local.contains(k)), "gate: voted as authority {i}");
	}
	Ok(format!("{events} {calls}"))
}
pub fn votes(c: &mut Ctx) {
	c.assume("the Ethereum node is played by the harness; the log data compared with is the 4-field encoding the worker uses (pinned by the repository's own tests)");
	let mut ev = vec![];
	let base = Ev { receipt: 2, status: Some(1), to: 0, logs: vec![0], latest: 3, ahead: 5, confirmations: 3 };
	let mut lists: Vec<Vec<usize>> = vec![vec![]];
	for a in 0..LOGS {
		lists.push(vec![a]);
		for b in 0..LOGS {
			lists.push(vec![a, b]);
			if c.thorough() {
				for d in 0..LOGS {
					lists.push(vec![a, b, d]);
				}
			}
		}
	}
	for logs in &lists {
		ev.push(Ev { logs: logs.clone(), ..base.clone() });
	}
	for receipt in 0..3 {
		for status in [None, Some(0), Some(1), Some(2)] {
			for to in 0..4 {
				for logs in [vec![], vec![0], vec![1], vec![2], vec![6]] {
					if receipt < 2 && (to > 0 || logs.len() > 0) {
						continue;
					}
					for latest in 0..4 {
						ev.push(Ev { receipt, status, to, logs: logs.clone(), latest, ..base.clone() });
					}
				}
			}
		}
	}
	for latest in 2..4 {
		for confirmations in [0, 1, 3, 20, 21, u64::MAX] {
			for ahead in [-20, -1, 0, 1, 2, 3, 4, 20, 21] {
				ev.push(Ev { latest, ahead, confirmations, ..base.clone() });
			}
		}
	}
	c.enumerate("votes on events", ev.into_iter(), event_case);
	let mut cl = vec![];
	let base = Cl { latest: 2, number: Some(100), time: 2, try_block: 97, behind: 3, delay: 0, target: 2, data: Some(32) };
	for latest in 0..3 {
		for number in [None, Some(0), Some(1), Some(100), Some(u64::MAX - 1), Some(u64::MAX)] {
			for time in 0..7 {
				for target in 0..3 {
					cl.push(Cl { latest, number, time, target, ..base.clone() });
				}
			}
		}
	}
	let delays: Vec<u64> = if c.thorough() { vec![0, 1, 11, 12, 13, 23, 24, 35, 36, 1200, u64::MAX / 2] } else { vec![0, 11, 12, 24, u64::MAX / 2] };
	for behind in [0, 1, 3, 99, 100, 101, u64::MAX] {
		for delay in &delays {
			for try_block in [0, 1, 94, 95, 96, 97, 98, 99, 100, 101, u64::MAX] {
				cl.push(Cl { behind, delay: *delay, try_block, ..base.clone() });
			}
		}
	}
	for try_block in [96, 97] {
		for target in 0..3 {
			for data in [None, Some(0), Some(1), Some(31), Some(32), Some(33), Some(64)] {
				cl.push(Cl { try_block, target, data, ..base.clone() });
			}
		}
	}
	c.enumerate("answers found", cl.into_iter(), call_case);
	let mut g = vec![];
	for bits in 0..16 {
		for local in [vec![], vec![5], vec![1], vec![5, 1], vec![2, 1]] {
			for keys in [vec![], vec![1], vec![3, 1, 2], vec![3, 2]] {
				for stashes in [1, 2, 3, 4, 5] {
					g.push(Gate { manual: bits & 1 > 0, change: bits & 2 > 0, challenged: bits & 4 > 0, asked: bits & 8 > 0, local: local.clone(), keys: keys.clone(), stashes });
				}
			}
		}
	}
	c.enumerate("when to vote", g.into_iter(), gate_case);
}
