//! Exploration of the bridge gadget: the part of a node that signs, gossips and proves events.
mod model;
mod node;
mod rpc;
use explore::Ctx;
use model::*;
use node::*;
use seed_primitives::ethy::EthyChainId::{self, Ethereum as Eth, Xrpl};
use std::sync::Arc;

/// A scenario under construction.
struct Sb {
	name: String,
	blocks: Vec<(Vec<(u64, EthyChainId)>, bool, Option<Set>, Option<Set>)>,
	messages: Vec<(usize, u64, Kind)>,
	keys: Vec<usize>,
	start: usize,
	syncing: bool,
	before: Vec<Op>,
	ops: Vec<Op>,
	faulty: bool,
}
fn set(k: &[usize], t: u32, id: u64) -> Set {
	Set { validators: k.iter().map(|k| key(*k)).collect(), id, proof_threshold: t }
}
impl Sb {
	/// Block 0 is genesis; `s`, `x`: all validators and the XRPL signers from the start.
	fn new(name: &str, s: Set, x: Set) -> Self {
		Sb { name: name.into(), blocks: vec![(vec![], false, Some(s), Some(x))], messages: vec![], keys: vec![], start: 0, syncing: false, before: vec![], ops: vec![], faulty: false }
	}
	fn block(mut self, r: &[(u64, EthyChainId)]) -> Self {
		let l = self.blocks.last().unwrap();
		self.blocks.push((r.to_vec(), false, l.2.clone(), l.3.clone()));
		self
	}
	fn empty(mut self, n: usize) -> Self {
		for _ in 0..n {
			self = self.block(&[]);
		}
		self
	}
	/// Sets change with the last block; `log`: it says so
	fn change(mut self, s: Option<Set>, x: Option<Set>, log: bool) -> Self {
		let b = self.blocks.last_mut().unwrap();
		(b.1, b.2, b.3) = (log, s, x);
		self
	}
	fn keys(mut self, k: &[usize]) -> Self {
		self.keys = k.to_vec();
		self
	}
	fn msgs(mut self, m: &[(usize, u64, Kind)]) -> Self {
		self.messages = m.to_vec();
		self
	}
	fn before(mut self, o: &[Op]) -> Self {
		self.before = o.to_vec();
		self
	}
	fn ops(mut self, o: &[Op]) -> Self {
		self.ops = o.to_vec();
		self
	}
	fn faulty(mut self) -> Self {
		self.faulty = true;
		self
	}
	fn build(self) -> Scenario {
		let mut requests = vec![];
		let mut blocks = vec![];
		for (n, (rs, log, s, x)) in self.blocks.iter().enumerate() {
			let mut logs = vec![sp_runtime::generic::DigestItem::PreRuntime(*b"BABE", vec![1])];
			for (e, c) in rs {
				let data = match c {
					// (nobody can sign this)
					Eth if *e == BAD => vec![1; 31],
					Eth => shim::hashing::keccak_256(&[*e as u8, 1]).to_vec(),
					Xrpl => [&[7u8, *e as u8][..], &[3; 40]].concat(),
				};
				logs.push(request(*c, *e, data.clone()));
				requests.push(Request { block: n, event: *e, chain: *c, data });
			}
			if *log {
				logs.push(change(&s.clone().unwrap_or_default()));
			}
			blocks.push((logs, s.clone(), x.clone()));
		}
		let ids: Vec<u64> = self.blocks.iter().map(|b| b.2.as_ref().map_or(0, |s| s.id)).collect();
		let messages = self
			.messages
			.iter()
			.map(|(v, e, k)| {
				let r = requests.iter().find(|r| r.event == *e).expect("a request for each message");
				message(*v, r, ids[r.block], *k)
			})
			.collect();
		let mut name = self.name;
		if !self.keys.is_empty() {
			name += &format!(" keys {:?}", self.keys);
		}
		Scenario { name, chain: Chain::new(blocks), requests, messages, start: self.start, keys: self.keys, syncing: self.syncing, before: self.before, ops: self.ops, faulty: self.faulty }
	}
}
const BAD: u64 = 1000;
use Kind::*;
use Op::*;

/// Everything arrives once, in every order.
fn orders(thorough: bool) -> Vec<Scenario> {
	let mut v = vec![];
	let s3 = || set(&[2, 0, 1], 2, 0);
	for c in [Eth, Xrpl] {
		for keys in [&[][..], &[0], &[5]] {
			// one event, with all that can go wrong
			let b = Sb::new(&format!("one event {c:?}"), s3(), set(&[0, 2], 2, 0)).empty(1).block(&[(5, c)]).keys(keys);
			v.push(b.before(&[Fin(1)]).msgs(&[(0, 5, Good), (1, 5, Good), (2, 5, Good), (1, 5, BadSig), (2, 5, WrongData), (6, 5, Good)]).ops(&[Fin(2), Msg(0), Msg(1), Msg(2), Msg(3), Msg(4), Msg(5)]).build());
			let b = Sb::new(&format!("nearly {c:?}"), s3(), set(&[0, 2], 2, 0)).empty(1).block(&[(BAD, Eth), (5, c), (BAD + 1, c)]).keys(keys);
			v.push(b.before(&[Fin(1)]).msgs(&[(0, 5, OffLast), (1, 5, Good), (2, 5, OffFirst), (2, 5, Good), (0, BAD + 1, Good)]).ops(&[Fin(2), Msg(0), Msg(1), Msg(2), Msg(3), Msg(4)]).build());
			let b = Sb::new(&format!("before the first block {c:?}"), s3(), set(&[0, 2], 2, 0)).block(&[(5, c)]).keys(keys);
			v.push(b.msgs(&[(0, 5, HighS), (1, 5, Good), (2, 5, Good), (2, 5, Cut)]).ops(&[Fin(1), Fin(1), Msg(0), Msg(1), Msg(2), Msg(3)]).build());
		}
		// two events, one block or two
		for two in [false, true] {
			for keys in [&[][..], &[1]] {
				let b = Sb::new(&format!("two events {c:?} {two}"), s3(), set(&[0, 2], 1, 0)).empty(1);
				let b = if two { b.block(&[(1, c)]).block(&[(2, Eth)]) } else { b.block(&[(1, c), (2, Eth)]).block(&[]) };
				v.push(b.keys(keys).before(&[Fin(1)]).msgs(&[(0, 1, Good), (2, 1, Good), (0, 2, Good), (2, 2, HighS)]).ops(&[Fin(2), Fin(3), Msg(0), Msg(1), Msg(2), Msg(3)]).build());
			}
		}
	}
	// event ids out of order, with gaps
	for ids in [[0, 1, 2], [1, 0, 2], [2, 1, 0], [5, 7, 6], [7, 5, 6], [6, 5, 7], [1, 2, 9], [3, 9, 8], [9, 3, 4]] {
		let b = Sb::new(&format!("ids {ids:?}"), set(&[0, 1, 2], 2, 0), set(&[0], 1, 0)).empty(1).block(&[(ids[0], Eth)]).block(&[(ids[1], Eth)]).block(&[(ids[2], Xrpl)]);
		let b = b.keys(&[0]).before(&[Fin(1)]).msgs(&[(1, ids[0], Good), (1, ids[1], Good), (1, ids[2], Good), (2, ids[0], Good)]);
		v.push(b.ops(&[Fin(2), Fin(3), Fin(4), Msg(0), Msg(1), Msg(2), Msg(3)]).build());
	}
	// five events in a row, most of them complete early
	let b = Sb::new("a row of events", set(&[0, 1], 2, 0), set(&[0], 1, 0)).block(&[(1, Eth), (2, Eth)]).block(&[(3, Eth), (4, Eth), (5, Eth), (6, Eth)]);
	v.push(b.keys(&[0]).before(&[Fin(1), Fin(2)]).msgs(&[(1, 1, Good), (1, 2, Good), (1, 3, Good), (1, 4, Good), (1, 5, Good), (1, 6, Good)]).ops(&[Msg(0), Msg(1), Msg(2), Msg(3), Msg(4), Msg(5), Gc]).build());
	// other validators take over while events are open
	let (old, new) = (|| set(&[0, 1, 2], 2, 3), || set(&[1, 2, 3], 2, 4));
	for c in [Eth, Xrpl] {
		for keys in [&[][..], &[1], &[0], &[3], &[0, 3]] {
			let x = || set(&[1, 0], 2, 3);
			let y = || set(&[2, 3], 2, 4);
			let b = Sb::new(&format!("other validators {c:?}"), old(), x()).empty(1).block(&[(1, c)]).block(&[(2, c)]).change(Some(new()), Some(y()), true);
			let b = b.keys(keys).before(&[Fin(1)]).msgs(&[(0, 1, Good), (1, 1, Good), (2, 1, Good), (3, 2, Good), (2, 2, Good)]);
			let o = [Fin(2), Fin(3), Msg(0), Msg(1), Msg(2), Msg(3), Msg(4), Gc];
			v.push(b.ops(&o[..if thorough { 8 } else { 7 }]).build());
		}
	}
	// the XRPL signers change, the validators do not
	for keys in [&[][..], &[2]] {
		let s = || set(&[0, 1, 2, 3], 3, 0);
		let b = Sb::new("other signers", s(), set(&[0, 1], 2, 0)).empty(1).block(&[(1, Xrpl)]).block(&[(2, Xrpl)]).change(Some(s()), Some(set(&[2, 3, 1], 2, 0)), false);
		v.push(b.keys(keys).before(&[Fin(1)]).msgs(&[(0, 1, Good), (1, 1, Good), (3, 1, Good), (0, 2, Good), (3, 2, Good), (1, 2, Good)]).ops(&[Fin(2), Fin(3), Msg(0), Msg(1), Msg(2), Msg(3), Msg(4), Msg(5)][..if thorough { 8 } else { 7 }]).build());
	}
	v
}
/// Any of the inputs, any number of times.
fn words() -> Vec<Scenario> {
	let mut v = vec![];
	// finality comes in leaps, late, twice
	for keys in [&[0][..], &[]] {
		for syncing in [false, true] {
			let mut b = Sb::new(&format!("leaps, syncing {syncing}"), set(&[0, 1], 1, 0), set(&[0], 1, 0)).block(&[(1, Eth), (2, Xrpl)]).block(&[]).block(&[(4, Eth)]).block(&[(3, Xrpl)]).keys(keys);
			b.syncing = syncing;
			b.start = 0;
			let o = if syncing { vec![Fin(1), Fin(3), Quiet(2), Synced, Fin(4)] } else { vec![Fin(1), Fin(2), Fin(3), Fin(4), Msg(0)] };
			v.push(b.msgs(&[(1, 4, Good)]).ops(&o).build());
		}
	}
	let mut b = Sb::new("late start", set(&[0, 1], 1, 0), set(&[0], 1, 0)).block(&[(1, Eth)]).block(&[(2, Eth)]).block(&[(3, Eth)]).block(&[(4, Eth)]).keys(&[1]);
	b.start = 2;
	v.push(b.ops(&[Fin(1), Fin(2), Fin(3), Fin(4), Gc]).build());
	// messages out of the window
	for keys in [&[][..], &[0]] {
		let b = Sb::new("window", set(&[0, 1, 2], 2, 0), set(&[0], 1, 0)).empty(1).block(&[(1, Eth)]).empty(89).block(&[]).block(&[(2, Eth)]).empty(90).keys(keys);
		v.push(b.before(&[Fin(1)]).msgs(&[(1, 1, Good), (2, 1, Good), (1, 2, Good)]).ops(&[Fin(91), Fin(92), Fin(93), Msg(0), Msg(1), Msg(2), Gc]).build());
		let b = Sb::new("window by number", set(&[0, 1, 2], 2, 0), set(&[0], 1, 0)).empty(1).block(&[(1, Eth)]).empty(100).keys(keys);
		v.push(b.before(&[Fin(1)]).msgs(&[(1, 1, Good), (2, 1, Good)]).ops(&[Fin(2), Quiet(92), Quiet(93), Fin(93), Msg(0), Msg(1), Gc]).build());
	}
	v
}
/// State that cannot be had, sets that are empty.
fn faults() -> Vec<Scenario> {
	let mut v = vec![];
	let numbered = |k: &[usize], id| Some(set(k, k.len().min(2) as u32, id));
	let good = || numbered(&[0, 1, 2], 1);
	for c in [Eth, Xrpl] {
		for (n, (s, x)) in [(None, None), (Some(&[1, 2, 3][..]), None), (None, Some(&[2][..])), (Some(&[]), Some(&[])), (Some(&[0, 2, 1]), Some(&[]))].into_iter().enumerate() {
			let at = |id| (s.and_then(|k| numbered(k, id)), x.and_then(|k| numbered(k, id)));
			let (first, last) = (at(0), at(2));
			for keys in [&[][..], &[0]] {
				let b = Sb::new(&format!("fault {n} {c:?}"), set(&[], 0, 0), set(&[], 0, 0)).block(&[(1, c)]).change(first.0.clone(), first.1.clone(), false).block(&[(2, c)]).change(good(), good(), true).block(&[(3, c)]).change(last.0.clone(), last.1.clone(), true).keys(keys).faulty();
				v.push(b.msgs(&[(1, 1, Good), (2, 2, Good), (1, 3, Good)]).ops(&[Fin(1), Fin(2), Fin(3), Msg(0), Msg(1), Msg(2)]).build());
			}
		}
	}
	v
}
/// Many events, one after the other and with gaps filled late.
fn long(n: u64) -> Vec<Scenario> {
	let mut v = vec![];
	for late in [0, 3, 7] {
		let mut b = Sb::new(&format!("long, {late}"), set(&[0, 1], 2, 0), set(&[1], 1, 0)).keys(&[0]);
		let mut o = vec![];
		let mut held = vec![];
		for e in 1..=n {
			b = b.block(&[(e, if e % 3 == 0 { Xrpl } else { Eth })]);
			b.messages.push((1, e, Good));
			o.push(Fin(e as usize));
			if late > 0 && e % late == 0 {
				held.push(Msg(e as usize - 1));
			} else {
				o.push(Msg(e as usize - 1));
			}
			if held.len() == 4 {
				held.reverse();
				o.append(&mut held);
			}
			if e % 50 == 0 {
				o.push(Gc);
			}
		}
		o.append(&mut held);
		v.push(b.before(&o).build());
	}
	v
}
struct Perms(Option<Vec<u8>>);
impl Iterator for Perms {
	type Item = Vec<u8>;
	fn next(&mut self) -> Option<Vec<u8>> {
		let r = self.0.clone()?;
		let mut v = r.clone();
		let n = v.len();
		self.0 = (1..n).rev().find(|i| v[i - 1] < v[*i]).map(|i| {
			let j = (i..n).rev().find(|j| v[*j] > v[i - 1]).unwrap();
			v.swap(i - 1, j);
			v[i..].reverse();
			v
		});
		Some(r)
	}
}
fn run_all(c: &mut Ctx, part: &str, v: Vec<Scenario>, look: Look, words: Option<usize>) {
	let v = Arc::new(v);
	let w = v.clone();
	let it = (0..v.len()).flat_map(move |i| {
		let n = w[i].ops.len();
		let all: Box<dyn Iterator<Item = Vec<u8>> + Send> = match words {
			None => Box::new(Perms(Some((0..n as u8).collect()))),
			Some(d) => Box::new((0..n.pow(d as u32)).map(move |mut k| {
				(0..d)
					.map(|_| {
						let r = (k % n) as u8;
						k /= n;
						r
					})
					.collect()
			})),
		};
		let name = w[i].name.clone();
		let ops = w[i].ops.clone();
		all.map(move |p| (i, name.clone(), p.iter().map(|x| ops[*x as usize]).collect::<Vec<_>>()))
	});
	c.enumerate(part, it, |(i, _, ops)| execute(&v[*i], ops, look));
}
fn look(c: &mut Ctx, l: Look) {
	let t = c.thorough();
	run_all(c, "orders", orders(t), l, None);
	run_all(c, "words", words(), l, Some(c.pick(4, 7)));
	run_all(c, "long", long(c.pick(120, 1200)), l, None);
	if l == Look::Sound {
		run_all(c, "faults", faults(), l, None);
	}
}
fn serve(c: &mut Ctx) {
	let t = c.thorough();
	run_all(c, "orders", orders(t), Look::Serve, None);
	// who signs, who may sign for the XRPL
	let n = c.pick(4, 5);
	let mut v = vec![];
	for signers in 0..1u32 << n {
		for x in 1..1u32 << n {
			for ch in [Eth, Xrpl] {
				let who = |m: u32| (0..n).rev().filter(|i| m >> i & 1 == 1).collect::<Vec<usize>>();
				let b = Sb::new(&format!("signers {signers:b} of {x:b} {ch:?}"), set(&[3, 0, 2, 1, 4][..n.min(5)].iter().filter(|i| **i < n).copied().collect::<Vec<_>>(), (signers.count_ones()).max(1), 8), set(&who(x), (signers & x).count_ones().max(1), 8));
				let msgs: Vec<_> = who(signers).into_iter().map(|k| (k, 6, if (signers >> 1 ^ x) & 1 == 1 { HighS } else { Good })).collect();
				let mut o = vec![Fin(1)];
				o.extend((0..msgs.len()).map(Msg));
				v.push(b.empty(1).block(&[(6, ch)]).msgs(&msgs).before(&[&o[..], &[Fin(2)]].concat()).build());
			}
		}
	}
	run_all(c, "signers", v, Look::Serve, None);
}
fn main() {
	explore::main(&[
		("G01", |c| look(c, Look::Sound)),
		("G02", |c| look(c, Look::Complete)),
		("G03", |c| look(c, Look::Talk)),
		("G04", |c| look(c, Look::Gossip)),
		("G05", serve),
	]);
}
