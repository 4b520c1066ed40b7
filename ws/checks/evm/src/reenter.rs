//! V07: precompiles called again from within the calls they make.
use explore::*;
use rt::{sim::*, *};
use seed_pallet_common::NFTExt;
use sp_core::H160;
use std::{cell::RefCell, collections::BTreeMap};
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum K {
	/// a safe transfer, which asks the receiving contract
	Nft(usize),
	Sft(usize),
	/// a call made as a futurepass
	Pass(usize),
	/// a contract, with nothing between
	Plain,
	/// calls that call nothing
	Coin,
	Count(usize),
	Owner(usize),
	Hash,
}
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Node {
	k: K,
	kids: Vec<Node>,
}
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Strict {
	None,
	Both,
	Second,
}
impl Strict {
	fn holds(self, contract: u64) -> bool {
		self == Strict::Both || self == Strict::Second && contract == SECOND
	}
}
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Op {
	/// what the first contract calls
	tree: Vec<Node>,
	/// which contracts revert when something they called did
	strict: Strict,
}
#[derive(Clone, Debug, Hash)]
pub struct W {
	nft: [u32; 2],
	sft: [u32; 2],
	pass: [H160; 2],
}
const FIRST: u64 = 0x4100_0000;
const SECOND: u64 = 0x4100_0001;
fn sink() -> H160 {
	h(0x999)
}
thread_local! {
	/// what the contract called next is to call
	static NEXT: RefCell<Vec<(Vec<Node>, usize)>> = Default::default();
	static SEEN: RefCell<Vec<(usize, bool)>> = Default::default();
}
fn size(n: &Node) -> usize {
	1 + n.kids.iter().map(size).sum::<usize>()
}
impl W {
	fn to(&self, k: K) -> H160 {
		match k {
			K::Nft(i) | K::Count(i) => erc721(self.nft[i]),
			K::Sft(i) => erc1155(self.sft[i]),
			K::Pass(i) | K::Owner(i) => self.pass[i],
			K::Plain => h(SECOND),
			K::Coin => erc20(ROOT),
			K::Hash => h(2),
		}
	}
	fn data(&self, k: K, id: usize) -> Vec<u8> {
		let (s, r) = (V::A(h(FIRST)), V::A(h(SECOND)));
		match k {
			K::Nft(_) => input("safeTransferFrom(address,address,uint256)", &[s, r, n(id as u32)]),
			K::Sft(_) => {
				input("safeTransferFrom(address,address,uint256,uint256,bytes)", &[s, r, n(0), n(1), V::S(vec![])])
			},
			K::Pass(_) => input("proxyCall(uint8,address,uint256,bytes)", &[n(1), s, n(0), V::S(vec![1, 2, 3, 4])]),
			K::Plain | K::Hash => vec![9],
			K::Coin => input("transfer(address,uint256)", &[V::A(sink()), n(1)]),
			K::Count(_) => input("totalSupply()", &[]),
			K::Owner(_) => input("owner()", &[]),
		}
	}
	/// what a tree is to lead to
	fn expect(&self, t: &Node, id: usize, strict: Strict, on: &mut BTreeMap<H160, u32>, seen: &mut Vec<(usize, bool)>, did: &mut Vec<(K, usize)>) -> bool {
		let a = self.to(t.k);
		let most = match t.k {
			K::Pass(_) | K::Owner(_) => 1,
			K::Plain => u32::MAX,
			_ => 0,
		};
		let c = on.entry(a).or_default();
		if *c > most {
			seen.push((id, false));
			return false;
		}
		*c += 1;
		let mark = did.len();
		let mut ok = true;
		let mut kid = id + 1;
		for k in &t.kids {
			if !self.expect(k, kid, strict, on, seen, did) && strict.holds(if matches!(t.k, K::Pass(_)) { FIRST } else { SECOND }) {
				ok = false;
				break;
			}
			kid += size(k);
		}
		*on.get_mut(&a).unwrap() -= 1;
		if ok {
			did.push((t.k, id));
		} else {
			did.truncate(mark);
		}
		seen.push((id, ok));
		ok
	}
}
fn play(w: &W, x: &mut dyn PrecompileHandle, strict: bool) -> bool {
	let (kids, mut id) = NEXT.with(|n| n.borrow_mut().pop()).unwrap_or_default();
	let me = x.context().address;
	for k in kids {
		let depth = NEXT.with(|n| {
			let mut n = n.borrow_mut();
			let d = n.len();
			n.push((k.kids.clone(), id + 1));
			d
		});
		let to = w.to(k.k);
		let ctx = Context { address: to, caller: me, apparent_value: Default::default() };
		let (r, _) = x.call(to, None, w.data(k.k, id), None, false, &ctx);
		NEXT.with(|n| n.borrow_mut().truncate(depth));
		SEEN.with(|s| s.borrow_mut().push((id, r.is_succeed())));
		if strict && !r.is_succeed() {
			return false;
		}
		id += size(&k);
	}
	true
}
fn arm(w: &W, strict: Strict) {
	for c in [FIRST, SECOND] {
		let w = w.clone();
		script(
			h(c),
			Some(std::rc::Rc::new(move |x: &mut dyn PrecompileHandle| {
				let s: Vec<u8> = x.input().iter().copied().take(4).collect();
				if !play(&w, x, strict.holds(c)) {
					return reverted();
				}
				// the selector is what a receiver is to answer
				let mut a = s;
				a.resize(32, 0);
				done(a)
			})),
		);
	}
}
pub struct S {
	pub depth: usize,
	pub wide: bool,
}
impl S {
	fn nodes(&self, depth: usize) -> Vec<Node> {
		let leaf = |k: K| Node { k, kids: vec![] };
		let leaves = [K::Coin, K::Count(0), K::Owner(0), K::Hash];
		let mut r: Vec<Node> = leaves.map(leaf).to_vec();
		for k in [K::Nft(0), K::Nft(1), K::Sft(0), K::Sft(1), K::Pass(0), K::Pass(1), K::Plain] {
			r.push(leaf(k));
			if depth > 1 {
				for kid in self.nodes(depth - 1) {
					r.push(Node { k, kids: vec![kid.clone()] });
					if depth == 2 || self.wide {
						for other in [K::Nft(0), K::Pass(0), K::Sft(1), K::Coin] {
							r.push(Node { k, kids: vec![kid.clone(), leaf(other)] });
						}
					}
				}
			}
		}
		r
	}
}
impl Spec for S {
	type R = W;
	type Op = Op;
	fn init(&self, _: usize) -> W {
		genesis(4, 1_000_000);
		let nft = [0, 1].map(|_| crate::erc721::create(user(0), "N", 12, None));
		let sft = [0, 1].map(|_| {
			let c = crate::erc1155::create(user(0));
			let t = pallet_sft::Call::create_token {
				collection_id: c,
				token_name: b"t".to_vec().try_into().unwrap(),
				initial_issuance: 100,
				max_issuance: None,
				token_owner: Some(at(h(FIRST))),
			};
			dispatch(signed(user(0)), t).unwrap();
			c
		});
		let pass = [0, 1].map(|i| {
			dispatch(signed(user(i)), pallet_futurepass::Call::create { account: at(user(i)) }).unwrap();
			let f: H160 = pallet_futurepass::Holders::<Runtime>::get(at(user(i))).unwrap().into();
			use pallet_futurepass::ProxyProvider;
			for c in [FIRST, SECOND] {
				rt::impls::ProxyPalletProvider::add_delegate(&at(user(i)), &at(f), &at(h(c)), &1).unwrap();
			}
			f
		});
		for c in [FIRST, SECOND] {
			contract(h(c), |_| done(vec![]));
			fund(ROOT, h(c), 1000);
		}
		for i in 0..2 {
			let t = pallet_nft::Call::transfer {
				collection_id: nft[i],
				serial_numbers: (0..12).collect::<Vec<_>>().try_into().unwrap(),
				new_owner: at(h(FIRST)),
			};
			dispatch(signed(user(0)), t).unwrap();
			for a in [erc721(nft[i]), erc1155(sft[i])] {
				assert!(tx(h(FIRST), a, "setApprovalForAll(address,bool)", &[V::A(h(SECOND)), V::B(true)]).ok());
			}
		}
		W { nft, sft, pass }
	}
	fn ops(&self, _: &W) -> Vec<Op> {
		let mut r = vec![];
		for t in self.nodes(self.depth) {
			for strict in [Strict::None, Strict::Both, Strict::Second] {
				r.push(Op { tree: vec![t.clone()], strict });
			}
			// afterwards everything answers again
			for k in [K::Nft(0), K::Sft(0), K::Pass(0)] {
				if self.wide || size(&t) < 4 {
					for strict in [Strict::None, Strict::Second] {
						r.push(Op { tree: vec![t.clone(), Node { k, kids: vec![] }], strict });
					}
				}
			}
		}
		r
	}
	fn step(&self, w: &mut W, op: &Op) -> Step {
		let h0 = shim::ext::state_hash();
		SEEN.with(|s| s.borrow_mut().clear());
		NEXT.with(|n| *n.borrow_mut() = vec![(op.tree.clone(), 0)]);
		arm(w, op.strict);
		let o = evm(user(3), h(FIRST), vec![7], Default::default(), Mode::Call);
		let seen = SEEN.with(|s| s.borrow().clone());
		let (mut want, mut did, mut on, mut id, mut ok) = (vec![], vec![], BTreeMap::new(), 0, true);
		for t in &op.tree {
			if !w.expect(t, id, op.strict, &mut on, &mut want, &mut did) && op.strict.holds(FIRST) {
				ok = false;
				did.clear();
				break;
			}
			id += size(t);
		}
		req!(seen == want, "nesting: {op:?} calls ended {seen:?}, expected {want:?}");
		req!(o.ok() == ok, "outcome: {op:?} {:?}", o.reason);
		let count = |k: K| did.iter().filter(|d| d.0 == k).count() as u128;
		for i in 0..2 {
			for j in 0..12 {
				let x = if did.contains(&(K::Nft(i), j)) { SECOND } else { FIRST };
				let who: Option<H160> = Nft::get_token_owner(&(w.nft[i], j as u32)).map(|a| a.into());
				req!(who == Some(h(x)), "moved: {op:?} token {j} of collection {i} is with {who:?}");
			}
			let got = view(w.to(K::Sft(i)), "balanceOf(address,uint256)", &[V::A(h(SECOND)), n(0)]).unwrap_or_default();
			req!(got == enc(&[n(count(K::Sft(i)))]), "moved: {op:?} tokens of {i} {got:?}");
		}
		req!(bal(ROOT, sink()) == count(K::Coin), "moved: {op:?} coins {}", bal(ROOT, sink()));
		if !ok {
			req!(shim::ext::state_hash() == h0 && o.logs.is_empty(), "refused-but-changed: {op:?}");
		}
		Ok(format!("{}, {} refused", if ok { "done" } else { "reverted" }, seen.iter().filter(|s| !s.1).count().min(3)))
	}
}
pub fn run(ctx: &mut Ctx) {
	ctx.bfs("nested calls", &S { depth: ctx.pick(4, 5), wide: false }, depth(1));
	ctx.bfs("two calls on every level", &S { depth: ctx.pick(2, 3), wide: true }, depth(1));
	ctx.note("contracts are scripts run by the EVM shim; every precompile is the runtime's own set, entered through its routing");
}
