//! V04, V05: which calls the precompiles take, and that they amount to the pallets' extrinsics.
use crate::catalog::*;
use explore::*;
use fp_evm::{IsPrecompileResult, PrecompileSet};
use rt::{sim::*, *};
use sp_core::{Get as _, H160, U256};
use std::collections::BTreeSet;
#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Op {
	Good { f: usize },
	Static { f: usize },
	Delegate { f: usize },
	Value { f: usize, wei: U256 },
	Cut { f: usize, len: usize },
	Word { f: usize, at: usize, with: U256 },
	Selector { to: H160, sel: [u8; 4], how: u8 },
	Nowhere { to: H160 },
	/// XRP sent along with a function that uses it
	Pay { f: usize, wei: U256 },
	/// the function with other arguments, called by someone
	Args { f: usize, who: usize, v: Vec<usize> },
}
pub struct S {
	pub equiv: bool,
	pub pay: bool,
	pub deep: bool,
	pub fs: std::sync::OnceLock<Vec<F>>,
}
impl S {
	fn fs(&self, w: &W) -> &Vec<F> {
		self.fs.get_or_init(|| all(w))
	}
}
fn is_precompile(x: H160) -> bool {
	let p = <Runtime as pallet_evm::Config>::PrecompilesValue::get();
	matches!(p.is_precompile(x, GAS), IsPrecompileResult::Answer { is_precompile: true, .. })
}
/// those whose good arguments do not do
const FAILS: [&str; 6] = ["onERC1155Received(address,address,uint256,uint256,bytes)", "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)", "enableXls20Compatibility()", "onERC721Received(address,address,uint256,bytes)", "registerDelegateWithSignature(address,uint8,uint32,bytes)", "reRequestXls20Mint(uint32[])"];
fn data(f: &F) -> Vec<u8> {
	if f.sig.is_empty() {
		return sel("").to_vec();
	}
	input(f.sig, &f.good)
}
fn cell(o: &Out) -> String {
	format!("{:?}", o.reason).chars().take(60).collect()
}
fn words(v: &[V]) -> usize {
	v.len()
}
fn pick<'a>(f: &'a F, v: &[usize]) -> Vec<V> {
	(0..f.good.len()).map(|i| if v[i] == 0 { f.good[i].clone() } else { f.alts[i][v[i] - 1].clone() }).collect()
}
fn refused_clean(o: &Out, h0: u128, op: &Op, sig: &str) -> Check {
	if !o.ok() {
		req!(shim::ext::state_hash() == h0, "refused-but-changed: {sig} {op:?}");
		req!(o.logs.is_empty(), "refused-but-logged: {sig} {op:?}");
	}
	Ok(())
}
impl Spec for S {
	type R = W;
	type Op = Op;
	fn init(&self, _: usize) -> W {
		let w = world();
		use pallet_futurepass::ProxyProvider;
		rt::impls::ProxyPalletProvider::add_delegate(&acc(0), &at(w.fp), &acc(1), &1).unwrap();
		w
	}
	fn ops(&self, w: &W) -> Vec<Op> {
		let fs = self.fs(w);
		let mut r = vec![];
		if self.pay {
			for (i, _) in fs.iter().enumerate().filter(|x| x.1.to == h(DEX) && x.1.kind == Kind::Pay) {
				for k in [1, 2, 3, 50, 400, 1000, 5000] {
					r.push(Op::Pay { f: i, wei: U256::from(k) });
					r.push(Op::Pay { f: i, wei: U256::from(k) * U256::from(DROP) });
				}
			}
			return r;
		}
		if self.equiv {
			for (i, f) in fs.iter().enumerate().filter(|x| x.1.eqv.is_some()) {
				// every pair of arguments differs at once from the good ones (all of them if thorough and few)
				let n: Vec<usize> = f.alts.iter().map(|a| a.len() + 1).collect();
				let most = if self.deep { 3 } else { 2 };
				let mut go = |v: Vec<usize>| {
					for who in 0..3 {
						r.push(Op::Args { f: i, who, v: v.clone() });
					}
				};
				fn rec(n: &[usize], at: usize, left: usize, v: &mut Vec<usize>, go: &mut dyn FnMut(Vec<usize>)) {
					if at == n.len() {
						return go(v.clone());
					}
					v.push(0);
					rec(n, at + 1, left, v, go);
					v.pop();
					if left > 0 {
						for k in 1..n[at] {
							v.push(k);
							rec(n, at + 1, left - 1, v, go);
							v.pop();
						}
					}
				}
				rec(&n, 0, most, &mut vec![], &mut go);
			}
			return r;
		}
		let sels: BTreeSet<[u8; 4]> =
			fs.iter().map(|f| sel(f.sig)).chain([[0; 4], [0xff; 4], [0, 0, 0, 1], [0x80, 0, 0, 0]]).collect();
		let tos: BTreeSet<H160> = fs.iter().map(|f| f.to).collect();
		for to in &tos {
			for s in &sels {
				if !fs.iter().any(|f| f.to == *to && sel(f.sig) == *s) {
					for how in 0..3 {
						r.push(Op::Selector { to: *to, sel: *s, how });
					}
				}
			}
		}
		for x in [0u32, 4, 99, 101, 107, 1124, 0x7fff_ffff, u32::MAX] {
			for p in [0xaa, 0xbb, 0xcc, 0xff, 0xdd, 0] {
				let to = token(p, x);
				if !tos.contains(&to) {
					r.push(Op::Nowhere { to });
				}
			}
		}
		for x in 0..12u64 {
			for y in [NFT, SFT, PEG, DEX, REG, MKT] {
				for z in [y + x, y - x, y | (x << 16), y | (x << 32), y << x] {
					if !tos.contains(&h(z)) && z > 1026 {
						r.push(Op::Nowhere { to: h(z) });
					}
				}
			}
		}
		for (i, f) in fs.iter().enumerate() {
			r.push(Op::Good { f: i });
			r.push(Op::Static { f: i });
			r.push(Op::Delegate { f: i });
			for wei in [U256::one(), U256::from(DROP), U256::from(DROP) * 7] {
				r.push(Op::Value { f: i, wei });
			}
			let b = data(f).len();
			for len in 0..b {
				if self.deep || len < 40 || matches!(len % 32, 3..=5) {
					r.push(Op::Cut { f: i, len });
				}
			}
			let w = |x: u32| U256::one() << x;
			for at in 0..(b - 4) / 32 {
				for with in [U256::zero(), U256::one(), U256::from(31), U256::from(33), U256::from(0x1000), w(31), w(32), w(63), w(64), w(128), w(255), U256::MAX] {
					r.push(Op::Word { f: i, at, with });
				}
			}
		}
		r
	}
	fn step(&self, w: &mut W, op: &Op) -> Step {
		crate::hook::arm(crate::hook::magic("onERC1155Received(address,address,uint256,uint256,bytes)"), None);
		let fs = self.fs(w);
		let h0 = shim::ext::state_hash();
		let c = h(0x2000_0000); // a contract
		match op {
			Op::Good { f } => {
				let f = &fs[*f];
				let o = evm(f.from, f.to, data(f), f.value, Mode::Call);
				refused_clean(&o, h0, op, f.sig)?;
				if !FAILS.contains(&f.sig) {
					req!(o.ok(), "good: {} is refused: {:?} {}", f.sig, o.reason, String::from_utf8_lossy(&o.out));
				}
				match f.kind {
					Kind::View => {
						req!(shim::ext::state_hash() == h0, "view-changed: {}", f.sig);
						req!(o.logs.is_empty(), "view-logged: {}", f.sig);
						let again = evm(f.from, f.to, data(f), U256::zero(), Mode::Static);
						req!(again.ok() && again.out == o.out, "view-static: {} answers another {:?} in a static call", f.sig, again);
					},
					Kind::Act => req!(!o.ok() || shim::ext::state_hash() != h0, "idle: {} has no effect", f.sig),
					Kind::Pay => {},
				}
				Ok(format!("good {:?} {}", f.kind, o.ok()))
			},
			Op::Static { f } => {
				let f = &fs[*f];
				let o = evm(f.from, f.to, data(f), U256::zero(), Mode::Static);
				req!(shim::ext::state_hash() == h0, "static-changed: {}", f.sig);
				req!(o.logs.is_empty(), "static-logged: {}", f.sig);
				req!(o.static_transfers == 0, "static-moved: {}", f.sig);
				req!(o.ok() == (f.kind == Kind::View), "static-taken: {} {}", f.sig, cell(&o));
				Ok(format!("static {:?}", f.kind))
			},
			Op::Delegate { f } => {
				let f = &fs[*f];
				let o = evm(f.from, f.to, data(f), U256::zero(), Mode::Delegate(c));
				req!(!o.ok(), "delegatecall: {} is taken", f.sig);
				req!(shim::ext::state_hash() == h0, "delegate-changed: {}", f.sig);
				Ok(format!("delegate {:?}", f.kind))
			},
			Op::Value { f, wei } => {
				let f = &fs[*f];
				let o = evm(f.from, f.to, data(f), *wei, Mode::Call);
				refused_clean(&o, h0, op, f.sig)?;
				req!(f.kind == Kind::Pay || !o.ok(), "value: {} takes XRP it has no use for", f.sig);
				Ok(format!("value {:?} {}", f.kind, o.ok()))
			},
			Op::Cut { f, len } => {
				let f = &fs[*f];
				let o = evm(f.from, f.to, data(f)[..*len].to_vec(), f.value, Mode::Call);
				refused_clean(&o, h0, op, f.sig)?;
				req!(!o.ok() || *len >= 4 + 32 * words(&f.good), "short: {} is taken with {len} bytes", f.sig);
				Ok(format!("cut {}", o.ok()))
			},
			Op::Word { f, at, with } => {
				let f = &fs[*f];
				let mut d = data(f);
				with.to_big_endian(&mut d[4 + 32 * at..36 + 32 * at]);
				let o = evm(f.from, f.to, d, f.value, Mode::Call);
				refused_clean(&o, h0, op, f.sig)?;
				if f.kind == Kind::View {
					req!(shim::ext::state_hash() == h0, "view-changed: {} {op:?}", f.sig);
				}
				Ok(format!("word {}", o.ok()))
			},
			Op::Selector { to, sel, how } => {
				let mut d = sel.to_vec();
				if *how > 0 {
					d.extend([0; 320]);
				}
				let o = evm(user(0), *to, d, U256::zero(), if *how == 2 { Mode::Static } else { Mode::Call });
				req!(!o.ok(), "selector: {to:?} takes {sel:?}");
				refused_clean(&o, h0, op, "")?;
				Ok("selector".into())
			},
			Op::Nowhere { to } => {
				let known = match to.as_bytes() {
					[0xcc, 0xcc, 0xcc, 0xcc, ..] => pallet_assets::Asset::<Runtime>::contains_key(id_of(0xcc, *to).unwrap()),
					[0xaa, 0xaa, 0xaa, 0xaa, ..] => pallet_nft::CollectionInfo::<Runtime>::contains_key(id_of(0xaa, *to).unwrap()),
					[0xbb, 0xbb, 0xbb, 0xbb, ..] => pallet_sft::SftCollectionInfo::<Runtime>::contains_key(id_of(0xbb, *to).unwrap()),
					[0xff, 0xff, 0xff, 0xff, ..] => return Ok("futurepass".into()),
					_ => false,
				};
				req!(is_precompile(*to) == known, "address: {to:?} is a precompile: {}", !known);
				if !known {
					let o = evm(user(0), *to, sel("name()").to_vec(), U256::zero(), Mode::Call);
					req!(o.out.is_empty() && o.logs.is_empty() && shim::ext::state_hash() == h0, "nowhere: a call to {to:?} did something");
				}
				Ok(format!("nowhere {known}"))
			},
			Op::Pay { f, wei } => {
				let f = &fs[*f];
				let o = evm(f.from, f.to, data(f), *wei, Mode::Call);
				refused_clean(&o, h0, op, f.sig)?;
				req!(bal(XRP, f.to) == 0, "stuck: {} leaves the XRP sent along with the precompile's account", f.sig);
				Ok(format!("{} {}", f.sig, o.ok()))
			},
			Op::Args { f, who, v } => {
				let f = &fs[*f];
				let args = pick(f, v);
				let c = user(*who);
				let want = (f.eqv.unwrap())(w, c, &args, U256::zero());
				let before = |p: &[AssetId], a: H160, b: H160| (bal(p[0], a), bal(*p.last().unwrap(), b));
				let (want_ok, after, out) = match &want {
					Want::Skip => return Ok("left out".into()),
					Want::No => (false, None, vec![]),
					Want::View(x) => (true, Some(h0), x.clone()),
					Want::Do(cs, out) => {
						let mut swapped = vec![];
						let mut made = vec![];
						let r = peek(|| {
							let colls = |p: u8| -> BTreeSet<u32> {
								match p {
									0xaa => pallet_nft::CollectionInfo::<Runtime>::iter().map(|x| x.0).collect(),
									_ => pallet_sft::SftCollectionInfo::<Runtime>::iter().map(|x| x.0).collect(),
								}
							};
							let had: Vec<u128> = match out {
								Out_::Moved(l) | Out_::Shares(l, _) => l.iter().map(|x| bal(x.0, x.1)).collect(),
								_ => vec![],
							};
							let shares = |l: &[(AssetId, H160)], to: H160| {
								pallet_dex::Pallet::<Runtime>::get_lp_token_id(l[0].0, l[1].0).map_or(0, |t| bal(t, to))
							};
							let had_shares = if let Out_::Shares(l, to) = out { shares(l, *to) } else { 0 };
							let had_colls = if let Out_::New(p) = out { colls(*p) } else { Default::default() };
							let b = match out {
								Out_::Swap(p, a, b) if p.len() > 1 => Some(before(p, *a, *b)),
								_ => None,
							};
							for (o, c) in cs {
								if dispatch(o.clone(), c.clone()).is_err() {
									return None;
								}
							}
							if let (Some(b), Out_::Swap(p, x, y)) = (b, out) {
								let a = before(p, *x, *y);
								swapped = vec![b.0.wrapping_sub(a.0), a.1.wrapping_sub(b.1)];
							}
							match out {
								Out_::Moved(l) | Out_::Shares(l, _) => {
									swapped = l.iter().zip(&had).map(|(x, b)| bal(x.0, x.1).abs_diff(*b)).collect();
								},
								_ => {},
							}
							if let Out_::Shares(l, to) = out {
								swapped.push(shares(l, *to) - had_shares);
							}
							if let Out_::New(p) = out {
								let new = *colls(*p).difference(&had_colls).next().unwrap();
								made = enc(&[V::A(token(*p, new)), n(new)]);
							}
							Some(shim::ext::state_hash())
						});
						let o = match out {
							Out_::Bytes(b) => b.clone(),
							Out_::Swap(..) | Out_::Moved(_) | Out_::Shares(..) => swapped.iter().flat_map(|x| enc(&[n(*x)])).collect(),
							Out_::New(_) => made,
							Out_::Any => vec![],
						};
						(r.is_some(), r, o)
					},
				};
				let o = evm(c, f.to, input(f.sig, &args), U256::zero(), Mode::Call);
				refused_clean(&o, h0, op, f.sig)?;
				let no = String::from_utf8_lossy(&o.out).to_string();
				req!(o.ok() == want_ok, "taken: {} {args:?} by {who} is taken: {} {no:?} - the pallet's is {want_ok}", f.sig, o.ok());
				if o.ok() {
					req!(Some(shim::ext::state_hash()) == after, "effect: {} {args:?} by {who} differs from the pallet's", f.sig);
					match &want {
						Want::Do(_, Out_::Any) => {},
						Want::Do(_, Out_::Swap(..)) => {
							let k = o.out.len();
							if out.len() == 64 && k >= 128 {
								req!(o.out[64..96] == out[..32] && o.out[k - 32..] == out[32..], "output: {} answers {:?}", f.sig, o.out);
							}
						},
						_ => {
							// a value of several words may be written as a tuple
							let tuple = [enc(&[n(32)]), out.clone()].concat();
							req!(o.out == out || o.out == tuple, "output: {} {args:?} answers {:?} - not {:?}", f.sig, o.out, out);
						},
					}
					if f.kind != Kind::View {
						req!(!o.logs.is_empty(), "log: {} writes none", f.sig);
						for l in o.plain() {
							req!(l.address == f.to || f.to == h(DEX), "log: {} writes as {:?}", f.sig, l.address);
						}
					}
				}
				Ok(format!("{} {}", f.sig.split('(').next().unwrap(), o.ok()))
			},
		}
	}
}
pub fn run(ctx: &mut Ctx) {
	let s = S { equiv: false, pay: false, deep: ctx.thorough(), fs: Default::default() };
	ctx.assume("Ethereum's own precompiles (addresses 1-9, 1024, 1026) are stubs and not called");
	if std::env::var("V04_ALL").is_ok() {
		let mut seen = BTreeSet::new();
		let w0 = s.init(0);
		let full = shim::ext::snapshot();
		for op in s.ops(&w0) {
			shim::ext::restore(&full);
			let mut w = w0.clone();
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.step(&mut w, &op)));
			let m = match r {
				Ok(Ok(_)) => continue,
				Ok(Err(m)) => m,
				Err(_) => format!("panic: {op:?}"),
			};
			let k: String = m.chars().take(60).collect();
			if seen.insert(k) {
				println!("{m}  {op:?}");
			}
		}
		std::process::exit(0);
	}
	ctx.bfs("calls", &s, depth(1));
}
pub fn equiv(ctx: &mut Ctx) {
	let s = S { equiv: true, pay: false, deep: ctx.thorough(), fs: Default::default() };
	ctx.bfs("arguments", &s, depth(1));
	let s = S { equiv: false, pay: true, deep: ctx.thorough(), fs: Default::default() };
	ctx.bfs("payable", &s, depth(1));
}
