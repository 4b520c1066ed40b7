//! V06: what the precompiles share to read calls and to write answers and logs, compared with a
//! reading and writing of Solidity's ABI written from its specification.
use explore::*;
use fp_evm::{Context, PrecompileFailure};
use precompile_utils::{costs::log_costs, prelude::*, revert::RevertSelector};
use rt::sim::*;
use sp_core::{ConstU32, H160, H256, U256};
type W = [u8; 32];
/// A type of the ABI.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
	/// a word of which the value has so many bits
	Uint(u32),
	Bool,
	Address,
	Word,
	/// bytes or a string of at most so many
	Bytes(usize),
	/// a list of at most so many
	List(Box<T>, usize),
	Tuple(Vec<T>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum X {
	W(W),
	B(Vec<u8>),
	L(Vec<X>),
}
fn w(x: U256) -> W {
	let mut b = [0; 32];
	x.to_big_endian(&mut b);
	b
}
fn dynamic(t: &T) -> bool {
	match t {
		T::Bytes(_) | T::List(..) => true,
		T::Tuple(l) => l.iter().any(dynamic),
		_ => false,
	}
}
fn head(t: &T) -> usize {
	match t {
		T::Tuple(l) if !dynamic(t) => l.iter().map(head).sum(),
		_ => 32,
	}
}
/// The encoding of a value, without the pointer to it.
fn body(t: &T, x: &X) -> Vec<u8> {
	match (t, x) {
		(_, X::W(b)) => b.to_vec(),
		(_, X::B(b)) => {
			let mut v = w(b.len().into()).to_vec();
			v.extend(b);
			v.resize(32 + b.len().div_ceil(32) * 32, 0);
			v
		},
		(T::List(t, _), X::L(l)) => {
			let mut v = w(l.len().into()).to_vec();
			v.extend(sequence(&l.iter().map(|_| (**t).clone()).collect::<Vec<_>>(), l));
			v
		},
		(T::Tuple(ts), X::L(l)) => sequence(ts, l),
		_ => unreachable!("{t:?} {x:?}"),
	}
}
fn sequence(ts: &[T], xs: &[X]) -> Vec<u8> {
	let heads: usize = ts.iter().map(head).sum();
	let (mut h, mut tail) = (vec![], vec![]);
	for (t, x) in ts.iter().zip(xs) {
		if dynamic(t) {
			h.extend(w((heads + tail.len()).into()));
			tail.extend(body(t, x));
		} else {
			h.extend(body(t, x));
		}
	}
	h.extend(tail);
	h
}
/// Reads a value at `*at` of a container; moves on. None if the data do not hold one.
fn decode(t: &T, c: &[u8], at: &mut usize) -> Option<X> {
	fn word(c: &[u8], at: &mut usize) -> Option<W> {
		let b = c.get(*at..at.checked_add(32)?)?.try_into().ok()?;
		*at += 32;
		Some(b)
	}
	fn size(c: &[u8], at: &mut usize) -> Option<usize> {
		let x = U256::from_big_endian(&word(c, at)?);
		(x <= U256::from(u64::MAX)).then(|| x.as_u64() as usize)
	}
	if dynamic(t) {
		let o = size(c, at)?;
		let c = c.get(o..)?;
		let mut at = 0;
		return match t {
			T::Bytes(max) => {
				let n = size(c, &mut at)?;
				(n <= *max).then_some(())?;
				Some(X::B(c.get(32..n.checked_add(32)?)?.to_vec()))
			},
			T::List(t, max) => {
				let n = size(c, &mut at)?;
				(n <= *max).then_some(())?;
				let c = &c[32..];
				let mut at = 0;
				let mut l = vec![];
				for _ in 0..n {
					l.push(decode(t, c, &mut at)?);
				}
				Some(X::L(l))
			},
			T::Tuple(ts) => ts.iter().map(|t| decode(t, c, &mut at)).collect::<Option<Vec<_>>>().map(X::L),
			_ => unreachable!(),
		};
	}
	if let T::Tuple(ts) = t {
		return ts.iter().map(|t| decode(t, c, at)).collect::<Option<Vec<_>>>().map(X::L);
	}
	let b = word(c, at)?;
	let x = U256::from_big_endian(&b);
	Some(X::W(match t {
		T::Uint(256) | T::Word => b,
		T::Uint(k) => (x >> *k as usize == U256::zero()).then_some(b)?,
		// only the twenty bytes count, and whether there is any bit
		T::Address => {
			let mut a = [0; 32];
			a[12..].copy_from_slice(&b[12..]);
			a
		},
		T::Bool => w(U256::from((x != U256::zero()) as u64)),
		_ => unreachable!(),
	}))
}
/// A type the precompiles read and write, and what the ABI says of it.
trait Abi: EvmData + Clone {
	fn ty() -> T;
	fn x(&self) -> X;
	fn all() -> Vec<Self>;
}
macro_rules! uints {
	($($t:ty),*) => { $(impl Abi for $t {
		fn ty() -> T { T::Uint(8 * core::mem::size_of::<$t>() as u32) }
		fn x(&self) -> X { X::W(w(U256::from(*self))) }
		fn all() -> Vec<Self> { vec![1, <$t>::MAX, 0, <$t>::MAX / 3] }
	})* }
}
uints!(u8, u16, u32, u64, u128);
impl Abi for U256 {
	fn ty() -> T {
		T::Uint(256)
	}
	fn x(&self) -> X {
		X::W(w(*self))
	}
	fn all() -> Vec<Self> {
		vec![32.into(), U256::MAX, 0.into(), U256::from(1) << 200]
	}
}
impl Abi for bool {
	fn ty() -> T {
		T::Bool
	}
	fn x(&self) -> X {
		X::W(w(U256::from(*self as u64)))
	}
	fn all() -> Vec<Self> {
		vec![true, false]
	}
}
impl Abi for Address {
	fn ty() -> T {
		T::Address
	}
	fn x(&self) -> X {
		X::W(H256::from(self.0).0)
	}
	fn all() -> Vec<Self> {
		[H160::repeat_byte(0xff), h(0), H160([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20])].map(Address).to_vec()
	}
}
impl Abi for H256 {
	fn ty() -> T {
		T::Word
	}
	fn x(&self) -> X {
		X::W(self.0)
	}
	fn all() -> Vec<Self> {
		vec![H256::repeat_byte(0x81), H256::zero(), H256::from_low_u64_be(7)]
	}
}
fn bytes(n: usize) -> Vec<u8> {
	(0..n).map(|i| (i * 7 + n) as u8 | 1).collect()
}
impl Abi for Bytes {
	fn ty() -> T {
		T::Bytes(u32::MAX as usize)
	}
	fn x(&self) -> X {
		X::B(self.0.clone())
	}
	fn all() -> Vec<Self> {
		[3, 0, 32, 33, 31, 64].map(|n| Bytes(bytes(n))).to_vec()
	}
}
impl<A: Abi> Abi for Vec<A> {
	fn ty() -> T {
		T::List(Box::new(A::ty()), u32::MAX as usize)
	}
	fn x(&self) -> X {
		X::L(self.iter().map(|a| a.x()).collect())
	}
	fn all() -> Vec<Self> {
		let l = A::all();
		let mut v = vec![l[..1].to_vec(), vec![], l[..2].to_vec(), l.clone()];
		v.push(l.iter().rev().take(3).cloned().collect());
		v
	}
}
macro_rules! tuples {
	($(($($a:ident $i:tt),*))*) => { $(impl<$($a: Abi),*> Abi for ($($a,)*) {
		fn ty() -> T { T::Tuple(vec![$($a::ty()),*]) }
		fn x(&self) -> X { X::L(vec![$(self.$i.x()),*]) }
		fn all() -> Vec<Self> {
			// every value of every member, and a few combinations
			let n = [$($a::all().len()),*].into_iter().max().unwrap();
			let mut v = vec![];
			for k in 0..3 {
				for j in 0..n {
					v.push(($({ let l = $a::all(); l[(j + k * $i) % l.len()].clone() },)*));
				}
			}
			v
		}
	})* }
}
tuples! { (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) }
struct Case {
	name: &'static str,
	types: Vec<T>,
	values: Vec<X>,
	/// as the precompiles write it
	written: Vec<u8>,
	/// as the precompiles read it
	read: fn(&[u8]) -> Option<Vec<X>>,
}
macro_rules! cases {
	($v:ident: $([$($a:ident: $t:ty),*])*) => { $({
		fn read(d: &[u8]) -> Option<Vec<X>> {
			let mut r = EvmDataReader::new(d);
			Some(vec![$(r.read::<$t>().ok()?.x()),*])
		}
		let n = [$(<$t>::all().len()),*].into_iter().max().unwrap();
		for k in 0..2usize {
			for j in 0..n {
				let mut _i = 0;
				$(let $a = { let l = <$t>::all(); _i += 1; l[(j + k * (_i - 1)) % l.len()].clone() };)*
				$v.push(Case {
					name: stringify!($($t),*),
					types: vec![$(<$t>::ty()),*],
					values: vec![$($a.x()),*],
					written: EvmDataWriter::new()$(.write::<$t>($a))*.build(),
					read,
				});
			}
			if [$(stringify!($a)),*].len() == 1 {
				break;
			}
		}
	})* }
}
type B2 = BoundedVec<u32, ConstU32<2>>;
type B33 = BoundedBytes<ConstU32<33>>;
fn all() -> Vec<Case> {
	let mut v = vec![];
	cases! { v:
		[a: u8] [a: u16] [a: u32] [a: u64] [a: u128] [a: U256] [a: bool] [a: Address] [a: H256] [a: Bytes]
		[a: Vec<u32>] [a: Vec<U256>] [a: Vec<Address>] [a: Vec<bool>] [a: Vec<Bytes>] [a: Vec<Vec<u64>>] [a: Vec<Vec<Bytes>>]
		[a: (u8, bool)] [a: (u32, Bytes)] [a: (Bytes, Address, Vec<u16>)] [a: ((u8, Address), u128)] [a: ((Bytes, u8), H256, (u16, u32))]
		[a: Vec<(Address, U256)>] [a: Vec<(U256, Bytes)>] [a: Vec<(Vec<u8>, (Bytes, bool))>] [a: (Vec<(u8, u8)>, Vec<Bytes>)]
		[a: Address, b: U256] [a: Address, b: Address, c: U256, d: Bytes] [a: Bytes, b: Bytes] [a: Vec<U256>, b: u16, c: Vec<U256>, d: Bytes]
		[a: (u8, Bytes), b: U256, c: Vec<Address>] [a: (u8, bool), b: Vec<(u16, u32)>, c: (bool, u8)] [a: Vec<Vec<u32>>, b: H256, c: Bytes]
		[a: u64, b: bool, c: u128, d: Vec<Bytes>, e: Address]
	}
	v
}
#[derive(Clone, Copy, Debug)]
enum Change {
	None,
	/// cut to so many bytes
	Cut(usize),
	/// the word at this place is this one
	Set(usize, usize),
	/// and another one too
	Both(usize, usize, usize, usize),
	/// more data after it
	More(usize),
}
fn words(n: usize) -> Vec<U256> {
	let u = |x: u64| U256::from(x);
	vec![
		u(0),
		u(1),
		u(2),
		u(31),
		u(32),
		u(33),
		u(64),
		u(96),
		u(n as u64),
		u(n.saturating_sub(1) as u64),
		u(n.saturating_sub(32) as u64),
		u(255),
		u(256),
		u(u16::MAX as u64 + 1),
		u(1 << 32) - 1,
		u(1 << 32),
		u(u64::MAX - 31),
		u(u64::MAX),
		U256::from(u64::MAX) + 1,
		U256::from(u64::MAX) + 33,
		U256::from(u128::MAX),
		U256::from(u128::MAX) + 1,
		U256::from(1) << 160,
		U256::from(1) << 255,
		U256::MAX - 31,
		U256::MAX,
	]
}
fn values(ctx: &mut Ctx) {
	let cases = all();
	let rich = ctx.thorough();
	let mut items = vec![];
	for (i, c) in cases.iter().enumerate() {
		let n = c.written.len();
		items.push((i, Change::None));
		for k in (0..n).filter(|k| rich || k % 32 < 2 || k % 32 == 31) {
			items.push((i, Change::Cut(k)));
		}
		for k in [1, 31, 32, 64] {
			items.push((i, Change::More(k)));
		}
		let m = words(n).len();
		for a in 0..n / 32 {
			for b in 0..m {
				items.push((i, Change::Set(a, b)));
				if rich && n <= 32 * 20 {
					for c in a + 1..n / 32 {
						for d in 0..m {
							items.push((i, Change::Both(a, b, c, d)));
						}
					}
				}
			}
		}
	}
	ctx.enumerate("arguments and answers", items.into_iter(), |(i, change)| {
		let c = &cases[*i];
		let mut d = sequence(&c.types, &c.values);
		req!(c.written == d, "written: {:?} of {} as {:?}", c.values, c.name, c.written);
		let n = d.len();
		let set = |d: &mut Vec<u8>, a: usize, b: usize| d[32 * a..32 * a + 32].copy_from_slice(&w(words(n)[b]));
		match *change {
			Change::None => {},
			Change::Cut(k) => d.truncate(k),
			Change::More(k) => d.extend(vec![0xee; k]),
			Change::Set(a, b) => set(&mut d, a, b),
			Change::Both(a, b, x, y) => {
				set(&mut d, a, b);
				set(&mut d, x, y);
			},
		}
		let mut at = 0;
		let want: Option<Vec<X>> = c.types.iter().map(|t| decode(t, &d, &mut at)).collect();
		if matches!(change, Change::None | Change::More(_)) {
			assert_eq!(want.as_ref(), Some(&c.values));
		}
		let got = (c.read)(&d);
		req!(got == want, "read: {} with {change:?} is {got:?} - not {want:?}", c.name);
		Ok(format!("{}", if want.is_some() { "read" } else { "refused" }))
	});
	// lists and strings with a limit
	let items: Vec<(usize, usize)> = (0..2).flat_map(|k| (0..70).map(move |n| (k, n))).collect();
	ctx.enumerate("limits", items.into_iter(), |&(k, n)| {
		let (got, max) = if k == 0 {
			let l: Vec<u32> = (0..n as u32).collect();
			let d = sequence(&[Vec::<u32>::ty()], &[l.x()]);
			(EvmDataReader::new(&d).read::<B2>().ok().map(|v| v.into_vec() == l), 2)
		} else {
			let b = Bytes(bytes(n));
			let d = sequence(&[Bytes::ty()], &[b.x()]);
			(EvmDataReader::new(&d).read::<B33>().ok().map(|v| v.into_vec() == b.0), 33)
		};
		req!(got == (n <= max).then_some(true), "limit: {n} of {max} is {got:?}");
		Ok(format!("{got:?}"))
	});
}
fn edges(ctx: &mut Ctx) {
	let own = sel("Error(string)");
	let mut items: Vec<Vec<u8>> = (0..6).map(|n| [&own[..], &[1, 2]].concat()[..n].to_vec()).collect();
	for bit in 0..32 {
		let mut x = own.to_vec();
		x[bit / 8] ^= 1 << (bit % 8);
		items.push([&x[..], &[9; 32]].concat());
	}
	ctx.enumerate("selectors", items.into_iter(), |d| {
		let known = d.len() >= 4 && d[..4] == own;
		let got = EvmDataReader::read_selector::<RevertSelector>(d);
		req!(got.is_ok() == known, "selector: of {d:?} is {:?}", got.is_ok());
		let s = precompile_utils::get_selector(d);
		req!(s[..] == if d.len() < 4 { &[0; 4] } else { &d[..4] }[..], "selector: {d:?} begins with {s:?}");
		let rest = EvmDataReader::new_skip_selector(d).ok().and_then(|mut r| r.read_till_end().ok().map(|x| x.to_vec()));
		req!(rest.as_deref() == d.get(4..), "selector: after it in {d:?} is {rest:?}");
		for n in 0..3 {
			let e = EvmDataReader::new(d).expect_arguments(n).is_ok();
			req!(e == (d.len() >= 32 * n), "arguments: {n} in {} bytes: {e}", d.len());
		}
		Ok(format!("{known}"))
	});
	ctx.enumerate("reasons", 0..100usize, |n| {
		let m: String = "ERC20: a reason, 'quoted' ".chars().cycle().take(*n).collect();
		let want = [&own[..], &enc(&[V::S(m.clone().into_bytes())])].concat();
		match revert(&m) {
			PrecompileFailure::Revert { output, .. } => req!(output == want, "reason: {m:?} as {output:?}"),
			x => return Err(format!("reason: {m:?} is {x:?}")),
		}
		let r: PrecompileFailure = RevertReason::custom(m.clone()).into();
		match r {
			PrecompileFailure::Revert { output, .. } => req!(output == want, "reason: custom {m:?} as {output:?}"),
			x => return Err(format!("reason: {m:?} is {x:?}")),
		}
		Ok("told".into())
	});
	let mut items = vec![];
	for m in 0..3u8 {
		for st in [false, true] {
			for v in [U256::zero(), 1.into(), U256::from(1) << 64, U256::from(1) << 200, U256::MAX] {
				items.push((m, st, v));
			}
		}
	}
	ctx.enumerate("modifiers", items.into_iter(), |&(m, st, apparent_value)| {
		let x = Context { address: h(1), caller: h(2), apparent_value };
		let f = [FunctionModifier::View, FunctionModifier::NonPayable, FunctionModifier::Payable][m as usize];
		let want = (m == 0 || !st) && (m == 2 || apparent_value.is_zero());
		let got = check_function_modifier(&x, st, f).is_ok();
		req!(got == want, "modifier: {m} static {st} with {apparent_value}: {got}");
		Ok(format!("{got}"))
	});
	let (a, d) = (h(0xabc), bytes(70));
	let t = |i: u8| H256::repeat_byte(i);
	let mut items = vec![];
	for n in 0..5usize {
		for len in [0usize, 1, 32, 70] {
			items.push((n, len));
		}
	}
	ctx.enumerate("logs", items.into_iter(), |&(n, len)| {
		let d = d[..len].to_vec();
		let l = match n {
			0 => log0(a, d.clone()),
			1 => log1(a, t(1), d.clone()),
			2 => log2(a, t(1), t(2), d.clone()),
			3 => log3(a, t(1), t(2), t(3), d.clone()),
			_ => log4(a, t(1), t(2), t(3), t(4), d.clone()),
		};
		req!(l.address == a && l.data == d, "log: {l:?}");
		req!(l.topics == (1..=n as u8).map(t).collect::<Vec<_>>(), "log: {n} topics are {:?}", l.topics);
		let want = 375 + 375 * n as u64 + 8 * len as u64;
		req!(l.compute_cost().ok() == Some(want), "cost: of {n} topics and {len} bytes is {:?}", l.compute_cost().ok());
		Ok(format!("{n}"))
	});
	let sizes: Vec<(usize, usize)> = [0, 1, 4, usize::MAX / 375, usize::MAX / 375 + 1, usize::MAX]
		.into_iter()
		.flat_map(|t| [0, 1, 1000, usize::MAX / 8, usize::MAX / 8 + 1, usize::MAX].map(|d| (t, d)))
		.collect();
	ctx.enumerate("costs", sizes.into_iter(), |&(t, d)| {
		let want = u64::try_from(375 + 375 * t as u128 + 8 * d as u128).ok();
		let got = log_costs(t, d).ok();
		req!(got == want, "cost: of {t} topics and {d} bytes is {got:?} - not {want:?}");
		Ok(format!("{}", want.is_some()))
	});
}
pub fn run(ctx: &mut Ctx) {
	ctx.assume("left as it is: an address is the low twenty bytes of its word and any word but zero is true, where Solidity would refuse other bits");
	values(ctx);
	edges(ctx);
}
