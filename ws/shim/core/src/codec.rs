//! SCALE codec (real wire format), API-compatible subset of parity-scale-codec 3.
pub use shim_macros::{Decode, Encode, MaxEncodedLen, CompactAs};
use core::fmt;
use std::{
	borrow::Cow,
	collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque},
	marker::PhantomData,
	rc::Rc,
	sync::Arc,
	time::Duration,
};
pub mod alloc {
	pub use std::{boxed, collections, string, vec};
}
#[derive(PartialEq, Eq, Clone, Debug)]
pub struct Error {
	desc: &'static str,
}
impl Error {
	pub fn chain(self, desc: &'static str) -> Self {
		let _ = desc;
		self
	}
	pub fn what(&self) -> &'static str {
		self.desc
	}
}
impl From<&'static str> for Error {
	fn from(desc: &'static str) -> Self {
		Error { desc }
	}
}
impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		f.write_str(self.desc)
	}
}
impl std::error::Error for Error {}

pub trait Input {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
	fn read_byte(&mut self) -> Result<u8, Error> {
		let mut b = [0u8];
		self.read(&mut b)?;
		Ok(b[0])
	}
	fn descend_ref(&mut self) -> Result<(), Error> {
		Ok(())
	}
	fn ascend_ref(&mut self) {}
}
impl<'a> Input for &'a [u8] {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(Some(self.len()))
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		if into.len() > self.len() {
			return Err("Not enough data to fill buffer".into());
		}
		let n = into.len();
		into.copy_from_slice(&self[..n]);
		*self = &self[n..];
		Ok(())
	}
}
pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		self.0.read_exact(into).map_err(|_| "io error".into())
	}
}
struct DepthInput<'a, I: Input> {
	inner: &'a mut I,
	depth: u32,
	max: u32,
}
impl<'a, I: Input> Input for DepthInput<'a, I> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		self.inner.remaining_len()
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		self.inner.read(into)
	}
	fn descend_ref(&mut self) -> Result<(), Error> {
		self.depth += 1;
		if self.depth > self.max {
			Err("Maximum recursion depth reached when decoding".into())
		} else {
			Ok(())
		}
	}
	fn ascend_ref(&mut self) {
		self.depth -= 1
	}
}
pub trait Output {
	fn write(&mut self, bytes: &[u8]);
	fn push_byte(&mut self, byte: u8) {
		self.write(&[byte]);
	}
}
impl Output for Vec<u8> {
	fn write(&mut self, bytes: &[u8]) {
		self.extend_from_slice(bytes)
	}
}
struct Counter(usize);
impl Output for Counter {
	fn write(&mut self, b: &[u8]) {
		self.0 += b.len()
	}
}
pub trait Encode {
	fn size_hint(&self) -> usize {
		0
	}
	fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
		self.using_encoded(|b| dest.write(b));
	}
	fn encode(&self) -> Vec<u8> {
		let mut r = Vec::with_capacity(self.size_hint());
		self.encode_to(&mut r);
		r
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		f(&self.encode())
	}
	fn encoded_size(&self) -> usize {
		let mut c = Counter(0);
		self.encode_to(&mut c);
		c.0
	}
}
pub trait DecodeLength {
	fn len(self_encoded: &[u8]) -> Result<usize, Error>;
}
pub trait Decode: Sized {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
	fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
		Self::decode(input).map(|_| ())
	}
	fn encoded_fixed_size() -> Option<usize> {
		None
	}
}
pub trait DecodeAll: Sized {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
		let r = T::decode(input)?;
		if input.is_empty() {
			Ok(r)
		} else {
			Err("Input buffer has still data left after decoding!".into())
		}
	}
}
pub trait DecodeLimit: Sized {
	fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error>;
	fn decode_with_depth_limit<I: Input>(limit: u32, input: &mut I) -> Result<Self, Error>;
}
impl<T: Decode> DecodeLimit for T {
	fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error> {
		let r = Self::decode_with_depth_limit(limit, input)?;
		if input.is_empty() {
			Ok(r)
		} else {
			Err("Input buffer has still data left after decoding!".into())
		}
	}
	fn decode_with_depth_limit<I: Input>(limit: u32, input: &mut I) -> Result<Self, Error> {
		let mut d = DepthInput { inner: input, depth: 0, max: limit };
		T::decode(&mut d)
	}
}
pub trait Codec: Decode + Encode {}
impl<S: Encode + Decode> Codec for S {}
pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}
pub trait WrapperTypeEncode: core::ops::Deref {}
pub trait WrapperTypeDecode: Sized {}
pub trait FullEncode: Encode + EncodeLike {}
impl<T: Encode + EncodeLike> FullEncode for T {}
pub trait FullCodec: Decode + FullEncode {}
impl<T: Decode + FullEncode> FullCodec for T {}
pub trait Joiner {
	fn and<V: Codec + Sized>(self, value: &V) -> Self;
}
impl Joiner for Vec<u8> {
	fn and<V: Codec + Sized>(mut self, value: &V) -> Self {
		value.encode_to(&mut self);
		self
	}
}
pub trait KeyedVec {
	fn to_keyed_vec(&self, prepend_key: &[u8]) -> Vec<u8>;
}
impl<T: Codec> KeyedVec for T {
	fn to_keyed_vec(&self, p: &[u8]) -> Vec<u8> {
		let mut v = p.to_vec();
		self.encode_to(&mut v);
		v
	}
}
pub trait EncodeAppend {
	type Item: Encode;
	fn append_or_new<EncodeLikeItem, I>(self_encoded: Vec<u8>, iter: I) -> Result<Vec<u8>, Error>
	where
		I: IntoIterator<Item = EncodeLikeItem>,
		EncodeLikeItem: EncodeLike<Self::Item>,
		I::IntoIter: ExactSizeIterator;
}
impl<T: Encode> EncodeAppend for Vec<T> {
	type Item = T;
	fn append_or_new<E, I>(self_encoded: Vec<u8>, iter: I) -> Result<Vec<u8>, Error>
	where
		I: IntoIterator<Item = E>,
		E: EncodeLike<T>,
		I::IntoIter: ExactSizeIterator,
	{
		let it = iter.into_iter();
		let n = it.len() as u32;
		let (old, rest) = if self_encoded.is_empty() {
			(0u32, &[][..])
		} else {
			let mut s = &self_encoded[..];
			let c = Compact::<u32>::decode(&mut s)?.0;
			(c, s)
		};
		let mut out = Compact(old + n).encode();
		out.extend_from_slice(rest);
		for e in it {
			e.encode_to(&mut out);
		}
		Ok(out)
	}
}
pub trait MaxEncodedLen: Encode {
	fn max_encoded_len() -> usize;
}
pub trait ConstEncodedLen: MaxEncodedLen {}

// ---- compact
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Compact<T>(pub T);
impl<T: fmt::Debug> fmt::Debug for Compact<T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		self.0.fmt(f)
	}
}
impl<T: fmt::Display> fmt::Display for Compact<T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		self.0.fmt(f)
	}
}
impl<T> From<T> for Compact<T> {
	fn from(t: T) -> Self {
		Compact(t)
	}
}
impl<'a, T: Copy> From<&'a T> for Compact<T> {
	fn from(t: &'a T) -> Self {
		Compact(*t)
	}
}
pub struct CompactRef<'a, T>(pub &'a T);
pub trait CompactAs: From<Compact<Self>> {
	type As;
	fn encode_as(&self) -> &Self::As;
	fn decode_from(_: Self::As) -> Result<Self, Error>;
}
pub trait HasCompact: Sized {
	type Type: Encode + Decode + From<Self> + Into<Self>;
}
pub trait CompactLen<T> {
	fn compact_len(val: &T) -> usize;
}
pub trait EncodeAsRef<'a, T: 'a> {
	type RefType: Encode + From<&'a T>;
}
fn compact_encode_u128<W: Output + ?Sized>(v: u128, dest: &mut W) {
	if v < 1 << 6 {
		dest.push_byte((v as u8) << 2)
	} else if v < 1 << 14 {
		dest.write(&(((v as u16) << 2) | 1).to_le_bytes())
	} else if v < 1 << 30 {
		dest.write(&(((v as u32) << 2) | 2).to_le_bytes())
	} else {
		let bytes = 16 - (v.leading_zeros() / 8) as usize;
		let bytes = bytes.max(4);
		dest.push_byte(3 + (((bytes - 4) as u8) << 2));
		dest.write(&v.to_le_bytes()[..bytes])
	}
}
fn compact_decode_u128<I: Input>(input: &mut I, max_bytes: usize) -> Result<u128, Error> {
	const OOR: &str = "out of range decoding Compact";
	let p = input.read_byte()?;
	let v: u128 = match p & 3 {
		0 => (p >> 2) as u128,
		1 => {
			let q = input.read_byte()?;
			let x = u16::from_le_bytes([p, q]) >> 2;
			if x < 1 << 6 {
				return Err(OOR.into());
			}
			x as u128
		},
		2 => {
			let mut b = [p, 0, 0, 0];
			input.read(&mut b[1..])?;
			let x = u32::from_le_bytes(b) >> 2;
			if x < 1 << 14 {
				return Err(OOR.into());
			}
			x as u128
		},
		_ => {
			let n = (p >> 2) as usize + 4;
			if n > 16 {
				return Err("unexpected prefix decoding Compact".into());
			}
			let mut b = [0u8; 16];
			input.read(&mut b[..n])?;
			let x = u128::from_le_bytes(b);
			let min = if n == 4 { 1u128 << 30 } else { 1u128 << ((n - 1) * 8) };
			if x < min {
				return Err(OOR.into());
			}
			x
		},
	};
	if max_bytes < 16 && v >> (8 * max_bytes) != 0 {
		return Err(OOR.into());
	}
	Ok(v)
}
macro_rules! compact_impl {
	($($t:ty),*) => {$(
		impl Encode for Compact<$t> {
			fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { compact_encode_u128(self.0 as u128, dest) }
		}
		impl EncodeLike for Compact<$t> {}
		impl Decode for Compact<$t> {
			fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
				Ok(Compact(compact_decode_u128(input, core::mem::size_of::<$t>())? as $t))
			}
		}
		impl From<Compact<$t>> for $t { fn from(x: Compact<$t>) -> $t { x.0 } }
		impl HasCompact for $t { type Type = Compact<$t>; }
		impl MaxEncodedLen for Compact<$t> {
			fn max_encoded_len() -> usize { match core::mem::size_of::<$t>() { 1 => 2, 2 => 4, 4 => 5, 8 => 9, _ => 17 } }
		}
		impl CompactLen<$t> for Compact<$t> { fn compact_len(v: &$t) -> usize { Compact(*v).encoded_size() } }
		impl<'a> Encode for CompactRef<'a, $t> {
			fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { compact_encode_u128(*self.0 as u128, dest) }
		}
		impl<'a> From<&'a $t> for CompactRef<'a, $t> { fn from(x: &'a $t) -> Self { CompactRef(x) } }
		impl<'a> EncodeAsRef<'a, $t> for Compact<$t> { type RefType = CompactRef<'a, $t>; }
	)*}
}
compact_impl!(u8, u16, u32, u64, u128);
impl Encode for Compact<()> {
	fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
}
impl Decode for Compact<()> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(Compact(()))
	}
}
impl From<Compact<()>> for () {
	fn from(_: Compact<()>) {}
}
impl HasCompact for () {
	type Type = Compact<()>;
}

// ---- primitives
macro_rules! prim {
	($($t:ty),*) => {$(
		impl Encode for $t {
			fn size_hint(&self) -> usize { core::mem::size_of::<$t>() }
			fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { dest.write(&self.to_le_bytes()) }
			fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.to_le_bytes()) }
		}
		impl EncodeLike for $t {}
		impl Decode for $t {
			fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
				let mut b = [0u8; core::mem::size_of::<$t>()];
				input.read(&mut b)?;
				Ok(<$t>::from_le_bytes(b))
			}
			fn encoded_fixed_size() -> Option<usize> { Some(core::mem::size_of::<$t>()) }
		}
		impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { core::mem::size_of::<$t>() } }
		impl ConstEncodedLen for $t {}
	)*}
}
prim!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);
impl Encode for bool {
	fn size_hint(&self) -> usize {
		1
	}
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		dest.push_byte(*self as u8)
	}
}
impl EncodeLike for bool {}
impl Decode for bool {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(false),
			1 => Ok(true),
			_ => Err("Invalid boolean representation".into()),
		}
	}
}
impl MaxEncodedLen for bool {
	fn max_encoded_len() -> usize {
		1
	}
}
impl Encode for () {
	fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
}
impl EncodeLike for () {}
impl Decode for () {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(())
	}
}
impl MaxEncodedLen for () {
	fn max_encoded_len() -> usize {
		0
	}
}
impl<T: ?Sized> Encode for PhantomData<T> {
	fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
}
impl<T: ?Sized> EncodeLike for PhantomData<T> {}
impl<T: ?Sized> Decode for PhantomData<T> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(PhantomData)
	}
}
impl<T: ?Sized> MaxEncodedLen for PhantomData<T> {
	fn max_encoded_len() -> usize {
		0
	}
}
impl Encode for core::convert::Infallible {
	fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
}
impl EncodeLike for core::convert::Infallible {}
impl Decode for core::convert::Infallible {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Err("infallible".into())
	}
}
macro_rules! wrapper_enc {
	($($g:ident),* ; $t:ty, $inner:ty) => {
		impl<$($g: Encode + ?Sized),*> Encode for $t {
			fn size_hint(&self) -> usize { (**self).size_hint() }
			fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { (**self).encode_to(dest) }
			fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { (**self).using_encoded(f) }
		}
	};
}
wrapper_enc!(T; Box<T>, T);
wrapper_enc!(T; Rc<T>, T);
wrapper_enc!(T; Arc<T>, T);
impl<'a, T: Encode + ?Sized> Encode for &'a T {
	fn size_hint(&self) -> usize {
		(**self).size_hint()
	}
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		(**self).encode_to(dest)
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		(**self).using_encoded(f)
	}
}
impl<'a, T: Encode + ?Sized> Encode for &'a mut T {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		(**self).encode_to(dest)
	}
}
impl<'a, T: ToOwned + ?Sized> Encode for Cow<'a, T>
where
	T: Encode,
{
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		(**self).encode_to(dest)
	}
}
impl<T: Encode> EncodeLike for Box<T> {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<T: Encode> EncodeLike<Box<T>> for T where T: Encode {}
impl<'a, T: Encode> EncodeLike for &'a T {}
impl<'a, T: Encode> EncodeLike<T> for &'a T {}
impl<'a, T: Encode> EncodeLike<&'a T> for T {}
impl<'a, 'b, T: Encode> EncodeLike<T> for &'a &'b T {}
impl<'a, 'b, T: Encode> EncodeLike<&'a &'b T> for T {}
impl<'a, T: Encode> EncodeLike<T> for &'a mut T {}
impl<T: Encode> EncodeLike for Arc<T> {}
impl<T: Encode> EncodeLike<T> for Arc<T> {}
impl<T: Decode> Decode for Box<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		input.descend_ref()?;
		let r = T::decode(input)?;
		input.ascend_ref();
		Ok(Box::new(r))
	}
}
impl<T: Decode> Decode for Arc<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(Arc::new(T::decode(input)?))
	}
}
impl<T: Decode> Decode for Rc<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(Rc::new(T::decode(input)?))
	}
}
impl<T: MaxEncodedLen> MaxEncodedLen for Box<T> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len()
	}
}
impl<'a, T: MaxEncodedLen> MaxEncodedLen for &'a T {
	fn max_encoded_len() -> usize {
		T::max_encoded_len()
	}
}
impl<T: Encode> Encode for Option<T> {
	fn size_hint(&self) -> usize {
		1 + self.as_ref().map(|x| x.size_hint()).unwrap_or(0)
	}
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		match self {
			None => dest.push_byte(0),
			Some(t) => {
				dest.push_byte(1);
				t.encode_to(dest)
			},
		}
	}
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<T> {}
impl<T: Decode> Decode for Option<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(None),
			1 => Ok(Some(T::decode(input)?)),
			_ => Err("unexpected first byte decoding Option".into()),
		}
	}
}
impl<T: MaxEncodedLen> MaxEncodedLen for Option<T> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().saturating_add(1)
	}
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		match self {
			Ok(t) => {
				dest.push_byte(0);
				t.encode_to(dest)
			},
			Err(t) => {
				dest.push_byte(1);
				t.encode_to(dest)
			},
		}
	}
}
impl<T: EncodeLike<U>, U: Encode, E: EncodeLike<F>, F: Encode> EncodeLike<Result<U, F>> for Result<T, E> {}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(Ok(T::decode(input)?)),
			1 => Ok(Err(E::decode(input)?)),
			_ => Err("unexpected first byte decoding Result".into()),
		}
	}
}
impl<T: MaxEncodedLen, E: MaxEncodedLen> MaxEncodedLen for Result<T, E> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().max(E::max_encoded_len()).saturating_add(1)
	}
}
impl<T: Encode, const N: usize> Encode for [T; N] {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		for x in self {
			x.encode_to(dest)
		}
	}
}
impl<T: EncodeLike<U>, U: Encode, const N: usize> EncodeLike<[U; N]> for [T; N] {}
impl<T: Decode, const N: usize> Decode for [T; N] {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let mut v = Vec::with_capacity(N);
		for _ in 0..N {
			v.push(T::decode(input)?);
		}
		v.try_into().map_err(|_| "array".into())
	}
}
impl<T: MaxEncodedLen, const N: usize> MaxEncodedLen for [T; N] {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().saturating_mul(N)
	}
}
impl<T: Encode> Encode for [T] {
	fn size_hint(&self) -> usize {
		5 + self.len() * self.first().map(|x| x.size_hint()).unwrap_or(0)
	}
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		Compact(self.len() as u32).encode_to(dest);
		for x in self {
			x.encode_to(dest)
		}
	}
}
impl<T: Encode> Encode for Vec<T> {
	fn size_hint(&self) -> usize {
		self.as_slice().size_hint()
	}
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		self.as_slice().encode_to(dest)
	}
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &[T] {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<&[U]> for Vec<T> {}
fn decode_len<I: Input>(input: &mut I) -> Result<usize, Error> {
	let n = Compact::<u32>::decode(input)?.0 as usize;
	Ok(n)
}
fn decode_seq<I: Input, T: Decode>(input: &mut I) -> Result<Vec<T>, Error> {
	let n = decode_len(input)?;
	if let Some(l) = input.remaining_len()? {
		if let Some(s) = T::encoded_fixed_size() {
			if s.saturating_mul(n) > l {
				return Err("Not enough data to decode vector".into());
			}
		}
	}
	let mut v = Vec::with_capacity(n.min(1024));
	for _ in 0..n {
		v.push(T::decode(input)?);
	}
	Ok(v)
}
impl<T: Decode> Decode for Vec<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		decode_seq(input)
	}
}
macro_rules! decode_length { ($($t:ty, $($g:ident),*;)*) => {$(
	impl<$($g),*> DecodeLength for $t { fn len(mut e: &[u8]) -> Result<usize, Error> { decode_len(&mut e) } }
)*}}
decode_length!(Vec<T>, T; VecDeque<T>, T; BTreeSet<T>, T; BTreeMap<K, V>, K, V;);
macro_rules! seq {
	($($t:ident <$($b:ident),*>),*) => {$(
		impl<T: Encode> Encode for $t<T> {
			fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
				Compact(self.len() as u32).encode_to(dest);
				for x in self.iter() { x.encode_to(dest) }
			}
		}
		impl<T: EncodeLike<U>, U: Encode> EncodeLike<$t<U>> for $t<T> {}
		impl<T: Decode $(+ $b)*> Decode for $t<T> {
			fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
				Ok(decode_seq::<I, T>(input)?.into_iter().collect())
			}
		}
	)*}
}
seq!(VecDeque<>, BTreeSet<Ord>, LinkedList<>, BinaryHeap<Ord>);
impl<K: Encode, V: Encode> Encode for BTreeMap<K, V> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		Compact(self.len() as u32).encode_to(dest);
		for (k, v) in self {
			k.encode_to(dest);
			v.encode_to(dest)
		}
	}
}
impl<K: EncodeLike<LK>, LK: Encode, V: EncodeLike<LV>, LV: Encode> EncodeLike<BTreeMap<LK, LV>> for BTreeMap<K, V> {}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(decode_seq::<I, (K, V)>(input)?.into_iter().collect())
	}
}
impl Encode for str {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		self.as_bytes().encode_to(dest)
	}
}
impl Encode for String {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		self.as_bytes().encode_to(dest)
	}
}
impl EncodeLike for String {}
impl EncodeLike<&str> for String {}
impl EncodeLike<String> for &str {}
impl Decode for String {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		String::from_utf8(Vec::decode(input)?).map_err(|_| "Invalid utf8 sequence".into())
	}
}
impl Encode for Duration {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		(self.as_secs(), self.subsec_nanos()).encode_to(dest)
	}
}
impl<T: Encode> Encode for core::ops::Range<T> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		self.start.encode_to(dest);
		self.end.encode_to(dest)
	}
}
impl<T: Decode> Decode for core::ops::Range<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let (start, end) = Decode::decode(input)?;
		Ok(start..end)
	}
}
impl<T: Encode> Encode for core::ops::RangeInclusive<T> {
	fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
		self.start().encode_to(dest);
		self.end().encode_to(dest)
	}
}
impl<T: Decode> Decode for core::ops::RangeInclusive<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let (start, end) = Decode::decode(input)?;
		Ok(start..=end)
	}
}
macro_rules! tuple {
	($(($a:ident $b:ident $i:tt)),+) => {
		impl<$($a: Encode),+> Encode for ($($a,)+) {
			fn size_hint(&self) -> usize { 0 $(+ self.$i.size_hint())+ }
			fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { $(self.$i.encode_to(dest);)+ }
		}
		impl<$($a: EncodeLike<$b>, $b: Encode),+> EncodeLike<($($b,)+)> for ($($a,)+) {}
		impl<$($a: Decode),+> Decode for ($($a,)+) {
			fn decode<In: Input>(input: &mut In) -> Result<Self, Error> { Ok(($($a::decode(input)?,)+)) }
		}
		impl<$($a: MaxEncodedLen),+> MaxEncodedLen for ($($a,)+) {
			fn max_encoded_len() -> usize { 0usize $(.saturating_add($a::max_encoded_len()))+ }
		}
	}
}
tuple!((A A1 0));
tuple!((A A1 0), (B B1 1));
tuple!((A A1 0), (B B1 1), (C C1 2));
tuple!((A A1 0), (B B1 1), (C C1 2), (D D1 3));
tuple!((A A1 0), (B B1 1), (C C1 2), (D D1 3), (E E1 4));
tuple!((A A1 0), (B B1 1), (C C1 2), (D D1 3), (E E1 4), (F F1 5));
tuple!((A A1 0), (B B1 1), (C C1 2), (D D1 3), (E E1 4), (F F1 5), (G G1 6));
tuple!((A A1 0), (B B1 1), (C C1 2), (D D1 3), (E E1 4), (F F1 5), (G G1 6), (H H1 7));
tuple!((A A1 0), (B B1 1), (C C1 2), (D D1 3), (E E1 4), (F F1 5), (G G1 6), (H H1 7), (J J1 8));
tuple!((A A1 0), (B B1 1), (C C1 2), (D D1 3), (E E1 4), (F F1 5), (G G1 6), (H H1 7), (J J1 8), (K K1 9));
tuple!((A A1 0), (B B1 1), (C C1 2), (D D1 3), (E E1 4), (F F1 5), (G G1 6), (H H1 7), (J J1 8), (K K1 9), (L L1 10));
tuple!((A A1 0), (B B1 1), (C C1 2), (D D1 3), (E E1 4), (F F1 5), (G G1 6), (H H1 7), (J J1 8), (K K1 9), (L L1 10), (M M1 11));
impl MaxEncodedLen for core::convert::Infallible {
	fn max_encoded_len() -> usize {
		0
	}
}
