//! Storage types with FRAME's observable semantics over the thread-local key/value store.
use crate::codec::{Decode, DecodeLength, Encode, EncodeAppend, EncodeLike, FullCodec};
use crate::ext;
use crate::frame_support::traits::StorageInstance;
use crate::hashing::*;
use crate::sp_runtime::{DispatchError, TransactionalError};
pub use crate::sp_io::MultiRemovalResults;

pub enum TransactionOutcome<R> {
	Commit(R),
	Rollback(R),
}
const TRANSACTIONAL_LIMIT: usize = 255;
pub fn with_transaction<T, E, F>(f: F) -> Result<T, E>
where
	E: From<DispatchError>,
	F: FnOnce() -> TransactionOutcome<Result<T, E>>,
{
	if ext::depth() >= TRANSACTIONAL_LIMIT {
		return Err(E::from(DispatchError::Transactional(TransactionalError::LimitReached)));
	}
	ext::begin();
	match f() {
		TransactionOutcome::Commit(r) => {
			ext::commit();
			r
		},
		TransactionOutcome::Rollback(r) => {
			ext::rollback();
			r
		},
	}
}
pub fn with_transaction_unchecked<R, F: FnOnce() -> TransactionOutcome<R>>(f: F) -> R {
	ext::begin();
	match f() {
		TransactionOutcome::Commit(r) => {
			ext::commit();
			r
		},
		TransactionOutcome::Rollback(r) => {
			ext::rollback();
			r
		},
	}
}
pub fn with_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
	with_transaction(|| {
		let r = f();
		if r.is_ok() {
			TransactionOutcome::Commit(r)
		} else {
			TransactionOutcome::Rollback(r)
		}
	})
}
pub fn in_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
	if is_transactional() {
		f()
	} else {
		with_storage_layer(f)
	}
}
pub fn is_transactional() -> bool {
	ext::depth() > 0
}
/// Body of `#[transactional]` functions.
pub fn with_transaction_opaque_err_like<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
	with_storage_layer(f)
}
pub mod transactional {
	pub use super::*;
}
pub fn storage_prefix(pallet: &[u8], storage: &[u8]) -> [u8; 32] {
	let mut o = [0u8; 32];
	o[..16].copy_from_slice(&twox_128(pallet));
	o[16..].copy_from_slice(&twox_128(storage));
	o
}
pub mod unhashed {
	use super::*;
	pub fn get<T: Decode>(k: &[u8]) -> Option<T> {
		super::raw_get(k)
	}
	pub fn get_or_default<T: Decode + Default>(k: &[u8]) -> T {
		get(k).unwrap_or_default()
	}
	pub fn put<T: Encode + ?Sized>(k: &[u8], v: &T) {
		v.using_encoded(|b| ext::set(k, b))
	}
	pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> {
		ext::get(k).map(|v| v.to_vec())
	}
	pub fn put_raw(k: &[u8], v: &[u8]) {
		ext::set(k, v)
	}
	pub fn exists(k: &[u8]) -> bool {
		ext::exists(k)
	}
	pub fn kill(k: &[u8]) {
		ext::clear(k)
	}
	pub fn take<T: Decode>(k: &[u8]) -> Option<T> {
		let v = get(k);
		if v.is_some() {
			kill(k)
		}
		v
	}
	pub fn clear_prefix(p: &[u8], l: Option<u32>, _: Option<&[u8]>) -> MultiRemovalResults {
		super::clear_prefix(p, l)
	}
}
fn raw_get<V: Decode>(k: &[u8]) -> Option<V> {
	ext::get(k).and_then(|b| V::decode(&mut &b[..]).ok())
}
fn clear_prefix(p: &[u8], l: Option<u32>) -> MultiRemovalResults {
	let n = ext::clear_prefix(p, l);
	let more = ext::keys_with_prefix(p);
	MultiRemovalResults { maybe_cursor: more.first().map(|k| k.to_vec()), backend: n, unique: n, loops: n }
}
pub trait StorageHasher: 'static {
	type Output: AsRef<[u8]>;
	fn hash(x: &[u8]) -> Self::Output;
	fn max_len<K: crate::codec::MaxEncodedLen>() -> usize {
		128
	}
}
pub trait ReversibleStorageHasher: StorageHasher {
	fn reverse(x: &[u8]) -> &[u8];
}
macro_rules! hasher {
	($n:ident, $o:ty, |$x:ident| $e:expr) => {
		#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
		pub struct $n;
		impl StorageHasher for $n {
			type Output = $o;
			fn hash($x: &[u8]) -> $o {
				$e
			}
		}
	};
	($n:ident, $o:ty, |$x:ident| $e:expr, $off:expr) => {
		hasher!($n, $o, |$x| $e);
		impl ReversibleStorageHasher for $n {
			fn reverse(x: &[u8]) -> &[u8] {
				&x[$off..]
			}
		}
	};
}
fn cat(h: &[u8], x: &[u8]) -> Vec<u8> {
	let mut v = Vec::with_capacity(h.len() + x.len());
	v.extend_from_slice(h);
	v.extend_from_slice(x);
	v
}
hasher!(Identity, Vec<u8>, |x| x.to_vec(), 0);
hasher!(Twox64Concat, Vec<u8>, |x| cat(&twox_64(x), x), 8);
hasher!(Blake2_128Concat, Vec<u8>, |x| cat(&blake2_128(x), x), 16);
hasher!(Blake2_128, [u8; 16], |x| blake2_128(x));
hasher!(Blake2_256, [u8; 32], |x| blake2_256(x));
hasher!(Twox128, [u8; 16], |x| twox_128(x));
hasher!(Twox256, [u8; 32], |x| twox_256(x));
pub trait Hashable: Sized {
	fn blake2_128(&self) -> [u8; 16];
	fn blake2_256(&self) -> [u8; 32];
	fn twox_128(&self) -> [u8; 16];
	fn twox_256(&self) -> [u8; 32];
	fn twox_64_concat(&self) -> Vec<u8>;
	fn blake2_128_concat(&self) -> Vec<u8>;
	fn identity(&self) -> Vec<u8>;
}
impl<T: Encode> Hashable for T {
	fn blake2_128(&self) -> [u8; 16] {
		blake2_128(&self.encode())
	}
	fn blake2_256(&self) -> [u8; 32] {
		blake2_256(&self.encode())
	}
	fn twox_128(&self) -> [u8; 16] {
		twox_128(&self.encode())
	}
	fn twox_256(&self) -> [u8; 32] {
		twox_256(&self.encode())
	}
	fn twox_64_concat(&self) -> Vec<u8> {
		Twox64Concat::hash(&self.encode())
	}
	fn blake2_128_concat(&self) -> Vec<u8> {
		Blake2_128Concat::hash(&self.encode())
	}
	fn identity(&self) -> Vec<u8> {
		self.encode()
	}
}
/// Element-append on a stored collection.
pub trait StorageAppend<Item: Encode> {}
impl<T: Encode> StorageAppend<T> for Vec<T> {}
pub trait StorageDecodeLength {}
pub trait StorageTryAppend<Item>: StorageAppend<Item>
where
	Item: Encode,
{
	fn bound() -> usize;
}
impl<T: Encode, S: crate::bounded::Get<u32>> StorageAppend<T> for crate::bounded::BoundedVec<T, S> {}
impl<T: Encode, S: crate::bounded::Get<u32>> StorageTryAppend<T> for crate::bounded::BoundedVec<T, S> {
	fn bound() -> usize {
		S::get() as usize
	}
}
fn append_raw<I: Encode, E: EncodeLike<I>>(k: &[u8], item: E) {
	let old = ext::get(k).map(|b| b.to_vec()).unwrap_or_default();
	let one = Vec::<E>::append_or_new(old, std::iter::once(&item)).expect("append");
	ext::set(k, &one)
}
fn decode_len_raw(k: &[u8]) -> Option<usize> {
	ext::get(k).and_then(|b| <Vec<()> as DecodeLength>::len(&b).ok())
}
pub struct PrefixIter<T, F: Fn(&[u8], &[u8]) -> Option<T>> {
	prefix: Vec<u8>,
	prev: Vec<u8>,
	drain: bool,
	f: F,
}
impl<T, F: Fn(&[u8], &[u8]) -> Option<T>> PrefixIter<T, F> {
	pub fn last_raw_key(&self) -> &[u8] {
		&self.prev
	}
	pub fn set_last_raw_key(&mut self, k: Vec<u8>) {
		self.prev = k
	}
}
impl<T, F: Fn(&[u8], &[u8]) -> Option<T>> Iterator for PrefixIter<T, F> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		loop {
			let n = ext::next_key_with_prefix(&self.prefix, &self.prev)?;
			self.prev = n;
			let v = ext::get(&self.prev)?;
			if self.drain {
				ext::clear(&self.prev);
			}
			if let Some(x) = (self.f)(&self.prev[self.prefix.len()..], &v) {
				return Some(x)
			}
		}
	}
}
type BoxIter<T> = PrefixIter<T, Box<dyn Fn(&[u8], &[u8]) -> Option<T>>>;
fn piter<T>(prefix: Vec<u8>, from: Option<Vec<u8>>, drain: bool, f: Box<dyn Fn(&[u8], &[u8]) -> Option<T>>) -> BoxIter<T> {
	PrefixIter { prev: from.unwrap_or_else(|| prefix.clone()), prefix, drain, f }
}
/// marker traits so `use frame_support::storage::StorageMap` and friends resolve
pub trait StorageValue<V> {
	fn exists() -> bool;
	fn try_get() -> Result<V, ()>;
}
pub trait StorageMap<K: Encode, V> {
	fn contains_key<A: EncodeLike<K>>(k: A) -> bool;
	fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()>;
}
pub trait StorageDoubleMap<K, K2, V> {}
pub trait StorageNMap<K, V> {}
pub trait StoragePrefixedMap<V> {}
pub trait IterableStorageMap<K, V> {
	fn iter_keys() -> Box<dyn Iterator<Item = K>>;
}
pub trait IterableStorageDoubleMap<K, K2, V> {}
pub mod bounded_vec {
	pub use crate::bounded::*;
}
pub mod child {}
pub mod generator {
	pub trait StorageValue<V> {}
	pub trait StorageMap<K, V> {}
}
pub mod migration {
	use super::*;
	pub fn key(m: &[u8], i: &[u8], h: &[u8]) -> Vec<u8> {
		let mut k = storage_prefix(m, i).to_vec();
		k.extend_from_slice(h);
		k
	}
	pub fn get_storage_value<T: Decode>(m: &[u8], i: &[u8], h: &[u8]) -> Option<T> {
		raw_get(&key(m, i, h))
	}
	pub fn have_storage_value(m: &[u8], i: &[u8], h: &[u8]) -> bool {
		ext::exists(&key(m, i, h))
	}
	pub fn take_storage_value<T: Decode>(m: &[u8], i: &[u8], h: &[u8]) -> Option<T> {
		unhashed::take(&key(m, i, h))
	}
	pub fn put_storage_value<T: Encode>(m: &[u8], i: &[u8], h: &[u8], v: T) {
		unhashed::put(&key(m, i, h), &v)
	}
	pub fn clear_storage_prefix(m: &[u8], i: &[u8], h: &[u8], l: Option<u32>, _: Option<&[u8]>) -> MultiRemovalResults {
		clear_prefix(&key(m, i, h), l)
	}
	pub fn remove_storage_prefix(m: &[u8], i: &[u8], h: &[u8]) {
		clear_prefix(&key(m, i, h), None);
	}
	pub fn storage_iter<T: Decode>(m: &[u8], i: &[u8]) -> std::vec::IntoIter<(Vec<u8>, T)> {
		storage_iter_with_suffix(m, i, &[])
	}
	pub fn storage_iter_with_suffix<T: Decode>(m: &[u8], i: &[u8], s: &[u8]) -> std::vec::IntoIter<(Vec<u8>, T)> {
		let p = key(m, i, s);
		let v: Vec<_> = ext::keys_with_prefix(&p).iter().filter_map(|k| Some((k[p.len()..].to_vec(), raw_get(k)?))).collect();
		v.into_iter()
	}
	pub fn storage_key_iter<K: Decode, T: Decode, H: crate::frame_support::ReversibleStorageHasher>(
		m: &[u8],
		i: &[u8],
	) -> std::vec::IntoIter<(K, T)> {
		let v: Vec<_> = storage_iter::<T>(m, i).filter_map(|(k, v)| Some((K::decode(&mut H::reverse(&k)).ok()?, v))).collect();
		v.into_iter()
	}
	pub fn move_prefix(from: &[u8], to: &[u8]) {
		if from == to {
			return;
		}
		for k in ext::keys_with_prefix(from) {
			if let Some(v) = ext::get(&k) {
				let mut n = to.to_vec();
				n.extend_from_slice(&k[from.len()..]);
				ext::clear(&k);
				ext::set(&n, &v);
			}
		}
	}
	pub fn move_storage_from_pallet(i: &[u8], old: &[u8], new: &[u8]) {
		let (f, t) = (storage_prefix(old, i), storage_prefix(new, i));
		move_prefix(&f, &t);
		if let Some(v) = ext::get(&f) {
			ext::clear(&f);
			ext::set(&t, &v);
		}
	}
	pub fn move_pallet(old: &[u8], new: &[u8]) {
		move_prefix(&twox_128(old), &twox_128(new))
	}
}
pub mod types {
	use super::*;
	use crate::bounded::Get;
	use crate::frame_support::traits::GetDefault;
	use std::marker::PhantomData;
	pub use super::{StorageAppend, StorageTryAppend};

	pub trait QueryKindTrait<Value, OnEmpty> {
		type Query: 'static;
		fn from_optional_value_to_query(v: Option<Value>) -> Self::Query;
		fn from_query_to_optional_value(v: Self::Query) -> Option<Value>;
	}
	pub struct OptionQuery;
	pub struct ValueQuery;
	pub struct ResultQuery<E>(PhantomData<E>);
	impl<V: 'static> QueryKindTrait<V, GetDefault> for OptionQuery {
		type Query = Option<V>;
		fn from_optional_value_to_query(v: Option<V>) -> Option<V> {
			v
		}
		fn from_query_to_optional_value(v: Option<V>) -> Option<V> {
			v
		}
	}
	impl<V: 'static, O: Get<V>> QueryKindTrait<V, O> for ValueQuery {
		type Query = V;
		fn from_optional_value_to_query(v: Option<V>) -> V {
			v.unwrap_or_else(|| O::get())
		}
		fn from_query_to_optional_value(v: V) -> Option<V> {
			Some(v)
		}
	}
	macro_rules! mutators {
		([$($g:tt)*] [$($k:ident: $kt:ty),*]) => {
			pub fn exists_impl(k: &[u8]) -> bool { ext::exists(k) }
			pub fn contains_key<$($g)*>($($k: $kt),*) -> bool { ext::exists(&Self::hashed_key_for($($k),*)) }
			pub fn get<$($g)*>($($k: $kt),*) -> Q::Query { Q::from_optional_value_to_query(raw_get(&Self::hashed_key_for($($k),*))) }
			pub fn try_get<$($g)*>($($k: $kt),*) -> Result<V, ()> { raw_get(&Self::hashed_key_for($($k),*)).ok_or(()) }
			pub fn set<$($g)*>($($k: $kt,)* q: Q::Query) {
				let key = Self::hashed_key_for($($k),*);
				put_opt::<V>(&key, Q::from_query_to_optional_value(q))
			}
			pub fn remove<$($g)*>($($k: $kt),*) { ext::clear(&Self::hashed_key_for($($k),*)) }
			pub fn take<$($g)*>($($k: $kt),*) -> Q::Query {
				let key = Self::hashed_key_for($($k),*);
				let v = raw_get::<V>(&key);
				if v.is_some() { ext::clear(&key) }
				Q::from_optional_value_to_query(v)
			}
			pub fn decode_len<$($g)*>($($k: $kt),*) -> Option<usize> { decode_len_raw(&Self::hashed_key_for($($k),*)) }
		};
	}
	macro_rules! mutators2 {
		([$($g:tt)*] [$($k:ident: $kt:ty),*]) => {
			pub fn mutate<$($g)* R, F: FnOnce(&mut Q::Query) -> R>($($k: $kt,)* f: F) -> R {
				let key = Self::hashed_key_for($($k),*);
				let mut v = Q::from_optional_value_to_query(raw_get(&key));
				let r = f(&mut v);
				put_opt::<V>(&key, Q::from_query_to_optional_value(v));
				r
			}
			pub fn try_mutate<$($g)* R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>($($k: $kt,)* f: F) -> Result<R, E> {
				let key = Self::hashed_key_for($($k),*);
				let mut v = Q::from_optional_value_to_query(raw_get(&key));
				let r = f(&mut v);
				if r.is_ok() { put_opt::<V>(&key, Q::from_query_to_optional_value(v)); }
				r
			}
			pub fn mutate_exists<$($g)* R, F: FnOnce(&mut Option<V>) -> R>($($k: $kt,)* f: F) -> R {
				let key = Self::hashed_key_for($($k),*);
				let mut v = raw_get(&key);
				let r = f(&mut v);
				put_opt::<V>(&key, v);
				r
			}
			pub fn try_mutate_exists<$($g)* R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>($($k: $kt,)* f: F) -> Result<R, E> {
				let key = Self::hashed_key_for($($k),*);
				let mut v = raw_get(&key);
				let r = f(&mut v);
				if r.is_ok() { put_opt::<V>(&key, v); }
				r
			}
		};
	}
	fn put_opt<V: Encode>(k: &[u8], v: Option<V>) {
		match v {
			Some(v) => v.using_encoded(|b| ext::set(k, b)),
			None => ext::clear(k),
		}
	}
	fn put_raw<V: Encode, E: EncodeLike<V>>(k: &[u8], v: E) {
		v.using_encoded(|b| ext::set(k, b))
	}
	fn pfx<P: StorageInstance>() -> Vec<u8> {
		let mut v = Vec::with_capacity(112);
		v.extend_from_slice(&twox_128(P::pallet_prefix().as_bytes()));
		v.extend_from_slice(&twox_128(P::STORAGE_PREFIX.as_bytes()));
		v
	}

	pub struct StorageValue<P, V, Q = OptionQuery, O = GetDefault>(PhantomData<(P, V, Q, O)>);
	impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, O>, O: 'static> super::StorageValue<V> for StorageValue<P, V, Q, O> {
		fn exists() -> bool {
			Self::exists()
		}
		fn try_get() -> Result<V, ()> {
			Self::try_get()
		}
	}
	impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, O>, O: 'static> StorageValue<P, V, Q, O> {
		pub fn hashed_key() -> [u8; 32] {
			pfx::<P>().try_into().unwrap()
		}
		fn hashed_key_for() -> [u8; 32] {
			Self::hashed_key()
		}
		pub fn exists() -> bool {
			ext::exists(&Self::hashed_key())
		}
		pub fn get() -> Q::Query {
			Q::from_optional_value_to_query(raw_get(&Self::hashed_key()))
		}
		pub fn try_get() -> Result<V, ()> {
			raw_get(&Self::hashed_key()).ok_or(())
		}
		pub fn translate<T: Decode, F: FnOnce(Option<T>) -> Option<V>>(f: F) -> Result<Option<V>, ()> {
			let k = Self::hashed_key();
			let old = match ext::get(&k) {
				Some(b) => Some(T::decode(&mut &b[..]).map_err(|_| ())?),
				None => None,
			};
			let n = f(old);
			match &n {
				Some(v) => v.using_encoded(|b| ext::set(&k, b)),
				None => ext::clear(&k),
			}
			Ok(n)
		}
		pub fn put<A: EncodeLike<V>>(v: A) {
			put_raw::<V, A>(&Self::hashed_key(), v)
		}
		pub fn set(q: Q::Query) {
			put_opt::<V>(&Self::hashed_key(), Q::from_query_to_optional_value(q))
		}
		pub fn kill() {
			ext::clear(&Self::hashed_key())
		}
		pub fn take() -> Q::Query {
			let k = Self::hashed_key();
			let v = raw_get::<V>(&k);
			if v.is_some() {
				ext::clear(&k)
			}
			Q::from_optional_value_to_query(v)
		}
		pub fn append<I: Encode, E: EncodeLike<I>>(item: E)
		where
			V: StorageAppend<I>,
		{
			append_raw::<I, E>(&Self::hashed_key(), item)
		}
		pub fn try_append<I: Encode, E: EncodeLike<I>>(item: E) -> Result<(), ()>
		where
			V: StorageTryAppend<I>,
		{
			if decode_len_raw(&Self::hashed_key()).unwrap_or(0) < V::bound() {
				append_raw::<I, E>(&Self::hashed_key(), item);
				Ok(())
			} else {
				Err(())
			}
		}
		pub fn decode_len() -> Option<usize> {
			decode_len_raw(&Self::hashed_key())
		}
		mutators2!([] []);
	}

	pub struct StorageMap<P, H, K, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, O, M)>);
	impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O: 'static, M> super::StorageMap<K, V>
		for StorageMap<P, H, K, V, Q, O, M>
	{
		fn contains_key<A: EncodeLike<K>>(k: A) -> bool {
			Self::contains_key(k)
		}
		fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> {
			Self::try_get(k)
		}
	}
	impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O: 'static, M> StorageMap<P, H, K, V, Q, O, M> {
		pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> {
			let mut v = pfx::<P>();
			v.extend_from_slice(k.using_encoded(H::hash).as_ref());
			v
		}
		pub fn final_prefix() -> [u8; 32] {
			pfx::<P>().try_into().unwrap()
		}
		mutators!([A: EncodeLike<K>] [k: A]);
		mutators2!([A: EncodeLike<K>,] [k: A]);
		pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) {
			put_raw::<V, B>(&Self::hashed_key_for(k), v)
		}
		pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
			let (a, b) = (Self::hashed_key_for(a), Self::hashed_key_for(b));
			let (x, y) = (raw_get::<V>(&a), raw_get::<V>(&b));
			put_opt(&a, y);
			put_opt(&b, x);
		}
		pub fn append<I: Encode, A: EncodeLike<K>, E: EncodeLike<I>>(k: A, item: E)
		where
			V: StorageAppend<I>,
		{
			append_raw::<I, E>(&Self::hashed_key_for(k), item)
		}
		pub fn try_append<A: EncodeLike<K> + Clone, I: Encode, E: EncodeLike<I>>(k: A, item: E) -> Result<(), ()>
		where
			V: StorageTryAppend<I>,
		{
			let key = Self::hashed_key_for(k);
			if decode_len_raw(&key).unwrap_or(0) < V::bound() {
				append_raw::<I, E>(&key, item);
				Ok(())
			} else {
				Err(())
			}
		}
		pub fn iter_values() -> BoxIter<V>
		where
			V: 'static,
		{
			piter(pfx::<P>(), None, false, Box::new(|_, v| V::decode(&mut &v[..]).ok()))
		}
		pub fn clear(limit: u32, _: Option<&[u8]>) -> MultiRemovalResults {
			clear_prefix(&pfx::<P>(), Some(limit))
		}
		pub fn remove_all(l: Option<u32>) -> MultiRemovalResults {
			clear_prefix(&pfx::<P>(), l)
		}
		pub fn translate_values<T: Decode, F: FnMut(T) -> Option<V>>(mut f: F) {
			for k in ext::keys_with_prefix(&pfx::<P>()) {
				if let Some(t) = raw_get::<T>(&k) {
					put_opt(&k, f(t))
				}
			}
		}
	}
	impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O: 'static, M>
		super::IterableStorageMap<K, V> for StorageMap<P, H, K, V, Q, O, M>
	{
		fn iter_keys() -> Box<dyn Iterator<Item = K>> {
			Box::new(Self::iter_keys())
		}
	}
	impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O: 'static, M> StorageMap<P, H, K, V, Q, O, M> {
		fn it(from: Option<Vec<u8>>, drain: bool) -> BoxIter<(K, V)> {
			piter(pfx::<P>(), from, drain, Box::new(|k, v| Some((K::decode(&mut H::reverse(k)).ok()?, V::decode(&mut &v[..]).ok()?))))
		}
		pub fn iter() -> BoxIter<(K, V)> {
			Self::it(None, false)
		}
		pub fn iter_from(raw: Vec<u8>) -> BoxIter<(K, V)> {
			Self::it(Some(raw), false)
		}
		pub fn iter_from_key<A: EncodeLike<K>>(k: A) -> BoxIter<(K, V)> {
			Self::it(Some(Self::hashed_key_for(k)), false)
		}
		pub fn iter_keys() -> BoxIter<K> {
			piter(pfx::<P>(), None, false, Box::new(|k, _| K::decode(&mut H::reverse(k)).ok()))
		}
		pub fn drain() -> BoxIter<(K, V)> {
			Self::it(None, true)
		}
		pub fn translate<T: Decode, F: FnMut(K, T) -> Option<V>>(mut f: F) {
			let p = pfx::<P>();
			for k in ext::keys_with_prefix(&p) {
				if let (Ok(kk), Some(t)) = (K::decode(&mut H::reverse(&k[p.len()..])), raw_get::<T>(&k)) {
					put_opt(&k, f(kk, t))
				}
			}
		}
	}

	pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(
		PhantomData<(P, H1, K1, H2, K2, V, Q, O, M)>,
	);
	impl<P, H1, K1, H2, K2, V, Q, O, M> super::StorageDoubleMap<K1, K2, V> for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M> {}
	impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, O>, O: 'static, M>
		StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>
	{
		fn p1<A: EncodeLike<K1>>(k: A) -> Vec<u8> {
			let mut v = pfx::<P>();
			v.extend_from_slice(k.using_encoded(H1::hash).as_ref());
			v
		}
		pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(k1: A, k2: B) -> Vec<u8> {
			let mut v = Self::p1(k1);
			v.extend_from_slice(k2.using_encoded(H2::hash).as_ref());
			v
		}
		mutators!([A: EncodeLike<K1>, B: EncodeLike<K2>] [k1: A, k2: B]);
		mutators2!([A: EncodeLike<K1>, B: EncodeLike<K2>,] [k1: A, k2: B]);
		pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(k1: A, k2: B, v: C) {
			put_raw::<V, C>(&Self::hashed_key_for(k1, k2), v)
		}
		pub fn swap<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<K1>, D: EncodeLike<K2>>(a: A, b: B, c: C, d: D) {
			let (a, b) = (Self::hashed_key_for(a, b), Self::hashed_key_for(c, d));
			let (x, y) = (raw_get::<V>(&a), raw_get::<V>(&b));
			put_opt(&a, y);
			put_opt(&b, x);
		}
		pub fn append<I: Encode, A: EncodeLike<K1>, B: EncodeLike<K2>, E: EncodeLike<I>>(k1: A, k2: B, item: E)
		where
			V: StorageAppend<I>,
		{
			append_raw::<I, E>(&Self::hashed_key_for(k1, k2), item)
		}
		pub fn try_append<A: EncodeLike<K1> + Clone, B: EncodeLike<K2> + Clone, I: Encode, E: EncodeLike<I>>(k1: A, k2: B, item: E) -> Result<(), ()>
		where
			V: StorageTryAppend<I>,
		{
			let key = Self::hashed_key_for(k1, k2);
			if decode_len_raw(&key).unwrap_or(0) < V::bound() {
				append_raw::<I, E>(&key, item);
				Ok(())
			} else {
				Err(())
			}
		}
		pub fn clear(limit: u32, _: Option<&[u8]>) -> MultiRemovalResults {
			clear_prefix(&pfx::<P>(), Some(limit))
		}
		pub fn clear_prefix<A: EncodeLike<K1>>(k1: A, limit: u32, _: Option<&[u8]>) -> MultiRemovalResults {
			super::clear_prefix(&Self::p1(k1), Some(limit))
		}
		pub fn remove_prefix<A: EncodeLike<K1>>(k1: A, limit: Option<u32>) -> MultiRemovalResults {
			super::clear_prefix(&Self::p1(k1), limit)
		}
		pub fn contains_prefix<A: EncodeLike<K1>>(k1: A) -> bool {
			!ext::keys_with_prefix(&Self::p1(k1)).is_empty()
		}
		pub fn iter_prefix_values<A: EncodeLike<K1>>(k1: A) -> BoxIter<V>
		where
			V: 'static,
		{
			piter(Self::p1(k1), None, false, Box::new(|_, v| V::decode(&mut &v[..]).ok()))
		}
		pub fn iter_values() -> BoxIter<V>
		where
			V: 'static,
		{
			piter(pfx::<P>(), None, false, Box::new(|_, v| V::decode(&mut &v[..]).ok()))
		}
	}
	impl<
			P: StorageInstance,
			H1: ReversibleStorageHasher,
			K1: FullCodec + 'static,
			H2: ReversibleStorageHasher,
			K2: FullCodec + 'static,
			V: FullCodec + 'static,
			Q: QueryKindTrait<V, O>,
			O: 'static,
			M,
		> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>
	{
		fn it1(p: Vec<u8>, drain: bool) -> BoxIter<(K2, V)> {
			Self::it1f(p, None, drain)
		}
		pub fn iter_prefix_from<A: EncodeLike<K1>>(k1: A, raw: Vec<u8>) -> BoxIter<(K2, V)> {
			Self::it1f(Self::p1(k1), Some(raw), false)
		}
		pub fn iter_key_prefix_from<A: EncodeLike<K1>>(k1: A, raw: Vec<u8>) -> BoxIter<K2> {
			piter(Self::p1(k1), Some(raw), false, Box::new(|k, _| K2::decode(&mut H2::reverse(k)).ok()))
		}
		fn it1f(p: Vec<u8>, from: Option<Vec<u8>>, drain: bool) -> BoxIter<(K2, V)> {
			piter(p, from, drain, Box::new(|k, v| Some((K2::decode(&mut H2::reverse(k)).ok()?, V::decode(&mut &v[..]).ok()?))))
		}
		pub fn iter_prefix<A: EncodeLike<K1>>(k1: A) -> BoxIter<(K2, V)> {
			Self::it1(Self::p1(k1), false)
		}
		pub fn drain_prefix<A: EncodeLike<K1>>(k1: A) -> BoxIter<(K2, V)> {
			Self::it1(Self::p1(k1), true)
		}
		pub fn iter_key_prefix<A: EncodeLike<K1>>(k1: A) -> BoxIter<K2> {
			piter(Self::p1(k1), None, false, Box::new(|k, _| K2::decode(&mut H2::reverse(k)).ok()))
		}
		fn dk(k: &[u8]) -> Option<(K1, K2)> {
			let mut r = H1::reverse(k);
			let a = K1::decode(&mut r).ok()?;
			let b = K2::decode(&mut H2::reverse(r)).ok()?;
			Some((a, b))
		}
		pub fn iter() -> BoxIter<(K1, K2, V)> {
			piter(pfx::<P>(), None, false, Box::new(|k, v| {
				let (a, b) = Self::dk(k)?;
				Some((a, b, V::decode(&mut &v[..]).ok()?))
			}))
		}
		pub fn drain() -> BoxIter<(K1, K2, V)> {
			piter(pfx::<P>(), None, true, Box::new(|k, v| {
				let (a, b) = Self::dk(k)?;
				Some((a, b, V::decode(&mut &v[..]).ok()?))
			}))
		}
		pub fn iter_from(raw: Vec<u8>) -> BoxIter<(K1, K2, V)> {
			piter(pfx::<P>(), Some(raw), false, Box::new(|k, v| {
				let (a, b) = Self::dk(k)?;
				Some((a, b, V::decode(&mut &v[..]).ok()?))
			}))
		}
		pub fn iter_keys() -> BoxIter<(K1, K2)> {
			piter(pfx::<P>(), None, false, Box::new(|k, _| Self::dk(k)))
		}
	}

	/// n-maps
	pub struct Key<H, K>(PhantomData<(H, K)>);
	pub type NMapKey<H, K> = Key<H, K>;
	pub trait TupleToEncodedIter {
		fn encs(&self) -> Vec<Vec<u8>>;
	}
	pub trait EncodeLikeTuple<T> {}
	pub trait KeyGenerator {
		type Key: 'static;
		type KArg;
		fn final_key(e: Vec<Vec<u8>>) -> Vec<u8>;
		fn decode_key(k: &[u8]) -> Option<Self::Key>;
	}
	pub trait HasKeyPrefix<P>: KeyGenerator {
		type Suffix: 'static;
		fn decode_suffix(k: &[u8]) -> Option<Self::Suffix>;
	}
	macro_rules! nmap {
		($($h:ident $k:ident $a:ident $n:tt),*) => {
			impl<$($a: Encode),*> TupleToEncodedIter for ($($a,)*) {
				fn encs(&self) -> Vec<Vec<u8>> { vec![$(self.$n.encode()),*] }
			}
			impl<$($k: Encode, $a: EncodeLike<$k>),*> EncodeLikeTuple<($($k,)*)> for ($($a,)*) {}
			impl<$($h: ReversibleStorageHasher, $k: FullCodec + 'static),*> KeyGenerator for ($(Key<$h, $k>,)*) {
				type Key = ($($k,)*);
				type KArg = ($($k,)*);
				fn final_key(e: Vec<Vec<u8>>) -> Vec<u8> {
					let mut o = vec![];
					let mut it = e.into_iter();
					$( if let Some(x) = it.next() { o.extend_from_slice($h::hash(&x).as_ref()); } )*
					o
				}
				#[allow(unused_assignments, non_snake_case)]
				fn decode_key(k: &[u8]) -> Option<Self::Key> {
					let mut r = k;
					$( r = $h::reverse(r); let $k = $k::decode(&mut r).ok()?; )*
					Some(($($k,)*))
				}
			}
		};
	}
	nmap!(H1 K1 A1 0);
	nmap!(H1 K1 A1 0, H2 K2 A2 1);
	nmap!(H1 K1 A1 0, H2 K2 A2 1, H3 K3 A3 2);
	nmap!(H1 K1 A1 0, H2 K2 A2 1, H3 K3 A3 2, H4 K4 A4 3);
	impl<H1: ReversibleStorageHasher, K1: FullCodec + 'static, H2: ReversibleStorageHasher, K2: FullCodec + 'static> HasKeyPrefix<(K1,)>
		for (Key<H1, K1>, Key<H2, K2>)
	{
		type Suffix = K2;
		fn decode_suffix(k: &[u8]) -> Option<K2> {
			K2::decode(&mut H2::reverse(k)).ok()
		}
	}
	impl<
			H1: ReversibleStorageHasher,
			K1: FullCodec + 'static,
			H2: ReversibleStorageHasher,
			K2: FullCodec + 'static,
			H3: ReversibleStorageHasher,
			K3: FullCodec + 'static,
		> HasKeyPrefix<(K1, K2)> for (Key<H1, K1>, Key<H2, K2>, Key<H3, K3>)
	{
		type Suffix = K3;
		fn decode_suffix(k: &[u8]) -> Option<K3> {
			K3::decode(&mut H3::reverse(k)).ok()
		}
	}
	impl<
			H1: ReversibleStorageHasher,
			K1: FullCodec + 'static,
			H2: ReversibleStorageHasher,
			K2: FullCodec + 'static,
			H3: ReversibleStorageHasher,
			K3: FullCodec + 'static,
		> HasKeyPrefix<(K1,)> for (Key<H1, K1>, Key<H2, K2>, Key<H3, K3>)
	{
		type Suffix = (K2, K3);
		fn decode_suffix(k: &[u8]) -> Option<(K2, K3)> {
			let mut r = H2::reverse(k);
			let a = K2::decode(&mut r).ok()?;
			Some((a, K3::decode(&mut H3::reverse(r)).ok()?))
		}
	}
	pub struct StorageNMap<P, K, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, K, V, Q, O, M)>);
	impl<P: StorageInstance, K: KeyGenerator + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O: 'static, M> StorageNMap<P, K, V, Q, O, M> {
		pub fn hashed_key_for<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(k: A) -> Vec<u8> {
			let mut v = pfx::<P>();
			v.extend(K::final_key(k.encs()));
			v
		}
		mutators!([A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter] [k: A]);
		mutators2!([A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter,] [k: A]);
		pub fn insert<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter, B: EncodeLike<V>>(k: A, v: B) {
			put_raw::<V, B>(&Self::hashed_key_for(k), v)
		}
		pub fn iter() -> BoxIter<(K::Key, V)> {
			piter(pfx::<P>(), None, false, Box::new(|k, v| Some((K::decode_key(k)?, V::decode(&mut &v[..]).ok()?))))
		}
		pub fn iter_keys() -> BoxIter<K::Key> {
			piter(pfx::<P>(), None, false, Box::new(|k, _| K::decode_key(k)))
		}
		pub fn iter_values() -> BoxIter<V> {
			piter(pfx::<P>(), None, false, Box::new(|_, v| V::decode(&mut &v[..]).ok()))
		}
		pub fn drain() -> BoxIter<(K::Key, V)> {
			piter(pfx::<P>(), None, true, Box::new(|k, v| Some((K::decode_key(k)?, V::decode(&mut &v[..]).ok()?))))
		}
		fn pp<KP: TupleToEncodedIter>(kp: KP) -> Vec<u8> {
			let mut v = pfx::<P>();
			v.extend(K::final_key(kp.encs()));
			v
		}
		pub fn iter_prefix<KP: TupleToEncodedIter>(kp: KP) -> BoxIter<(<K as HasKeyPrefix<KP>>::Suffix, V)>
		where
			K: HasKeyPrefix<KP>,
			KP: 'static,
		{
			piter(Self::pp(kp), None, false, Box::new(|k, v| Some((<K as HasKeyPrefix<KP>>::decode_suffix(k)?, V::decode(&mut &v[..]).ok()?))))
		}
		pub fn iter_prefix_values<KP: TupleToEncodedIter>(kp: KP) -> BoxIter<V> {
			piter(Self::pp(kp), None, false, Box::new(|_, v| V::decode(&mut &v[..]).ok()))
		}
		pub fn drain_prefix<KP: TupleToEncodedIter>(kp: KP) -> BoxIter<(<K as HasKeyPrefix<KP>>::Suffix, V)>
		where
			K: HasKeyPrefix<KP>,
			KP: 'static,
		{
			piter(Self::pp(kp), None, true, Box::new(|k, v| Some((<K as HasKeyPrefix<KP>>::decode_suffix(k)?, V::decode(&mut &v[..]).ok()?))))
		}
		pub fn clear_prefix<KP: TupleToEncodedIter>(kp: KP, limit: u32, _: Option<&[u8]>) -> MultiRemovalResults {
			clear_prefix(&Self::pp(kp), Some(limit))
		}
		pub fn clear(limit: u32, _: Option<&[u8]>) -> MultiRemovalResults {
			clear_prefix(&pfx::<P>(), Some(limit))
		}
	}

	pub struct CountedStorageMap<P, H, K, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, O, M)>);
	struct CounterPfx;
	fn counter_key<P: StorageInstance>() -> Vec<u8> {
		let _ = CounterPfx;
		storage_prefix(P::pallet_prefix().as_bytes(), format!("CounterFor{}", P::STORAGE_PREFIX).as_bytes()).to_vec()
	}
	type Inner<P, H, K, V, Q, O, M> = StorageMap<P, H, K, V, Q, O, M>;
	impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O: 'static, M>
		CountedStorageMap<P, H, K, V, Q, O, M>
	{
		pub fn count() -> u32 {
			raw_get(&counter_key::<P>()).unwrap_or(0)
		}
		fn bump(d: i64) {
			let n = (Self::count() as i64 + d).max(0) as u32;
			unhashed::put(&counter_key::<P>(), &n)
		}
		pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool {
			Inner::<P, H, K, V, Q, O, M>::contains_key(k)
		}
		pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query {
			Inner::<P, H, K, V, Q, O, M>::get(k)
		}
		pub fn insert<A: EncodeLike<K> + Clone, B: EncodeLike<V>>(k: A, v: B) {
			if !Self::contains_key(k.clone()) {
				Self::bump(1)
			}
			Inner::<P, H, K, V, Q, O, M>::insert(k, v)
		}
		pub fn remove<A: EncodeLike<K> + Clone>(k: A) {
			if Self::contains_key(k.clone()) {
				Self::bump(-1)
			}
			Inner::<P, H, K, V, Q, O, M>::remove(k)
		}
		pub fn iter() -> BoxIter<(K, V)> {
			Inner::<P, H, K, V, Q, O, M>::iter()
		}
		pub fn iter_keys() -> BoxIter<K> {
			Inner::<P, H, K, V, Q, O, M>::iter_keys()
		}
	}
}
