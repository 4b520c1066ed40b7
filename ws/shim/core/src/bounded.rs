//! bounded-collections stand-in.
use crate::codec::*;
use core::fmt;
use core::marker::PhantomData;
use core::ops::Deref;
use std::collections::{BTreeMap, BTreeSet};
pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
macro_rules! cget { ($($n:ident $t:ty),*) => {$(
	#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
	pub struct $n<const V: $t>;
	impl<const V: $t> Get<$t> for $n<V> { fn get() -> $t { V } }
	impl<const V: $t> Get<Option<$t>> for $n<V> { fn get() -> Option<$t> { Some(V) } }
	impl<const V: $t> TypedGet for $n<V> { type Type = $t; fn get() -> $t { V } }
)*}}
cget!(ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI8 i8, ConstI16 i16, ConstI32 i32, ConstI64 i64, ConstI128 i128);

pub struct BoundedVec<T, S>(Vec<T>, PhantomData<S>);
pub struct WeakBoundedVec<T, S>(Vec<T>, PhantomData<S>);
pub struct BoundedSlice<'a, T, S>(&'a [T], PhantomData<S>);
macro_rules! common { ($N:ident) => {
	impl<T: Clone, S> Clone for $N<T, S> { fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) } }
	impl<T: fmt::Debug, S> fmt::Debug for $N<T, S> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.debug_tuple(stringify!($N)).field(&self.0).finish() } }
	impl<T, S> Default for $N<T, S> { fn default() -> Self { Self(vec![], PhantomData) } }
	impl<T: PartialEq, S, B> PartialEq<$N<T, B>> for $N<T, S> { fn eq(&self, o: &$N<T, B>) -> bool { self.0 == o.0 } }
	impl<T: PartialEq, S> PartialEq<Vec<T>> for $N<T, S> { fn eq(&self, o: &Vec<T>) -> bool { &self.0 == o } }
	impl<'a, T: PartialEq, S> PartialEq<&'a [T]> for $N<T, S> { fn eq(&self, o: &&'a [T]) -> bool { &self.0[..] == *o } }
	impl<T: Eq, S> Eq for $N<T, S> {}
	impl<T: PartialOrd, S> PartialOrd for $N<T, S> { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
	impl<T: Ord, S> Ord for $N<T, S> { fn cmp(&self, o: &Self) -> core::cmp::Ordering { self.0.cmp(&o.0) } }
	impl<T: core::hash::Hash, S> core::hash::Hash for $N<T, S> { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
	impl<T, S> Deref for $N<T, S> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
	impl<T, S> AsRef<Vec<T>> for $N<T, S> { fn as_ref(&self) -> &Vec<T> { &self.0 } }
	impl<T, S> AsRef<[T]> for $N<T, S> { fn as_ref(&self) -> &[T] { &self.0 } }
	impl<T, S> AsMut<[T]> for $N<T, S> { fn as_mut(&mut self) -> &mut [T] { &mut self.0 } }
	impl<T, S, I: core::slice::SliceIndex<[T]>> core::ops::Index<I> for $N<T, S> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.0[i] } }
	impl<T, S, I: core::slice::SliceIndex<[T]>> core::ops::IndexMut<I> for $N<T, S> { fn index_mut(&mut self, i: I) -> &mut I::Output { &mut self.0[i] } }
	impl<T, S> IntoIterator for $N<T, S> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
	impl<'a, T, S> IntoIterator for &'a $N<T, S> { type Item = &'a T; type IntoIter = core::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
	impl<'a, T, S> IntoIterator for &'a mut $N<T, S> { type Item = &'a mut T; type IntoIter = core::slice::IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
	impl<T, S> From<$N<T, S>> for Vec<T> { fn from(x: $N<T, S>) -> Vec<T> { x.0 } }
	impl<T: Encode, S> Encode for $N<T, S> { fn encode_to<W: Output + ?Sized>(&self, w: &mut W) { self.0.encode_to(w) } }
	impl<T: Encode, S> EncodeLike for $N<T, S> {}
	impl<T: Encode, S> EncodeLike<Vec<T>> for $N<T, S> {}
	impl<T: Encode, S> EncodeLike<$N<T, S>> for Vec<T> {}
	impl<T, S> DecodeLength for $N<T, S> { fn len(b: &[u8]) -> Result<usize, Error> { <Vec<u8> as DecodeLength>::len(b) } }
	impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for $N<T, S> where $N<T, S>: Encode {
		fn max_encoded_len() -> usize { Compact(S::get()).encoded_size().saturating_add((S::get() as usize).saturating_mul(T::max_encoded_len())) }
	}
	impl<T: serde::Serialize, S> serde::Serialize for $N<T, S> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { self.0.serialize(z) } }
	impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for $N<T, S> { fn deserialize<Z: serde::Deserializer<'de>>(z: Z) -> Result<Self, Z::Error> {
		let v = Vec::<T>::deserialize(z)?; Ok(Self::truncating(v)) } }
	impl<T, S> $N<T, S> {
		pub fn into_inner(self) -> Vec<T> { self.0 }
		pub fn as_slice(&self) -> &[T] { &self.0 }
		pub fn as_mut_slice(&mut self) -> &mut [T] { &mut self.0 }
		pub fn as_mut(&mut self) -> &mut [T] { &mut self.0 }
		pub fn to_vec(&self) -> Vec<T> where T: Clone { self.0.clone() }
		pub fn remove(&mut self, i: usize) -> T { self.0.remove(i) }
		pub fn swap_remove(&mut self, i: usize) -> T { self.0.swap_remove(i) }
		pub fn pop(&mut self) -> Option<T> { self.0.pop() }
		pub fn clear(&mut self) { self.0.clear() }
		pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
		pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) }
		pub fn drain<R: core::ops::RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> { self.0.drain(r) }
		pub fn iter_mut(&mut self) -> core::slice::IterMut<'_, T> { self.0.iter_mut() }
		pub fn last_mut(&mut self) -> Option<&mut T> { self.0.last_mut() }
		pub fn first_mut(&mut self) -> Option<&mut T> { self.0.first_mut() }
		pub fn get_mut<I: core::slice::SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> { self.0.get_mut(i) }
		pub fn sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { self.0.sort_by(f) }
		pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) { self.0.sort_by_key(f) }
		pub fn sort(&mut self) where T: Ord { self.0.sort() }
		pub fn sort_unstable(&mut self) where T: Ord { self.0.sort_unstable() }
		pub fn reverse(&mut self) { self.0.reverse() }
		pub fn dedup(&mut self) where T: PartialEq { self.0.dedup() }
		pub fn swap(&mut self, a: usize, b: usize) { self.0.swap(a, b) }
		pub fn split_off(&mut self, at: usize) -> Self { Self(self.0.split_off(at), PhantomData) }
	}
	impl<T, S: Get<u32>> $N<T, S> {
		pub fn bound() -> usize { S::get() as usize }
		pub fn is_full(&self) -> bool { self.0.len() >= Self::bound() }
		pub fn with_bounded_capacity(c: usize) -> Self { Self(Vec::with_capacity(c.min(Self::bound())), PhantomData) }
		pub fn with_max_capacity() -> Self { Self(vec![], PhantomData) }
		pub fn truncate_from(mut v: Vec<T>) -> Self { v.truncate(Self::bound()); Self(v, PhantomData) }
		fn truncating(v: Vec<T>) -> Self { Self::truncate_from(v) }
		pub fn try_push(&mut self, t: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.push(t); Ok(()) } else { Err(t) } }
		pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.insert(i, t); Ok(()) } else { Err(t) } }
		pub fn try_extend(&mut self, with: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> {
			if with.len().saturating_add(self.0.len()) <= Self::bound() { self.0.extend(with); Ok(()) } else { Err(()) }
		}
		pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> { if o.len().saturating_add(self.0.len()) > Self::bound() { Err(()) } else { self.0.append(o); Ok(()) } }
		pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> { f(&mut self.0); (self.0.len() <= Self::bound()).then_some(self) }
		pub fn try_resize(&mut self, n: usize, v: T) -> Result<(), ()> where T: Clone { if n > Self::bound() { return Err(()); } self.0.resize(n, v); Ok(()) }
		pub fn force_push(&mut self, t: T) { self.try_push(t).map_err(|_| ()).unwrap() }
		pub fn force_insert(&mut self, i: usize, t: T) -> Result<Option<T>, ()> { if i > self.0.len() { return Err(()); } self.0.insert(i, t); Ok(None) }
		pub fn try_rotate_left(&mut self, m: usize) -> Result<(), ()> { if m > self.0.len() { return Err(()); } self.0.rotate_left(m); Ok(()) }
		pub fn try_rotate_right(&mut self, m: usize) -> Result<(), ()> { if m > self.0.len() { return Err(()); } self.0.rotate_right(m); Ok(()) }
	}
	impl<T, S: Get<u32>> TryFrom<Vec<T>> for $N<T, S> { type Error = Vec<T>; fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> { if v.len() <= Self::bound() { Ok(Self(v, PhantomData)) } else { Err(v) } } }
	impl<T, S: Get<u32>> TryCollectTarget<T> for $N<T, S> { fn from_vec(v: Vec<T>) -> Result<Self, ()> { Self::try_from(v).map_err(|_| ()) } }
}}
common!(BoundedVec);
common!(WeakBoundedVec);
impl<T, S> BoundedVec<T, S> {
	#[doc(hidden)]
	pub fn unchecked_from(v: Vec<T>) -> Self {
		Self(v, PhantomData)
	}
	pub const fn new() -> Self {
		Self(Vec::new(), PhantomData)
	}
}
impl<T, S> WeakBoundedVec<T, S> {
	#[doc(hidden)]
	pub fn unchecked_from(v: Vec<T>) -> Self {
		Self(v, PhantomData)
	}
}
impl<T, S: Get<u32>> WeakBoundedVec<T, S> {
	pub fn force_from(v: Vec<T>, _: Option<&'static str>) -> Self {
		Self(v, PhantomData)
	}
}
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let v = Vec::<T>::decode(i)?;
		Self::try_from(v).map_err(|_| "BoundedVec exceeds its limit".into())
	}
}
impl<T: Decode, S: Get<u32>> Decode for WeakBoundedVec<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Self(Vec::<T>::decode(i)?, PhantomData))
	}
}
pub trait TryCollectTarget<T>: Sized {
	fn from_vec(v: Vec<T>) -> Result<Self, ()>;
}
pub trait TryCollect<C> {
	type Error;
	fn try_collect(self) -> Result<C, Self::Error>;
}
impl<T, S: Get<u32>, I: ExactSizeIterator + Iterator<Item = T>> TryCollect<BoundedVec<T, S>> for I {
	type Error = &'static str;
	fn try_collect(self) -> Result<BoundedVec<T, S>, &'static str> {
		if self.len() > S::get() as usize {
			Err("iterator length too big")
		} else {
			Ok(BoundedVec(self.collect(), PhantomData))
		}
	}
}
pub struct BoundedBTreeMap<K, V, S>(BTreeMap<K, V>, PhantomData<S>);
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn new() -> Self {
		Self(BTreeMap::new(), PhantomData)
	}
	pub fn into_inner(self) -> BTreeMap<K, V> {
		self.0
	}
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		if self.0.len() < Self::bound() || self.0.contains_key(&k) {
			Ok(self.0.insert(k, v))
		} else {
			Err((k, v))
		}
	}
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<V>
	where
		K: core::borrow::Borrow<Q>,
	{
		self.0.remove(k)
	}
	pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
	where
		K: core::borrow::Borrow<Q>,
	{
		self.0.get_mut(k)
	}
	pub fn iter_mut(&mut self) -> std::collections::btree_map::IterMut<'_, K, V> {
		self.0.iter_mut()
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
	pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
}
impl<K: Ord, V, S> Default for BoundedBTreeMap<K, V, S> {
	fn default() -> Self {
		Self(BTreeMap::new(), PhantomData)
	}
}
impl<K: Clone, V: Clone, S> Clone for BoundedBTreeMap<K, V, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for BoundedBTreeMap<K, V, S> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		self.0.fmt(f)
	}
}
impl<K: PartialEq, V: PartialEq, S> PartialEq for BoundedBTreeMap<K, V, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<K: Eq, V: Eq, S> Eq for BoundedBTreeMap<K, V, S> {}
impl<K, V, S> Deref for BoundedBTreeMap<K, V, S> {
	type Target = BTreeMap<K, V>;
	fn deref(&self) -> &Self::Target {
		&self.0
	}
}
impl<K, V, S> IntoIterator for BoundedBTreeMap<K, V, S> {
	type Item = (K, V);
	type IntoIter = std::collections::btree_map::IntoIter<K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, K, V, S> IntoIterator for &'a BoundedBTreeMap<K, V, S> {
	type Item = (&'a K, &'a V);
	type IntoIter = std::collections::btree_map::Iter<'a, K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<K: Ord, V, S: Get<u32>> TryFrom<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
	type Error = ();
	fn try_from(v: BTreeMap<K, V>) -> Result<Self, ()> {
		if v.len() <= S::get() as usize {
			Ok(Self(v, PhantomData))
		} else {
			Err(())
		}
	}
}
impl<K: Encode, V: Encode, S> Encode for BoundedBTreeMap<K, V, S> {
	fn encode_to<W: Output + ?Sized>(&self, w: &mut W) {
		self.0.encode_to(w)
	}
}
impl<K: Encode, V: Encode, S> EncodeLike for BoundedBTreeMap<K, V, S> {}
impl<K: Decode + Ord, V: Decode, S: Get<u32>> Decode for BoundedBTreeMap<K, V, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Self::try_from(BTreeMap::<K, V>::decode(i)?).map_err(|_| "BoundedBTreeMap exceeds its limit".into())
	}
}
impl<K: MaxEncodedLen, V: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeMap<K, V, S> {
	fn max_encoded_len() -> usize {
		(S::get() as usize).saturating_mul(K::max_encoded_len().saturating_add(V::max_encoded_len())).saturating_add(5)
	}
}
pub struct BoundedBTreeSet<K, S>(BTreeSet<K>, PhantomData<S>);
impl<K: Ord, S: Get<u32>> BoundedBTreeSet<K, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn new() -> Self {
		Self(BTreeSet::new(), PhantomData)
	}
	pub fn into_inner(self) -> BTreeSet<K> {
		self.0
	}
	pub fn try_insert(&mut self, k: K) -> Result<bool, K> {
		if self.0.len() < Self::bound() || self.0.contains(&k) {
			Ok(self.0.insert(k))
		} else {
			Err(k)
		}
	}
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool
	where
		K: core::borrow::Borrow<Q>,
	{
		self.0.remove(k)
	}
}
impl<K: Ord, S> Default for BoundedBTreeSet<K, S> {
	fn default() -> Self {
		Self(BTreeSet::new(), PhantomData)
	}
}
impl<K: Clone, S> Clone for BoundedBTreeSet<K, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<K: fmt::Debug, S> fmt::Debug for BoundedBTreeSet<K, S> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		self.0.fmt(f)
	}
}
impl<K: PartialEq, S> PartialEq for BoundedBTreeSet<K, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<K: Eq, S> Eq for BoundedBTreeSet<K, S> {}
impl<K, S> Deref for BoundedBTreeSet<K, S> {
	type Target = BTreeSet<K>;
	fn deref(&self) -> &Self::Target {
		&self.0
	}
}
impl<K: Encode, S> Encode for BoundedBTreeSet<K, S> {
	fn encode_to<W: Output + ?Sized>(&self, w: &mut W) {
		self.0.encode_to(w)
	}
}
impl<K: Encode, S> EncodeLike for BoundedBTreeSet<K, S> {}
impl<K: Decode + Ord, S: Get<u32>> Decode for BoundedBTreeSet<K, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let v = BTreeSet::<K>::decode(i)?;
		if v.len() > S::get() as usize {
			return Err("BoundedBTreeSet exceeds its limit".into());
		}
		Ok(Self(v, PhantomData))
	}
}
impl<K: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeSet<K, S> {
	fn max_encoded_len() -> usize {
		(S::get() as usize).saturating_mul(K::max_encoded_len()).saturating_add(5)
	}
}
