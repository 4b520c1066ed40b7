//! Thread-local externalities: ordered key/value storage with nested transactions (undo log),
//! an incremental 128-bit content hash, and an event buffer kept outside of storage.
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;
pub type Bytes = Arc<[u8]>;
#[derive(Clone, Default)]
pub struct State {
	pub map: BTreeMap<Bytes, Bytes>,
	pub hash: u128,
}
struct Layer {
	undo: Vec<(Bytes, Option<Bytes>)>,
	events: usize,
}
#[derive(Default)]
pub struct Ext {
	pub st: State,
	layers: Vec<Layer>,
	pub events: Vec<Rc<dyn Any>>,
	pub limit_hit: bool,
	pub reads: u64,
	pub writes: u64,
}
pub fn entry_hash(k: &[u8], v: &[u8]) -> u128 {
	// two independent 64-bit xxh64 digests of (len(key), key, value)
	let mut a = xxhash_rust::xxh64::Xxh64::new(0x5eed);
	let mut b = xxhash_rust::xxh64::Xxh64::new(0xdeadbeefcafe);
	for h in [&mut a, &mut b] {
		h.update(&(k.len() as u32).to_le_bytes());
		h.update(k);
		h.update(v);
	}
	((a.digest() as u128) << 64) | b.digest() as u128
}
impl Ext {
	pub fn get(&mut self, k: &[u8]) -> Option<Bytes> {
		self.reads += 1;
		self.st.map.get(k).cloned()
	}
	pub fn set(&mut self, k: &[u8], v: Option<&[u8]>) {
		self.writes += 1;
		let key: Bytes = match self.st.map.get_key_value(k) {
			Some((kk, _)) => kk.clone(),
			None => k.into(),
		};
		let nv: Option<Bytes> = v.map(|x| x.into());
		self.put(key, nv, true);
	}
	fn put(&mut self, key: Bytes, nv: Option<Bytes>, log: bool) {
		let old = match &nv {
			Some(v) => {
				self.st.hash ^= entry_hash(&key, v);
				self.st.map.insert(key.clone(), v.clone())
			},
			None => self.st.map.remove(&key),
		};
		if let Some(o) = &old {
			self.st.hash ^= entry_hash(&key, o);
		}
		if log {
			if let Some(l) = self.layers.last_mut() {
				l.undo.push((key, old));
			}
		}
	}
	pub fn begin(&mut self) {
		let events = self.events.len();
		self.layers.push(Layer { undo: vec![], events });
	}
	pub fn commit(&mut self) {
		let l = self.layers.pop().expect("no open transaction");
		if let Some(p) = self.layers.last_mut() {
			p.undo.extend(l.undo);
		}
	}
	pub fn rollback(&mut self) {
		let l = self.layers.pop().expect("no open transaction");
		for (k, v) in l.undo.into_iter().rev() {
			self.put(k, v, false);
		}
		self.events.truncate(l.events);
	}
	pub fn depth(&self) -> usize {
		self.layers.len()
	}
	/// Keys written in the current (innermost) layer.
	pub fn touched(&self) -> Vec<Bytes> {
		self.layers.last().map(|l| l.undo.iter().map(|x| x.0.clone()).collect()).unwrap_or_default()
	}
}
thread_local! { pub static EXT: RefCell<Ext> = RefCell::new(Ext::default()); }
pub fn with<R>(f: impl FnOnce(&mut Ext) -> R) -> R {
	EXT.with(|e| f(&mut e.borrow_mut()))
}
pub fn get(k: &[u8]) -> Option<Bytes> {
	with(|e| e.get(k))
}
pub fn exists(k: &[u8]) -> bool {
	with(|e| e.st.map.contains_key(k))
}
pub fn set(k: &[u8], v: &[u8]) {
	with(|e| e.set(k, Some(v)))
}
pub fn clear(k: &[u8]) {
	with(|e| {
		if e.st.map.contains_key(k) {
			e.set(k, None)
		}
	})
}
pub fn next_key(k: &[u8]) -> Option<Vec<u8>> {
	use std::ops::Bound::*;
	with(|e| e.st.map.range::<[u8], _>((Excluded(k), Unbounded)).next().map(|(k, _)| k.to_vec()))
}
pub fn next_key_with_prefix(prefix: &[u8], k: &[u8]) -> Option<Vec<u8>> {
	next_key(k).filter(|n| n.starts_with(prefix))
}
pub fn keys_with_prefix(prefix: &[u8]) -> Vec<Bytes> {
	use std::ops::Bound::*;
	with(|e| {
		e.st.map
			.range::<[u8], _>((Included(prefix), Unbounded))
			.take_while(|(k, _)| k.starts_with(prefix))
			.map(|(k, _)| k.clone())
			.collect()
	})
}
pub fn clear_prefix(prefix: &[u8], limit: Option<u32>) -> u32 {
	let ks = keys_with_prefix(prefix);
	let mut n = 0;
	for k in ks {
		if let Some(l) = limit {
			if n >= l {
				break;
			}
		}
		clear(&k);
		n += 1;
	}
	n
}
pub fn begin() {
	with(|e| e.begin())
}
pub fn commit() {
	with(|e| e.commit())
}
pub fn rollback() {
	with(|e| e.rollback())
}
pub fn depth() -> usize {
	with(|e| e.depth())
}
pub fn snapshot() -> State {
	with(|e| e.st.clone())
}
pub fn state_hash() -> u128 {
	with(|e| e.st.hash)
}
pub fn restore(s: &State) {
	with(|e| {
		e.layers.clear();
		e.events.clear();
		e.st = s.clone();
	})
}
pub fn push_event(ev: Rc<dyn Any>) {
	with(|e| e.events.push(ev))
}
pub fn events() -> Vec<Rc<dyn Any>> {
	with(|e| e.events.clone())
}
pub fn clear_events() {
	with(|e| e.events.clear())
}
