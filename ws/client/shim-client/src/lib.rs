//! The node-side crates the bridge gadget is written against (sc-client-api, sc-network,
//! sc-network-gossip, sc-utils, sp-blockchain, sp-consensus, jsonrpsee, ...), reduced to what passes
//! between them and it. Other crates see this one under each of those names.
//!
//! Nothing in here runs by itself: the harness delivers every message and every notification, one at
//! a time and in the order it wants, and polls the gadget's own future until it waits again.
pub use futures::channel::mpsc;
use futures::{future::FusedFuture, stream::FusedStream, Future, Stream};
use parking_lot::Mutex;
use shim::sp_runtime::traits::{Block as BlockT, Header as HeaderT, NumberFor};
pub use shim_pallets::sp_api::ProvideRuntimeApi;
use std::{
	any::Any,
	collections::{HashMap, HashSet},
	fmt::Debug,
	pin::Pin,
	sync::Arc,
	task::{Context, Poll},
};

// ---- sp-blockchain ----
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Error {
	UnknownBlock(String),
	MissingHeader(String),
	Backend(String),
}
impl std::fmt::Display for Error {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "{self:?}")
	}
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Debug)]
pub struct Info<B: BlockT> {
	pub best_hash: B::Hash,
	pub best_number: NumberFor<B>,
	pub genesis_hash: B::Hash,
	pub finalized_hash: B::Hash,
	pub finalized_number: NumberFor<B>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BlockStatus {
	InChain,
	Unknown,
}
pub trait HeaderBackend<B: BlockT>: Send + Sync {
	fn header(&self, hash: B::Hash) -> Result<Option<B::Header>>;
	fn info(&self) -> Info<B>;
	fn hash(&self, number: NumberFor<B>) -> Result<Option<B::Hash>>;
	fn number(&self, hash: B::Hash) -> Result<Option<NumberFor<B>>> {
		Ok(self.header(hash)?.map(|h| *h.number()))
	}
	fn status(&self, hash: B::Hash) -> Result<BlockStatus> {
		Ok(if self.header(hash)?.is_some() { BlockStatus::InChain } else { BlockStatus::Unknown })
	}
	fn expect_header(&self, hash: B::Hash) -> Result<B::Header> {
		self.header(hash)?.ok_or_else(|| Error::UnknownBlock(format!("{hash:?}")))
	}
	fn block_hash_from_id(&self, hash: &B::Hash) -> Result<Option<B::Hash>> {
		Ok(Some(*hash))
	}
}

// ---- sp-consensus ----
pub trait SyncOracle {
	fn is_major_syncing(&self) -> bool;
	fn is_offline(&self) -> bool;
}
impl<T: SyncOracle + ?Sized> SyncOracle for Arc<T> {
	fn is_major_syncing(&self) -> bool {
		(**self).is_major_syncing()
	}
	fn is_offline(&self) -> bool {
		(**self).is_offline()
	}
}

// ---- sc-client-api ----
pub trait AuxStore {
	fn insert_aux<'a, 'b: 'a, 'c: 'a, I: IntoIterator<Item = &'a (&'c [u8], &'c [u8])>, D: IntoIterator<Item = &'a &'b [u8]>>(&self, insert: I, delete: D) -> Result<()>;
	fn get_aux(&self, key: &[u8]) -> Result<Option<Vec<u8>>>;
}
pub trait Backend<B: BlockT>: AuxStore + Send + Sync {
	type Blockchain: HeaderBackend<B>;
	fn blockchain(&self) -> &Self::Blockchain;
	fn insert_aux<'a, 'b: 'a, 'c: 'a, I: IntoIterator<Item = &'a (&'c [u8], &'c [u8])>, D: IntoIterator<Item = &'a &'b [u8]>>(&self, insert: I, delete: D) -> Result<()> {
		AuxStore::insert_aux(self, insert, delete)
	}
	fn get_aux(&self, key: &[u8]) -> Result<Option<Vec<u8>>> {
		AuxStore::get_aux(self, key)
	}
}
pub mod backend {
	pub use super::{AuxStore, Backend};
}
pub trait Finalizer<B: BlockT, BE: Backend<B>> {}
#[derive(Clone, Debug)]
pub struct FinalityNotification<B: BlockT> {
	pub hash: B::Hash,
	pub header: B::Header,
	pub tree_route: Arc<[B::Hash]>,
	pub stale_heads: Arc<[B::Hash]>,
}
pub type FinalityNotifications<B> = mpsc::UnboundedReceiver<FinalityNotification<B>>;
pub trait BlockchainEvents<B: BlockT> {
	fn finality_notification_stream(&self) -> FinalityNotifications<B>;
}
pub mod client {
	pub use super::{BlockchainEvents, FinalityNotification, FinalityNotifications};
}

// ---- sc-network ----
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PeerId(pub u64);
impl PeerId {
	pub fn random() -> Self {
		PeerId(7)
	}
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ProtocolName {
	Static(&'static str),
	OnHeap(Arc<str>),
}
impl From<&'static str> for ProtocolName {
	fn from(s: &'static str) -> Self {
		ProtocolName::Static(s)
	}
}
pub mod config {
	#[derive(Clone, Debug)]
	pub struct NonDefaultSetConfig(pub super::ProtocolName, pub u64, pub u32, pub u32);
	impl NonDefaultSetConfig {
		pub fn new(n: super::ProtocolName, max: u64) -> Self {
			Self(n, max, 0, 0)
		}
		pub fn allow_non_reserved(&mut self, i: u32, o: u32) {
			self.2 = i;
			self.3 = o;
		}
	}
}
pub trait ChainSpec {
	fn fork_id(&self) -> Option<&str>;
}

// ---- sc-network-gossip ----
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MessageIntent {
	Broadcast,
	ForcedBroadcast,
	PeriodicRebroadcast,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ValidationResult<H> {
	ProcessAndKeep(H),
	ProcessAndDiscard(H),
	Discard,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ObservedRole {
	Authority,
	Light,
	Full,
}
pub trait ValidatorContext<B: BlockT> {
	fn broadcast_topic(&mut self, topic: B::Hash, force: bool);
	fn broadcast_message(&mut self, topic: B::Hash, message: Vec<u8>, force: bool);
	fn send_message(&mut self, who: &PeerId, message: Vec<u8>);
	fn send_topic(&mut self, who: &PeerId, topic: B::Hash, force: bool);
}
pub trait Validator<B: BlockT>: Send + Sync {
	fn new_peer(&self, _: &mut dyn ValidatorContext<B>, _: &PeerId, _: ObservedRole) {}
	fn peer_disconnected(&self, _: &mut dyn ValidatorContext<B>, _: &PeerId) {}
	fn validate(&self, context: &mut dyn ValidatorContext<B>, sender: &PeerId, data: &[u8]) -> ValidationResult<B::Hash>;
	fn message_expired<'a>(&'a self) -> Box<dyn FnMut(B::Hash, &[u8]) -> bool + 'a> {
		Box::new(|_, _| false)
	}
	#[allow(clippy::type_complexity)]
	fn message_allowed<'a>(&'a self) -> Box<dyn FnMut(&PeerId, MessageIntent, &B::Hash, &[u8]) -> bool + 'a> {
		Box::new(|_, _, _, _| true)
	}
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TopicNotification {
	pub message: Vec<u8>,
	pub sender: Option<PeerId>,
}
/// What the harness holds of a gossip engine.
pub struct Shared<B: BlockT> {
	pub validator: Arc<dyn Validator<B>>,
	sinks: Mutex<HashMap<B::Hash, Vec<mpsc::UnboundedSender<TopicNotification>>>>,
	/// Messages kept: (topic, message)
	pub kept: Mutex<Vec<(B::Hash, Vec<u8>)>>,
	known: Mutex<HashSet<Vec<u8>>>,
	/// Messages the node has sent to its peers, in order.
	pub sent: Mutex<Vec<Vec<u8>>>,
}
struct Quiet;
impl<B: BlockT> ValidatorContext<B> for Quiet {
	fn broadcast_topic(&mut self, _: B::Hash, _: bool) {}
	fn broadcast_message(&mut self, _: B::Hash, _: Vec<u8>, _: bool) {}
	fn send_message(&mut self, _: &PeerId, _: Vec<u8>) {}
	fn send_topic(&mut self, _: &PeerId, _: B::Hash, _: bool) {}
}
impl<B: BlockT> Shared<B> {
	fn register(&self, topic: B::Hash, m: &[u8]) {
		if self.known.lock().insert(m.to_vec()) {
			self.kept.lock().push((topic, m.to_vec()));
		}
	}
	/// A message arrives from a peer. None: it was known already.
	pub fn incoming(&self, from: PeerId, m: &[u8]) -> Option<ValidationResult<B::Hash>> {
		if self.known.lock().contains(m) {
			return None;
		}
		let r = self.validator.validate(&mut Quiet, &from, m);
		let (topic, keep) = match r {
			ValidationResult::ProcessAndKeep(t) => (t, true),
			ValidationResult::ProcessAndDiscard(t) => (t, false),
			ValidationResult::Discard => return Some(r),
		};
		if keep {
			self.register(topic, m);
		}
		if let Some(s) = self.sinks.lock().get_mut(&topic) {
			s.retain(|s| s.unbounded_send(TopicNotification { message: m.to_vec(), sender: Some(from) }).is_ok());
		}
		Some(r)
	}
	/// The engine's housekeeping: what has expired is dropped (and may arrive again).
	pub fn collect_garbage(&self) {
		let mut expired = self.validator.message_expired();
		let known = &self.known;
		self.kept.lock().retain(|(t, m)| {
			let e = expired(*t, m);
			if e {
				known.lock().remove(m);
			}
			!e
		});
	}
}
pub trait Network<B: BlockT> {
	fn attach(&self, engine: Arc<Shared<B>>);
}
pub trait Syncing<B: BlockT>: Send + Sync {}
pub struct GossipEngine<B: BlockT>(Arc<Shared<B>>, Option<Box<dyn Any + Send + Sync>>);
impl<B: BlockT> Unpin for GossipEngine<B> {}
impl<B: BlockT> GossipEngine<B> {
	pub fn new<N: Network<B> + Send + Clone + 'static, S: Syncing<B> + Send + Clone + 'static>(network: N, _: S, protocol: impl Into<ProtocolName>, validator: Arc<dyn Validator<B>>, _: Option<&Registry>) -> Self {
		let _ = protocol.into();
		let s = Arc::new(Shared { validator, sinks: Default::default(), kept: Default::default(), known: Default::default(), sent: Default::default() });
		network.attach(s.clone());
		GossipEngine(s, None)
	}
	pub fn register_gossip_message(&mut self, topic: B::Hash, m: Vec<u8>) {
		self.0.register(topic, &m)
	}
	pub fn gossip_message(&mut self, topic: B::Hash, m: Vec<u8>, force: bool) {
		self.0.register(topic, &m);
		let intent = if force { MessageIntent::ForcedBroadcast } else { MessageIntent::Broadcast };
		let ok = {
			let mut allowed = self.0.validator.message_allowed();
			allowed(&PeerId(1), intent, &topic, &m)
		};
		if ok {
			self.0.sent.lock().push(m);
		}
	}
	pub fn messages_for(&mut self, topic: B::Hash) -> mpsc::UnboundedReceiver<TopicNotification> {
		let (tx, rx) = mpsc::unbounded();
		for (t, m) in self.0.kept.lock().iter() {
			if *t == topic {
				let _ = tx.unbounded_send(TopicNotification { message: m.clone(), sender: None });
			}
		}
		self.0.sinks.lock().entry(topic).or_default().push(tx);
		rx
	}
}
impl<B: BlockT> Future for GossipEngine<B> {
	type Output = ();
	fn poll(self: Pin<&mut Self>, _: &mut Context) -> Poll<()> {
		Poll::Pending
	}
}
impl<B: BlockT> FusedFuture for GossipEngine<B> {
	fn is_terminated(&self) -> bool {
		false
	}
}

// ---- sc-utils ----
pub mod notification {
	use super::*;
	pub trait TracingKeyStr {
		const TRACING_KEY: &'static str;
	}
	type Sinks<P> = Arc<Mutex<Vec<mpsc::UnboundedSender<P>>>>;
	pub struct NotificationSender<P>(Sinks<P>);
	impl<P> Clone for NotificationSender<P> {
		fn clone(&self) -> Self {
			Self(self.0.clone())
		}
	}
	impl<P: Clone> NotificationSender<P> {
		pub fn notify<E>(&self, payload: impl FnOnce() -> std::result::Result<P, E>) -> std::result::Result<(), E> {
			if self.0.lock().is_empty() {
				return Ok(());
			}
			let p = payload()?;
			self.0.lock().retain(|s| s.unbounded_send(p.clone()).is_ok());
			Ok(())
		}
	}
	pub struct NotificationStream<P, K>(Sinks<P>, std::marker::PhantomData<K>);
	impl<P, K> Clone for NotificationStream<P, K> {
		fn clone(&self) -> Self {
			Self(self.0.clone(), Default::default())
		}
	}
	pub struct NotificationReceiver<P>(mpsc::UnboundedReceiver<P>);
	impl<P, K: TracingKeyStr> NotificationStream<P, K> {
		pub fn channel() -> (NotificationSender<P>, Self) {
			let s: Sinks<P> = Default::default();
			(NotificationSender(s.clone()), Self(s, Default::default()))
		}
		pub fn subscribe(&self, _: usize) -> NotificationReceiver<P> {
			let (tx, rx) = mpsc::unbounded();
			self.0.lock().push(tx);
			NotificationReceiver(rx)
		}
	}
	impl<P> Stream for NotificationReceiver<P> {
		type Item = P;
		fn poll_next(mut self: Pin<&mut Self>, c: &mut Context) -> Poll<Option<P>> {
			Pin::new(&mut self.0).poll_next(c)
		}
	}
	impl<P> FusedStream for NotificationReceiver<P> {
		fn is_terminated(&self) -> bool {
			self.0.is_terminated()
		}
	}
}

// ---- substrate-prometheus-endpoint ----
#[derive(Clone, Default)]
pub struct Registry;
#[derive(Debug)]
pub struct PrometheusError;
#[derive(Clone, Copy, Default)]
pub struct U64;
macro_rules! metric {
	($n:ident) => {
		#[derive(Clone, Default)]
		pub struct $n<T>(std::marker::PhantomData<T>);
		impl<T> $n<T> {
			pub fn new(_: &str, _: &str) -> std::result::Result<Self, PrometheusError> {
				Ok(Self(Default::default()))
			}
			pub fn set(&self, _: u64) {}
			pub fn inc(&self) {}
			pub fn inc_by(&self, _: u64) {}
		}
	};
}
metric!(Counter);
metric!(Gauge);
pub fn register<T>(m: T, _: &Registry) -> std::result::Result<T, PrometheusError> {
	Ok(m)
}

// ---- futures-timer ----
/// Time stands still: whoever sleeps is woken at the next poll.
pub struct Delay(bool);
impl Delay {
	pub fn new(_: std::time::Duration) -> Self {
		Delay(false)
	}
}
impl Future for Delay {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<()> {
		if std::mem::replace(&mut self.0, true) {
			Poll::Ready(())
		} else {
			Poll::Pending
		}
	}
}

// ---- sc-rpc, jsonrpsee ----
pub trait SpawnNamed: Send + Sync {
	fn spawn(&self, name: &'static str, group: Option<&'static str>, f: futures::future::BoxFuture<'static, ()>);
}
pub type SubscriptionTaskExecutor = Arc<dyn SpawnNamed>;
pub mod core {
	pub use shim::macros::async_trait;
	pub type RpcResult<T> = std::result::Result<T, Error>;
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum Error {
		Custom(String),
		Call(super::types::error::CallError),
	}
}
pub mod proc_macros {
	pub use shim::macros::rpc;
}
pub mod types {
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct SubscriptionEmptyError;
	pub mod error {
		#[derive(Clone, Debug, PartialEq, Eq)]
		pub enum CallError {
			Custom(String),
		}
	}
}
/// What a subscriber receives, item by item.
pub struct SubscriptionSink(pub mpsc::UnboundedSender<Box<dyn Any + Send>>);
impl SubscriptionSink {
	pub fn accept(&mut self) -> std::result::Result<(), types::SubscriptionEmptyError> {
		Ok(())
	}
	pub fn send<T: Send + 'static>(&mut self, t: &T) -> std::result::Result<bool, core::Error>
	where
		T: Clone,
	{
		Ok(self.0.unbounded_send(Box::new(t.clone())).is_ok())
	}
	pub async fn pipe_from_stream<S: Stream<Item = T> + Unpin, T: Send + 'static>(&mut self, mut s: S) {
		use futures::StreamExt;
		while let Some(x) = s.next().await {
			if self.0.unbounded_send(Box::new(x)).is_err() {
				return;
			}
		}
	}
}
pub trait _Unused: Debug {}
