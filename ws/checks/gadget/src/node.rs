//! One node: the real gadget (`start_ethy_gadget`) and the real RPC handler over a client, a
//! keystore and a gossip network that do only what the harness says.
use codec::{Decode, Encode};
use futures::{task::noop_waker, Future, Stream};
use parking_lot::Mutex;
use seed_primitives::ethy::{crypto::AuthorityId, *};
use seed_primitives::opaque::{Block, Header};
use shim_client::*;
use sp_api::ApiRef;
use sp_core::{ecdsa, Pair, H256};
use sp_runtime::{generic::{Digest, DigestItem}, traits::Header as _, KeyTypeId};
use std::{
	collections::{BTreeMap, HashMap},
	pin::Pin,
	sync::{
		atomic::{AtomicBool, Ordering::Relaxed},
		Arc,
	},
	task::{Context, Poll},
};
pub type Set = ValidatorSet<AuthorityId>;

pub fn pair(i: usize) -> ecdsa::Pair {
	ecdsa::Pair::from_seed(&shim::hashing::blake2_256(&[b"validator".as_slice(), &[i as u8]].concat()))
}
pub fn key(i: usize) -> AuthorityId {
	thread_local! { static K: Vec<AuthorityId> = (0..12).map(|i| pair(i).public().into()).collect(); }
	K.with(|k| k[i].clone())
}
pub fn sign(i: usize, d: &[u8; 32]) -> ecdsa::Signature {
	static S: Mutex<BTreeMap<(usize, [u8; 32]), ecdsa::Signature>> = Mutex::new(BTreeMap::new());
	*S.lock().entry((i, *d)).or_insert_with(|| pair(i).sign_prehashed(d))
}
pub fn digest_of(c: EthyChainId, data: &[u8], k: &AuthorityId) -> Option<[u8; 32]> {
	match c {
		EthyChainId::Ethereum => data.try_into().ok(),
		EthyChainId::Xrpl => Some(xrpl_codec::utils::digest_for_multi_signing_pre(data, AsRef::<[u8]>::as_ref(k).try_into().unwrap())),
	}
}

/// The chain as a node knows it, and its state.
pub struct Chain {
	pub headers: Vec<Header>,
	by_hash: HashMap<H256, usize>,
	/// state after each block: all validators, XRPL signers
	pub sets: Vec<(Option<Set>, Option<Set>)>,
}
impl Chain {
	/// `blocks[i]` is block i; block 0 is genesis
	pub fn new(blocks: Vec<(Vec<DigestItem>, Option<Set>, Option<Set>)>) -> Arc<Self> {
		let mut c = Chain { headers: vec![], by_hash: HashMap::new(), sets: vec![] };
		let mut parent = H256::zero();
		for (n, (logs, s, x)) in blocks.into_iter().enumerate() {
			let h = Header::new(n as u32, H256::zero(), H256::repeat_byte(n as u8), parent, Digest { logs });
			parent = h.hash();
			c.by_hash.insert(parent, n);
			c.headers.push(h);
			c.sets.push((s, x));
		}
		Arc::new(c)
	}
}
pub fn request(chain_id: EthyChainId, event_proof_id: u64, data: Vec<u8>) -> DigestItem {
	DigestItem::Consensus(ETHY_ENGINE_ID, ConsensusLog::<AuthorityId>::OpaqueSigningRequest { chain_id, event_proof_id, data }.encode())
}
pub fn change(s: &Set) -> DigestItem {
	DigestItem::Consensus(ETHY_ENGINE_ID, ConsensusLog::<AuthorityId>::AuthoritiesChange(s.clone()).encode())
}

pub struct Node {
	pub chain: Arc<Chain>,
	pub finalized: Mutex<usize>,
	aux: Mutex<BTreeMap<Vec<u8>, Vec<u8>>>,
	/// every entry written, in order
	pub writes: Mutex<Vec<(Vec<u8>, Vec<u8>)>>,
	sinks: Mutex<Vec<mpsc::UnboundedSender<FinalityNotification<Block>>>>,
	keys: Vec<usize>,
	pub syncing: AtomicBool,
	/// headers the backend cannot give
	pub pruned: Mutex<Vec<usize>>,
}
impl AuxStore for Node {
	fn insert_aux<'a, 'b: 'a, 'c: 'a, I: IntoIterator<Item = &'a (&'c [u8], &'c [u8])>, D: IntoIterator<Item = &'a &'b [u8]>>(&self, i: I, d: D) -> Result<()> {
		for (k, v) in i {
			self.aux.lock().insert(k.to_vec(), v.to_vec());
			self.writes.lock().push((k.to_vec(), v.to_vec()));
		}
		for k in d {
			self.aux.lock().remove(*k);
		}
		Ok(())
	}
	fn get_aux(&self, k: &[u8]) -> Result<Option<Vec<u8>>> {
		Ok(self.aux.lock().get(k).cloned())
	}
}
impl HeaderBackend<Block> for Node {
	fn header(&self, h: H256) -> Result<Option<Header>> {
		Ok(self.chain.by_hash.get(&h).filter(|n| !self.pruned.lock().contains(n)).map(|n| self.chain.headers[*n].clone()))
	}
	fn info(&self) -> Info<Block> {
		let f = *self.finalized.lock();
		let best = self.chain.headers.len() - 1;
		Info {
			best_hash: self.chain.headers[best].hash(),
			best_number: best as u32,
			genesis_hash: self.chain.headers[0].hash(),
			finalized_hash: self.chain.headers[f].hash(),
			finalized_number: f as u32,
		}
	}
	fn hash(&self, n: u32) -> Result<Option<H256>> {
		Ok(self.chain.headers.get(n as usize).map(|h| h.hash()))
	}
}
impl Backend<Block> for Node {
	type Blockchain = Node;
	fn blockchain(&self) -> &Node {
		self
	}
}
impl BlockchainEvents<Block> for Node {
	fn finality_notification_stream(&self) -> FinalityNotifications<Block> {
		let (tx, rx) = mpsc::unbounded();
		self.sinks.lock().push(tx);
		rx
	}
}
impl Finalizer<Block, Node> for Node {}
pub struct Api(Arc<Chain>);
impl EthyApi<Block> for Api {
	fn validator_set(&self, at: H256) -> std::result::Result<Set, sp_api::ApiError> {
		let n = self.0.by_hash.get(&at).ok_or(sp_api::ApiError::UnknownBlock("?".into()))?;
		self.0.sets[*n].0.clone().ok_or(sp_api::ApiError::StateBackendIsNotTrie)
	}
	fn xrpl_signers(&self, at: H256) -> std::result::Result<Set, sp_api::ApiError> {
		let n = self.0.by_hash.get(&at).ok_or(sp_api::ApiError::UnknownBlock("?".into()))?;
		self.0.sets[*n].1.clone().ok_or(sp_api::ApiError::StateBackendIsNotTrie)
	}
}
impl ProvideRuntimeApi<Block> for Node {
	type Api = Api;
	fn runtime_api(&self) -> ApiRef<'_, Api> {
		Api(self.chain.clone()).into()
	}
}
impl sp_keystore::Keystore for Node {
	fn has_keys(&self, k: &[(Vec<u8>, KeyTypeId)]) -> bool {
		k.iter().all(|(p, t)| *t == ETHY_KEY_TYPE && self.keys.iter().any(|i| key(*i).as_ref() as &[u8] == &p[..]))
	}
	fn ecdsa_sign_prehashed(&self, t: KeyTypeId, p: &ecdsa::Public, m: &[u8; 32]) -> std::result::Result<Option<ecdsa::Signature>, sp_keystore::Error> {
		Ok(self.keys.iter().find(|i| t == ETHY_KEY_TYPE && ecdsa::Public::from(key(**i)) == *p).map(|i| sign(*i, m)))
	}
	fn ecdsa_generate_new(&self, _: KeyTypeId, _: Option<&str>) -> std::result::Result<ecdsa::Public, ()> {
		Err(())
	}
	fn ecdsa_public_keys(&self, t: KeyTypeId) -> Vec<ecdsa::Public> {
		self.keys.iter().filter(|_| t == ETHY_KEY_TYPE).map(|i| key(*i).into()).collect()
	}
}
#[derive(Clone)]
struct Sync(Arc<Node>);
impl SyncOracle for Sync {
	fn is_major_syncing(&self) -> bool {
		self.0.syncing.load(Relaxed)
	}
	fn is_offline(&self) -> bool {
		false
	}
}
impl Syncing<Block> for Sync {}
#[derive(Clone)]
struct Net(Arc<Mutex<Option<Arc<Shared<Block>>>>>);
impl Network<Block> for Net {
	fn attach(&self, e: Arc<Shared<Block>>) {
		*self.0.lock() = Some(e);
	}
}
struct Spawned(Mutex<Vec<futures::future::BoxFuture<'static, ()>>>);
impl SpawnNamed for Spawned {
	fn spawn(&self, _: &'static str, _: Option<&'static str>, f: futures::future::BoxFuture<'static, ()>) {
		self.0.lock().push(f)
	}
}
fn poll<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
	f.poll(&mut Context::from_waker(&noop_waker()))
}
type Handler = ethy_gadget_rpc::EthyRpcHandler<Node, Node, Block>;
pub struct Sim {
	pub node: Arc<Node>,
	pub net: Arc<Shared<Block>>,
	fut: Pin<Box<dyn Future<Output = ()>>>,
	proofs: notification::NotificationReceiver<VersionedEventProof>,
	pub rpc: Handler,
	spawned: Arc<Spawned>,
	sent: usize,
	written: usize,
}
/// What a node does in answer to one input.
#[derive(Default, Debug)]
pub struct Did {
	pub sent: Vec<Vec<u8>>,
	pub written: Vec<(Vec<u8>, Vec<u8>)>,
	pub told: Vec<VersionedEventProof>,
}
impl Sim {
	/// A node that starts with `finalized` as its last finalised block and holds the keys of `keys`.
	pub fn new(chain: &Arc<Chain>, finalized: usize, keys: &[usize], syncing: bool) -> Self {
		let node = Arc::new(Node {
			chain: chain.clone(),
			finalized: Mutex::new(finalized),
			aux: Default::default(),
			writes: Default::default(),
			sinks: Default::default(),
			keys: keys.to_vec(),
			syncing: AtomicBool::new(syncing),
			pruned: Default::default(),
		});
		let net = Net(Default::default());
		let (tx, stream) = ethy_gadget::notification::EthyEventProofStream::channel();
		let spawned = Arc::new(Spawned(Default::default()));
		let rpc = Handler::new(stream.clone(), spawned.clone(), node.clone(), node.clone());
		let params = ethy_gadget::EthyParams {
			client: node.clone(),
			backend: node.clone(),
			runtime: node.clone(),
			key_store: if keys.is_empty() { None } else { Some(node.clone() as sp_keystore::KeystorePtr) },
			network: net.clone(),
			sync_service: Sync(node.clone()),
			event_proof_sender: tx,
			prometheus_registry: Some(Registry),
			protocol_name: "/ethy/1".into(),
			_phantom: std::marker::PhantomData,
		};
		let mut fut: Pin<Box<dyn Future<Output = ()>>> = Box::pin(ethy_gadget::start_ethy_gadget::<Block, Node, Node, Node, Net, Sync>(params));
		assert!(poll(fut.as_mut()).is_pending(), "the gadget ends by itself");
		let engine = net.0.lock().clone().expect("the gadget attaches to the network");
		Sim { proofs: stream.subscribe(100_000), node, net: engine, fut, rpc, spawned, sent: 0, written: 0 }
	}
	pub fn run(&mut self) -> std::result::Result<Did, String> {
		for _ in 0..3 {
			if poll(self.fut.as_mut()).is_ready() {
				return Err("ended: the gadget stops".into());
			}
		}
		let mut d = Did::default();
		d.sent = self.net.sent.lock()[self.sent..].to_vec();
		self.sent += d.sent.len();
		d.written = self.node.writes.lock()[self.written..].to_vec();
		self.written += d.written.len();
		while let Poll::Ready(Some(p)) = Pin::new(&mut self.proofs).poll_next(&mut Context::from_waker(&noop_waker())) {
			d.told.push(p);
		}
		Ok(d)
	}
	/// The client finalises block n and says so.
	pub fn finalise(&mut self, n: usize, tell: bool) {
		let mut f = self.node.finalized.lock();
		*f = (*f).max(n);
		drop(f);
		if tell {
			let h = &self.node.chain.headers[n];
			let m = FinalityNotification { hash: h.hash(), header: h.clone(), tree_route: Arc::from([]), stale_heads: Arc::from([]) };
			self.node.sinks.lock().retain(|s| s.unbounded_send(m.clone()).is_ok());
		}
	}
	pub fn deliver(&mut self, m: &[u8]) -> Option<ValidationResult<H256>> {
		self.net.incoming(PeerId(9), m)
	}
	/// Subscribe over the RPC; what subscribers get comes out of the receiver.
	pub fn subscribe(&mut self) -> mpsc::UnboundedReceiver<Box<dyn std::any::Any + Send>> {
		use ethy_gadget_rpc::EthyApiServer;
		let (tx, rx) = mpsc::unbounded();
		self.rpc.subscribe_event_proofs(SubscriptionSink(tx)).expect("subscribed");
		rx
	}
	pub fn run_spawned(&mut self) {
		for f in self.spawned.0.lock().iter_mut() {
			let _ = poll(f.as_mut());
		}
	}
}
pub fn proof_of(v: &[u8]) -> std::result::Result<EventProof, String> {
	match VersionedEventProof::decode(&mut &v[..]) {
		Ok(VersionedEventProof::V1(p)) => Ok(p),
		_ => Err("undecodable: an entry that is no proof is stored".into()),
	}
}
