//! Explicit-state exploration of the real pallet code.
//!
//! A `Spec` owns an alphabet of operations and a shadow (reference) state.  `Ctx::bfs` explores, level
//! by level, every operation sequence up to a depth from every initial state, executing each operation
//! on the real code over an undo-logged storage, de-duplicating on (storage hash, shadow hash), and
//! calling `Spec::step`, whose checks decide the property on every transition.
use serde_json::json;
use shim::ext;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub type Check = Result<(), String>;
/// Outcome label of a transition (for coverage accounting) or a violation message `key: details`.
pub type Step = Result<String, String>;

#[macro_export]
macro_rules! req {
	($c:expr, $($m:tt)*) => { if !($c) { return Err(format!($($m)*)); } };
}

pub trait Spec: Sync {
	type R: Clone + Send + Sync + Hash;
	type Op: Clone + Debug + Send + Sync;
	/// Number of initial states.
	fn inits(&self) -> usize {
		1
	}
	/// Build initial state `i` in the (empty) thread-local storage.
	fn init(&self, i: usize) -> Self::R;
	fn ops(&self, r: &Self::R) -> Vec<Self::Op>;
	fn step(&self, r: &mut Self::R, op: &Self::Op) -> Step;
	/// Checked once on every initial state and every newly discovered state.
	fn invariant(&self, _r: &Self::R) -> Check {
		Ok(())
	}
	/// Any additional part of the state that lives outside of storage.
	fn canon(&self, _r: &Self::R) -> u64 {
		0
	}
}

#[derive(Clone, Copy, Debug)]
pub struct Bounds {
	pub depth: usize,
	pub max_states: usize,
}
pub fn depth(d: usize) -> Bounds {
	Bounds { depth: d, max_states: 6_000_000 }
}

struct Node {
	parent: Option<Arc<Node>>,
	init: usize,
	op: String,
}
fn path(n: &Arc<Node>) -> (usize, Vec<String>) {
	let mut v = vec![];
	let mut cur = Some(n.clone());
	let mut init = 0;
	while let Some(c) = cur {
		if c.parent.is_some() {
			v.push(c.op.clone());
		}
		init = c.init;
		cur = c.parent.clone();
	}
	v.reverse();
	(init, v)
}
thread_local! { static PANIC: std::cell::RefCell<String> = Default::default(); }
pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|i| {
		let m = i
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| i.payload().downcast_ref::<String>().cloned())
			.unwrap_or_default();
		let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
	}));
}
/// Run `f`, turning a panic into a violation message.
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
	match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
		Ok(r) => r,
		Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
	}
}
fn h64<T: Hash + ?Sized>(t: &T, seed: u64) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	seed.hash(&mut h);
	t.hash(&mut h);
	h.finish()
}
fn key_of<S: Spec>(s: &S, r: &S::R) -> u128 {
	let x = (s.canon(r), 0u8);
	let a = h64(&(&x, HashWrap(r)), 1) as u128;
	let b = h64(&(&x, HashWrap(r)), 2) as u128;
	ext::state_hash() ^ ((a << 64) | b)
}
struct HashWrap<'a, T: Hash>(&'a T);
impl<'a, T: Hash> Hash for HashWrap<'a, T> {
	fn hash<H: Hasher>(&self, h: &mut H) {
		self.0.hash(h)
	}
}

#[derive(Clone, Debug)]
pub struct Violation {
	pub part: String,
	pub init: usize,
	pub ops: Vec<String>,
	pub msg: String,
}

pub struct Ctx {
	pub id: String,
	pub tier: String,
	pub seed: u64,
	pub threads: usize,
	start: Instant,
	parts: Vec<serde_json::Value>,
	states: u64,
	transitions: u64,
	validated: u64,
	samples: u64,
	capped: bool,
	assumptions: Vec<String>,
	notes: Vec<String>,
	known: HashMap<String, String>,
	known_hit: BTreeMap<String, u64>,
	root: String,
	replay: Option<serde_json::Value>,
	only: Option<String>,
}

impl Ctx {
	pub fn thorough(&self) -> bool {
		self.tier == "thorough"
	}
	/// `q` in the quick tier, `t` in the thorough one.
	pub fn pick<T>(&self, q: T, t: T) -> T {
		if self.thorough() {
			t
		} else {
			q
		}
	}
	pub fn assume(&mut self, s: &str) {
		self.assumptions.push(s.into());
	}
	pub fn note(&mut self, s: &str) {
		self.notes.push(s.into());
	}
	fn is_known(&self, msg: &str) -> Option<String> {
		self.known.keys().find(|k| msg.starts_with(k.as_str())).cloned()
	}
	fn fail(&mut self, v: Violation) -> ! {
		let dir = format!("{}/evidence/replay", self.root);
		let _ = std::fs::create_dir_all(&dir);
		let p = format!("{dir}/{}.json", self.id);
		let j = json!({"property": self.id, "tier": self.tier, "part": v.part, "init": v.init, "ops": v.ops, "violation": v.msg,
			"rerun": format!("./run.sh {} {} --replay {p}", self.id, self.tier)});
		let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
		println!("violation in part `{}` (initial state {}): {}", v.part, v.init, v.msg);
		for (i, o) in v.ops.iter().enumerate() {
			println!("   {:2}. {o}", i + 1);
		}
		self.parts.push(json!({"part": v.part, "violated": v.msg}));
		self.write_evidence(1);
		println!("VIOLATION property={} replay={p}", self.id);
		std::process::exit(1)
	}
	fn write_evidence(&self, violations: u64) {
		let dir = format!("{}/evidence", self.root);
		let _ = std::fs::create_dir_all(&dir);
		let mut expl = String::new();
		for p in &self.parts {
			expl.push_str(&p.to_string());
			expl.push('\n');
		}
		for n in &self.notes {
			expl.push_str(n);
			expl.push('\n');
		}
		expl.truncate(40_000);
		let j = json!({
			"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking",
			"coverage": {
				"states": self.states, "transitions": self.transitions,
				"traces_validated_against_impl": self.validated, "samples": self.samples,
				"exhaustive": !self.capped && violations == 0,
				"explanation": expl,
			},
			"assumptions": self.assumptions,
			"wall_s": self.start.elapsed().as_secs_f64(),
			"violations": violations,
		});
		std::fs::write(format!("{dir}/{}.json", self.id), serde_json::to_string_pretty(&j).unwrap()).expect("write evidence");
	}

	/// Exhaustively check `f` on every element of a finite, explicitly enumerated domain.
	pub fn enumerate<T: Debug + Send, I: Iterator<Item = T> + Send>(&mut self, part: &str, domain: I, f: impl Fn(&T) -> Step + Sync) {
		if self.only.as_deref().map_or(false, |o| o != part) {
			return;
		}
		let t0 = Instant::now();
		if let Some(r) = self.replay.clone() {
			let want = r["ops"][0].as_str().unwrap_or("").to_string();
			for x in domain {
				if format!("{x:?}") == want {
					println!("replaying {part}: {want}");
					ext::restore(&Default::default());
					match guard(|| f(&x)) {
						Err(m) => {
							println!("reproduced: {m}");
							println!("VIOLATION property={} replay=(given)", self.id);
							std::process::exit(1)
						},
						Ok(o) => println!("no violation: {o}"),
					}
					std::process::exit(0)
				}
			}
			println!("input not found in the domain");
			std::process::exit(2)
		}
		let it = Mutex::new(domain);
		let outcomes: Mutex<BTreeMap<String, u64>> = Default::default();
		let bad: Mutex<Option<Violation>> = Mutex::new(None);
		let stop = AtomicBool::new(false);
		let n = AtomicU64::new(0);
		let known: Mutex<BTreeMap<String, u64>> = Default::default();
		let me = &*self;
		std::thread::scope(|sc| {
			for _ in 0..self.threads {
				sc.spawn(|| {
					let mut loc: BTreeMap<String, u64> = BTreeMap::new();
					loop {
						if stop.load(Relaxed) {
							break;
						}
						let batch: Vec<T> = {
							let mut g = it.lock().unwrap();
							(0..64).map_while(|_| g.next()).collect()
						};
						if batch.is_empty() {
							break;
						}
						for x in batch {
							n.fetch_add(1, Relaxed);
							ext::restore(&Default::default());
							match guard(|| f(&x)) {
								Ok(o) => *loc.entry(o).or_default() += 1,
								Err(m) => {
									if let Some(k) = me.is_known(&m) {
										*known.lock().unwrap().entry(k).or_default() += 1;
										continue;
									}
									let mut b = bad.lock().unwrap();
									if b.is_none() {
										*b = Some(Violation { part: part.into(), init: 0, ops: vec![format!("{x:?}")], msg: m });
									}
									stop.store(true, Relaxed);
									break;
								},
							}
						}
					}
					let mut g = outcomes.lock().unwrap();
					for (k, v) in loc {
						*g.entry(k).or_default() += v;
					}
				});
			}
		});
		let n = n.load(Relaxed);
		self.states += n;
		self.transitions += n;
		self.validated += n;
		self.samples += n;
		for (k, v) in known.into_inner().unwrap() {
			*self.known_hit.entry(k).or_default() += v;
		}
		if let Some(v) = bad.into_inner().unwrap() {
			self.fail(v)
		}
		let oc = outcomes.into_inner().unwrap();
		println!("part {part}: {n} inputs, {} distinct outcomes, {:.1}s", oc.len(), t0.elapsed().as_secs_f64());
		self.parts.push(json!({"part": part, "kind": "exhaustive enumeration", "inputs": n, "outcomes": trim(&oc)}));
		if n == 0 {
			println!("part {part} explored nothing");
			std::process::exit(2)
		}
	}

	pub fn bfs<S: Spec>(&mut self, part: &str, s: &S, b: Bounds) {
		if self.only.as_deref().map_or(false, |o| o != part) {
			return;
		}
		if let Some(r) = self.replay.clone() {
			return self.replay_bfs(part, s, &r);
		}
		let t0 = Instant::now();
		type Item<R> = (Arc<Node>, ext::State, R);
		let visited: Vec<Mutex<HashSet<u128>>> = (0..256).map(|_| Default::default()).collect();
		let mut frontier: Vec<Item<S::R>> = vec![];
		let mut states = 0u64;
		for i in 0..s.inits() {
			ext::restore(&Default::default());
			let r = match guard(|| {
				let r = s.init(i);
				s.invariant(&r)?;
				Ok(r)
			}) {
				Ok(r) => r,
				Err(m) => {
					if let Some(k) = self.is_known(&m) {
						*self.known_hit.entry(k).or_default() += 1;
						continue;
					}
					self.fail(Violation { part: part.into(), init: i, ops: vec![], msg: m })
				},
			};
			let k = key_of(s, &r);
			if visited[(k & 255) as usize].lock().unwrap().insert(k) {
				states += 1;
				frontier.push((Arc::new(Node { parent: None, init: i, op: String::new() }), ext::snapshot(), r));
			}
		}
		let transitions = AtomicU64::new(0);
		let outcomes: Mutex<BTreeMap<String, u64>> = Default::default();
		let known: Mutex<BTreeMap<String, u64>> = Default::default();
		let mut capped = false;
		let mut levels = vec![frontier.len()];
		let mut reached = 0;
		let me = &*self;
		let mut bad: Option<Violation> = None;
		for d in 0..b.depth {
			if frontier.is_empty() {
				break;
			}
			let last = d + 1 == b.depth;
			let idx = AtomicUsize::new(0);
			let stop = AtomicBool::new(false);
			let next: Mutex<Vec<Item<S::R>>> = Default::default();
			let newc = AtomicU64::new(0);
			let badm: Mutex<Option<(usize, Violation)>> = Mutex::new(None);
			let fr = &frontier;
			std::thread::scope(|sc| {
				for _ in 0..self.threads.min(fr.len()) {
					sc.spawn(|| {
						let mut loc: HashMap<String, u64> = HashMap::new();
						let mut mine: Vec<Item<S::R>> = vec![];
						loop {
							if stop.load(Relaxed) {
								break;
							}
							let i = idx.fetch_add(1, Relaxed);
							if i >= fr.len() {
								break;
							}
							let (node, st, r0) = &fr[i];
							ext::restore(st);
							for op in s.ops(r0) {
								ext::begin();
								let depth0 = ext::depth();
								let mut r = r0.clone();
								transitions.fetch_add(1, Relaxed);
								let res = guard(|| {
									let o = s.step(&mut r, &op)?;
									if ext::depth() != depth0 {
										return Err("storage layers: an operation left a storage layer open".into());
									}
									Ok(o)
								});
								while ext::depth() > depth0 {
									ext::rollback();
								}
								match res {
									Err(m) => {
										if let Some(k) = me.is_known(&m) {
											*known.lock().unwrap().entry(k).or_default() += 1;
											ext::rollback();
											continue;
										}
										let (init, mut ops) = path(node);
										ops.push(format!("{op:?}"));
										let mut g = badm.lock().unwrap();
										if g.as_ref().map_or(true, |x| x.0 > i) {
											*g = Some((i, Violation { part: part.into(), init, ops, msg: m }));
										}
										stop.store(true, Relaxed);
										ext::rollback();
										break;
									},
									Ok(o) => {
										*loc.entry(o).or_default() += 1;
										let k = key_of(s, &r);
										if visited[(k & 255) as usize].lock().unwrap().insert(k) {
											newc.fetch_add(1, Relaxed);
											if let Err(m) = guard(|| s.invariant(&r)) {
												if let Some(k) = me.is_known(&m) {
													*known.lock().unwrap().entry(k).or_default() += 1;
													ext::rollback();
													continue;
												}
												let (init, mut ops) = path(node);
												ops.push(format!("{op:?}"));
												let mut g = badm.lock().unwrap();
												if g.as_ref().map_or(true, |x| x.0 > i) {
													*g = Some((i, Violation { part: part.into(), init, ops, msg: m }));
												}
												stop.store(true, Relaxed);
												ext::rollback();
												break;
											}
											if !last {
												let n = Arc::new(Node { parent: Some(node.clone()), init: node.init, op: format!("{op:?}") });
												mine.push((n, ext::snapshot(), r));
											}
										}
										ext::rollback();
									},
								}
							}
						}
						next.lock().unwrap().append(&mut mine);
						let mut g = outcomes.lock().unwrap();
						for (k, v) in loc {
							*g.entry(k).or_default() += v;
						}
					});
				}
			});
			let nc = newc.load(Relaxed);
			states += nc;
			levels.push(nc as usize);
			if let Some((_, v)) = badm.into_inner().unwrap() {
				bad = Some(v);
				break;
			}
			reached = d + 1;
			frontier = next.into_inner().unwrap();
			if states as usize > b.max_states && !last && !frontier.is_empty() {
				capped = true;
				break;
			}
		}
		let tr = transitions.load(Relaxed);
		self.states += states;
		self.transitions += tr;
		self.validated += tr;
		self.capped |= capped;
		for (k, v) in known.into_inner().unwrap() {
			*self.known_hit.entry(k).or_default() += v;
		}
		if let Some(v) = bad {
			self.fail(v)
		}
		let oc = outcomes.into_inner().unwrap();
		self.samples += oc.len() as u64;
		println!(
			"part {part}: {} initial states, depth {reached}{}, {states} states, {tr} transitions, {} distinct outcomes, {:.1}s",
			levels[0],
			if capped { " (state cap hit: deeper levels not explored)" } else { "" },
			oc.len(),
			t0.elapsed().as_secs_f64()
		);
		self.parts.push(json!({"part": part, "kind": "breadth-first exploration of the implementation", "depth": reached, "new_states_per_level": levels,
			"states": states, "transitions": tr, "capped": capped, "outcomes": trim(&oc)}));
		if std::env::var("VERIF_OUTCOMES").is_ok() {
			for (k, v) in &oc {
				println!("    {v:9}  {k}");
			}
		}
	}
	fn replay_bfs<S: Spec>(&mut self, part: &str, s: &S, r: &serde_json::Value) {
		let i = r["init"].as_u64().unwrap_or(0) as usize;
		ext::restore(&Default::default());
		println!("replaying part {part} from initial state {i}");
		let report = |m: String| -> ! {
			println!("reproduced: {m}");
			println!("VIOLATION property={} replay=(given)", r["property"].as_str().unwrap_or(""));
			std::process::exit(1)
		};
		let mut st = match guard(|| {
			let x = s.init(i);
			s.invariant(&x)?;
			Ok(x)
		}) {
			Ok(x) => x,
			Err(m) => report(m),
		};
		for o in r["ops"].as_array().cloned().unwrap_or_default() {
			let o = o.as_str().unwrap_or("");
			let Some(op) = s.ops(&st).into_iter().find(|x| format!("{x:?}") == o) else {
				println!("operation {o} is not enabled here: the trace no longer applies");
				std::process::exit(2)
			};
			match guard(|| {
				let l = s.step(&mut st, &op)?;
				s.invariant(&st)?;
				Ok(l)
			}) {
				Ok(l) => println!("  {o}  ->  {l}"),
				Err(m) => report(m),
			}
		}
		println!("trace executed without a violation");
		std::process::exit(0)
	}
	fn finish(&mut self) {
		for (k, n) in self.known_hit.clone() {
			println!("KNOWN-FINDING: property={} {} [{} transitions]", self.id, self.known[&k], n);
			self.notes.push(format!("known finding hit {n} times: {k}"));
		}
		if self.states == 0 {
			println!("nothing explored");
			std::process::exit(2);
		}
		self.write_evidence(0);
		println!("OK property={} tier={} states={} transitions={} wall={:.1}s", self.id, self.tier, self.states, self.transitions, self.start.elapsed().as_secs_f64());
	}
}
fn trim(m: &BTreeMap<String, u64>) -> serde_json::Value {
	let mut o = serde_json::Map::new();
	for (k, v) in m.iter().take(80) {
		o.insert(k.clone(), json!(v));
	}
	if m.len() > 80 {
		o.insert("(further outcomes)".into(), json!(m.len() - 80));
	}
	serde_json::Value::Object(o)
}

/// Entry point of a check binary: `<bin> ID TIER [--replay FILE] [--part NAME]`.
pub fn main(checks: &[(&str, fn(&mut Ctx))]) {
	let a: Vec<String> = std::env::args().collect();
	let id = a.get(1).cloned().unwrap_or_default();
	let tier = a.get(2).cloned().unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or("quick".into()));
	let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
	let mut replay = None;
	let mut only = None;
	for w in a.windows(2) {
		if w[0] == "--replay" {
			let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&w[1]).expect("replay file")).expect("replay json");
			only = v["part"].as_str().map(|s| s.to_string());
			replay = Some(v);
		}
		if w[0] == "--part" {
			only = Some(w[1].clone());
		}
	}
	let mut known = HashMap::new();
	if let Ok(s) = std::fs::read_to_string(format!("{root}/known-findings.json")) {
		let v: serde_json::Value = serde_json::from_str(&s).expect("known-findings.json");
		for f in v["findings"].as_array().cloned().unwrap_or_default() {
			if f["property"].as_str() == Some(&id) {
				known.insert(f["match"].as_str().unwrap().to_string(), f["what"].as_str().unwrap_or("").to_string());
			}
		}
	}
	quiet_panics();
	let threads = std::env::var("VERIF_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
	let mut c = Ctx {
		id: id.clone(),
		tier,
		seed: std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1),
		threads,
		start: Instant::now(),
		parts: vec![],
		states: 0,
		transitions: 0,
		validated: 0,
		samples: 0,
		capped: false,
		assumptions: vec![
			"FRAME, SCALE, fixed-width arithmetic, hashing and third-party pallets are stood in for by /verif/ws/shim, validated by running the repository's own unit tests on it".into(),
		],
		notes: vec![],
		known,
		known_hit: Default::default(),
		root,
		replay,
		only,
	};
	match checks.iter().find(|x| x.0 == id) {
		Some((_, f)) => f(&mut c),
		None => {
			println!("unknown property {id}");
			std::process::exit(2)
		},
	}
	c.finish();
}
