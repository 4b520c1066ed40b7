//! R04: the data of NFIs after the upgrade that gave their keys a chain.
use crate::migrations::AllMigrations;
use codec::Encode;
use explore::*;
use frame_support::{
	traits::{GetStorageVersion, OnRuntimeUpgrade, StorageVersion},
	BoundedVec, StorageHasher, Twox64Concat,
};
use pallet_nfi::types::{GenericCollectionId, GenericSerialNumber, MultiChainTokenId, NFIDataType, NFIMatrix, NFISubType};
use rt::*;
use sp_core::H256;
use std::collections::BTreeMap;
type Bytes = Vec<u8>;
fn pre(item: &str) -> Bytes {
	frame_support::storage_prefix(b"Nfi", item.as_bytes()).to_vec()
}
fn key(item: &str, k: impl Encode) -> Bytes {
	let mut v = pre(item);
	v.extend(Twox64Concat::hash(&k.encode()));
	v.extend(Twox64Concat::hash(&NFISubType::NFI.encode()));
	v
}
fn data(i: usize) -> NFIDataType<<Runtime as pallet_nfi::Config>::MaxDataLength> {
	NFIDataType::NFI(NFIMatrix {
		metadata_link: BoundedVec::truncate_from(vec![i as u8; i]),
		verification_hash: H256::from_low_u64_be(1 << i),
	})
}
#[derive(Clone, Debug)]
struct Case {
	chain: Option<u64>,
	version: u16,
	data: Vec<(u32, u32)>,
	enabled: Vec<(u32, bool)>,
}
fn all() -> BTreeMap<Bytes, Bytes> {
	shim::ext::keys_with_prefix(&[]).iter().map(|k| (k.to_vec(), shim::ext::get(k).unwrap().to_vec())).collect()
}
fn upgrade(c: &Case) -> Step {
	System::set_block_number(1);
	StorageVersion::new(c.version).put::<Nfi>();
	if let Some(x) = c.chain {
		pallet_evm_chain_id::ChainId::<Runtime>::put(x);
	}
	// neighbours that stay as they are
	pallet_nfi::Relayer::<Runtime>::put(sim::acc(1));
	pallet_nfi::MintFee::<Runtime>::insert(
		NFISubType::NFI,
		pallet_nfi::types::FeeDetails { asset_id: 2, amount: 3, receiver: sim::acc(2) },
	);
	let others = all();
	let chain = pallet_evm_chain_id::ChainId::<Runtime>::get();
	let mut want = others.clone();
	let old = c.version == 0;
	for (i, t) in c.data.iter().enumerate() {
		let id = MultiChainTokenId::<<Runtime as pallet_nfi::Config>::MaxByteLength> {
			chain_id: chain,
			collection_id: GenericCollectionId::U32(t.0),
			serial_number: GenericSerialNumber::U32(t.1),
		};
		let new = key("NfiData", id);
		shim::ext::set(&if old { key("NfiData", t) } else { new.clone() }, &data(i).encode());
		want.insert(new, data(i).encode());
	}
	for (k, on) in &c.enabled {
		let id = (chain, GenericCollectionId::<<Runtime as pallet_nfi::Config>::MaxByteLength>::U32(*k));
		let new = key("NfiEnabled", id);
		shim::ext::set(&if old { key("NfiEnabled", k) } else { new.clone() }, &on.encode());
		want.insert(new, on.encode());
	}
	AllMigrations::on_runtime_upgrade();
	req!(Nfi::on_chain_storage_version() == StorageVersion::new(1), "version: {:?} after {c:?}", Nfi::on_chain_storage_version());
	let version: Bytes = {
		let a = all();
		let k = a.iter().find(|x| !want.contains_key(x.0) || want[x.0] != *x.1).map(|x| x.0.clone());
		k.unwrap_or_default()
	};
	let got = all();
	let part = |m: &BTreeMap<Bytes, Bytes>, p: &Bytes| m.iter().filter(|x| x.0.starts_with(p)).map(|x| (x.0.clone(), x.1.clone())).collect::<BTreeMap<_, _>>();
	for item in ["NfiData", "NfiEnabled"] {
		let (w, g) = (part(&want, &pre(item)), part(&got, &pre(item)));
		let lost: Vec<_> = w.keys().filter(|k| w.get(*k) != g.get(*k)).map(|k| hex::encode(&k[32..])).collect();
		let extra: Vec<_> = g.keys().filter(|k| !w.contains_key(*k)).map(|k| hex::encode(&k[32..])).collect();
		req!(lost.is_empty(), "lost: {item} of {c:?}: {lost:?}");
		req!(extra.is_empty(), "extra: {item} of {c:?}: {extra:?}");
	}
	let differ = want.iter().filter(|x| got.get(x.0) != Some(x.1)).count() + got.keys().filter(|k| !want.contains_key(*k)).count();
	req!(differ == usize::from(old), "others: {c:?} changes {differ} other entries, e.g. {}", hex::encode(version));
	let h = shim::ext::state_hash();
	AllMigrations::on_runtime_upgrade();
	req!(shim::ext::state_hash() == h, "again: {c:?} changes with the next upgrade");
	Ok(format!("{} {}", c.version, c.data.len() + c.enabled.len()))
}
pub fn run(ctx: &mut Ctx) {
	// 7672 is the id of the chain
	let mut tokens = vec![(0, 0), (7672, 0), (0, 7672), (1124, 123), (u32::MAX, u32::MAX), (7672, 7672)];
	let mut kinds: Vec<u32> = vec![0, 7672, 1124, u32::MAX];
	if ctx.thorough() {
		tokens.extend([(1124, 0), (1 << 16, 1 << 24), (1, 1)]);
		kinds.extend([1, 1 << 24]);
	}
	let mut v = vec![];
	for chain in [None, Some(0), Some(1), Some(7672 << 32), Some(u64::MAX)] {
		for version in [0, 1] {
			for m in 0..1u32 << tokens.len() {
				let data: Vec<_> = (0..tokens.len()).filter(|i| m >> i & 1 == 1).map(|i| tokens[i]).collect();
				for k in 0..3u32.pow(kinds.len() as u32) {
					// where both are many, every combination says little more
					if m.count_ones() > 2 && k % 7 != m % 7 {
						continue;
					}
					let digit = |i: usize| k / 3u32.pow(i as u32) % 3;
					let enabled = (0..kinds.len()).filter(|i| digit(*i) > 0).map(|i| (kinds[i], digit(i) == 2)).collect();
					v.push(Case { chain, version, data: data.clone(), enabled });
				}
			}
		}
	}
	ctx.enumerate("upgrade", v.into_iter(), upgrade);
}
