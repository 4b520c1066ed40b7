//! The proofs as clients of a node see them.
use crate::{model::*, node::*};
use ethy_gadget_rpc::EthyApiServer;
use explore::req;
use seed_primitives::ethy::EthyChainId;
use shim_client::mpsc;
use sp_api::HeaderT as _;
use sp_core::{ecdsa, H256};
use std::any::Any;

fn address(k: &[u8]) -> [u8; 20] {
	let q = shim::secp::parse_compressed(k.try_into().unwrap()).unwrap();
	shim::hashing::keccak_256(&shim::secp::uncompressed(&q)[1..])[12..].try_into().unwrap()
}
fn same_type<T: 'static>(_: &T, x: Box<dyn Any + Send>) -> Option<T> {
	x.downcast::<T>().ok().map(|x| *x)
}
pub fn served(sc: &Scenario, sim: &Sim, published: &[u64], sub: &mut mpsc::UnboundedReceiver<Box<dyn Any + Send>>) -> R<String> {
	let mut events: Vec<u64> = sc.requests.iter().map(|r| r.event).collect();
	events.extend([0, 99, u64::MAX]);
	let mut pushed = vec![];
	let none = sim.rpc.get_event_proof(1 << 40).map_err(|e| format!("rpc: {e:?}"))?;
	while let Ok(Some(x)) = sub.try_next() {
		pushed.push(same_type(&none, x).ok_or("pushed: subscribers get something else than proofs")?);
	}
	req!(pushed.len() == published.len(), "pushed: subscribers get {} proofs of {}", pushed.len(), published.len());
	for (p, e) in pushed.iter().zip(published) {
		req!(p.as_ref().map(|p| p.event_id) == Some(*e), "pushed: subscribers get {:?} instead of the proof of {e}", p.as_ref().map(|p| p.event_id));
	}
	for e in events {
		let eth = sim.rpc.get_event_proof(e).map_err(|e| format!("rpc: {e:?}"))?;
		let xrpl = sim.rpc.get_xrpl_tx_proof(e).map_err(|e| format!("rpc: {e:?}"))?;
		let r = sc.requests.iter().find(|r| r.event == e);
		let on = |c| r.map_or(false, |r| r.chain == c) && published.contains(&e);
		req!(eth.is_some() == on(EthyChainId::Ethereum) && xrpl.is_some() == on(EthyChainId::Xrpl), "served: proofs of event {e} for Ethereum {} and for the XRPL {}", eth.is_some(), xrpl.is_some());
		let Some(r) = r else { continue };
		let block = sc.chain.headers[r.block].hash();
		let (s, x) = sc.chain.sets[r.block].clone();
		let (s, x) = (s.unwrap(), x.unwrap());
		// for Ethereum: a place for each validator
		let all = eth.into_iter().chain(pushed.iter().zip(published).filter(|(_, p)| **p == e && r.chain == EthyChainId::Ethereum).filter_map(|(p, _)| p.clone()));
		for p in all {
			req!(p.event_id == e && p.block == block && p.validator_set_id == s.id, "served: the proof of {e} is for event {}, block {:?}, set {}", p.event_id, p.block, p.validator_set_id);
			let adr: Vec<[u8; 20]> = p.validators.iter().map(|a| a.0).collect();
			req!(adr == s.validators.iter().map(|v| address(v.as_ref())).collect::<Vec<_>>(), "validators: the proof of {e} lists other addresses than the validators'");
			req!(p.signatures.len() == adr.len(), "places: the proof of {e} has {} places for {} validators", p.signatures.len(), adr.len());
			let mut n = 0;
			for (sig, v) in p.signatures.iter().zip(&s.validators) {
				if sig[..] == [0; 65] {
					continue;
				}
				n += 1;
				let sg = ecdsa::Signature::try_from(&sig[..]).map_err(|_| "length: a signature is not of 65 bytes")?;
				let d: [u8; 32] = r.data.clone().try_into().unwrap();
				req!(sg.recover_prehashed(&d) == Some(v.clone().into()), "misplaced: a signature of event {e} stands at another validator's place");
			}
			req!(n >= s.proof_threshold as usize, "few: the proof of {e} has {n} signatures, {} are needed", s.proof_threshold);
		}
		// for the XRPL: the signers' public keys beside their DER signatures
		if let Some(p) = xrpl {
			req!(p.event_id == e && p.block == block && p.validator_set_id == x.id, "served: the XRPL proof of {e} is for event {}, block {:?}, set {}", p.event_id, p.block, p.validator_set_id);
			req!(p.signatures.len() == p.validators.len(), "pairs: {} signatures and {} signers of event {e}", p.signatures.len(), p.validators.len());
			let mut who = vec![];
			for (sig, k) in p.signatures.iter().zip(&p.validators) {
				let Some(v) = x.validators.iter().find(|v| AsRef::<[u8]>::as_ref(*v) == &k[..]) else {
					return Err(format!("signer: the XRPL proof of {e} has a signer that is none"));
				};
				req!(!who.contains(v), "again: a signer of event {e} is there twice");
				who.push(v.clone());
				let d = digest_of(r.chain, &r.data, v).unwrap();
				let der = libsecp256k1::Signature::parse_der(&sig[..]).map_err(|_| "der: a signature is not in DER form")?;
				let q = shim::secp::parse_compressed(k[..].try_into().unwrap()).unwrap();
				req!(shim::secp::verify(&der.serialize(), &d, &q), "misplaced: a signature of event {e} stands beside another signer's key");
				let high = shim::num::U256::from_big_endian(&der.serialize()[32..]) > (shim::secp::n() >> 1);
				req!(!high, "canonical: a signature of event {e} is not the canonical one of the two");
			}
			req!(who.len() >= x.proof_threshold as usize, "few: the XRPL proof of {e} has {} signatures, {} are needed", who.len(), x.proof_threshold);
		}
	}
	let _ = H256::zero();
	Ok(format!("{} served", published.len()))
}
