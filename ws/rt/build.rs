//! Extracts from /repo/runtime/src/lib.rs the configuration of the modelled pallets (and the types,
//! constants and parameters it needs) so the harness runs the chain's own wiring and limits.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::VisitMut;
const SRC: &str = "/repo/runtime/src/lib.rs";
const PALLETS: &[&str] = &[
	"frame_system",
	"pallet_transaction_payment",
	"pallet_balances",
	"pallet_assets",
	"pallet_assets_ext",
	"pallet_nfi",
	"pallet_nft",
	"pallet_marketplace",
	"pallet_sft",
	"pallet_xls20",
	"pallet_echo",
	"pallet_fee_proxy",
	"pallet_scheduler",
	"pallet_utility",
	"pallet_xrpl_bridge",
	"pallet_xrpl",
	"pallet_dex",
	"pallet_token_approvals",
	"pallet_timestamp",
	"pallet_sudo",
	"pallet_tx_fee_pot",
	"pallet_ethy",
	"pallet_evm_chain_id",
	"pallet_evm",
	"pallet_erc20_peg",
	"pallet_nft_peg",
	"pallet_fee_control",
	"pallet_doughnut",
	"pallet_proxy",
	"pallet_futurepass",
	"pallet_vortex_distribution",
	"pallet_maintenance_mode",
	"pallet_crowdsale",
	"pallet_migration",
	"pallet_staking",
];
/// pallets that only exist as stubs in the harness: in construct_runtime, config written by hand
const STUBS: &[&str] = &["pallet_session", "pallet_im_online"];
/// type names the shim has no use for
const UNIT_TYPES: &[&str] = &[
	"Version",
	"BlockWeights",
	"BlockLength",
	"SystemWeightInfo",
	"WeightInfo",
	"NftPegWeightInfo",
	"MaxNominations",
	"CurrencyToVote",
	"ElectionProvider",
	"GenesisElectionProvider",
	"VoterList",
	"TargetList",
	"BenchmarkingConfig",
	"SessionInterface",
	"NextNewSession",
	"EventListeners",
	"Preimages",
	"OnTimestampSet",
	"EthyId_",
	"FeeMultiplierUpdate",
];
fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
	for t in ts {
		match t {
			TokenTree::Ident(i) => {
				out.insert(i.to_string());
			},
			TokenTree::Group(g) => idents(g.stream(), out),
			_ => {},
		}
	}
}
fn ids<T: ToTokens>(t: &T) -> BTreeSet<String> {
	let mut s = BTreeSet::new();
	idents(t.to_token_stream(), &mut s);
	s
}
struct DropArms;
impl VisitMut for DropArms {
	fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
		m.arms.retain(|a| {
			let i = ids(&a.pat);
			!(i.contains("Ethereum") || i.contains("pallet_ethereum"))
		});
		syn::visit_mut::visit_expr_match_mut(self, m);
	}
}
fn main() {
	println!("cargo:rerun-if-changed={SRC}");
	println!("cargo:rerun-if-changed=build.rs");
	let src = std::fs::read_to_string(SRC).unwrap();
	let file = syn::parse_file(&src).unwrap();
	let mut out = TokenStream::new();
	let mut pool: Vec<(String, TokenStream)> = vec![]; // named definitions, pulled in on use
	let mut asset_check = None;
	let mut apis = TokenStream::new();
	for item in file.items {
		match item {
			syn::Item::Impl(mut im) => {
				im.items.retain(|i| !matches!(i, syn::ImplItem::Macro(_)));
				let Some((_, tr, _)) = im.trait_.clone() else { continue };
				let ty = im.self_ty.to_token_stream().to_string();
				let segs: Vec<String> = tr.segments.iter().map(|s| s.ident.to_string()).collect();
				let first = segs[0].as_str();
				let keep = match ty.as_str() {
					"Runtime" => (segs.len() == 2 && segs[1] == "Config" && PALLETS.contains(&first)) || segs.last().unwrap() == "SigningTypes",
					"FeeControlWeightToFee" | "FeeControlLengthToFee" | "CallFilter" => true,
					"RuntimeCall" => segs.last().unwrap() == "SelfContainedCall",
					_ => false,
				};
				if !keep {
					continue;
				}
				for i in im.items.iter_mut() {
					if let syn::ImplItem::Type(t) = i {
						let n = t.ident.to_string();
						if UNIT_TYPES.contains(&n.as_str()) {
							t.ty = syn::parse_quote!(());
						}
					}
				}
				if first == "pallet_evm" {
					for i in im.items.iter_mut() {
						if let syn::ImplItem::Type(t) = i {
							if t.ident == "WeightInfo" {
								t.ty = syn::parse_quote!(());
							}
						}
					}
				}
				DropArms.visit_item_impl_mut(&mut im);
				out.extend(im.to_token_stream());
			},
			syn::Item::Struct(s) => {
				let n = s.ident.to_string();
				pool.push((n, s.to_token_stream()))
			},
			syn::Item::Enum(s) => pool.push((s.ident.to_string(), s.to_token_stream())),
			syn::Item::Type(s) => pool.push((s.ident.to_string(), s.to_token_stream())),
			syn::Item::Const(s) => pool.push((s.ident.to_string(), s.to_token_stream())),
			syn::Item::Fn(mut f) => {
				f.vis = syn::parse_quote!(pub);
				let n = f.sig.ident.to_string();
				let types: Vec<String> = f
					.sig
					.inputs
					.iter()
					.map(|a| match a {
						syn::FnArg::Typed(t) => t.ty.to_token_stream().to_string().replace(' ', ""),
						_ => String::new(),
					})
					.collect();
				if n == "transaction_asset_check" && types == ["&H160", "EthereumTransaction", "TransactionAction"] {
					asset_check = Some(f.sig.ident.clone());
				}
				pool.push((n, f.to_token_stream()))
			},
			syn::Item::Macro(m) => {
				let name = m.mac.path.segments.last().unwrap().ident.to_string();
				if name == "parameter_types" {
					let mut cur: Vec<TokenTree> = vec![];
					for t in m.mac.tokens.clone() {
						let end = matches!(&t, TokenTree::Punct(p) if p.as_char() == ';');
						cur.push(t);
						if end {
							let e: Vec<TokenTree> = std::mem::take(&mut cur);
							let mut it = e.iter().skip_while(|t| !matches!(t, TokenTree::Ident(i) if i == "pub")).skip(1);
							let mut n = it.next().unwrap().to_string();
							if n == "const" {
								n = it.next().unwrap().to_string();
							}
							let ts: TokenStream = e.into_iter().collect();
							pool.push((n, quote!(frame_support::parameter_types! { #ts })));
						}
					}
				} else if name == "impl_runtime_apis" {
					let Ok(f) = syn::parse2::<syn::File>(m.mac.tokens.clone()) else { continue };
					for item in f.items {
						let syn::Item::Impl(im) = item else { continue };
						let Some((_, tr, _)) = im.trait_ else { continue };
						let t = tr.segments.last().unwrap().ident.clone();
						let which = match t.to_string().as_str() {
							"DexApi" | "NftApi" | "AssetsExtApi" | "SftApi" | "EthyApi" | "AccountNonceApi" => None,
							"EthereumRuntimeRPCApi" => Some(["chain_id", "account_basic", "gas_price", "account_code_at", "storage_at"]),
							_ => continue,
						};
						let fns = im.items.iter().filter_map(|i| match i {
							syn::ImplItem::Fn(f) if which.map_or(true, |w| w.contains(&f.sig.ident.to_string().as_str())) => {
								Some(quote!(pub #f))
							},
							_ => None,
						});
						apis.extend(quote!(pub struct #t; impl #t { #(#fns)* }));
					}
				} else if name == "construct_runtime" {
					for t in m.mac.tokens.clone() {
						let TokenTree::Group(g) = t else { continue };
						if g.delimiter() != Delimiter::Brace {
							continue;
						}
						let mut body = TokenStream::new();
						let mut cur: Vec<TokenTree> = vec![];
						for t in g.stream().into_iter().chain(std::iter::once(TokenTree::Punct(proc_macro2::Punct::new(',', proc_macro2::Spacing::Alone)))) {
							if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') {
								let e = std::mem::take(&mut cur);
								let names: Vec<String> = e.iter().filter_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None }).collect();
								let hist = names.iter().any(|n| n == "historical");
								if !hist && names.len() >= 2 && (PALLETS.contains(&names[1].as_str()) || STUBS.contains(&names[1].as_str())) {
									body.extend(e);
									body.extend(quote!(,));
								}
							} else {
								cur.push(t);
							}
						}
						out.extend(quote!(frame_support::construct_runtime!( pub enum Runtime { #body } );));
					}
				}
			},
			_ => {},
		}
	}
	out.extend(quote! {
		pub mod api {
			use super::*;
			use alloc::{string::String, vec::Vec};
			use pallet_dex::TradingPairStatus;
			use pallet_evm::Account as EVMAccount;
			#apis
		}
	});
	// the payment check of Ethereum transactions, if it is still there in this shape
	let body = match asset_check {
		Some(f) => quote!(Some(#f(source, transaction, action))),
		None => quote!(None),
	};
	out.extend(quote! {
		pub fn ethereum_asset_check(
			source: &H160,
			transaction: EthereumTransaction,
			action: TransactionAction,
		) -> Option<Result<(), TransactionValidityError>> { #body }
	});
	// definitions reachable from what was kept (and from impls.rs, precompiles.rs)
	let skip = ["SessionKeys", "VERSION", "Version", "Header", "Block", "SignedBlock", "BlockId", "SignedExtra", "UncheckedExtrinsic", "CheckedExtrinsic", "Executive", "MaxNominations", "MaximumSchedulerWeight", "RuntimeBlockWeights"];
	let mut need = BTreeSet::new();
	idents(out.clone(), &mut need);
	for f in ["/repo/runtime/src/impls.rs", "/repo/runtime/src/precompiles.rs"] {
		println!("cargo:rerun-if-changed={f}");
		let f = syn::parse_file(&std::fs::read_to_string(f).unwrap()).unwrap();
		need.extend(ids(&f));
	}
	let mut done = BTreeSet::new();
	loop {
		let mut grew = false;
		for (n, ts) in &pool {
			if need.contains(n) && !done.contains(n) && !skip.contains(&n.as_str()) {
				done.insert(n.clone());
				idents(ts.clone(), &mut need);
				out.extend(ts.clone());
				grew = true;
			}
		}
		if !grew {
			break;
		}
	}
	let dir = std::env::var("OUT_DIR").unwrap();
	std::fs::write(format!("{dir}/runtime.rs"), out.to_string()).unwrap();
}
