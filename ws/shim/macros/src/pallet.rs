use super::*;
use punctuated::Punctuated;

fn take_pallet_attr(attrs: &mut Vec<Attribute>) -> Vec<(String, TS)> {
	let mut out = vec![];
	attrs.retain(|a| {
		let p = a.path();
		if p.segments.len() == 2 && p.segments[0].ident == "pallet" {
			let args = match &a.meta {
				Meta::List(l) => l.tokens.clone(),
				Meta::NameValue(nv) => nv.value.to_token_stream(),
				_ => TS::new(),
			};
			out.push((p.segments[1].ident.to_string(), args));
			false
		} else {
			true
		}
	});
	out
}
fn item_attrs(i: &mut Item) -> Option<&mut Vec<Attribute>> {
	Some(match i {
		Item::Struct(x) => &mut x.attrs,
		Item::Enum(x) => &mut x.attrs,
		Item::Trait(x) => &mut x.attrs,
		Item::Type(x) => &mut x.attrs,
		Item::Impl(x) => &mut x.attrs,
		Item::Fn(x) => &mut x.attrs,
		Item::Mod(x) => &mut x.attrs,
		_ => return None,
	})
}
fn cfg_attrs(attrs: &[Attribute]) -> Vec<Attribute> {
	attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect()
}
fn getter_name(args: &TS) -> Ident {
	// `fn name`
	let mut it = args.clone().into_iter();
	it.next();
	parse2(it.collect()).expect("getter")
}
fn strip_bounds(g: &Generics) -> (TS, Vec<Ident>) {
	let ids = type_params(g);
	(if ids.is_empty() { quote!() } else { quote!(<#(#ids),*>) }, ids)
}
struct StoreArgs {
	kind: String,
	path: Path,
	args: Vec<Type>,
}
fn parse_store(ty: &Type) -> StoreArgs {
	let Type::Path(p) = ty else { panic!("storage type must be a path") };
	let seg = p.path.segments.last().unwrap().clone();
	let kind = seg.ident.to_string();
	let PathArguments::AngleBracketed(ab) = &seg.arguments else { panic!("storage generics") };
	let mut pos: Vec<Type> = vec![];
	let mut named: Vec<(String, Type)> = vec![];
	for a in &ab.args {
		match a {
			GenericArgument::Type(t) => pos.push(t.clone()),
			GenericArgument::AssocType(b) => named.push((b.ident.to_string(), b.ty.clone())),
			_ => panic!("unsupported storage generic"),
		}
	}
	if !named.is_empty() {
		let order: &[&str] = match kind.as_str() {
			"StorageValue" => &["Value", "QueryKind", "OnEmpty"],
			"StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
			"StorageDoubleMap" =>
				&["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"],
			"StorageNMap" => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
			_ => panic!("storage kind"),
		};
		pos = vec![parse_quote!(_)];
		for o in order {
			match named.iter().find(|(n, _)| n == o) {
				Some((_, t)) => pos.push(t.clone()),
				None => match *o {
					"QueryKind" => pos.push(parse_quote!(::shim::frame_support::storage::types::OptionQuery)),
					"OnEmpty" | "MaxValues" => pos.push(parse_quote!(::shim::frame_support::traits::GetDefault)),
					_ => panic!("missing storage generic {o}"),
				},
			}
		}
	}
	StoreArgs { kind, path: p.path.clone(), args: pos }
}
fn with_args(path: &Path, args: &[Type]) -> Type {
	let mut p = path.clone();
	let last = p.segments.last_mut().unwrap();
	last.arguments = PathArguments::AngleBracketed(parse_quote!(<#(#args),*>));
	Type::Path(TypePath { qself: None, path: p })
}

fn self_to_t(t: TS) -> TS {
	t.into_iter()
		.map(|x| match x {
			proc_macro2::TokenTree::Ident(i) if i == "Self" => proc_macro2::TokenTree::Ident(Ident::new("T", i.span())),
			proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self_to_t(g.stream()))),
			x => x,
		})
		.collect()
}
pub fn storage_alias(mut item: ItemType) -> TS {
	let mut sa = parse_store(&item.ty);
	let name = &item.ident;
	let vis = &item.vis;
	let prefix = format_ident!("{}_StorageAliasPrefix", name);
	let first = sa.args[0].clone();
	let name_s = name.to_string();
	let (ids, idv) = strip_bounds(&item.generics);
	let (ig, _, wc) = item.generics.split_for_impl();
	let phantom = quote!(::core::marker::PhantomData<(#(#idv,)*)>);
	// first arg: either a bare ident not a generic (used verbatim as pallet prefix) or a type implementing PalletInfoAccess
	let is_bare = match &first {
		Type::Path(p) => p.path.segments.len() == 1 &&
			p.path.segments[0].arguments.is_empty() &&
			!idv.iter().any(|i| p.path.is_ident(i)),
		_ => false,
	};
	let pfx = if is_bare {
		let s = first.to_token_stream().to_string();
		quote!(#s)
	} else {
		quote!(<#first as ::shim::frame_support::traits::PalletInfoAccess>::name())
	};
	sa.args[0] = parse_quote!(#prefix #ids);
	let kind = Ident::new(&sa.kind, name.span());
	let path: Path = parse_quote!(::shim::frame_support::storage::types::#kind);
	let ty = with_args(&path, &sa.args);
	item.attrs.retain(|a| !a.path().is_ident("storage_alias"));
	let attrs = &item.attrs;
	quote!(
		#[allow(non_camel_case_types)]
		#vis struct #prefix #ids (#phantom);
		impl #ig ::shim::frame_support::traits::StorageInstance for #prefix #ids #wc {
			fn pallet_prefix() -> &'static str { #pfx }
			const STORAGE_PREFIX: &'static str = #name_s;
		}
		#(#attrs)*
		#vis type #name #ids = #ty;
	)
}

pub fn expand(mut m: ItemMod) -> TS {
	let (_, items) = m.content.take().expect("inline mod");
	let mut out: Vec<TS> = vec![];
	let mut post: Vec<TS> = vec![];
	let mut has_call = false;
	let mut event: Option<(bool, Option<WhereClause>)> = None;
	let mut has_error = false;
	let mut has_hooks = false;
	let mut has_genesis = false;
	let mut genesis_generic = false;
	let mut has_origin: Option<bool> = None;
	let mut storage_version: Option<TS> = None;
	let mut has_vu = false;

	let mut cfg_wc: Option<WhereClause> = None;
	for mut item in items {
		let pa = match item_attrs(&mut item) {
			Some(a) => take_pallet_attr(a),
			None => vec![],
		};
		let has = |n: &str| pa.iter().any(|(k, _)| k == n);
		let arg = |n: &str| pa.iter().find(|(k, _)| k == n).map(|(_, t)| t.clone());
		if has("pallet") {
			if let Some(v) = arg("storage_version") {
				storage_version = Some(v);
			}
			let Item::Struct(s) = item else { panic!() };
			let vis = &s.vis;
			let attrs = &s.attrs;
			let di: DeriveInput = if type_params(&s.generics).len() > 1 {
				parse_quote!(#vis struct Pallet<T, I: 'static = ()>(::core::marker::PhantomData<(T, I)>);)
			} else {
				parse_quote!(#vis struct Pallet<T>(::core::marker::PhantomData<T>);)
			};
			out.push(quote!(#(#attrs)* #di));
			post.push(impl_clone(&di));
			post.push(impl_debug(&di));
			post.push(impl_partial_eq(&di));
			post.push(impl_eq(&di));
		} else if has("config") {
			let Item::Trait(mut t) = item else { panic!() };
			for i in t.items.iter_mut() {
				match i {
					TraitItem::Type(x) => {
						take_pallet_attr(&mut x.attrs);
					},
					TraitItem::Const(x) => {
						take_pallet_attr(&mut x.attrs);
					},
					TraitItem::Fn(x) => {
						take_pallet_attr(&mut x.attrs);
					},
					_ => {},
				}
			}
			if let Some(w) = &t.generics.where_clause {
				cfg_wc = Some(parse2(self_to_t(w.to_token_stream())).expect("where"));
			}
			out.push(quote!(#t));
		} else if has("storage") {
			let Item::Type(mut t) = item else { panic!() };
			let getter = arg("getter").map(|a| getter_name(&a));
			let cfgs = cfg_attrs(&t.attrs);
			let mut sa = parse_store(&t.ty);
			let name = t.ident.clone();
			let name_s = match arg("storage_prefix") {
				Some(l) => {
					// #[pallet::storage_prefix = "x"] arrives as NameValue, handled below
					l.to_string().trim_matches('"').to_string()
				},
				None => name.to_string(),
			};
			let prefix = format_ident!("_GeneratedPrefixForStorage{}", name);
			let vis = t.vis.clone();
			let g = t.generics.clone();
			let (ids, idv) = strip_bounds(&g);
			sa.args[0] = parse_quote!(#prefix #ids);
			let mut ig: Generics = parse_quote!(<T: Config>);
			if idv.is_empty() {
				// storage without generics is not supported by FRAME either
				ig = parse_quote!(<T: Config>);
			}
			let ty = with_args(&sa.path, &sa.args);
			let _ = &idv;
			t.attrs.push(parse_quote!(#[allow(type_alias_bounds)]));
			t.ty = Box::new(ty);
			out.push(quote!(#t));
			out.push(quote!(
				#(#cfgs)*
				#[doc(hidden)]
				#vis struct #prefix<T>(::core::marker::PhantomData<(T,)>);
				#(#cfgs)*
				impl #ig ::shim::frame_support::traits::StorageInstance for #prefix<T> {
					fn pallet_prefix() -> &'static str {
						<<T as ::shim::frame_system::Config>::PalletInfo as ::shim::frame_support::traits::PalletInfo>::name::<Pallet<T>>()
							.expect("No name found for the pallet in the runtime! This usually means that the pallet wasn't added to `construct_runtime!`.")
					}
					const STORAGE_PREFIX: &'static str = #name_s;
				}
			));
			if let Some(gn) = getter {
				let a = &sa.args;
				let dq: Type = parse_quote!(::shim::frame_support::storage::types::OptionQuery);
				let de: Type = parse_quote!(::shim::frame_support::traits::GetDefault);
				let q = |v: usize| {
					let val = &a[v];
					let qk = a.get(v + 1).unwrap_or(&dq);
					let oe = a.get(v + 2).unwrap_or(&de);
					quote!(<#qk as ::shim::frame_support::storage::types::QueryKindTrait<#val, #oe>>::Query)
				};
				let body = match sa.kind.as_str() {
					"StorageValue" => {
						let q = q(1);
						quote!(pub fn #gn() -> #q { <#name<T>>::get() })
					},
					"StorageMap" | "CountedStorageMap" => {
						let k = &a[2];
						let q = q(3);
						quote!(pub fn #gn<KArg>(k: KArg) -> #q where KArg: ::shim::codec::EncodeLike<#k> { <#name<T>>::get(k) })
					},
					"StorageDoubleMap" => {
						let k1 = &a[2];
						let k2 = &a[4];
						let q = q(5);
						quote!(pub fn #gn<KArg1, KArg2>(k1: KArg1, k2: KArg2) -> #q where KArg1: ::shim::codec::EncodeLike<#k1>, KArg2: ::shim::codec::EncodeLike<#k2> { <#name<T>>::get(k1, k2) })
					},
					"StorageNMap" => {
						let k = &a[1];
						let q = q(2);
						quote!(pub fn #gn<KArg>(key: KArg) -> #q where KArg: ::shim::frame_support::storage::types::EncodeLikeTuple<<#k as ::shim::frame_support::storage::types::KeyGenerator>::KArg> + ::shim::frame_support::storage::types::TupleToEncodedIter { <#name<T>>::get(key) })
					},
					_ => panic!(),
				};
				post.push(quote!(#(#cfgs)* impl<T: Config> Pallet<T> { #body }));
			}
		} else if has("type_value") {
			let Item::Fn(f) = item else { panic!() };
			let vis = &f.vis;
			let name = &f.sig.ident;
			let attrs = &f.attrs;
			let ReturnType::Type(_, rt) = &f.sig.output else { panic!() };
			let b = &f.block;
			let (ids, idv) = strip_bounds(&f.sig.generics);
			let (ig, _, wc) = f.sig.generics.split_for_impl();
			let body = if idv.is_empty() { quote!(;) } else { quote!((::core::marker::PhantomData<(#(#idv,)*)>);) };
			out.push(quote!(
				#(#attrs)*
				#vis struct #name #ids #body
				impl #ig ::shim::frame_support::traits::Get<#rt> for #name #ids #wc { fn get() -> #rt #b }
			));
		} else if has("event") {
			let Item::Enum(mut e) = item else { panic!() };
			let generic = !type_params(&e.generics).is_empty();
			let wc = e.generics.where_clause.clone();
			let extra: Vec<Attribute> = e.attrs.clone();
			e.attrs.clear();
			for v in e.variants.iter_mut() {
				for f in v.fields.iter_mut() {
					take_pallet_attr(&mut f.attrs);
				}
			}
			let mut gimpl: Generics = Generics::default();
			if generic {
				gimpl = parse_quote!(<T: Config>);
				gimpl.where_clause = wc.clone();
				e.generics = gimpl.clone();
				e.variants.push(parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(T,)>, ::shim::frame_support::Never)));
			}
			let di: DeriveInput = DeriveInput {
				attrs: vec![],
				vis: e.vis.clone(),
				ident: e.ident.clone(),
				generics: e.generics.clone(),
				data: Data::Enum(DataEnum {
					enum_token: e.enum_token,
					brace_token: e.brace_token,
					variants: e.variants.clone(),
				}),
			};
			let non_derive: Vec<_> = extra.iter().filter(|a| !a.path().is_ident("derive")).cloned().collect();
			out.push(quote!(#[derive(::shim::codec::Encode, ::shim::codec::Decode)] #[codec(encode_bound())] #[codec(decode_bound())] #(#non_derive)* #e));
			let other: Vec<_> = extra.iter().filter(|a| a.path().is_ident("derive")).map(|a| a.to_token_stream().to_string()).collect();
			let all = other.join(" ");
			if !all.contains("Clone") { post.push(impl_clone(&di)); }
			if !all.contains("Debug") { post.push(impl_debug(&di)); }
			if !all.contains("PartialEq") { post.push(impl_partial_eq(&di)); }
			post.push(impl_eq(&di));
			if let Some(sig) = arg("generate_deposit") {
				let ety = if generic { quote!(Event<T>) } else { quote!(Event) };
				// sig: `pub(super) fn deposit_event`
				post.push(quote!(
					impl<T: Config> Pallet<T> #wc {
						#[allow(dead_code)]
						#sig(event: #ety) {
							let event = <<T as Config>::RuntimeEvent as ::core::convert::From<#ety>>::from(event);
							let event = <<T as Config>::RuntimeEvent as ::core::convert::Into<<T as ::shim::frame_system::Config>::RuntimeEvent>>::into(event);
							::shim::frame_system::Pallet::<T>::deposit_event(event)
						}
					}
				));
			}
			event = Some((generic, wc));
		} else if has("error") {
			let Item::Enum(mut e) = item else { panic!() };
			has_error = true;
			let names: Vec<Ident> = e.variants.iter().map(|v| v.ident.clone()).collect();
			let strs: Vec<String> = names.iter().map(|n| n.to_string()).collect();
			let pats: Vec<TS> = e.variants.iter().map(|v| match &v.fields {
				Fields::Unit => quote!(),
				Fields::Named(_) => quote!({ .. }),
				Fields::Unnamed(_) => quote!((..)),
			}).collect();
			for v in e.variants.iter_mut() {
				v.attrs.retain(|a| !a.path().is_ident("codec"));
			}
			e.generics = parse_quote!(<T>);
			e.variants.insert(0, parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(T,)>, ::shim::frame_support::Never)));
			let attrs: Vec<_> = e.attrs.drain(..).filter(|a| !a.path().is_ident("derive")).collect();
			let di: DeriveInput = DeriveInput {
				attrs: vec![],
				vis: e.vis.clone(),
				ident: e.ident.clone(),
				generics: e.generics.clone(),
				data: Data::Enum(DataEnum { enum_token: e.enum_token, brace_token: e.brace_token, variants: e.variants.clone() }),
			};
			// real FRAME indexes from 0 excluding __Ignore: give explicit indices
			for (i, v) in e.variants.iter_mut().skip(1).enumerate() {
				let i = i as u8;
				v.attrs.push(parse_quote!(#[codec(index = #i)]));
			}
			out.push(quote!(#[derive(::shim::codec::Encode, ::shim::codec::Decode)] #(#attrs)* #e));
			post.push(impl_clone(&di));
			post.push(impl_partial_eq(&di));
			post.push(impl_eq(&di));
			post.push(quote!(
				impl<T> ::core::fmt::Debug for Error<T> {
					fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.as_str()) }
				}
				impl<T> Error<T> {
					#[doc(hidden)]
					pub fn as_str(&self) -> &'static str {
						match self { Self::__Ignore(..) => unreachable!(), #(Self::#names #pats => #strs,)* }
					}
				}
				impl<T> From<Error<T>> for &'static str { fn from(e: Error<T>) -> &'static str { e.as_str() } }
				impl<T: Config> From<Error<T>> for ::shim::sp_runtime::DispatchError {
					fn from(err: Error<T>) -> Self {
						let index = <<T as ::shim::frame_system::Config>::PalletInfo as ::shim::frame_support::traits::PalletInfo>::index::<Pallet<T>>()
							.expect("Every active module has an index in the runtime; qed") as u8;
						let mut enc = ::shim::codec::Encode::encode(&err);
						enc.resize(4, 0);
						::shim::sp_runtime::DispatchError::Module(::shim::sp_runtime::ModuleError {
							index, error: enc[..].try_into().unwrap(), message: Some(err.as_str()),
						})
					}
				}
			));
		} else if has("call") {
			let Item::Impl(mut imp) = item else { panic!() };
			has_call = true;
			expand_call(&mut imp, &mut post);
			out.push(quote!(#imp));
		} else if has("hooks") {
			has_hooks = true;
			out.push(quote!(#item));
		} else if has("validate_unsigned") {
			has_vu = true;
			out.push(quote!(#item));
		} else if has("genesis_config") {
			has_genesis = true;
			match &mut item {
				Item::Struct(s) => {
					genesis_generic = !type_params(&s.generics).is_empty();
					s.attrs.retain(|a| !a.path().is_ident("serde"));
					for f in s.fields.iter_mut() {
						f.attrs.retain(|a| !a.path().is_ident("serde"));
					}
				},
				_ => panic!("genesis enum"),
			}
			out.push(quote!(#item));
		} else if has("genesis_build") {
			let Item::Impl(imp) = &item else { panic!() };
			let st = &imp.self_ty;
			let g = &imp.generics;
			let (ig, _, wc) = g.split_for_impl();
			out.push(quote!(#item));
			post.push(quote!(
				impl #ig ::shim::sp_runtime::BuildStorage for #st #wc {
					fn assimilate_storage(&self, storage: &mut ::shim::sp_core::storage::Storage) -> ::core::result::Result<(), ::std::string::String> {
						::shim::sp_io::BasicExternalities::execute_with_storage(storage, || {
							::shim::frame_support::traits::BuildGenesisConfig::build(self);
							Ok(())
						})
					}
				}
			));
		} else if has("origin") {
			let g = match &item {
				Item::Enum(e) => !type_params(&e.generics).is_empty(),
				Item::Struct(e) => !type_params(&e.generics).is_empty(),
				Item::Type(e) => !type_params(&e.generics).is_empty(),
				_ => panic!(),
			};
			has_origin = Some(g);
			out.push(quote!(#item));
		} else {
			out.push(quote!(#item));
		}
	}
	if !has_call {
		out.push(quote!(
			#[doc(hidden)]
			pub enum Call<T: Config> { #[doc(hidden)] __Ignore(::core::marker::PhantomData<(T,)>, ::shim::frame_support::Never) }
			impl<T: Config> Clone for Call<T> { fn clone(&self) -> Self { match self { Call::__Ignore(_, n) => match *n {} } } }
			impl<T: Config> PartialEq for Call<T> { fn eq(&self, _: &Self) -> bool { true } }
			impl<T: Config> Eq for Call<T> {}
			impl<T: Config> ::core::fmt::Debug for Call<T> { fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { Ok(()) } }
			impl<T: Config> ::shim::codec::Encode for Call<T> { fn encode_to<W: ::shim::codec::Output + ?Sized>(&self, _: &mut W) {} }
			impl<T: Config> ::shim::codec::EncodeLike for Call<T> {}
			impl<T: Config> ::shim::codec::Decode for Call<T> { fn decode<I: ::shim::codec::Input>(_: &mut I) -> ::core::result::Result<Self, ::shim::codec::Error> { Err("no calls".into()) } }
			impl<T: Config> ::shim::frame_support::dispatch::GetDispatchInfo for Call<T> { fn get_dispatch_info(&self) -> ::shim::frame_support::dispatch::DispatchInfo { Default::default() } }
			impl<T: Config> ::shim::frame_support::dispatch::GetCallName for Call<T> {
				fn get_call_name(&self) -> &'static str { "" }
				fn get_call_names() -> &'static [&'static str] { &[] }
			}
			impl<T: Config> ::shim::frame_support::traits::UnfilteredDispatchable for Call<T> {
				type RuntimeOrigin = <T as ::shim::frame_system::Config>::RuntimeOrigin;
				fn dispatch_bypass_filter(self, _: Self::RuntimeOrigin) -> ::shim::frame_support::dispatch::DispatchResultWithPostInfo { match self { Call::__Ignore(_, n) => match n {} } }
			}
			impl<T: Config> ::shim::frame_support::dispatch::Callable<T> for Pallet<T> { type RuntimeCall = Call<T>; }
		));
	}
	let _ = has_vu;
	match &event {
		None => out.push(quote!(
			#[doc(hidden)]
			pub type __EventAlias<T> = ::shim::frame_support::NoVariant<Pallet<T>>;
		)),
		Some((true, _)) => out.push(quote!(#[doc(hidden)] pub type __EventAlias<T> = Event<T>;)),
		Some((false, _)) => out.push(quote!(#[doc(hidden)] pub type __EventAlias<T> = <Event as ::shim::frame_support::IgnoreParam<T>>::Out;)),
	}
	match has_origin {
		None => out.push(quote!(#[doc(hidden)] pub type __OriginAlias<T> = ::shim::frame_support::NoVariant<Pallet<T>>;)),
		Some(true) => out.push(quote!(#[doc(hidden)] pub type __OriginAlias<T> = Origin<T>;)),
		Some(false) => out.push(quote!(#[doc(hidden)] pub type __OriginAlias<T> = <Origin as ::shim::frame_support::IgnoreParam<T>>::Out;)),
	}
	if has_genesis {
		if genesis_generic {
			out.push(quote!(#[doc(hidden)] pub type __GenesisAlias<T> = GenesisConfig<T>;));
		} else {
			out.push(quote!(#[doc(hidden)] pub type __GenesisAlias<T> = <GenesisConfig as ::shim::frame_support::IgnoreParam<T>>::Out;));
		}
	} else {
		out.push(quote!(#[doc(hidden)] pub type __GenesisAlias<T> = ::shim::frame_support::NoGenesis<T>;));
	}
	let _ = has_error;
	if !has_hooks {
		out.push(quote!(impl<T: Config> ::shim::frame_support::traits::Hooks<::shim::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<T> {}));
	}
	let bn = quote!(::shim::frame_system::pallet_prelude::BlockNumberFor<T>);
	let hk = quote!(<Self as ::shim::frame_support::traits::Hooks<#bn>>);
	let w = quote!(::shim::frame_support::weights::Weight);
	out.push(quote!(
		impl<T: Config> ::shim::frame_support::traits::OnInitialize<#bn> for Pallet<T> { fn on_initialize(n: #bn) -> #w { #hk::on_initialize(n) } }
		impl<T: Config> ::shim::frame_support::traits::OnFinalize<#bn> for Pallet<T> { fn on_finalize(n: #bn) { #hk::on_finalize(n) } }
		impl<T: Config> ::shim::frame_support::traits::OnIdle<#bn> for Pallet<T> { fn on_idle(n: #bn, w: #w) -> #w { #hk::on_idle(n, w) } }
		impl<T: Config> ::shim::frame_support::traits::OffchainWorker<#bn> for Pallet<T> { fn offchain_worker(n: #bn) { #hk::offchain_worker(n) } }
		impl<T: Config> ::shim::frame_support::traits::OnRuntimeUpgrade for Pallet<T> { fn on_runtime_upgrade() -> #w { #hk::on_runtime_upgrade() } }
	));
	let sv = storage_version.unwrap_or(quote!(::shim::frame_support::traits::StorageVersion::new(0)));
	out.push(quote!(
		impl<T: Config> ::shim::frame_support::traits::PalletInfoAccess for Pallet<T> {
			fn index() -> usize { <<T as ::shim::frame_system::Config>::PalletInfo as ::shim::frame_support::traits::PalletInfo>::index::<Self>().expect("pallet index") }
			fn name() -> &'static str { <<T as ::shim::frame_system::Config>::PalletInfo as ::shim::frame_support::traits::PalletInfo>::name::<Self>().expect("pallet name") }
			fn name_hash() -> [u8; 16] { ::shim::hashing::twox_128(Self::name().as_bytes()) }
			fn module_name() -> &'static str { Self::name() }
		}
		impl<T: Config> ::shim::frame_support::traits::GetStorageVersion for Pallet<T> {
			type CurrentStorageVersion = ::shim::frame_support::traits::StorageVersion;
			fn current_storage_version() -> ::shim::frame_support::traits::StorageVersion { #sv }
			fn on_chain_storage_version() -> ::shim::frame_support::traits::StorageVersion { ::shim::frame_support::traits::StorageVersion::get::<Pallet<T>>() }
		}
	));
	if let Some(w) = &cfg_wc {
		for ts in out.iter_mut().chain(post.iter_mut()) {
			if let Ok(f) = parse2::<File>(ts.clone()) {
				let mut f = f;
				for it in f.items.iter_mut() {
					let g = match it {
						Item::Impl(x) => &mut x.generics,
						Item::Enum(x) => &mut x.generics,
						Item::Struct(x) => &mut x.generics,
						_ => continue,
					};
					let bounded = g.params.iter().any(|p| match p {
						GenericParam::Type(t) => t.ident == "T" && t.bounds.to_token_stream().to_string().contains("Config"),
						_ => false,
					});
					if bounded {
						let wc = g.make_where_clause();
						for p in &w.predicates {
							wc.predicates.push(p.clone());
						}
					}
				}
				*ts = f.to_token_stream();
			}
		}
	}
	let vis = &m.vis;
	let name = &m.ident;
	let attrs = &m.attrs;
	quote!(
		#(#attrs)*
		#[allow(unused_imports, dead_code, unused_parens, clippy::all)]
		#vis mod #name {
			#(#out)*
			#(#post)*
		}
	)
}

fn expand_call(imp: &mut ItemImpl, post: &mut Vec<TS>) {
	let wc = imp.generics.where_clause.clone();
	struct V {
		name: Ident,
		idx: TS,
		cfgs: Vec<Attribute>,
		args: Vec<(Ident, Type, bool)>,
		weight: TS,
	}
	let mut vs: Vec<V> = vec![];
	for it in imp.items.iter_mut() {
		let ImplItem::Fn(f) = it else { continue };
		let pa = take_pallet_attr(&mut f.attrs);
		let i = vs.len() as u8;
		let idx = pa.iter().find(|(k, _)| k == "call_index").map(|(_, t)| quote!((#t) as u8)).unwrap_or(quote!(#i));
		let weight = pa.iter().find(|(k, _)| k == "weight").map(|(_, t)| t.clone()).unwrap_or(quote!(0u64));
		let mut args = vec![];
		for a in f.sig.inputs.iter_mut().skip(1) {
			let FnArg::Typed(p) = a else { panic!() };
			let ats = take_pallet_attr(&mut p.attrs);
			let Pat::Ident(pi) = &*p.pat else { panic!("call arg pattern") };
			let id = pi.ident.clone();
			args.push((id, (*p.ty).clone(), ats.iter().any(|(k, _)| k == "compact")));
		}
		let b = f.block.clone();
		f.block = parse_quote!({
			::shim::frame_support::storage::with_storage_layer(|| #b)
		});
		vs.push(V { name: f.sig.ident.clone(), idx, cfgs: cfg_attrs(&f.attrs), args, weight });
	}
	let strip = |id: &Ident| -> Ident {
		let s = id.to_string();
		let t = s.trim_start_matches('_');
		if t.is_empty() || t == s { id.clone() } else { Ident::new(t, id.span()) }
	};
	let variants = vs.iter().map(|v| {
		let n = &v.name;
		let c = &v.cfgs;
		let f = v.args.iter().map(|(i, t, comp)| {
			let i = strip(i);
			if *comp { quote!(#[codec(compact)] #i: #t) } else { quote!(#i: #t) }
		});
		let ix = &v.idx;
		quote!(#(#c)* #[codec(index = #ix)] #n { #(#f),* },)
	});
	let e: ItemEnum = parse_quote!(
		pub enum Call<T: Config> #wc {
			#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(T,)>, ::shim::frame_support::Never),
			#(#variants)*
		}
	);
	let di = DeriveInput {
		attrs: vec![],
		vis: e.vis.clone(),
		ident: e.ident.clone(),
		generics: e.generics.clone(),
		data: Data::Enum(DataEnum { enum_token: e.enum_token, brace_token: e.brace_token, variants: e.variants.clone() }),
	};
	// strip cfg-aware handling: pallets here have no cfg'd calls
	post.push(quote!(#[allow(non_camel_case_types)] #[derive(::shim::codec::Encode, ::shim::codec::Decode)] #[codec(encode_bound())] #[codec(decode_bound())] #e));
	post.push(impl_clone(&di));
	post.push(impl_debug(&di));
	post.push(impl_partial_eq(&di));
	post.push(impl_eq(&di));
	let names: Vec<String> = vs.iter().map(|v| v.name.to_string()).collect();
	let ids: Vec<&Ident> = vs.iter().map(|v| &v.name).collect();
	let disp = vs.iter().map(|v| {
		let n = &v.name;
		let a: Vec<Ident> = v.args.iter().map(|(i, _, _)| i.clone()).collect();
		let s: Vec<Ident> = a.iter().map(|i| strip(i)).collect();
		let loc: Vec<Ident> = (0..a.len()).map(|i| format_ident!("__a{}", i)).collect();
		quote!(Self::#n { #(#s: #loc),* } => <Pallet<T>>::#n(__origin, #(#loc),*).map(Into::into).map_err(Into::into),)
	});
	let winfo = vs.iter().map(|v| {
		let n = &v.name;
		let a: Vec<Ident> = v.args.iter().map(|(i, _, _)| i.clone()).collect();
		let s: Vec<Ident> = a.iter().map(|i| strip(i)).collect();
		let w = &v.weight;
		quote!(Self::#n { #(#s: #a),* } => { #[allow(unused_variables)] let _ = (#(&#a,)*); ::shim::frame_support::dispatch::IntoDispatchInfo::into_dispatch_info(#w) },)
	});
	let ctors = vs.iter().map(|v| {
		let n = format_ident!("new_call_variant_{}", v.name);
		let vn = &v.name;
		let a: Vec<Ident> = v.args.iter().map(|(i, _, _)| strip(i)).collect();
		let t = v.args.iter().map(|(_, t, _)| t);
		quote!(#[doc(hidden)] pub fn #n(#(#a: #t),*) -> Self { Self::#vn { #(#a),* } })
	});
	post.push(quote!(
		impl<T: Config> Call<T> #wc { #(#ctors)* }
		impl<T: Config> ::shim::frame_support::dispatch::GetDispatchInfo for Call<T> #wc {
			#[allow(unused_variables, unused_braces)]
			fn get_dispatch_info(&self) -> ::shim::frame_support::dispatch::DispatchInfo {
				match self { Self::__Ignore(..) => unreachable!(), #(#winfo)* }
			}
		}
		impl<T: Config> ::shim::frame_support::dispatch::GetCallName for Call<T> #wc {
			fn get_call_name(&self) -> &'static str { match self { Self::__Ignore(..) => unreachable!(), #(Self::#ids { .. } => #names,)* } }
			fn get_call_names() -> &'static [&'static str] { &[#(#names),*] }
		}
		impl<T: Config> ::shim::frame_support::traits::UnfilteredDispatchable for Call<T> #wc {
			type RuntimeOrigin = <T as ::shim::frame_system::Config>::RuntimeOrigin;
			fn dispatch_bypass_filter(self, __origin: Self::RuntimeOrigin) -> ::shim::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { Self::__Ignore(..) => unreachable!(), #(#disp)* }
			}
		}
		impl<T: Config> ::shim::frame_support::dispatch::Callable<T> for Pallet<T> #wc { type RuntimeCall = Call<T>; }
	));
}
