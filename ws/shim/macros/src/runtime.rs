use super::*;
use proc_macro2::{Delimiter, TokenTree};

/// construct_runtime!( pub enum Test { System: frame_system, Nft: pallet_nft::{Pallet, Call}, X: a::b = 3, } )
pub fn expand(input: TS) -> TS {
	let toks: Vec<TokenTree> = input.into_iter().collect();
	let mut name: Option<Ident> = None;
	let mut body: Option<TS> = None;
	let mut i = 0;
	while i < toks.len() {
		match &toks[i] {
			TokenTree::Ident(id) if (id == "enum" || id == "struct") && name.is_none() => {
				if let TokenTree::Ident(n) = &toks[i + 1] {
					name = Some(n.clone());
				}
			},
			TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => body = Some(g.stream()),
			_ => {},
		}
		i += 1;
	}
	let rt = name.expect("runtime name");
	let body: Vec<TokenTree> = body.expect("body").into_iter().collect();
	// split on commas
	let mut entries: Vec<Vec<TokenTree>> = vec![vec![]];
	for t in body {
		if let TokenTree::Punct(p) = &t {
			if p.as_char() == ',' {
				entries.push(vec![]);
				continue;
			}
		}
		entries.last_mut().unwrap().push(t);
	}
	struct P {
		name: Ident,
		path: TS,
		index: usize,
		attrs: TS,
	}
	let mut ps: Vec<P> = vec![];
	let mut next = 0usize;
	for e in entries.into_iter().filter(|e| !e.is_empty()) {
		let mut it = e.into_iter().peekable();
		let mut attrs = TS::new();
		while let Some(TokenTree::Punct(p)) = it.peek() {
			if p.as_char() != '#' {
				break;
			}
			let h = it.next().unwrap();
			let g = it.next().unwrap();
			attrs.extend([h, g]);
		}
		let Some(TokenTree::Ident(n)) = it.next() else { panic!("pallet name") };
		it.next(); // ':'
		let mut path: Vec<TokenTree> = vec![];
		let mut idx = None;
		while let Some(t) = it.next() {
			match &t {
				TokenTree::Group(_) => {
					// parts list; drop trailing `::`
				},
				TokenTree::Punct(p) if p.as_char() == '=' => {
					if let Some(TokenTree::Literal(l)) = it.next() {
						idx = Some(l.to_string().parse::<usize>().unwrap());
					}
				},
				TokenTree::Punct(p) if p.as_char() == '<' => {
					// generic / config list like `<T>`: skip to '>'
					for t in it.by_ref() {
						if let TokenTree::Punct(p) = &t {
							if p.as_char() == '>' {
								break;
							}
						}
					}
				},
				_ => path.push(t),
			}
		}
		while let Some(TokenTree::Punct(p)) = path.last() {
			if p.as_char() == ':' {
				path.pop();
			} else {
				break;
			}
		}
		let index = idx.unwrap_or(next);
		next = index + 1;
		ps.push(P { name: n, path: path.into_iter().collect(), index, attrs });
	}
	let _ = ps.iter().map(|p| p.attrs.clone()).count();
	let is_sys = |p: &P| p.path.to_string().replace(' ', "").ends_with("frame_system");
	let names: Vec<_> = ps.iter().map(|p| p.name.clone()).collect();
	let paths: Vec<_> = ps.iter().map(|p| p.path.clone()).collect();
	let strs: Vec<_> = ps.iter().map(|p| p.name.to_string()).collect();
	let idxs: Vec<_> = ps.iter().map(|p| p.index).collect();
	let idx8: Vec<_> = ps.iter().map(|p| p.index as u8).collect();
	let snake: Vec<_> = ps.iter().map(|p| {
		let mut s = String::new();
		let n = p.name.to_string();
		let cs: Vec<char> = n.chars().collect();
		for (i, c) in cs.iter().enumerate() {
			if c.is_uppercase() && i > 0 && (cs[i - 1].is_lowercase() || (i + 1 < cs.len() && cs[i + 1].is_lowercase())) {
				s.push('_');
			}
			s.push(c.to_ascii_lowercase());
		}
		format_ident!("{}", s)
	}).collect();
	let caller_variants: Vec<Ident> = ps.iter().map(|p| if is_sys(p) { format_ident!("system") } else { p.name.clone() }).collect();
	let nonsys: Vec<&P> = ps.iter().filter(|p| !is_sys(p)).collect();
	let ns_names: Vec<_> = nonsys.iter().map(|p| p.name.clone()).collect();
	let ns_paths: Vec<_> = nonsys.iter().map(|p| p.path.clone()).collect();
	let ns_idx8: Vec<_> = nonsys.iter().map(|p| p.index as u8).collect();
	let _ = caller_variants;

	quote!(
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		pub struct #rt;
		impl ::shim::frame_support::Runtime for #rt {}
		#(pub type #names = #paths::Pallet<#rt>;)*
		pub type AllPalletsWithSystem = (#(#names,)*);
		pub type AllPalletsWithoutSystem = (#(#ns_names,)*);

		pub struct PalletInfo;
		impl ::shim::frame_support::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> Option<usize> {
				let t = ::core::any::TypeId::of::<P>();
				#(if t == ::core::any::TypeId::of::<#names>() { return Some(#idxs); })*
				None
			}
			fn name<P: 'static>() -> Option<&'static str> {
				let t = ::core::any::TypeId::of::<P>();
				#(if t == ::core::any::TypeId::of::<#names>() { return Some(#strs); })*
				None
			}
			fn name_hash<P: 'static>() -> Option<[u8; 16]> { Self::name::<P>().map(|n| ::shim::hashing::twox_128(n.as_bytes())) }
			fn module_name<P: 'static>() -> Option<&'static str> { Self::name::<P>() }
		}

		#[derive(Clone, PartialEq, Eq, Debug, ::shim::codec::Encode, ::shim::codec::Decode)]
		#[allow(non_camel_case_types)]
		pub enum RuntimeEvent {
			#(#[codec(index = #idx8)] #names(#paths::__EventAlias<#rt>),)*
		}
		#(
			impl From<#paths::__EventAlias<#rt>> for RuntimeEvent { fn from(e: #paths::__EventAlias<#rt>) -> Self { RuntimeEvent::#names(e) } }
			impl TryFrom<RuntimeEvent> for #paths::__EventAlias<#rt> {
				type Error = ();
				#[allow(unreachable_patterns)]
				fn try_from(e: RuntimeEvent) -> Result<Self, ()> { match e { RuntimeEvent::#names(x) => Ok(x), _ => Err(()) } }
			}
		)*

		#[derive(Clone, PartialEq, Eq, Debug, ::shim::codec::Encode, ::shim::codec::Decode)]
		pub enum RuntimeCall {
			#(#[codec(index = #idx8)] #names(#paths::Call<#rt>),)*
		}
		#(
			impl From<#paths::Call<#rt>> for RuntimeCall { fn from(c: #paths::Call<#rt>) -> Self { RuntimeCall::#names(c) } }
			impl ::shim::frame_support::traits::IsSubType<#paths::Call<#rt>> for RuntimeCall {
				#[allow(unreachable_patterns)]
				fn is_sub_type(&self) -> Option<&#paths::Call<#rt>> { match self { RuntimeCall::#names(c) => Some(c), _ => None } }
			}
		)*
		impl ::shim::frame_support::dispatch::GetDispatchInfo for RuntimeCall {
			fn get_dispatch_info(&self) -> ::shim::frame_support::dispatch::DispatchInfo {
				match self { #(RuntimeCall::#names(c) => ::shim::frame_support::dispatch::GetDispatchInfo::get_dispatch_info(c),)* }
			}
		}
		impl ::shim::frame_support::dispatch::CheckIfFeeless for RuntimeCall {
			type Origin = RuntimeOrigin;
			fn is_feeless(&self, _: &RuntimeOrigin) -> bool { false }
		}
		impl ::shim::frame_support::dispatch::GetCallMetadata for RuntimeCall {
			fn get_module_names() -> &'static [&'static str] { &[#(#strs),*] }
			fn get_call_names(module: &str) -> &'static [&'static str] {
				match module { #(#strs => <#paths::Call<#rt> as ::shim::frame_support::dispatch::GetCallName>::get_call_names(),)* _ => unreachable!() }
			}
			fn get_call_metadata(&self) -> ::shim::frame_support::dispatch::CallMetadata {
				match self { #(RuntimeCall::#names(c) => ::shim::frame_support::dispatch::CallMetadata {
					function_name: ::shim::frame_support::dispatch::GetCallName::get_call_name(c), pallet_name: #strs },)* }
			}
		}
		impl ::shim::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> ::shim::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { #(RuntimeCall::#names(c) => ::shim::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, origin),)* }
			}
		}
		impl ::shim::sp_runtime::traits::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = ::shim::frame_support::dispatch::DispatchInfo;
			type PostInfo = ::shim::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, origin: RuntimeOrigin) -> ::shim::frame_support::dispatch::DispatchResultWithPostInfo {
				if !<RuntimeOrigin as ::shim::frame_support::traits::OriginTrait>::filter_call(&origin, &self) {
					return Err(::shim::frame_support::dispatch::DispatchErrorWithPostInfo::from(
						<::shim::frame_system::Error::<#rt> as Into<::shim::sp_runtime::DispatchError>>::into(::shim::frame_system::Error::<#rt>::CallFiltered)));
				}
				::shim::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
			}
		}

		#[derive(Clone, PartialEq, Eq, Debug, ::shim::codec::Encode, ::shim::codec::Decode, ::shim::codec::MaxEncodedLen)]
		#[allow(non_camel_case_types)]
		pub enum OriginCaller {
			#[codec(index = 0)]
			system(::shim::frame_system::Origin<#rt>),
			#(#[codec(index = #ns_idx8)] #ns_names(#ns_paths::__OriginAlias<#rt>),)*
			#[allow(dead_code)]
			#[codec(index = 255)]
			Void(::shim::frame_support::Void),
		}
		impl From<::shim::frame_system::Origin<#rt>> for OriginCaller { fn from(x: ::shim::frame_system::Origin<#rt>) -> Self { OriginCaller::system(x) } }
		impl TryFrom<OriginCaller> for ::shim::frame_system::Origin<#rt> {
			type Error = OriginCaller;
			fn try_from(x: OriginCaller) -> Result<Self, OriginCaller> { if let OriginCaller::system(l) = x { Ok(l) } else { Err(x) } }
		}
		impl ::shim::frame_support::traits::CallerTrait<<#rt as ::shim::frame_system::Config>::AccountId> for OriginCaller {
			fn into_system(self) -> Option<::shim::frame_system::RawOrigin<<#rt as ::shim::frame_system::Config>::AccountId>> { match self { OriginCaller::system(x) => Some(x), _ => None } }
			fn as_system_ref(&self) -> Option<&::shim::frame_system::RawOrigin<<#rt as ::shim::frame_system::Config>::AccountId>> { match self { OriginCaller::system(x) => Some(x), _ => None } }
		}
		#(
			impl From<#ns_paths::__OriginAlias<#rt>> for OriginCaller { fn from(e: #ns_paths::__OriginAlias<#rt>) -> Self { OriginCaller::#ns_names(e) } }
			impl From<#ns_paths::__OriginAlias<#rt>> for RuntimeOrigin { fn from(e: #ns_paths::__OriginAlias<#rt>) -> Self { OriginCaller::#ns_names(e).into() } }
			impl From<RuntimeOrigin> for Result<#ns_paths::__OriginAlias<#rt>, RuntimeOrigin> {
				fn from(val: RuntimeOrigin) -> Self { if let OriginCaller::#ns_names(l) = val.caller { Ok(l) } else { Err(val) } }
			}
			impl TryFrom<OriginCaller> for #ns_paths::__OriginAlias<#rt> {
				type Error = OriginCaller;
				fn try_from(x: OriginCaller) -> Result<Self, OriginCaller> { if let OriginCaller::#ns_names(l) = x { Ok(l) } else { Err(x) } }
			}
		)*

		#[derive(Clone)]
		pub struct RuntimeOrigin {
			pub caller: OriginCaller,
			filter: ::std::rc::Rc<::std::boxed::Box<dyn Fn(&RuntimeCall) -> bool>>,
		}
		impl ::core::fmt::Debug for RuntimeOrigin {
			fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.debug_struct("Origin").field("caller", &self.caller).finish() }
		}
		impl PartialEq for RuntimeOrigin { fn eq(&self, o: &Self) -> bool { self.caller == o.caller } }
		impl From<OriginCaller> for RuntimeOrigin {
			fn from(caller: OriginCaller) -> Self {
				let mut o = RuntimeOrigin { caller, filter: ::std::rc::Rc::new(::std::boxed::Box::new(|_| true)) };
				<Self as ::shim::frame_support::traits::OriginTrait>::reset_filter(&mut o);
				o
			}
		}
		impl From<::shim::frame_system::Origin<#rt>> for RuntimeOrigin {
			fn from(x: ::shim::frame_system::Origin<#rt>) -> Self { let o: OriginCaller = x.into(); o.into() }
		}
		impl From<Option<<#rt as ::shim::frame_system::Config>::AccountId>> for RuntimeOrigin {
			fn from(x: Option<<#rt as ::shim::frame_system::Config>::AccountId>) -> Self { <::shim::frame_system::Origin<#rt>>::from(x).into() }
		}
		impl From<RuntimeOrigin> for Result<::shim::frame_system::Origin<#rt>, RuntimeOrigin> {
			fn from(val: RuntimeOrigin) -> Self {
				if let OriginCaller::system(l) = val.caller { Ok(l) } else { Err(val) }
			}
		}
		impl ::core::convert::AsRef<OriginCaller> for RuntimeOrigin { fn as_ref(&self) -> &OriginCaller { &self.caller } }
		impl ::shim::frame_support::traits::OriginTrait for RuntimeOrigin {
			type Call = RuntimeCall;
			type PalletsOrigin = OriginCaller;
			type AccountId = <#rt as ::shim::frame_system::Config>::AccountId;
			fn add_filter(&mut self, filter: impl Fn(&RuntimeCall) -> bool + 'static) {
				let f = self.filter.clone();
				self.filter = ::std::rc::Rc::new(::std::boxed::Box::new(move |c| f(c) && filter(c)));
			}
			fn reset_filter(&mut self) {
				self.filter = ::std::rc::Rc::new(::std::boxed::Box::new(|c| <<#rt as ::shim::frame_system::Config>::BaseCallFilter as ::shim::frame_support::traits::Contains<RuntimeCall>>::contains(c)));
			}
			fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller; }
			fn filter_call(&self, call: &RuntimeCall) -> bool {
				match self.caller {
					// root bypasses all filters
					OriginCaller::system(::shim::frame_system::Origin::<#rt>::Root) => true,
					_ => (self.filter)(call),
				}
			}
			fn caller(&self) -> &OriginCaller { &self.caller }
			fn into_caller(self) -> OriginCaller { self.caller }
			fn try_with_caller<R>(mut self, f: impl FnOnce(OriginCaller) -> Result<R, OriginCaller>) -> Result<R, Self> {
				match f(self.caller) { Ok(r) => Ok(r), Err(caller) => { self.caller = caller; Err(self) } }
			}
			fn none() -> Self { ::shim::frame_system::RawOrigin::None.into() }
			fn root() -> Self { ::shim::frame_system::RawOrigin::Root.into() }
			fn signed(by: Self::AccountId) -> Self { ::shim::frame_system::RawOrigin::Signed(by).into() }
			fn as_signed(self) -> Option<Self::AccountId> { match self.caller { OriginCaller::system(::shim::frame_system::RawOrigin::Signed(a)) => Some(a), _ => None } }
			fn as_system_ref(&self) -> Option<&::shim::frame_system::RawOrigin<Self::AccountId>> { match &self.caller { OriginCaller::system(x) => Some(x), _ => None } }
		}
		impl RuntimeOrigin {
			#[allow(dead_code)]
			pub fn none() -> Self { <Self as ::shim::frame_support::traits::OriginTrait>::none() }
			#[allow(dead_code)]
			pub fn root() -> Self { <Self as ::shim::frame_support::traits::OriginTrait>::root() }
			#[allow(dead_code)]
			pub fn signed(by: <#rt as ::shim::frame_system::Config>::AccountId) -> Self { <Self as ::shim::frame_support::traits::OriginTrait>::signed(by) }
		}

		#[derive(Default)]
		pub struct RuntimeGenesisConfig {
			#(pub #snake: #paths::__GenesisAlias<#rt>,)*
		}
		impl ::shim::sp_runtime::BuildStorage for RuntimeGenesisConfig {
			fn assimilate_storage(&self, storage: &mut ::shim::sp_core::storage::Storage) -> ::core::result::Result<(), ::std::string::String> {
				#(::shim::sp_runtime::BuildStorage::assimilate_storage(&self.#snake, storage)?;)*
				Ok(())
			}
		}
	)
}
