//! Procedural macros of the FRAME stand-in: SCALE derives, *NoBound derives, `pallet`,
//! `construct_runtime`, `transactional`, `storage_alias`, `hex!`, `paste!`, `impl_for_tuples`.
extern crate proc_macro;
use proc_macro::TokenStream;
use proc_macro2::{Span, TokenStream as TS};
use quote::{format_ident, quote, ToTokens};
use syn::{visit::Visit, *};

mod misc;
mod pallet;
mod runtime;

struct HasParam<'a> {
	params: &'a [Ident],
	found: bool,
}
impl<'a, 'ast> Visit<'ast> for HasParam<'a> {
	fn visit_ident(&mut self, i: &'ast Ident) {
		if self.params.iter().any(|p| p == i) {
			self.found = true;
		}
	}
}
fn type_params(g: &Generics) -> Vec<Ident> {
	g.type_params().map(|p| p.ident.clone()).collect()
}
fn is_phantom(t: &Type) -> bool {
	if let Type::Path(p) = t {
		p.path.segments.last().map(|s| s.ident == "PhantomData").unwrap_or(false)
	} else {
		false
	}
}
pub(crate) fn uses_param(t: &Type, params: &[Ident]) -> bool {
	let mut v = HasParam { params, found: false };
	v.visit_type(t);
	v.found
}
#[derive(Default, Clone)]
struct CodecAttr {
	index: Option<Expr>,
	compact: bool,
	skip: bool,
	mel_bound: Option<TS>,
	encode_bound: Option<TS>,
	decode_bound: Option<TS>,
}
fn codec_attrs(attrs: &[Attribute]) -> CodecAttr {
	let mut r = CodecAttr::default();
	for a in attrs.iter().filter(|a| a.path().is_ident("codec")) {
		let Meta::List(l) = &a.meta else { continue };
		let toks: Vec<proc_macro2::TokenTree> = l.tokens.clone().into_iter().collect();
		let name = toks.first().map(|t| t.to_string()).unwrap_or_default();
		let group = || match toks.get(1) {
			Some(proc_macro2::TokenTree::Group(g)) => g.stream(),
			_ => TS::new(),
		};
		match name.as_str() {
			"index" => {
				let rest: TS = toks[2..].iter().cloned().collect();
				r.index = syn::parse2(rest).ok();
			},
			"compact" => r.compact = true,
			"skip" => r.skip = true,
			"mel_bound" => r.mel_bound = Some(group()),
			"encode_bound" => r.encode_bound = Some(group()),
			"decode_bound" => r.decode_bound = Some(group()),
			_ => {},
		}
	}
	r
}
fn all_fields(d: &Data) -> Vec<Field> {
	match d {
		Data::Struct(s) => s.fields.iter().cloned().collect(),
		Data::Enum(e) => e.variants.iter().flat_map(|v| v.fields.iter().cloned()).collect(),
		Data::Union(_) => vec![],
	}
}
fn bounds(input: &DeriveInput, tr: TS, explicit: Option<TS>) -> Generics {
	let mut g = input.generics.clone();
	let params = type_params(&g);
	if let Some(e) = explicit {
		let w = g.make_where_clause();
		if !e.is_empty() {
			let preds: punctuated::Punctuated<WherePredicate, Token![,]> =
				parse::Parser::parse2(punctuated::Punctuated::parse_terminated, e).expect("bound");
			w.predicates.extend(preds);
		}
		return g;
	}
	if params.is_empty() {
		return g;
	}
	let self_ident = input.ident.clone();
	let fields = all_fields(&input.data);
	let w = g.make_where_clause();
	for f in fields {
		if codec_attrs(&f.attrs).skip || is_phantom(&f.ty) {
			continue;
		}
		if uses_param(&f.ty, &params) && !uses_param(&f.ty, &[self_ident.clone()]) {
			let t = &f.ty;
			if codec_attrs(&f.attrs).compact {
				w.predicates.push(parse_quote!(#t: ::shim::codec::HasCompact));
			} else {
				w.predicates.push(parse_quote!(#t: #tr));
			}
		}
	}
	g
}
fn variant_index(i: usize, v: &Variant, next: &mut usize) -> TS {
	let _ = i;
	if let Some(e) = codec_attrs(&v.attrs).index {
		return quote!((#e) as u8);
	}
	if let Some((_, e)) = &v.discriminant {
		return quote!((#e) as u8);
	}
	let n = *next as u8;
	quote!(#n)
}
fn indices(e: &DataEnum) -> Vec<TS> {
	let mut out = vec![];
	for (i, v) in e.variants.iter().enumerate() {
		let mut n = i;
		out.push(variant_index(i, v, &mut n));
	}
	out
}
fn skipped(v: &Variant) -> bool {
	codec_attrs(&v.attrs).skip
}
fn bind_fields(fields: &Fields) -> (TS, Vec<Ident>) {
	match fields {
		Fields::Named(n) => {
			let names: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
			let vars: Vec<_> = (0..names.len()).map(|i| format_ident!("__f{}", i)).collect();
			(quote!({ #(#names: #vars),* }), vars)
		},
		Fields::Unnamed(u) => {
			let vars: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("__f{}", i)).collect();
			(quote!(( #(#vars),* )), vars)
		},
		Fields::Unit => (quote!(), vec![]),
	}
}
fn enc_field(v: &Ident, f: &Field) -> TS {
	let a = codec_attrs(&f.attrs);
	if a.skip {
		return quote!(let _ = #v;);
	}
	let t = &f.ty;
	if a.compact {
		return quote!(::shim::codec::Encode::encode_to(&<<#t as ::shim::codec::HasCompact>::Type as ::core::convert::From<#t>>::from(::core::clone::Clone::clone(#v)), __d););
	}
	quote!(::shim::codec::Encode::encode_to(#v, __d);)
}
fn dec_field(f: &Field) -> TS {
	let a = codec_attrs(&f.attrs);
	let t = &f.ty;
	if a.skip {
		return quote!(::core::default::Default::default());
	}
	if a.compact {
		return quote!(::core::convert::Into::into(<<#t as ::shim::codec::HasCompact>::Type as ::shim::codec::Decode>::decode(__i)?));
	}
	quote!(<#t as ::shim::codec::Decode>::decode(__i)?)
}
fn dec_fields(fields: &Fields) -> TS {
	match fields {
		Fields::Named(n) => {
			let names = n.named.iter().map(|f| f.ident.clone().unwrap());
			let d = n.named.iter().map(dec_field);
			quote!({ #(#names: #d),* })
		},
		Fields::Unnamed(u) => {
			let d = u.unnamed.iter().map(dec_field);
			quote!(( #(#d),* ))
		},
		Fields::Unit => quote!(),
	}
}
#[proc_macro_derive(Encode, attributes(codec))]
pub fn derive_encode(i: TokenStream) -> TokenStream {
	let input: DeriveInput = parse_macro_input!(i);
	let name = &input.ident;
	let g = bounds(&input, quote!(::shim::codec::Encode), codec_attrs(&input.attrs).encode_bound);
	let (ig, tg, wc) = g.split_for_impl();
	let body = match &input.data {
		Data::Struct(s) => {
			let (pat, vars) = bind_fields(&s.fields);
			let e = vars.iter().zip(s.fields.iter()).map(|(v, f)| enc_field(v, f));
			quote!(let #name #pat = self; #(#e)*)
		},
		Data::Enum(en) => {
			let idx = indices(en);
			if en.variants.is_empty() {
				quote!(match *self {})
			} else {
				let arms = en.variants.iter().zip(idx).map(|(v, ix)| {
					let vn = &v.ident;
					let (pat, vars) = bind_fields(&v.fields);
					if skipped(v) {
						return quote!(#name::#vn #pat => { #(let _ = #vars;)* });
					}
					let e = vars.iter().zip(v.fields.iter()).map(|(v, f)| enc_field(v, f));
					quote!(#name::#vn #pat => { __d.push_byte(#ix); #(#e)* })
				});
				quote!(match self { #(#arms)* })
			}
		},
		_ => panic!("union"),
	};
	quote!(
		#[allow(deprecated, unused_variables, non_snake_case, clippy::all)]
		const _: () = {
			impl #ig ::shim::codec::Encode for #name #tg #wc {
				fn encode_to<__W: ::shim::codec::Output + ?Sized>(&self, __d: &mut __W) { #body }
			}
			impl #ig ::shim::codec::EncodeLike for #name #tg #wc {}
		};
	)
	.into()
}
#[proc_macro_derive(Decode, attributes(codec))]
pub fn derive_decode(i: TokenStream) -> TokenStream {
	let input: DeriveInput = parse_macro_input!(i);
	let name = &input.ident;
	let mut g = bounds(&input, quote!(::shim::codec::Decode), codec_attrs(&input.attrs).decode_bound);
	// skipped fields need Default
	let params = type_params(&g);
	let extra: Vec<Type> = all_fields(&input.data)
		.into_iter()
		.filter(|f| codec_attrs(&f.attrs).skip && uses_param(&f.ty, &params) && !is_phantom(&f.ty))
		.map(|f| f.ty)
		.collect();
	if !extra.is_empty() {
		let w = g.make_where_clause();
		for t in extra {
			w.predicates.push(parse_quote!(#t: ::core::default::Default));
		}
	}
	let (ig, tg, wc) = g.split_for_impl();
	let body = match &input.data {
		Data::Struct(s) => {
			let d = dec_fields(&s.fields);
			quote!(Ok(#name #d))
		},
		Data::Enum(en) => {
			let idx = indices(en);
			let arms = en.variants.iter().zip(idx).filter(|(v, _)| !skipped(v)).map(|(v, ix)| {
				let vn = &v.ident;
				let d = dec_fields(&v.fields);
				quote!(__x if __x == #ix => Ok(#name::#vn #d),)
			});
			quote!(match ::shim::codec::Input::read_byte(__i)? { #(#arms)* _ => Err("Could not decode enum, variant doesn't exist".into()) })
		},
		_ => panic!("union"),
	};
	quote!(
		#[allow(deprecated, unused_variables, non_snake_case, clippy::all)]
		const _: () = {
			impl #ig ::shim::codec::Decode for #name #tg #wc {
				fn decode<__I: ::shim::codec::Input>(__i: &mut __I) -> ::core::result::Result<Self, ::shim::codec::Error> { #body }
			}
		};
	)
	.into()
}
#[proc_macro_derive(MaxEncodedLen, attributes(codec))]
pub fn derive_mel(i: TokenStream) -> TokenStream {
	let input: DeriveInput = parse_macro_input!(i);
	let name = &input.ident;
	let mut g = bounds(&input, quote!(::shim::codec::MaxEncodedLen), codec_attrs(&input.attrs).mel_bound);
	if codec_attrs(&input.attrs).mel_bound.is_some() {
		// MaxEncodedLen: Encode; the Encode impl has per-field bounds, so repeat them here.
		let g2 = bounds(&input, quote!(::shim::codec::Encode), None);
		if let Some(w2) = g2.where_clause {
			g.make_where_clause().predicates.extend(w2.predicates);
		}
	}
	let (ig, tg, wc) = g.split_for_impl();
	let sum = |fs: &Fields| {
		let t = fs.iter().filter(|f| !codec_attrs(&f.attrs).skip).map(|f| {
			let t = &f.ty;
			if codec_attrs(&f.attrs).compact {
				quote!(.saturating_add(<<#t as ::shim::codec::HasCompact>::Type as ::shim::codec::MaxEncodedLen>::max_encoded_len()))
			} else {
				quote!(.saturating_add(<#t as ::shim::codec::MaxEncodedLen>::max_encoded_len()))
			}
		});
		quote!(0usize #(#t)*)
	};
	let body = match &input.data {
		Data::Struct(s) => sum(&s.fields),
		Data::Enum(e) => {
			let v = e.variants.iter().map(|v| sum(&v.fields));
			quote!(0usize #(.max(#v))* .saturating_add(1))
		},
		_ => panic!(),
	};
	quote!(
		#[allow(deprecated)]
		const _: () = {
			impl #ig ::shim::codec::MaxEncodedLen for #name #tg #wc {
				fn max_encoded_len() -> usize { #body }
			}
		};
	)
	.into()
}
#[proc_macro_derive(CompactAs, attributes(codec))]
pub fn derive_compact_as(i: TokenStream) -> TokenStream {
	let input: DeriveInput = parse_macro_input!(i);
	let name = &input.ident;
	let (ig, tg, wc) = input.generics.split_for_impl();
	let Data::Struct(s) = &input.data else { panic!() };
	let f = s.fields.iter().next().unwrap();
	let t = &f.ty;
	let (get, mk) = match &f.ident {
		Some(n) => (quote!(self.#n), quote!(#name{#n: x})),
		None => (quote!(self.0), quote!(#name(x))),
	};
	quote!(
		impl #ig ::shim::codec::CompactAs for #name #tg #wc {
			type As = #t;
			fn encode_as(&self) -> &#t { &#get }
			fn decode_from(x: #t) -> ::core::result::Result<Self, ::shim::codec::Error> { Ok(#mk) }
		}
		impl #ig From<::shim::codec::Compact<#name #tg>> for #name #tg #wc {
			fn from(x: ::shim::codec::Compact<#name #tg>) -> Self { x.0 }
		}
	)
	.into()
}
/// TypeInfo is a blanket marker in the stand-in; the derive accepts and drops everything.
#[proc_macro_derive(TypeInfo, attributes(scale_info, codec))]
pub fn derive_type_info(_: TokenStream) -> TokenStream {
	TokenStream::new()
}
fn nobound(i: TokenStream, f: impl Fn(&DeriveInput) -> TS) -> TokenStream {
	let input: DeriveInput = parse_macro_input!(i);
	f(&input).into()
}
pub(crate) fn impl_clone(input: &DeriveInput) -> TS {
	let name = &input.ident;
	let (ig, tg, wc) = input.generics.split_for_impl();
	let build = |path: TS, fields: &Fields| {
		let (pat, vars) = bind_fields(fields);
		let ctor = match fields {
			Fields::Named(n) => {
				let names = n.named.iter().map(|f| f.ident.clone().unwrap());
				quote!({ #(#names: ::core::clone::Clone::clone(#vars)),* })
			},
			Fields::Unnamed(_) => quote!(( #(::core::clone::Clone::clone(#vars)),* )),
			Fields::Unit => quote!(),
		};
		quote!(#path #pat => #path #ctor,)
	};
	let arms: TS = match &input.data {
		Data::Struct(s) => build(quote!(#name), &s.fields),
		Data::Enum(e) => e.variants.iter().map(|v| {
			let vn = &v.ident;
			build(quote!(#name::#vn), &v.fields)
		}).collect(),
		_ => panic!(),
	};
	let body = if arms.is_empty() { quote!(match *self {}) } else { quote!(match self { #arms }) };
	quote!(#[allow(deprecated)] const _: () = { impl #ig ::core::clone::Clone for #name #tg #wc { fn clone(&self) -> Self { #body } } };)
}
pub(crate) fn impl_debug(input: &DeriveInput) -> TS {
	let name = &input.ident;
	let (ig, tg, wc) = input.generics.split_for_impl();
	let build = |path: TS, label: String, fields: &Fields| {
		let (pat, vars) = bind_fields(fields);
		let b = match fields {
			Fields::Named(n) => {
				let names = n.named.iter().map(|f| f.ident.clone().unwrap().to_string());
				quote!(f.debug_struct(#label) #(.field(#names, #vars))* .finish())
			},
			Fields::Unnamed(_) => quote!(f.debug_tuple(#label) #(.field(#vars))* .finish()),
			Fields::Unit => quote!(f.write_str(#label)),
		};
		quote!(#path #pat => #b,)
	};
	let arms: TS = match &input.data {
		Data::Struct(s) => build(quote!(#name), name.to_string(), &s.fields),
		Data::Enum(e) => e.variants.iter().map(|v| {
			let vn = &v.ident;
			build(quote!(#name::#vn), vn.to_string(), &v.fields)
		}).collect(),
		_ => panic!(),
	};
	let body = if arms.is_empty() { quote!(match *self {}) } else { quote!(match self { #arms }) };
	quote!(#[allow(deprecated)] const _: () = { impl #ig ::core::fmt::Debug for #name #tg #wc { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { #body } } };)
}
pub(crate) fn impl_partial_eq(input: &DeriveInput) -> TS {
	let name = &input.ident;
	let (ig, tg, wc) = input.generics.split_for_impl();
	let bind2 = |fields: &Fields, p: &str| -> (TS, Vec<Ident>) {
		let vars: Vec<_> = (0..fields.len()).map(|i| format_ident!("__{}{}", p, i)).collect();
		match fields {
			Fields::Named(n) => {
				let names = n.named.iter().map(|f| f.ident.clone().unwrap());
				(quote!({ #(#names: #vars),* }), vars)
			},
			Fields::Unnamed(_) => (quote!(( #(#vars),* )), vars),
			Fields::Unit => (quote!(), vars),
		}
	};
	let build = |path: TS, fields: &Fields| {
		let (p1, v1) = bind2(fields, "a");
		let (p2, v2) = bind2(fields, "b");
		quote!((#path #p1, #path #p2) => true #(&& #v1 == #v2)*,)
	};
	let arms: TS = match &input.data {
		Data::Struct(s) => build(quote!(#name), &s.fields),
		Data::Enum(e) => e.variants.iter().map(|v| {
			let vn = &v.ident;
			build(quote!(#name::#vn), &v.fields)
		}).collect(),
		_ => panic!(),
	};
	quote!(#[allow(deprecated, unreachable_patterns)] const _: () = { impl #ig ::core::cmp::PartialEq for #name #tg #wc { fn eq(&self, o: &Self) -> bool { match (self, o) { #arms _ => false } } } };)
}
pub(crate) fn impl_eq(input: &DeriveInput) -> TS {
	let name = &input.ident;
	let (ig, tg, wc) = input.generics.split_for_impl();
	quote!(#[allow(deprecated)] const _: () = { impl #ig ::core::cmp::Eq for #name #tg #wc {} };)
}
#[proc_macro_derive(CloneNoBound)]
pub fn clone_nb(i: TokenStream) -> TokenStream {
	nobound(i, impl_clone)
}
#[proc_macro_derive(DebugNoBound)]
pub fn debug_nb(i: TokenStream) -> TokenStream {
	nobound(i, impl_debug)
}
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn rdebug_nb(i: TokenStream) -> TokenStream {
	nobound(i, impl_debug)
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn peq_nb(i: TokenStream) -> TokenStream {
	nobound(i, impl_partial_eq)
}
#[proc_macro_derive(EqNoBound)]
pub fn eq_nb(i: TokenStream) -> TokenStream {
	nobound(i, impl_eq)
}
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_nb(i: TokenStream) -> TokenStream {
	nobound(i, |input| {
		let name = &input.ident;
		let (ig, tg, wc) = input.generics.split_for_impl();
		let ctor = |fields: &Fields| match fields {
			Fields::Named(n) => {
				let names = n.named.iter().map(|f| f.ident.clone().unwrap());
				quote!({ #(#names: ::core::default::Default::default()),* })
			},
			Fields::Unnamed(u) => {
				let d = u.unnamed.iter().map(|_| quote!(::core::default::Default::default()));
				quote!(( #(#d),* ))
			},
			Fields::Unit => quote!(),
		};
		let body = match &input.data {
			Data::Struct(s) => {
				let c = ctor(&s.fields);
				quote!(#name #c)
			},
			Data::Enum(e) => {
				let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).unwrap();
				let c = ctor(&v.fields);
				let n = &v.ident;
				quote!(#name::#n #c)
			},
			_ => panic!(),
		};
		quote!(const _: () = { impl #ig ::core::default::Default for #name #tg #wc { fn default() -> Self { #body } } };)
	})
}
/// RuntimeDebug = Debug in std: per-type-parameter Debug bounds, like the std derive.
#[proc_macro_derive(RuntimeDebug)]
pub fn runtime_debug(i: TokenStream) -> TokenStream {
	let mut input: DeriveInput = parse_macro_input!(i);
	for p in input.generics.type_params_mut() {
		p.bounds.push(parse_quote!(::core::fmt::Debug));
	}
	impl_debug(&input).into()
}
#[proc_macro_derive(PalletError, attributes(codec))]
pub fn pallet_error(i: TokenStream) -> TokenStream {
	let input: DeriveInput = parse_macro_input!(i);
	let name = &input.ident;
	let (ig, tg, wc) = input.generics.split_for_impl();
	quote!(impl #ig ::shim::frame_support::traits::PalletError for #name #tg #wc { const MAX_ENCODED_SIZE: usize = 4; }).into()
}
#[proc_macro_attribute]
pub fn pallet(_a: TokenStream, i: TokenStream) -> TokenStream {
	pallet::expand(parse_macro_input!(i)).into()
}
#[proc_macro_attribute]
pub fn transactional(_a: TokenStream, i: TokenStream) -> TokenStream {
	let mut f: ItemFn = match syn::parse(i) {
		Ok(f) => f,
		Err(e) => return e.to_compile_error().into(),
	};
	let b = f.block.clone();
	let out = match &f.sig.output {
		ReturnType::Default => quote!(()),
		ReturnType::Type(_, t) => t.to_token_stream(),
	};
	let _ = out;
	f.block = parse_quote!({
		::shim::frame_support::storage::with_transaction_opaque_err_like(|| #b)
	});
	f.to_token_stream().into()
}
#[proc_macro_attribute]
pub fn require_transactional(_a: TokenStream, i: TokenStream) -> TokenStream {
	i
}
#[proc_macro_attribute]
pub fn storage_alias(_a: TokenStream, i: TokenStream) -> TokenStream {
	pallet::storage_alias(parse_macro_input!(i)).into()
}
#[proc_macro]
pub fn construct_runtime(i: TokenStream) -> TokenStream {
	runtime::expand(i.into()).into()
}
#[proc_macro]
pub fn hex(i: TokenStream) -> TokenStream {
	misc::hex(i.into()).into()
}
#[proc_macro]
pub fn paste(i: TokenStream) -> TokenStream {
	misc::paste(i.into()).into()
}
#[proc_macro_attribute]
pub fn impl_for_tuples(a: TokenStream, i: TokenStream) -> TokenStream {
	misc::impl_for_tuples(a.into(), i.into()).into()
}
#[proc_macro]
pub fn decl_runtime_apis(i: TokenStream) -> TokenStream {
	misc::decl_runtime_apis(i.into()).into()
}
#[proc_macro_attribute]
pub fn rpc(_: TokenStream, i: TokenStream) -> TokenStream {
	misc::rpc(i.into()).into()
}
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, i: TokenStream) -> TokenStream {
	i
}
#[proc_macro]
pub fn drop_tokens(_: TokenStream) -> TokenStream {
	TokenStream::new()
}
#[proc_macro_attribute]
pub fn passthrough(_: TokenStream, i: TokenStream) -> TokenStream {
	i
}
#[proc_macro_attribute]
pub fn drop_item(_: TokenStream, _: TokenStream) -> TokenStream {
	TokenStream::new()
}
pub(crate) fn span() -> Span {
	Span::call_site()
}
