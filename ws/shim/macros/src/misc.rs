use super::*;
use proc_macro2::{Group, Literal, TokenTree};

pub fn hex(i: TS) -> TS {
	let mut s = String::new();
	for t in i {
		if let TokenTree::Literal(l) = t {
			s.push_str(l.to_string().trim_matches('"'));
		}
	}
	let s: String = s.chars().filter(|c| !c.is_whitespace() && *c != '_').collect();
	let s = s.strip_prefix("0x").unwrap_or(&s);
	assert!(s.len() % 2 == 0, "odd hex length");
	let b = (0..s.len() / 2).map(|k| {
		let v = u8::from_str_radix(&s[2 * k..2 * k + 2], 16).expect("hex digit");
		TokenTree::Literal(Literal::u8_suffixed(v))
	});
	quote!([#(#b),*])
}
/// affix/paste: `[<a b c>]` concatenation, with :snake / :lower / :upper / :camel modifiers.
pub fn paste(i: TS) -> TS {
	i.into_iter()
		.map(|t| match t {
			TokenTree::Group(g) => {
				if g.delimiter() == proc_macro2::Delimiter::Bracket {
					let v: Vec<TokenTree> = g.stream().into_iter().collect();
					let first = matches!(v.first(), Some(TokenTree::Punct(p)) if p.as_char() == '<');
					let last = matches!(v.last(), Some(TokenTree::Punct(p)) if p.as_char() == '>');
					if first && last {
						let mut s = String::new();
						let mut sp = g.span();
						let mut k = 1;
						while k < v.len() - 1 {
							match &v[k] {
								TokenTree::Ident(id) => {
									sp = id.span();
									s.push_str(&id.to_string())
								},
								TokenTree::Literal(l) => s.push_str(l.to_string().trim_matches('"')),
								TokenTree::Group(g2) => s.push_str(&g2.stream().to_string()),
								_ => {},
							}
							k += 1;
						}
						return TokenTree::Ident(Ident::new(&s, sp));
					}
				}
				let mut n = Group::new(g.delimiter(), paste(g.stream()));
				n.set_span(g.span());
				TokenTree::Group(n)
			},
			t => t,
		})
		.collect()
}
/// `#[impl_for_tuples(n)]` / `(m, n)` full-automatic or semi-automatic (for_tuples!) on a trait or impl.
pub fn impl_for_tuples(a: TS, i: TS) -> TS {
	let nums: Vec<usize> = a
		.into_iter()
		.filter_map(|t| if let TokenTree::Literal(l) = t { l.to_string().parse().ok() } else { None })
		.collect();
	let (lo, hi) = if nums.len() == 2 { (nums[0], nums[1]) } else { (0, nums[0]) };
	if let Ok(imp) = syn::parse2::<ItemImpl>(i.clone()) {
		// semi automatic
		let mut out = TS::new();
		for n in lo..=hi {
			out.extend(semi(&imp, n));
		}
		return out;
	}
	let tr: ItemTrait = syn::parse2(i).expect("trait or impl");
	let mut out = quote!(#tr);
	for n in lo..=hi {
		out.extend(full(&tr, n));
	}
	out
}
fn full(tr: &ItemTrait, n: usize) -> TS {
	let name = &tr.ident;
	let ids: Vec<Ident> = (0..n).map(|k| format_ident!("TupleElement{}", k)).collect();
	let tg = &tr.generics;
	let (_, tgen, wc) = tg.split_for_impl();
	let mut g = tg.clone();
	for id in &ids {
		g.params.push(parse_quote!(#id: #name #tgen));
	}
	let (ig, _, _) = g.split_for_impl();
	let fns = tr.items.iter().filter_map(|it| {
		if let TraitItem::Fn(f) = it {
			let sig = &f.sig;
			let fname = &sig.ident;
			let has_self = sig.receiver().is_some();
			let args: Vec<Ident> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(p) = a {
				if let Pat::Ident(pi) = &*p.pat { Some(pi.ident.clone()) } else { panic!("pat") }
			} else { None }).collect();
			let calls = ids.iter().enumerate().map(|(k, id)| {
				let ix = Index::from(k);
				if has_self { quote!(self.#ix.#fname(#(#args.clone()),*);) } else { quote!(<#id as #name #tgen>::#fname(#(Clone::clone(&#args)),*);) }
			});
			Some(quote!(#[allow(unused_variables, clippy::all)] #sig { #(#calls)* }))
		} else { None }
	});
	quote!(impl #ig #name #tgen for (#(#ids,)*) #wc { #(#fns)* })
}
struct Semi<'a> {
	tuple: Ident,
	ids: &'a [Ident],
}
impl<'a> Semi<'a> {
	fn ts(&self, t: TS) -> TS {
		let v: Vec<TokenTree> = t.into_iter().collect();
		let mut out: Vec<TokenTree> = vec![];
		let mut k = 0;
		while k < v.len() {
			// for_tuples!( #( body )* ) or #( body ),*
			if let TokenTree::Ident(id) = &v[k] {
				if id == "for_tuples" {
					if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (v.get(k + 1), v.get(k + 2)) {
						if p.as_char() == '!' {
							out.extend(self.rep(g.stream()));
							k += 3;
							if let Some(TokenTree::Punct(p)) = v.get(k) {
								if p.as_char() == ';' {
									k += 1;
								}
							}
							continue;
						}
					}
				}
			}
			match &v[k] {
				TokenTree::Group(g) => {
					let mut n = Group::new(g.delimiter(), self.ts(g.stream()));
					n.set_span(g.span());
					out.push(TokenTree::Group(n));
				},
				t => out.push(t.clone()),
			}
			k += 1;
		}
		out.into_iter().collect()
	}
	fn rep(&self, t: TS) -> TS {
		let v: Vec<TokenTree> = t.into_iter().collect();
		let mut out: Vec<TokenTree> = vec![];
		let mut k = 0;
		while k < v.len() {
			if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[k], v.get(k + 1)) {
				if p.as_char() == '#' && g.delimiter() == proc_macro2::Delimiter::Parenthesis {
					// separator then *
					let mut sep: Vec<TokenTree> = vec![];
					let mut j = k + 2;
					while j < v.len() {
						if let TokenTree::Punct(p) = &v[j] {
							if p.as_char() == '*' {
								break;
							}
						}
						sep.push(v[j].clone());
						j += 1;
					}
					for (n, id) in self.ids.iter().enumerate() {
						if n > 0 {
							out.extend(sep.clone());
						}
						out.extend(subst(g.stream(), &self.tuple, id, n));
						if self.ids.len() == 1 && matches!(&sep[..], [TokenTree::Punct(p)] if p.as_char() == ',') {
							out.extend(sep.clone());
						}
					}
					k = j + 1;
					continue;
				}
			}
			match &v[k] {
				TokenTree::Group(g) => {
					let n = Group::new(g.delimiter(), self.rep(g.stream()));
					out.push(TokenTree::Group(n));
				},
				t => out.push(t.clone()),
			}
			k += 1;
		}
		out.into_iter().collect()
	}
}
fn subst(t: TS, tuple: &Ident, id: &Ident, n: usize) -> TS {
	let v: Vec<TokenTree> = t.into_iter().collect();
	let mut out: Vec<TokenTree> = vec![];
	let mut k = 0;
	while k < v.len() {
		match &v[k] {
			TokenTree::Ident(i) if i == tuple => {
				// self.Tuple -> self.N
				let after_dot = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '.');
				if after_dot {
					out.push(TokenTree::Literal(Literal::usize_unsuffixed(n)));
				} else {
					out.push(TokenTree::Ident(id.clone()));
				}
			},
			TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), tuple, id, n)))),
			t => out.push(t.clone()),
		}
		k += 1;
	}
	out.into_iter().collect()
}
fn semi(imp: &ItemImpl, n: usize) -> TS {
	let tuple = match &*imp.self_ty {
		Type::Path(p) => p.path.get_ident().unwrap().clone(),
		_ => panic!("semi tuple self"),
	};
	let ids: Vec<Ident> = (0..n).map(|k| format_ident!("{}Element{}", tuple, k)).collect();
	let mut imp = imp.clone();
	imp.attrs.retain(|a| !a.path().is_ident("tuple_types_custom_trait_bound"));
	let tr = imp.trait_.clone().unwrap().1;
	let mut g = imp.generics.clone();
	g.params = g
		.params
		.into_iter()
		.filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == tuple))
		.collect();
	for id in &ids {
		g.params.push(parse_quote!(#id: #tr));
	}
	let (ig, _, wc) = g.split_for_impl();
	let items = &imp.items;
	let s = Semi { tuple, ids: &ids };
	let body = s.ts(quote!(#(#items)*));
	quote!(#[allow(unused_variables, unused_mut)] impl #ig #tr for (#(#ids,)*) #wc { #body })
}
/// One client-side trait per declared api: every function takes the block it is called at and may fail.
pub fn decl_runtime_apis(i: TS) -> TS {
	struct Many(Vec<syn::ItemTrait>);
	impl syn::parse::Parse for Many {
		fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
			let mut v = vec![];
			while !i.is_empty() {
				v.push(i.parse()?);
			}
			Ok(Many(v))
		}
	}
	let many = match syn::parse2::<Many>(i) {
		Ok(m) => m.0,
		Err(e) => return e.to_compile_error(),
	};
	let mut out = TS::new();
	for mut t in many {
		t.attrs.retain(|a| a.path().is_ident("doc"));
		t.generics.params.insert(0, parse_quote!(Block: sp_api::BlockT));
		for it in &mut t.items {
			if let syn::TraitItem::Fn(f) = it {
				f.attrs.retain(|a| a.path().is_ident("doc"));
				f.sig.inputs.insert(0, parse_quote!(&self));
				f.sig.inputs.insert(1, parse_quote!(__at: <Block as sp_api::BlockT>::Hash));
				let r: syn::Type = match &f.sig.output {
					syn::ReturnType::Default => parse_quote!(()),
					syn::ReturnType::Type(_, t) => (**t).clone(),
				};
				f.sig.output = parse_quote!(-> core::result::Result<#r, sp_api::ApiError>);
			}
		}
		out.extend(quote!(#t));
	}
	out
}
/// jsonrpsee's `rpc`: the server side trait.
pub fn rpc(i: TS) -> TS {
	let mut t: syn::ItemTrait = match syn::parse2(i) {
		Ok(t) => t,
		Err(e) => return e.to_compile_error(),
	};
	t.ident = quote::format_ident!("{}Server", t.ident);
	for it in &mut t.items {
		if let syn::TraitItem::Fn(f) = it {
			if f.attrs.iter().any(|a| a.path().is_ident("subscription")) {
				f.sig.inputs.push(parse_quote!(__sink: jsonrpsee::SubscriptionSink));
				f.sig.output = parse_quote!(-> core::result::Result<(), jsonrpsee::types::SubscriptionEmptyError>);
			}
			f.attrs.retain(|a| a.path().is_ident("doc"));
			for a in &mut f.sig.inputs {
				if let syn::FnArg::Typed(a) = a {
					a.attrs.clear();
				}
			}
		}
	}
	quote!(#[allow(missing_docs)] #t)
}
