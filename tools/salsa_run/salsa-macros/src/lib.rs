//! Emulation of the salsa-2022 attribute macros used by p4analyzer (see ../salsa).
extern crate proc_macro;
use proc_macro::TokenStream;
use proc_macro2::Span;
use quote::{format_ident, quote, quote_spanned};
use syn::*;

fn has_return_ref(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path.is_ident("return_ref")) }
fn strip(attrs: &[Attribute]) -> Vec<Attribute> {
    attrs.iter().filter(|a| !["return_ref", "id", "no_eq"].iter().any(|n| a.path.is_ident(n))).cloned().collect()
}

fn salsa_struct(s: ItemStruct, kind: &str) -> TokenStream {
    let attrs = strip(&s.attrs);
    let (vis, name) = (&s.vis, &s.ident);
    let fields: Vec<_> = match &s.fields { Fields::Named(n) => n.named.iter().cloned().collect(), _ => vec![] };
    let names: Vec<_> = fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    let tys: Vec<_> = fields.iter().map(|f| f.ty.clone()).collect();
    let tup = quote! { (#(#tys,)*) };
    let getters = fields.iter().enumerate().map(|(i, f)| {
        let (fv, n, t, i) = (&f.vis, f.ident.clone().unwrap(), &f.ty, Index::from(i));
        if has_return_ref(&f.attrs) {
            quote_spanned! {n.span()=> #[allow(dead_code)] #fv fn #n<'db>(self, _db: &'db (dyn crate::Db + 'db)) -> &'db #t { &::salsa::stub::fields::<#tup>(self.0).#i } }
        } else {
            quote_spanned! {n.span()=> #[allow(dead_code)] #fv fn #n<'db>(self, _db: &'db (dyn crate::Db + 'db)) -> #t { ::salsa::stub::fields::<#tup>(self.0).#i.clone() } }
        }
    });
    let make = format_ident!("{}", if kind == "interned" { "intern" } else { "new_id" });
    quote! {
        #(#attrs)*
        #[derive(Copy, Clone, PartialEq, PartialOrd, Eq, Ord, Hash, Debug)]
        #vis struct #name(::salsa::Id);
        impl #name {
            #[allow(dead_code)] #vis fn new(_db: &dyn crate::Db, #(#names: #tys),*) -> Self { #name(::salsa::stub::#make::<#tup>((#(#names,)*))) }
            #(#getters)*
        }
    }.into()
}

#[proc_macro_attribute] pub fn input(_a: TokenStream, i: TokenStream) -> TokenStream { salsa_struct(parse_macro_input!(i as ItemStruct), "input") }
#[proc_macro_attribute] pub fn interned(_a: TokenStream, i: TokenStream) -> TokenStream { salsa_struct(parse_macro_input!(i as ItemStruct), "interned") }

#[proc_macro_attribute] pub fn accumulator(_a: TokenStream, i: TokenStream) -> TokenStream {
    let s = parse_macro_input!(i as ItemStruct);
    let attrs = strip(&s.attrs);
    let (vis, name) = (&s.vis, &s.ident);
    let ty = match &s.fields { Fields::Unnamed(u) => u.unnamed.first().unwrap().ty.clone(), _ => panic!("accumulator") };
    quote! {
        #(#attrs)* #vis struct #name(::salsa::Id);
        impl ::salsa::Accumulator for #name { type Data = #ty; }
        impl #name { #[allow(dead_code)] #vis fn push(_db: &dyn crate::Db, value: #ty) { ::salsa::stub::accumulate(value) } }
    }.into()
}

#[proc_macro_attribute] pub fn tracked(a: TokenStream, i: TokenStream) -> TokenStream {
    let item = parse_macro_input!(i as Item);
    let args = a.to_string();
    match item {
        Item::Struct(s) => salsa_struct(s, "tracked"),
        Item::Fn(mut f) => {
            let by_ref = args.contains("return_ref");
            let (vis, name, attrs) = (f.vis.clone(), f.sig.ident.clone(), strip(&f.attrs));
            let params: Vec<_> = f.sig.inputs.iter().map(|p| match p { FnArg::Typed(t) => t.clone(), _ => panic!("self") }).collect();
            let mut ids = vec![]; let mut tys = vec![];
            for p in &params { ids.push(match &*p.pat { Pat::Ident(i) => i.ident.clone(), _ => Ident::new("_p", Span::call_site()) }); tys.push((*p.ty).clone()); }
            let ret: Type = match &f.sig.output { ReturnType::Default => parse_quote!(()), ReturnType::Type(_, t) => (**t).clone() };
            f.sig.ident = format_ident!("body");
            f.vis = parse_quote!(pub);
            f.attrs.clear();
            let (rest_ids, rest_tys) = (&ids[1..], &tys[1..]);
            let wrapper = if by_ref {
                quote! { #vis fn #name<'db>(db: &'db (dyn crate::Db + 'db), #(#rest_ids: #rest_tys),*) -> &'db #ret { ::salsa::stub::memo_ref(#name::body(db, #(#rest_ids),*)) } }
            } else {
                quote! { #vis fn #name<'db>(db: &'db (dyn crate::Db + 'db), #(#rest_ids: #rest_tys),*) -> #ret { ::salsa::stub::memo(#name::body(db, #(#rest_ids),*)) } }
            };
            quote! {
                #(#attrs)* #[allow(unused)] #wrapper
                #[allow(non_camel_case_types)] #vis struct #name {}
                impl #name {
                    #[allow(unused)] #f
                    #[allow(unused)] pub fn accumulated<A: ::salsa::Accumulator>(_db: &dyn crate::Db, #(#rest_ids: #rest_tys),*) -> Vec<A::Data> { ::salsa::stub::reset(); let _ = #name::body(_db, #(#rest_ids),*); ::salsa::stub::accumulated() }
                }
            }.into()
        }
        other => quote!(#other).into(),
    }
}

#[proc_macro_attribute] pub fn jar(_a: TokenStream, i: TokenStream) -> TokenStream {
    let s = parse_macro_input!(i as ItemStruct);
    let (vis, name, attrs) = (&s.vis, &s.ident, strip(&s.attrs));
    quote! { #(#attrs)* #vis struct #name(()); }.into()
}

#[proc_macro_attribute] pub fn db(a: TokenStream, i: TokenStream) -> TokenStream {
    let s = parse_macro_input!(i as ItemStruct);
    let jars = parse_macro_input!(a with punctuated::Punctuated::<Path, Token![,]>::parse_terminated);
    let (name, gen) = (&s.ident, &s.generics);
    let (ig, tg, wc) = gen.split_for_impl();
    let jars = jars.iter();
    quote! {
        #s
        impl #ig ::salsa::AsDb for #name #tg #wc {}
        #( impl #ig ::salsa::HasJar<#jars> for #name #tg #wc {} )*
        impl<J> ::salsa::DbWithJar<J> for #name where #name: ::salsa::HasJar<J> {}
    }.into()
}
