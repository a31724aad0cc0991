//! Stand-in for derive_builder: one setter per field, `build` by cloning, defaults per field or struct.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields, GenericParam, Lit, Meta, NestedMeta};

#[derive(Default)]
struct Opts {
    name: Option<String>,
    build: Option<String>,
    default: Option<Option<String>>,
    custom: bool,
    skip: bool,
}
fn opts(attrs: &[syn::Attribute]) -> Opts {
    let mut o = Opts::default();
    for a in attrs.iter().filter(|a| a.path.is_ident("builder")) {
        let list = match a.parse_meta() {
            Ok(Meta::List(l)) => l,
            _ => continue,
        };
        for m in list.nested {
            match m {
                NestedMeta::Meta(Meta::NameValue(nv)) => {
                    let v = match &nv.lit {
                        Lit::Str(s) => s.value(),
                        _ => panic!("builder attribute"),
                    };
                    if nv.path.is_ident("name") {
                        o.name = Some(v)
                    } else if nv.path.is_ident("default") {
                        o.default = Some(Some(v))
                    } else {
                        panic!("unknown builder attribute")
                    }
                }
                NestedMeta::Meta(Meta::Path(p)) if p.is_ident("default") => o.default = Some(None),
                NestedMeta::Meta(Meta::List(l)) => {
                    for n in &l.nested {
                        match n {
                            NestedMeta::Meta(Meta::NameValue(nv)) if l.path.is_ident("build_fn") && nv.path.is_ident("name") => {
                                if let Lit::Str(s) = &nv.lit {
                                    o.build = Some(s.value())
                                }
                            }
                            NestedMeta::Meta(Meta::Path(p)) if l.path.is_ident("setter") && p.is_ident("custom") => o.custom = true,
                            NestedMeta::Meta(Meta::Path(p)) if l.path.is_ident("setter") && p.is_ident("skip") => o.skip = true,
                            _ => panic!("unknown builder attribute"),
                        }
                    }
                }
                _ => panic!("unknown builder attribute"),
            }
        }
    }
    o
}
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let so = opts(&d.attrs);
    let name = &d.ident;
    let vis = &d.vis;
    let bname = so.name.map(|n| format_ident!("{}", n)).unwrap_or(format_ident!("{}Builder", name));
    let ename = format_ident!("{}Error", bname);
    let build = so.build.map(|n| format_ident!("{}", n)).unwrap_or(format_ident!("build"));
    let mut g = d.generics.clone();
    let (_, ty_g, _) = d.generics.split_for_impl();
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds.push(syn::parse_quote!(::std::clone::Clone));
        }
    }
    let (impl_g, _, wh) = g.split_for_impl();
    let (dimpl_g, _, dwh) = d.generics.split_for_impl();
    let decl_g = &d.generics;
    let fields = match &d.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => n.named.iter().collect::<Vec<_>>(),
            _ => panic!("named fields only"),
        },
        _ => panic!("structs only"),
    };
    let (mut decl, mut none, mut setters, mut inits) = (vec![], vec![], vec![], vec![]);
    for f in fields {
        let o = opts(&f.attrs);
        let (i, t) = (f.ident.as_ref().unwrap(), &f.ty);
        decl.push(quote!(#i: ::std::option::Option<#t>));
        none.push(quote!(#i: ::std::option::Option::None));
        if !o.custom && !o.skip {
            setters.push(quote!(#[allow(unused_mut)] pub fn #i(&mut self, value: #t) -> &mut Self { self.#i = ::std::option::Option::Some(value); self }));
        }
        let dflt = match (&o.default, &so.default) {
            (Some(Some(e)), _) => {
                let e: syn::Expr = syn::parse_str(e).unwrap();
                quote!(#e)
            }
            (Some(None), _) => quote!(::std::default::Default::default()),
            (None, Some(_)) => quote!({ let d: #name #ty_g = ::std::default::Default::default(); d.#i }),
            (None, None) if o.skip => quote!(::std::default::Default::default()),
            (None, None) => {
                let n = i.to_string();
                quote!(return ::std::result::Result::Err(#ename::UninitializedField(#n)))
            }
        };
        inits.push(quote!(#i: match self.#i { ::std::option::Option::Some(ref v) => ::std::clone::Clone::clone(v), ::std::option::Option::None => #dflt }));
    }
    quote! {
        #vis struct #bname #decl_g { #(#decl),* }
        impl #dimpl_g ::std::default::Default for #bname #ty_g #dwh { fn default() -> Self { Self { #(#none),* } } }
        #[derive(Debug)]
        #vis enum #ename { UninitializedField(&'static str), ValidationError(String) }
        impl ::std::fmt::Display for #ename { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "{:?}", self) } }
        impl ::std::error::Error for #ename {}
        #[allow(dead_code)]
        impl #impl_g #bname #ty_g #wh {
            #(#setters)*
            pub fn #build(&self) -> ::std::result::Result<#name #ty_g, #ename> { Ok(#name { #(#inits),* }) }
        }
    }
    .into()
}
