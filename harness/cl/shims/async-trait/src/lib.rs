//! Stand-in for async-trait: every `async fn` of a trait or impl becomes a function returning a boxed
//! future; all elided lifetimes of the arguments become one lifetime.
use proc_macro::TokenStream;
use quote::quote;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Item};

struct Elided;
impl VisitMut for Elided {
    fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
        if t.lifetime.is_none() {
            t.lifetime = Some(parse_quote!('async_trait));
        }
        visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_receiver_mut(&mut self, r: &mut syn::Receiver) {
        if let Some((_, l)) = &mut r.reference {
            if l.is_none() {
                *l = Some(parse_quote!('async_trait));
            }
        }
    }
}
fn rewrite(sig: &mut syn::Signature, body: Option<&mut syn::Block>) {
    if sig.asyncness.take().is_none() {
        return;
    }
    for a in sig.inputs.iter_mut() {
        Elided.visit_fn_arg_mut(a);
    }
    sig.generics.params.insert(0, parse_quote!('async_trait));
    let out: syn::Type = match &sig.output {
        syn::ReturnType::Default => parse_quote!(()),
        syn::ReturnType::Type(_, t) => (**t).clone(),
    };
    sig.output = parse_quote!(-> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = #out> + ::std::marker::Send + 'async_trait>>);
    if let Some(b) = body {
        let inner = b.clone();
        *b = parse_quote!({ ::std::boxed::Box::pin(async move #inner) });
    }
}
#[proc_macro_attribute]
pub fn async_trait(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = syn::parse_macro_input!(item as Item);
    match &mut item {
        Item::Trait(t) => {
            for i in &mut t.items {
                if let syn::TraitItem::Method(m) = i {
                    rewrite(&mut m.sig, m.default.as_mut());
                }
            }
        }
        Item::Impl(t) => {
            for i in &mut t.items {
                if let syn::ImplItem::Method(m) = i {
                    rewrite(&mut m.sig, Some(&mut m.block));
                }
            }
        }
        _ => {}
    }
    quote!(#item).into()
}
