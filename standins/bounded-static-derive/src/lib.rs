//! Stand-in for `bounded-static-derive`: `#[derive(ToStatic)]`.
#![allow(mismatched_lifetime_syntaxes)]
use proc_macro::TokenStream;
use proc_macro2::TokenStream as Ts;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields, GenericParam};

#[proc_macro_derive(ToStatic)]
pub fn to_static(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;

    let params = &input.generics.params;
    let mut args_in: Vec<Ts> = vec![];
    let mut args_static: Vec<Ts> = vec![];
    let mut bounds_to: Vec<Ts> = vec![];
    let mut bounds_into: Vec<Ts> = vec![];
    for p in params {
        match p {
            GenericParam::Lifetime(l) => {
                let l = &l.lifetime;
                args_in.push(quote!(#l));
                args_static.push(quote!('static));
            }
            GenericParam::Type(t) => {
                let t = &t.ident;
                args_in.push(quote!(#t));
                args_static.push(quote!(<#t as ::bounded_static::IntoBoundedStatic>::Static));
                bounds_to.push(quote!(#t: ::bounded_static::ToBoundedStatic + ::bounded_static::IntoBoundedStatic<Static = <#t as ::bounded_static::ToBoundedStatic>::Static>));
                bounds_into.push(quote!(#t: ::bounded_static::IntoBoundedStatic));
            }
            GenericParam::Const(c) => {
                let c = &c.ident;
                args_in.push(quote!(#c));
                args_static.push(quote!(#c));
            }
        }
    }

    let body = |method: Ts| -> Ts {
        match &input.data {
            Data::Struct(s) => construct(quote!(Self), quote!(#name), &s.fields, &method),
            Data::Enum(e) => {
                let arms = e.variants.iter().map(|v| {
                    let vn = &v.ident;
                    arm(quote!(Self::#vn), quote!(#name::#vn), &v.fields, &method)
                });
                quote!(match self { #(#arms),* })
            }
            Data::Union(_) => panic!("unions are not supported"),
        }
    };
    let to = body(quote!(::bounded_static::ToBoundedStatic::to_static));
    let into = body(quote!(::bounded_static::IntoBoundedStatic::into_static));

    quote!(
        impl<#params> ::bounded_static::ToBoundedStatic for #name<#(#args_in),*> where #(#bounds_to),* {
            type Static = #name<#(#args_static),*>;
            fn to_static(&self) -> Self::Static { #to }
        }
        impl<#params> ::bounded_static::IntoBoundedStatic for #name<#(#args_in),*> where #(#bounds_into),* {
            type Static = #name<#(#args_static),*>;
            fn into_static(self) -> Self::Static { #into }
        }
    )
    .into()
}

fn construct(pat: Ts, out: Ts, fields: &Fields, method: &Ts) -> Ts {
    let arm = arm(pat, out, fields, method);
    quote!(match self { #arm })
}

fn arm(pat: Ts, out: Ts, fields: &Fields, method: &Ts) -> Ts {
    match fields {
        Fields::Named(f) => {
            let n: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
            quote!(#pat { #(#n),* } => #out { #(#n: #method(#n)),* })
        }
        Fields::Unnamed(f) => {
            let n: Vec<_> = (0..f.unnamed.len()).map(|i| format_ident!("f{}", i)).collect();
            quote!(#pat ( #(#n),* ) => #out ( #(#method(#n)),* ))
        }
        Fields::Unit => quote!(#pat => #out),
    }
}
