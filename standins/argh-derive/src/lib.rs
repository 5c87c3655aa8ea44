use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, DeriveInput, Expr, LitStr};

/// `#[derive(FromArgs)]` for structs whose fields are `#[argh(option, default = "expr")]` Strings.
#[proc_macro_derive(FromArgs, attributes(argh))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let syn::Data::Struct(data) = &input.data else {
        panic!("only structs")
    };
    let mut defs = vec![];
    let mut arms = vec![];
    let mut build = vec![];
    for f in &data.fields {
        let ident = f.ident.as_ref().unwrap();
        let flag = format!("--{}", ident.to_string().replace('_', "-"));
        let mut default: Option<Expr> = None;
        for a in &f.attrs {
            if a.path().is_ident("argh") {
                a.parse_nested_meta(|m| {
                    if m.path.is_ident("default") {
                        let s: LitStr = m.value()?.parse()?;
                        default = Some(s.parse()?);
                    }
                    Ok(())
                })
                .unwrap();
            }
        }
        defs.push(quote!(let mut #ident: Option<String> = None;));
        arms.push(quote!(#flag => {
            let Some(v) = it.next() else { return Err(format!("No value provided for option '{}'.", #flag)) };
            if #ident.is_some() { return Err(format!("duplicate values provided for '{}'", #flag)) }
            #ident = Some(v.parse().map_err(|_| String::from("Error parsing option"))?);
        }));
        build.push(match default {
            Some(d) => quote!(#ident: #ident.unwrap_or_else(|| #d)),
            None => quote!(#ident: #ident.ok_or_else(|| format!("Required option not provided: {}", #flag))?),
        });
    }
    quote! {
        impl ::argh::FromArgs for #name {
            fn from_args_list(args: &[String]) -> Result<Self, String> {
                #(#defs)*
                let mut it = args.iter();
                while let Some(a) = it.next() {
                    match a.as_str() {
                        #(#arms)*
                        other => return Err(format!("Unrecognized argument: {other}")),
                    }
                }
                Ok(Self { #(#build),* })
            }
        }
    }
    .into()
}
