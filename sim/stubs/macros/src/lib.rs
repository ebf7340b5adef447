//! Stand-ins for clap's `Parser` derive and jsonrpsee's `rpc` attribute.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, FnArg, ItemTrait, TraitItem};

/// `--field-name value` for every field; `Option` fields may be left out.
#[proc_macro_derive(Parser, attributes(command, arg))]
pub fn parser(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = input.ident;
    let Data::Struct(s) = input.data else { panic!("struct expected") };
    let fields = s.fields.iter().map(|f| {
        let id = f.ident.clone().unwrap();
        let flag = format!("--{}", id.to_string().replace('_', "-"));
        quote!(#id: ::clap::FromFlag::from_flag(#flag))
    });
    quote!(impl ::clap::Parser for #name { fn parse() -> Self { Self { #(#fields),* } } }).into()
}

/// `trait X` becomes `trait XServer` with `into_rpc`, which dispatches on the names of the methods.
#[proc_macro_attribute]
pub fn rpc(_args: TokenStream, input: TokenStream) -> TokenStream {
    let mut t = parse_macro_input!(input as ItemTrait);
    t.ident = format_ident!("{}Server", t.ident);
    let mut regs = vec![];
    for it in &mut t.items {
        let TraitItem::Fn(f) = it else { continue };
        let mut wire = None;
        f.attrs.retain(|a| {
            if !a.path().is_ident("method") {
                return true;
            }
            a.parse_nested_meta(|m| {
                let v = m.value()?.parse::<syn::Expr>()?;
                if m.path.is_ident("name") {
                    wire = Some(v);
                }
                Ok(())
            })
            .unwrap();
            false
        });
        let Some(wire) = wire else { continue };
        let m = &f.sig.ident;
        let args = f.sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).enumerate().map(|(i, _)| quote!(::jsonrpsee::param(&params, #i)?));
        let call = if f.sig.asyncness.is_some() { quote!(.await) } else { quote!() };
        regs.push(quote! {
            let s = me.clone();
            module.register(#wire, ::std::boxed::Box::new(move |params| {
                let s = s.clone();
                ::std::boxed::Box::pin(async move { ::jsonrpsee::answer(s.#m(#(#args),*)#call) })
            }));
        });
    }
    t.supertraits.push(syn::parse_quote!(Send));
    t.supertraits.push(syn::parse_quote!(Sync));
    t.items.push(syn::parse_quote! {
        fn into_rpc(self) -> ::jsonrpsee::RpcModule where Self: Sized + 'static {
            let me = ::std::sync::Arc::new(self);
            let mut module = ::jsonrpsee::RpcModule::default();
            #(#regs)*
            module
        }
    });
    quote!(#[::jsonrpsee::core::async_trait] #t).into()
}
