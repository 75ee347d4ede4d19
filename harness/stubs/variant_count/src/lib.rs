//! `#[derive(VariantCount)]`: an inherent `VARIANT_COUNT` constant.
use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_derive(VariantCount)]
pub fn derive_variant_count(input: TokenStream) -> TokenStream {
	let ast = syn::parse_macro_input!(input as syn::DeriveInput);
	let n = match &ast.data {
		syn::Data::Enum(e) => e.variants.len(),
		_ => panic!("VariantCount is for enums"),
	};
	let name = &ast.ident;
	let (ig, tg, wc) = ast.generics.split_for_impl();
	quote! {
		impl #ig #name #tg #wc {
			pub const VARIANT_COUNT: usize = #n;
		}
	}
	.into()
}
