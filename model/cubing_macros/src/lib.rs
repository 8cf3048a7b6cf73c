use cubing_core::alg::{Alg, Move, MovePrefix};

use proc_macro::TokenStream;
use quote::quote;

use syn::parse_macro_input;

#[proc_macro]
pub fn parse_alg(item: TokenStream) -> TokenStream {
    let alg_string = parse_macro_input!(item as syn::LitStr).value();
    match alg_string.parse::<Alg>() {
        Ok(_alg) => quote! { (#alg_string).parse::<cubing::alg::Alg>().unwrap() }.into(),
        Err(e) => {
            let message = format!(
                "Invalid alg passed to cubing::parse_alg!(…) macro. Parse error: {}",
                e
            );
            quote! { compile_error!(#message) }.into()
        }
    }
}

#[proc_macro]
pub fn parse_move(item: TokenStream) -> TokenStream {
    let move_string = parse_macro_input!(item as syn::LitStr).value();
    match move_string.parse::<Move>() {
        Ok(r#move) => {
            let move_family = &r#move.quantum.family;
            let move_prefix = match &r#move.quantum.prefix {
                None => quote! { None },
                Some(MovePrefix::Layer(move_layer)) => {
                    let layer = move_layer.layer;
                    quote! { Some(cubing::alg::MovePrefix::Layer(cubing::alg::MoveLayer {
                        layer: #layer,
                    })) }
                }
                Some(MovePrefix::Range(move_range)) => {
                    let outer_layer = move_range.outer_layer;
                    let inner_layer = move_range.inner_layer;
                    quote! { Some(cubing::alg::MovePrefix::Range(cubing::alg::MoveRange {
                        outer_layer: #outer_layer,
                        inner_layer: #inner_layer,
                    })) }
                }
            };
            let move_amount = r#move.amount;
            quote! { cubing::alg::Move {
                quantum: std::sync::Arc::new(cubing::alg::QuantumMove {
                    family: String::from(#move_family),
                    prefix: #move_prefix,
                }),
                amount: #move_amount,
            } }
            .into()
        }
        Err(e) => {
            let message = format!(
                "Invalid move passed to cubing::parse_move!(…) macro. Parse error: {}",
                e
            );
            quote! { compile_error!(#message) }.into()
        }
    }
}
