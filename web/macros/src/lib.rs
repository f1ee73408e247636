//! The macros of wasm-bindgen and yew, as far as the application uses them.
mod bindgen;
mod html;
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, item: TokenStream) -> TokenStream {
    bindgen::expand(attr.into(), item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro]
pub fn html(item: TokenStream) -> TokenStream {
    html::expand(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_derive(Properties, attributes(prop_or_default, prop_or, prop_or_else))]
pub fn properties(item: TokenStream) -> TokenStream {
    html::properties(item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn function_component(attr: TokenStream, item: TokenStream) -> TokenStream {
    html::function_component(attr.into(), item.into()).unwrap_or_else(|e| e.to_compile_error()).into()
}
