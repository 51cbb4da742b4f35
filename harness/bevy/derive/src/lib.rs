#[proc_macro_derive(Component, attributes(component, require))]
pub fn component(_: proc_macro::TokenStream) -> proc_macro::TokenStream {
    Default::default()
}
