//! `#[tokio::main]` for the simulator: the async `main` of the system under
//! test becomes a factory handed to the simulation driver, which may start it
//! any number of times (one simulated server process per call).
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn main(_args: TokenStream, item: TokenStream) -> TokenStream {
    // `async fn main() [-> R] { .. }`: rename it, then emit a sync `main`.
    let mut out = Vec::<TokenTree>::new();
    let mut renamed = false;
    for tt in item {
        match &tt {
            TokenTree::Ident(id) if !renamed && id.to_string() == "main" => {
                renamed = true;
                out.push(TokenTree::Ident(proc_macro::Ident::new(
                    "__dst_async_main",
                    id.span(),
                )));
            }
            _ => out.push(tt),
        }
    }
    let mut ts: TokenStream = out.into_iter().collect();
    let entry: TokenStream = r#"
        fn main() {
            fn __dst_factory() -> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = ()>>> {
                ::std::boxed::Box::pin(async move { let _ = __dst_async_main().await; })
            }
            ::dst_harness::entry(__dst_factory)
        }
    "#
    .parse()
    .unwrap();
    ts.extend(entry);
    ts
}
