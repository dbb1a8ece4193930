//! `#[tokio::main]` for the checks: makes `async fn main() { body }` a public function which runs
//! `body` in the checks' runtime.
use proc_macro::*;

#[proc_macro_attribute]
pub fn main(_args: TokenStream, item: TokenStream) -> TokenStream {
	let body = item.into_iter().filter_map(|t| match t {
		TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g), _ => None,
	}).last().expect("main has a body");
	let mut out: TokenStream = "#[allow(missing_docs)] pub fn main()".parse().unwrap();
	let mut inner: TokenStream = "let _ = ::tokio_crate::mc_run".parse().unwrap();
	let mut arg: TokenStream = "async move".parse().unwrap();
	arg.extend([TokenTree::Group(body)]);
	inner.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, arg)), TokenTree::Punct(Punct::new(';', Spacing::Alone))]);
	out.extend([TokenTree::Group(Group::new(Delimiter::Brace, inner))]);
	out
}
