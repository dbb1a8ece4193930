//! Off the web: items marked `#[wasm_bindgen]` are what they are.
pub mod prelude { pub use wasmbindgenattr::wasm_bindgen; }
