//! Stand-in for wasm-bindgen: the attribute leaves the function as it is, so that the wasm entry
//! points of /repo/ratel-wasm run natively inside the simulator.
pub mod prelude {
    pub use wasm_bindgen_stub_macro::wasm_bindgen;
}
