//! What `wasm-bindgen INPUT --out-dir DIR --target nodejs` (or `web`) does.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut b = wasm_bindgen_cli_support::Bindgen::new();
    b.input_path(&a[1]).out_name(&a[4]).typescript(false);
    if a[3] == "web" { b.web(true).unwrap().omit_default_module_path(false); } else { b.nodejs(true).unwrap(); }
    if let Err(e) = b.generate(&a[2]) {
        eprintln!("{e:#}");
        std::process::exit(1);
    }
}
