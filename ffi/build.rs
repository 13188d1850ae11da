use ffigen::SourceBuilder;

fn main() {
    println!("cargo:rerun-if-changed=/repo/remote-ffi/ffigen.toml");
    println!("cargo:rerun-if-changed=../target/ffi-src/src");
    let source = SourceBuilder::generate("/repo/remote-ffi").expect("generate ffi").source();
    let path = "../target/ffi-src/src/ffi.rs";
    if std::fs::read_to_string(path).ok().as_deref() != Some(source.as_str()) {
        std::fs::write(path, source).expect("write ffi.rs");
    }
}
