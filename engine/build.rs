fn main() {
    let new = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    let dir = if std::path::Path::new(new).join("libz3.so").exists() { new } else { "/usr/lib/x86_64-linux-gnu" };
    println!("cargo:rustc-link-search=native={}", dir);
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", dir);
}
