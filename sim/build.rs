//! Lets the linker divert the byte-moving and byte-searching functions that the crate under test
//! calls in precompiled code (the C library and Rust's core and alloc) to counting wrappers, see
//! src/bytes.rs. A function that is not found in this toolchain is left alone.
use std::path::Path;
use std::process::Command;

fn output(cmd: &str, args: &[&str]) -> String {
    Command::new(cmd).args(args).output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default()
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let rustc = std::env::var("RUSTC").unwrap();
    let target = std::env::var("TARGET").unwrap();
    let lib = format!("{}/lib/rustlib/{target}/lib", output(&rustc, &["--print", "sysroot"]).trim());
    let mut symbols = Vec::new();
    for entry in std::fs::read_dir(&lib).into_iter().flatten().flatten() {
        let name = entry.file_name().to_string_lossy().into_owned();
        if (name.starts_with("libcore-") || name.starts_with("liballoc-")) && name.ends_with(".rlib") {
            for line in output("nm", &[&format!("{lib}/{name}")]).lines() {
                let mut w = line.split_whitespace().skip(1);
                if w.next() == Some("T") {
                    symbols.extend(w.next().map(str::to_owned));
                }
            }
        }
    }
    let mut code = String::new();
    for (wrapper, ends, signature) in [
        ("memchr", "6memchr14memchr_aligned", "(x: u8, text: &[u8]) -> Option<usize>"),
        ("memrchr", "6memchr15memrchr_aligned", "(x: u8, text: &[u8]) -> Option<usize>"),
        ("from_utf8", "3str8converts9from_utf8", "(text: &[u8]) -> Result<&str, core::str::Utf8Error>"),
        ("count_chars", "3str5count14do_count_chars", "(text: &str) -> usize"),
        ("count_chars_general", "3str5count23char_count_general_case", "(text: &[u8]) -> usize"),
        ("parse_f64", "parsedNtNtNtB9_3str6traits7FromStr8from_str", "(text: &str) -> Result<f64, core::num::ParseFloatError>"),
    ] {
        let found: Vec<&String> = symbols.iter().filter(|s| s.ends_with(ends)).collect();
        if let [symbol] = found[..] {
            println!("cargo:rustc-link-arg-bins=-Wl,--wrap={symbol}");
            let call = if signature.starts_with("(x") { "x, text" } else { "text" };
            code += &format!(
                "mod {wrapper} {{\n    extern \"Rust\" {{\n        #[link_name = \"__real_{symbol}\"]\n        fn real{signature};\n    }}\n    #[export_name = \"__wrap_{symbol}\"]\n    fn wrap{signature} {{\n        let r = unsafe {{ real({call}) }};\n        super::touched(super::extent_{wrapper}(text, &r));\n        r\n    }}\n}}\n"
            );
        }
    }
    for f in ["memcpy", "memmove", "memset", "memcmp", "bcmp"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={f}");
    }
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(Path::new(&out).join("wraps.rs"), code).unwrap();
}
