//! Takes crates/bls-crypto/src/{lib.rs,hashers/mod.rs} as they are in /repo and leaves out
//! exactly what needs the arkworks git dependencies: the modules in SKIP, the `use` items that
//! re-export from them, and enum variants that name an ark_* type. Every other module is
//! compiled from its own file in /repo.
use quote::quote;
use std::{env, fs, path::Path};
use syn::{parse_quote, Fields, File, Item, UseTree};

const SRC: &str = "/repo/crates/bls-crypto/src";
const SKIP: &[&str] = &["bls", "hash_to_curve", "test_helpers", "composite"];

fn parse(path: &str) -> File {
    println!("cargo:rerun-if-changed={}", path);
    let text = fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    syn::parse_file(&text).unwrap_or_else(|e| {
        panic!("{}: syntax error: {}", path, e)
    })
}

fn root(tree: &UseTree) -> Option<String> {
    match tree {
        UseTree::Path(p) => Some(p.ident.to_string()),
        UseTree::Name(n) => Some(n.ident.to_string()),
        _ => None,
    }
}

fn transform(path: &str, dir: &str, out: &Path) -> String {
    let mut file = parse(path);
    file.attrs.clear(); // inner doc comments are not allowed in an include!d file
    file.items.retain(|item| match item {
        Item::Mod(m) => !SKIP.contains(&m.ident.to_string().as_str()),
        Item::Use(u) => !root(&u.tree).map_or(false, |r| SKIP.contains(&r.as_str())),
        _ => true,
    });
    for item in &mut file.items {
        match item {
            Item::Mod(m) if m.content.is_none() => {
                let flat = format!("{}/{}.rs", dir, m.ident);
                let nested = format!("{}/{}/mod.rs", dir, m.ident);
                let target = if Path::new(&flat).exists() {
                    println!("cargo:rerun-if-changed={}", flat);
                    flat
                } else {
                    let text = transform(&nested, &format!("{}/{}", dir, m.ident), out);
                    let file = out.join(format!("{}_mod.rs", m.ident));
                    fs::write(&file, text).unwrap();
                    file.to_str().unwrap().to_string()
                };
                m.attrs.push(parse_quote!(#[path = #target]));
            }
            Item::Enum(e) => {
                e.variants = e
                    .variants
                    .clone()
                    .into_iter()
                    .filter(|v| match &v.fields {
                        Fields::Unit => true,
                        f => !quote!(#f).to_string().contains("ark_"),
                    })
                    .collect();
            }
            _ => {}
        }
    }
    quote!(#file).to_string()
}

fn main() {
    println!("cargo:rerun-if-env-changed=REPO_SRC_HASH");
    println!("cargo:rustc-env=REPO_SRC_HASH_SEEN={}", env::var("REPO_SRC_HASH").unwrap_or_default());
    let out = env::var("OUT_DIR").unwrap();
    let out = Path::new(&out);
    let lib = transform(&format!("{}/lib.rs", SRC), SRC, out);
    fs::write(out.join("lib.rs"), lib).unwrap();
}
