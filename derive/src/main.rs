//! derive FILE: the code that the repository's own derive macro writes for the structs of a file.
//!
//! `parse_frames.rs` and `utils.rs` are the files of component/macros/src, copied here before every build.
#![allow(dead_code)]
mod parse_frames;
mod utils;

fn main() {
    let file = std::env::args().nth(1).unwrap();
    let ast = syn::parse_file(&std::fs::read_to_string(file).unwrap()).unwrap();
    for i in ast.items {
        if let syn::Item::Struct(s) = i {
            let ours = s.attrs.iter().any(|a| a.path.is_ident("derive") && a.tokens.to_string().contains("ParseFrames"));
            if ours {
                let d = syn::DeriveInput::from(s);
                println!("{}", parse_frames::do_derive(&d));
            }
        }
    }
}
