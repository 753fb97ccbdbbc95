//! derive(CanonicalSerialize, CanonicalDeserialize) for structs without generics, written against
//! proc_macro alone.
use proc_macro::{Delimiter, TokenStream, TokenTree};

struct Parsed { name: String, named: bool, fields: Vec<String> }

fn split_commas(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out = vec![];
    let mut cur = vec![];
    let mut depth = 0i32;
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                '<' => depth += 1,
                '>' => depth -= 1,
                ',' if depth == 0 => { out.push(std::mem::take(&mut cur)); continue; }
                _ => {}
            }
        }
        cur.push(t);
    }
    if !cur.is_empty() { out.push(cur); }
    out
}
fn parse(input: TokenStream) -> Parsed {
    let mut it = input.into_iter();
    while let Some(t) = it.next() { if t.to_string() == "struct" { break; } }
    let name = it.next().expect("struct name").to_string();
    for t in it {
        if let TokenTree::Group(g) = t {
            let parts = split_commas(g.stream());
            return match g.delimiter() {
                Delimiter::Parenthesis => Parsed { name, named: false, fields: (0..parts.len()).map(|i| i.to_string()).collect() },
                _ => Parsed { name, named: true, fields: parts.iter().map(|p| {
                    let pos = p.iter().position(|t| matches!(t, TokenTree::Punct(c) if c.as_char() == ':')).unwrap();
                    p[pos - 1].to_string()
                }).collect() },
            };
        }
    }
    panic!("unsupported struct for derive")
}
#[proc_macro_derive(CanonicalSerialize)]
pub fn ser(input: TokenStream) -> TokenStream {
    let p = parse(input);
    let each = |m: &str| p.fields.iter().map(|f| format!("ark_serialize::CanonicalSerialize::{}(&self.{}, &mut w)?;", m, f)).collect::<String>();
    let size = |m: &str| p.fields.iter().map(|f| format!("+ ark_serialize::CanonicalSerialize::{}(&self.{})", m, f)).collect::<String>();
    format!("impl ark_serialize::CanonicalSerialize for {n} {{
        fn serialize<W: std::io::Write>(&self, mut w: W) -> std::result::Result<(), ark_serialize::SerializationError> {{ {} Ok(()) }}
        fn serialized_size(&self) -> usize {{ 0 {} }}
        fn serialize_uncompressed<W: std::io::Write>(&self, mut w: W) -> std::result::Result<(), ark_serialize::SerializationError> {{ {} Ok(()) }}
        fn serialize_unchecked<W: std::io::Write>(&self, mut w: W) -> std::result::Result<(), ark_serialize::SerializationError> {{ {} Ok(()) }}
        fn uncompressed_size(&self) -> usize {{ 0 {} }}
    }}", each("serialize"), size("serialized_size"), each("serialize_uncompressed"), each("serialize_unchecked"), size("uncompressed_size"), n = p.name).parse().unwrap()
}
#[proc_macro_derive(CanonicalDeserialize)]
pub fn de(input: TokenStream) -> TokenStream {
    let p = parse(input);
    let body = |m: &str| {
        let e = p.fields.iter().map(|f| format!("{}ark_serialize::CanonicalDeserialize::{}(&mut r)?,", if p.named { format!("{}: ", f) } else { String::new() }, m)).collect::<String>();
        if p.named { format!("Ok({} {{ {} }})", p.name, e) } else { format!("Ok({}({}))", p.name, e) }
    };
    format!("impl ark_serialize::CanonicalDeserialize for {n} {{
        fn deserialize<R: std::io::Read>(mut r: R) -> std::result::Result<Self, ark_serialize::SerializationError> {{ {} }}
        fn deserialize_uncompressed<R: std::io::Read>(mut r: R) -> std::result::Result<Self, ark_serialize::SerializationError> {{ {} }}
        fn deserialize_unchecked<R: std::io::Read>(mut r: R) -> std::result::Result<Self, ark_serialize::SerializationError> {{ {} }}
    }}", body("deserialize"), body("deserialize_uncompressed"), body("deserialize_unchecked"), n = p.name).parse().unwrap()
}
