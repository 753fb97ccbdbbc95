pub use arkshim::serialize::*;
pub use ark_serialize_derive::*;
pub use std::io::{Read, Write};
