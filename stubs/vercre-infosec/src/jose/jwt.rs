pub use super::jws::{Header, Jwt, KeyType, Type};
