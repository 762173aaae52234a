pub mod jwa;
pub mod jwk;
pub mod jws;
pub mod jwt;
