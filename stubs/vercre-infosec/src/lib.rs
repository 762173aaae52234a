//! Stand-in for `vercre-infosec` with the same public surface that vercre
//! uses and *ideal* (symbolic) signatures: the signature of `msg` under the
//! key with public half `pk` is `SHA-256("sig" | pk | msg)`. Within the
//! explored alphabet only the owner of a key produces that value, so
//! "verifies" means exactly "was signed by that key over exactly these bytes".
#![allow(async_fn_in_trait)]

pub mod cose;
pub mod jose;

use std::fmt;
use std::future::Future;

pub use jose::jwa::Algorithm;
pub use jose::jwk::PublicKeyJwk;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};

/// Ideal signature.
pub fn ideal_signature(pk: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut h = Sha256::new();
    h.update(b"sig|");
    h.update((pk.len() as u64).to_be_bytes());
    h.update(pk);
    h.update(msg);
    h.finalize().to_vec()
}

pub trait SecOps: Send + Sync {
    fn signer(&self, identifier: &str) -> anyhow::Result<impl Signer>;
    fn encryptor(&self, identifier: &str) -> anyhow::Result<impl Encryptor>;
    fn decryptor(&self, identifier: &str) -> anyhow::Result<impl Decryptor>;
}

pub trait Signer: Send + Sync {
    fn sign(&self, msg: &[u8]) -> impl Future<Output = Vec<u8>> + Send {
        async { self.try_sign(msg).await.expect("should sign") }
    }
    fn try_sign(&self, msg: &[u8]) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn public_key(&self) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn algorithm(&self) -> Algorithm;
    fn verification_method(&self) -> String;
}

pub trait Encryptor: Send + Sync {
    fn encrypt(
        &self, plaintext: &[u8], recipient_public_key: &[u8],
    ) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn public_key(&self) -> Vec<u8>;
}

pub trait Decryptor: Send + Sync {
    fn decrypt(
        &self, ciphertext: &[u8], sender_public_key: &[u8],
    ) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
}

#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub enum KeyType {
    #[default]
    #[serde(rename = "OKP")]
    Okp,
    #[serde(rename = "EC")]
    Ec,
    #[serde(rename = "oct")]
    Oct,
}

#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub enum Curve {
    #[default]
    Ed25519,
    #[serde(rename = "ES256K", alias = "secp256k1")]
    Es256K,
    X25519,
}

impl fmt::Display for Curve {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}
