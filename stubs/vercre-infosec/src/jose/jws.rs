use std::fmt;
use std::future::Future;

use anyhow::{anyhow, bail};
use base64ct::{Base64UrlUnpadded as B64, Encoding};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

use super::jwa::Algorithm;
use super::jwk::PublicKeyJwk;
use crate::Signer;

/// The JWT `typ` header.
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub enum Type {
    #[default]
    #[serde(rename = "jwt")]
    Credential,
    #[serde(rename = "vp+jwt")]
    Presentation,
    #[serde(rename = "oauth-authz-req+jwt")]
    Request,
    #[serde(rename = "openid4vci-proof+jwt")]
    Proof,
}
impl fmt::Display for Type {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Credential => write!(f, "jwt"),
            Self::Presentation => write!(f, "vp+jwt"),
            Self::Request => write!(f, "oauth-authz-req+jwt"),
            Self::Proof => write!(f, "openid4vci-proof+jwt"),
        }
    }
}

#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
pub enum KeyType {
    #[serde(rename = "kid")]
    KeyId(String),
    #[serde(rename = "jwk")]
    Jwk(PublicKeyJwk),
    #[serde(rename = "x5c")]
    X509Chain(Vec<String>),
}
impl Default for KeyType {
    fn default() -> Self { Self::KeyId(String::new()) }
}

#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct Header {
    pub alg: Algorithm,
    pub typ: Type,
    #[serde(flatten)]
    pub key: KeyType,
}

#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct Jwt<T> {
    pub header: Header,
    pub claims: T,
}

/// Sign with an explicit header (the explorer uses this to build unusual tokens).
pub async fn encode_with<T: Serialize>(
    header: &Header, claims: &T, signer: impl Signer,
) -> anyhow::Result<String> {
    let h = B64::encode_string(&serde_json::to_vec(header)?);
    let c = B64::encode_string(&serde_json::to_vec(claims)?);
    let sig = signer.try_sign(format!("{h}.{c}").as_bytes()).await?;
    Ok(format!("{h}.{c}.{}", B64::encode_string(&sig)))
}

pub async fn encode<T: Serialize + Sync>(
    typ: Type, claims: &T, signer: impl Signer,
) -> anyhow::Result<String> {
    let header = Header {
        alg: signer.algorithm(),
        typ,
        key: KeyType::KeyId(signer.verification_method()),
    };
    encode_with(&header, claims, signer).await
}

pub async fn decode<T, F, Fut>(token: &str, pk_cb: F) -> anyhow::Result<Jwt<T>>
where
    T: DeserializeOwned + Send,
    F: FnOnce(String) -> Fut + Send,
    Fut: Future<Output = anyhow::Result<PublicKeyJwk>> + Send,
{
    let parts: Vec<&str> = token.split('.').collect();
    if parts.len() != 3 {
        bail!("invalid Compact JWS format");
    }
    let header: Header = serde_json::from_slice(
        &B64::decode_vec(parts[0]).map_err(|e| anyhow!("issue decoding header: {e}"))?,
    )
    .map_err(|e| anyhow!("issue deserializing header: {e}"))?;
    let claims_bytes =
        B64::decode_vec(parts[1]).map_err(|e| anyhow!("issue decoding claims: {e}"))?;
    let claims: T = serde_json::from_slice(&claims_bytes)
        .map_err(|e| anyhow!("issue deserializing claims: {e}"))?;
    let sig = B64::decode_vec(parts[2]).map_err(|e| anyhow!("issue decoding signature: {e}"))?;

    let KeyType::KeyId(kid) = header.key.clone() else {
        bail!("'kid' is not set");
    };
    let pk = pk_cb(kid).await?;
    let pk = B64::decode_vec(&pk.x).map_err(|e| anyhow!("issue decoding key: {e}"))?;
    let msg = format!("{}.{}", parts[0], parts[1]);
    if crate::ideal_signature(&pk, msg.as_bytes()) != sig {
        bail!("signature verification failed");
    }
    Ok(Jwt { header, claims })
}
