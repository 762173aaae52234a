//! Stand-in for `vercre-did`: documents come from the resolver that the
//! explorer supplies; dereferencing finds the verification method whose id is
//! exactly the DID URL.
use std::future::Future;

use anyhow::anyhow;
use serde::{Deserialize, Serialize};
use vercre_infosec::PublicKeyJwk;

pub trait DidResolver: Send + Sync {
    fn resolve(&self, url: &str) -> impl Future<Output = anyhow::Result<Document>> + Send;
}

#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
#[serde(rename_all = "camelCase")]
pub struct Document {
    pub id: String,
    #[serde(default)]
    pub verification_method: Option<Vec<VerificationMethod>>,
}

#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
#[serde(rename_all = "camelCase")]
pub struct VerificationMethod {
    pub id: String,
    pub controller: String,
    #[serde(flatten)]
    pub method_type: MethodType,
}

#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
#[serde(tag = "type")]
pub enum MethodType {
    #[serde(rename_all = "camelCase")]
    Multikey { public_key_multibase: String },
    #[serde(rename_all = "camelCase")]
    JsonWebKey { public_key_jwk: PublicKeyJwk },
}
impl Default for MethodType {
    fn default() -> Self { Self::JsonWebKey { public_key_jwk: PublicKeyJwk::default() } }
}
impl MethodType {
    pub fn jwk(&self) -> anyhow::Result<PublicKeyJwk> {
        match self {
            Self::JsonWebKey { public_key_jwk } => Ok(public_key_jwk.clone()),
            Self::Multikey { .. } => Err(anyhow!("multikey is not modelled")),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Options;

#[derive(Clone, Debug)]
pub enum Resource {
    VerificationMethod(VerificationMethod),
    Document(Document),
}

#[derive(Clone, Debug, Default)]
pub struct Dereferenced {
    pub content_stream: Option<Resource>,
}

pub async fn dereference(
    did_url: &str, _opts: Option<Options>, resolver: &impl DidResolver,
) -> anyhow::Result<Dereferenced> {
    let did = did_url.split('#').next().unwrap_or_default();
    if !did.starts_with("did:") {
        return Err(anyhow!("invalid DID URL"));
    }
    let doc = resolver.resolve(did).await?;
    if doc.id != did {
        return Err(anyhow!("DID document mismatch"));
    }
    let vm = doc
        .verification_method
        .unwrap_or_default()
        .into_iter()
        .find(|vm| vm.id == did_url)
        .ok_or_else(|| anyhow!("verification method missing"))?;
    Ok(Dereferenced { content_stream: Some(Resource::VerificationMethod(vm)) })
}
