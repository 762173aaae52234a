//! What the macros name `vercre_issuer::...`: the request types, which
//! `vercre-issuer` re-exports from `vercre-openid`.
pub use vercre_openid::issuer::*;
pub use vercre_openid::oauth::{CodeChallengeMethod, GrantType, ResponseType};
