//! Checks of `vercre-dif-exch`.
mod constraints;
mod filters;
mod wire;

use serde_json::Value;
use vercre_dif_exch::{Claims, Constraints};

/// Claims with a given JSON form, or none.
pub struct Doc(pub Option<Value>);
impl Claims for Doc {
    fn to_json(&self) -> anyhow::Result<Value> {
        self.0.clone().ok_or_else(|| anyhow::anyhow!("no JSON form"))
    }
}

/// The verdict of the real code: `Ok(satisfied)`, `Err("error")` or a panic.
pub fn verdict(c: &Constraints, doc: &Doc) -> Result<bool, String> {
    match mc::guard(|| c.satisfied(doc)) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(_)) => Err("error".into()),
        Err(p) => Err(format!("panic: {p}")),
    }
}

fn main() {
    mc::main(|id| match id {
        "C06" => constraints::run(),
        "C07" => filters::run(),
        "C08" => filters::total(),
        "C09" => wire::run(),
        _ => {}
    })
}
