//! Common machinery of the checks: reporting (evidence, violations, known
//! findings), panic capture, a watchdog, enumeration helpers, a deterministic
//! executor with an exhaustive schedule explorer, and a virtual clock.
pub mod clock;
pub mod exec;
pub mod gen;
pub mod report;

pub use report::{main, broken, guard, patience, Check, Tier};
