//! Shared machinery of the runtime monitors: deterministic workloads, the case runner with its
//! panic / hang / memory watchdog, evidence and replay files, known findings.  Nothing in this
//! library depends on the code under test, so that a change there can only affect the check it
//! concerns.
pub mod rng;
pub mod run;
pub mod refcoder;
pub mod bits;
pub mod spec;
pub mod gen;

pub use rng::Rng;
pub use run::{Runner, Case, CaseResult, hash_of, hash_bytes};

/// `ensure!(cond, "message {}", x)`: leave the case with a violation.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
/// Equality monitor.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}
