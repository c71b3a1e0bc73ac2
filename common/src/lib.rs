//! Shared parts of the checks: RESP, big byte strings, generated-input driver,
//! evidence and replay files.
pub mod blob;
pub mod history;
pub mod isolate;
pub mod report;
pub mod resp;

pub use blob::Blob;
pub use report::{Bad, Pass, Report, Res};
