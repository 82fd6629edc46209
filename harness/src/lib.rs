//! Drives the real crate through its public interface and records what each call showed.
pub mod alloc;
pub mod gen;
pub mod json;
pub mod machines;
pub mod obs;
pub mod profiles;
pub mod reader_ops;
pub mod run;
pub mod total;
pub mod typed;
