#![allow(static_mut_refs)]
pub mod env;
pub mod safrole;
pub mod import;
pub mod pipeline;
pub mod reports;
pub mod guarantees;
pub mod stats;
pub mod preimages;
pub mod host;
pub mod storage_calls;
pub mod account_calls;
pub mod privilege_calls;
pub mod refine_calls;
pub mod programs;
pub mod accumulate;
pub mod wire;
