#![allow(static_mut_refs)]
pub mod store;
pub mod trie;
pub mod env;
