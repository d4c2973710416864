//! Property-based testing engine (choice-tape based, no dependencies) plus the
//! independent reference implementations the checks compare against.
#![allow(dead_code)]
pub mod engine;
pub mod mats;
pub mod refs;
pub mod data;
pub use engine::*;
