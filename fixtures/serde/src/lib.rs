//! Analysis drivers for serialization. Type checked and analysed, never run.
#![allow(dead_code)]

mod accept;
mod convert;
mod fail;
mod faults;
mod liar;
mod model;
mod output;
mod round;
#[path = "../../core/src/spec.rs"]
mod spec;
mod untrusted;
mod want;
