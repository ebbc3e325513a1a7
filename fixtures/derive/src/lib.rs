//! Analysis drivers for derived serialization. Type checked and analysed, never run.
#![allow(dead_code)]

mod fail;
#[path = "../../serde/src/faults.rs"]
mod faults;
mod fields;
mod ids;
#[path = "../../serde/src/model.rs"]
mod model;
#[path = "../../core/src/spec.rs"]
mod spec;
#[path = "../../serde/src/want.rs"]
mod want;
