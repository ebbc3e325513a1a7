//! Analysis drivers for the octet level. Type checked and analysed, never run.
#![allow(dead_code)]

mod compare;
mod contents;
mod convert;
mod edit;
mod element;
mod errors;
mod ident;
mod length;
mod slice;
mod spec;
mod store;
mod stream;
mod untrusted;
mod views;
