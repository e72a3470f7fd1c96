#![verifier::loop_isolation(false)]
#![verifier::deprecated_postcondition_mut_ref_style(true)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(unused)]
pub mod marshalling;
pub mod spec { pub mod Messages_t; pub mod Option_t; }
pub mod betree { pub mod Utils_v; pub mod BufferOffsets_v; }
mod drv;
#[verifier::external]
fn main() { drv::run(); }
