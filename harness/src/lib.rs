//! Machinery shared by the monitors: deterministic case generation, the exact
//! geometry the oracles judge by, the supervisor that runs cases in worker
//! processes and the writers of evidence and replay files. Nothing here calls
//! the library under test.
pub mod alloc;
pub mod ctx;
pub mod json;
pub mod lat;
pub mod rng;
pub mod sup;
