//! Reference model of the derive: an interpreter of schemas (what the
//! documentation says a definition decodes) over the reference parser's tree.
pub mod model;
pub mod reference;
pub mod run;

pub use run::{main, Entry, Kind, Level};
