pub mod api;
pub mod docs;
pub mod engine;
pub mod gdocs;
pub mod hist;
pub mod obs;
pub mod pchecks;
pub mod refp;
pub mod spaces;
pub mod width;
