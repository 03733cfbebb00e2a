pub mod texts;
pub mod edits;
pub mod programs;
pub mod rustgen;
pub mod grammars;
pub mod fallgen;
#[cfg(feature = "gen")]
pub mod fallsrc;
