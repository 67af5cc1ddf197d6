//! Native replay of recorded inputs against the real program.
use cli::entries;
include!("../../native/src/runner.rs");
