//! Native replay of recorded inputs against the real code.
use harness::entries;
include!("runner.rs");
