//! Checks of the command-line program: the real main file (copied by the build from /repo, one function appended)
//! over a model of the file system; the native replay runs the real program in a scratch directory.
#![recursion_limit = "256"]
#[cfg(not(feature = "real"))]
#[path = "../../work/cli-src/main.rs"]
mod tool;
#[cfg(not(feature = "real"))]
mod model;
#[cfg(not(feature = "real"))]
use model as host;
#[cfg(feature = "real")]
mod real;
#[cfg(feature = "real")]
use real as host;
mod world;
mod props;

pub fn entries() -> Vec<(&'static str, fn())> { vec![("h_c17", props::h_c17), ("h_c18", props::h_c18), ("h_c19", props::h_c19), ("h_c20", props::h_c20), ("h_c25", props::h_c25), ("h_c26", props::h_c26)] }
