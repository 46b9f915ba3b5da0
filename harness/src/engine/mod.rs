pub mod adapter;
pub mod checks;
pub mod clock;
pub mod drive;
pub mod extreme;
pub mod fleet;
pub mod http;
pub mod judge;
pub mod panics;
pub mod pipe;
pub mod plans;
pub mod process;
pub mod quiesce;
pub mod registry;
pub mod report;
pub mod rng;
pub mod runner;
pub mod sanitize;
pub mod source;
pub mod storage;
pub mod trace;
pub mod unit;
