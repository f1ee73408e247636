//! Shared machinery of the xdvdfs property checks.
pub mod builder;
pub mod builds;
pub mod cli;
pub mod content;
pub mod cso;
#[cfg(not(feature = "sync"))]
pub mod desk;
pub mod devs;
pub mod events;
pub mod fuse;
pub mod gen;
pub mod jobs;
#[cfg(not(feature = "sync"))]
pub mod look;
pub mod memfs;
pub mod muts;
pub mod ops;
pub mod reader;
pub mod rules;
pub mod runner;
pub mod tree;
pub mod validate;

/// Run a possibly-async expression of the code under test to completion.
#[cfg(not(feature = "sync"))]
#[macro_export]
macro_rules! blk {
    ($e:expr) => {
        futures::executor::block_on($e)
    };
}
#[cfg(feature = "sync")]
#[macro_export]
macro_rules! blk {
    ($e:expr) => {
        $e
    };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            return Err(format!($($a)*));
        }
    };
}

pub const SECTOR: u64 = 2048;
pub const OFFSETS: [u64; 4] = [0, 405798912, 265879552, 34078720];
