#![feature(try_trait_v2)]
#![allow(dead_code, unused)]
pub mod core;
pub mod rx;
pub mod shim;
pub mod ops;
pub mod run;
pub mod specs;
pub mod subj;
pub mod conc;
pub mod concs;
pub mod comp;
pub mod conn;
pub mod multi;
pub mod mspecs;
pub mod sched;
pub mod hand;
pub mod long;
pub mod long2;
pub mod diamond;
pub mod drops;
pub mod thr;
pub mod time;
pub mod fut;
pub mod gen;
pub mod stdm;
