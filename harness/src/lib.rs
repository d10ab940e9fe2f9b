pub mod cmp;
pub mod exec;
pub mod gen;
pub mod guided;
pub mod known;
pub mod props;
pub mod refa;
pub mod runner;
pub mod src;
pub mod wild;
