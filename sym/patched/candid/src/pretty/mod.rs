//! pretty printer for Candid type and value

pub mod candid;
pub mod utils;
