//! Not used by the minter's non-test code.
