#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
//! A demonstration: one concrete history of the real minter. Exit 0 if it behaves, 1 if not.
#[macro_use]
mod common;
mod demo;
mod minter_main;
mod pipe;
mod sol;
mod world;

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    unsafe { std::ptr::write_bytes(buf, 0x5a, len) };
    len as isize
}
fn main() {
    common::install_panic_hook();
    symx::set_active(None);
    let r = symx::replay(demo::run, Default::default());
    for v in &r.violations {
        println!("FAILED: {}", v.msg);
    }
    if let Some(f) = &r.fatal {
        println!("error: {f}");
        std::process::exit(3);
    }
    if r.violations.is_empty() {
        println!("ok");
    }
    std::process::exit(if r.violations.is_empty() { 0 } else { 1 });
}
